"""Evaluates the symbolic terms of spec/Terms.tla in double precision (IEEE conventions at the edges)."""
import math

INF, NAN = math.inf, math.nan


def _div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def _pow(a, b):
    try:
        r = math.pow(a, b)
    except OverflowError:
        return INF if a > 0 or b % 2 == 0 else -INF
    except ValueError:
        if a == 0 and b < 0:
            return INF
        return NAN
    return r


def _exp(a):
    try:
        return math.exp(a)
    except OverflowError:
        return INF


def _log(a):
    if a == 0:
        return -INF
    return math.log(a) if a > 0 else NAN


def _sig(a):
    return 1 / (1 + _exp(-a)) if a > -700 else 0.0


F = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": _div, "pow": _pow,
    "neg": lambda a: -a, "abs": abs, "exp": _exp, "log": _log, "sin": math.sin, "cos": math.cos, "tanh": math.tanh,
    "sqrt": lambda a: math.sqrt(a) if a >= 0 else NAN, "square": lambda a: a * a, "sigmoid": _sig,
    "relu": lambda a: a if a > 0 else 0.0, "silu": lambda a: a * _sig(a),
    "gelu": lambda a: 0.5 * a * (1 + math.tanh(math.sqrt(2 / math.pi) * (a + 0.044715 * a ** 3))),
    "sign": lambda a: (a > 0) - (a < 0), "max": max, "min": min,
    "lt": lambda a, b: int(a < b), "le": lambda a, b: int(a <= b), "gt": lambda a, b: int(a > b),
    "ge": lambda a, b: int(a >= b), "eq": lambda a, b: int(a == b), "ne": lambda a, b: int(a != b),
    "ite": lambda c, a, b: a if c else b,
}
SEQ = {
    "sumof": lambda xs: math.fsum(xs) if all(map(math.isfinite, xs)) else sum(xs),
    "maxof": max, "minof": min,
    "meanof": lambda xs: math.fsum(xs) / len(xs),
}


def ev(t, env=None):
    if isinstance(t, (int, float)):
        return t
    if isinstance(t, str):
        if env is not None and t in env:
            return env[t]
        return {"inf": INF, "-inf": -INF, "nan": NAN, "pi": math.pi}[t]
    op = t[0]
    if op == "anyof":
        return tuple(ev(x, env) for x in t[1:])
    if op in SEQ:
        return SEQ[op]([float(ev(x, env)) for x in t[1]])
    if op == "ite":
        return ev(t[2], env) if ev(t[1], env) else ev(t[3], env)
    return F[op](*[ev(x, env) for x in t[1:]])


def evrec(c):
    """Replaces the terms of a call record by numbers."""
    c = dict(c)
    for f in ("ins", "exp"):
        c[f] = [{"s": t["s"], "d": [ev(x) for x in t["d"]]} for t in c[f]]
    c["fl"] = [ev(x) for x in c["fl"]]
    if "preout" in c:
        c["preout"] = {"s": c["preout"]["s"], "d": [ev(x) for x in c["preout"]["d"]]}
    return c
