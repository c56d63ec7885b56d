----------------------------- MODULE FloatCases -----------------------------
(* V07: what converting a value between element types means, bit by bit.     *)
(* A finite number is (-1)^s * m * 2^x with integers m >= 0 and x.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fams, Blocks
VARIABLES fam, blk, c

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Pow2 == [n \in 0..30 |-> P2(n)]
RECURSIVE Msb(_)
Msb(m) == IF m <= 1 THEN 0 ELSE 1 + Msb(m \div 2)
MaxI(a, b) == IF a >= b THEN a ELSE b

F16 == [eb |-> 5, mb |-> 10]
B16 == [eb |-> 8, mb |-> 7]
F32 == [eb |-> 8, mb |-> 23]
Bias(f) == Pow2[f.eb - 1] - 1
MinX(f) == 1 - Bias(f) - f.mb          \* exponent of the smallest subnormal
InfMag(f) == (Pow2[f.eb] - 1) * Pow2[f.mb]

\* a pattern is a sign and a magnitude (the remaining bits as one integer)
Kind(f, mag) == IF mag < InfMag(f) THEN "fin" ELSE IF mag = InfMag(f) THEN "inf" ELSE "nan"
Val(f, s, mag) ==
  LET e == mag \div Pow2[f.mb] m == mag % Pow2[f.mb]
  IN [k |-> Kind(f, mag), s |-> s, m |-> IF e = 0 THEN m ELSE m + Pow2[f.mb], x |-> IF e = 0 THEN MinX(f) ELSE e - 1 + MinX(f)]
\* the magnitude of the representable number nearest to m * 2^x, ties to the even pattern
Nearest(f, m, x) ==
  IF m = 0 THEN 0
  ELSE LET q == MaxI(Msb(m) + x - f.mb, MinX(f))     \* exponent of the last place kept
           sh == q - x
           n == IF sh <= 0 THEN m * Pow2[-sh]
                ELSE IF sh > 30 THEN 0
                ELSE LET d == m \div Pow2[sh] r == m % Pow2[sh] h == Pow2[sh - 1]
                     IN IF r > h \/ (r = h /\ d % 2 = 1) THEN d + 1 ELSE d
           e0 == q - MinX(f)                          \* exponent field minus one when normal
       IN IF n < Pow2[f.mb] THEN n
          ELSE IF e0 + 1 + (IF n >= Pow2[f.mb + 1] THEN 1 ELSE 0) >= Pow2[f.eb] - 1 THEN InfMag(f)
          ELSE (e0 + 1) * Pow2[f.mb] + (n - Pow2[f.mb])
ToFloat(f, v) == IF v.k = "nan" THEN <<v.s, -1>> ELSE IF v.k = "inf" THEN <<v.s, InfMag(f)>> ELSE <<v.s, Nearest(f, v.m, v.x)>>
\* truncation towards zero, kept as m * 2^x
ToInt(v) == IF v.x >= 0 THEN <<v.s, v.m, v.x>> ELSE IF -v.x > 30 THEN <<v.s, 0, 0>> ELSE <<v.s, v.m \div Pow2[-v.x], 0>>
ToBool(v) == IF v.k = "inf" \/ v.m # 0 THEN 1 ELSE 0

Rec(from, to, src, exp) == [from |-> from, to |-> to, src |-> src, exp |-> exp]
Fmt(n) == CASE n = "f16" -> F16 [] n = "bf16" -> B16 [] n = "f32" -> F32
FloatsBut(n) == {"f16", "bf16", "f32"} \ {n}
\* all conversions of a sequence of patterns (sign, magnitude) of format n
Bits(v) == IF v.m = 0 THEN -1000 ELSE Msb(v.m) + v.x      \* exponent of the leading bit
Casts(n, ps, withInts) ==
  LET f == Fmt(n) v == [k \in 1..Len(ps) |-> Val(f, ps[k][1], ps[k][2])]
      ok(lim) == SelectSeq(v, LAMBDA u : u.k = "fin" /\ Bits(u) < lim)
      pok(lim) == SelectSeq(ps, LAMBDA p : LET u == Val(f, p[1], p[2]) IN u.k = "fin" /\ Bits(u) < lim)
      vb == SelectSeq(v, LAMBDA u : u.k # "nan") pb == SelectSeq(ps, LAMBDA p : Kind(f, p[2]) # "nan")
      Ints(lim) == LET s == ok(lim) IN [k \in 1..Len(s) |-> ToInt(s[k])]
  IN {Rec(n, g, ps, [k \in 1..Len(ps) |-> ToFloat(Fmt(g), v[k])]) : g \in FloatsBut(n)} \cup
     (IF withInts THEN {Rec(n, "i32", pok(31), Ints(31)), Rec(n, "i64", pok(62), Ints(62)),
                        Rec(n, "b", pb, [k \in 1..Len(vb) |-> ToBool(vb[k])])} ELSE {})

\* fam "f16"/"bf16": every pattern, in blocks of 256 (blk is the high byte)
Every(n) == [k \in 1..256 |-> <<blk \div 128, (blk % 128) * 256 + (k - 1)>>]
\* fam "to16"/"tobf16": f32 patterns at, between and just beside the neighbours h, h+1 of the narrow format
Beside(g) ==
  LET f == Fmt(g)
      hs == SelectSeq([k \in 1..256 |-> (blk % 128) * 256 + (k - 1)], LAMBDA h : h < InfMag(f))
      s == blk \div 128
      four(h) == LET u == Val(f, 0, h) a == Nearest(F32, u.m, u.x) mid == Nearest(F32, 2 * u.m + 1, u.x - 1)
                 IN <<<<s, a>>, <<s, a + 1>>, <<s, mid - 1>>, <<s, mid>>, <<s, mid + 1>>>>
  IN [k \in 1..(5 * Len(hs)) |-> four(hs[((k - 1) \div 5) + 1])[((k - 1) % 5) + 1]]
\* the law those five points obey, stated without any rounding arithmetic
BesideExp(g) ==
  LET f == Fmt(g)
      hs == SelectSeq([k \in 1..256 |-> (blk % 128) * 256 + (k - 1)], LAMBDA h : h < InfMag(f))
      s == blk \div 128
      five(h) == <<<<s, h>>, <<s, h>>, <<s, h>>, <<s, IF h % 2 = 0 THEN h ELSE h + 1>>, <<s, h + 1>>>>
  IN [k \in 1..(5 * Len(hs)) |-> five(hs[((k - 1) \div 5) + 1])[((k - 1) % 5) + 1]]
Special == [k \in 1..24 |-> LET z == <<0, 1, 2, 3, 8388607, 8388608, 8388609, 2139095039, 2139095040, 2139095041, 2143289344, 1065353216>>
                            IN <<(k - 1) \div 12, z[((k - 1) % 12) + 1]>>]
\* integers s * (2^k + d)
IntSeq(kmax, ds) == [i \in 1..(2 * (kmax + 1) * Len(ds)) |->
   LET s == i % 2 j == ((i - 1) \div 2) k == j \div Len(ds) d == ds[(j % Len(ds)) + 1] IN [k |-> "fin", s |-> s, m |-> MaxI(0, Pow2[k] + d), x |-> 0]]
Strip(v) == LET RECURSIVE G(_) G(m) == IF m # 0 /\ m % 2 = 0 THEN G(m \div 2) ELSE m IN G(v.m)
IntPat(v) == <<v.s, v.m, v.x>>
IntCasts(vs, from, tos) ==
  UNION {LET us == IF to \in {"f16", "bf16"} THEN SelectSeq(vs, LAMBDA u : Strip(u) < Pow2[24]) ELSE vs
         IN {Rec(from, to, [k \in 1..Len(us) |-> IntPat(us[k])],
              [k \in 1..Len(us) |-> IF to \in {"f16", "bf16", "f32"} THEN (LET p == ToFloat(Fmt(to), us[k]) IN IF us[k].m = 0 THEN <<0, 0>> ELSE p)
                                    ELSE IF to = "b" THEN ToBool(us[k]) ELSE ToInt(us[k])])} : to \in tos}
Deltas == <<0, 1, -1, 2, 3, 5, 7, -3, 15, 31, 63, 64, 127, 128, 129, 255, 256, 257, 4096, 32767>>
Small == IntSeq(29, Deltas)
Big == [i \in 1..240 |-> LET j == i \div 2 IN [k |-> "fin", s |-> i % 2, m |-> IF j % 3 = 0 THEN 1 ELSE Pow2[j % 24] + j, x |-> 8 + (j % 28)]]
BoolSrc == <<[k |-> "fin", s |-> 0, m |-> 0, x |-> 0], [k |-> "fin", s |-> 0, m |-> 1, x |-> 0]>>

CasesFor(f) ==
  CASE f = "f16" -> Casts("f16", Every("f16"), TRUE)
    [] f = "bf16" -> Casts("bf16", Every("bf16"), TRUE)
    [] f = "to16" -> {Rec("f32", "f16", Beside("f16"), [k \in DOMAIN Beside("f16") |-> LET p == Beside("f16")[k] IN ToFloat(F16, Val(F32, p[1], p[2]))])} \cup
                     (IF blk % 16 = 3 THEN Casts("f32", Beside("f16"), TRUE) ELSE {})
    [] f = "tobf16" -> {Rec("f32", "bf16", Beside("bf16"), [k \in DOMAIN Beside("bf16") |-> LET p == Beside("bf16")[k] IN ToFloat(B16, Val(F32, p[1], p[2]))])} \cup
                     (IF blk % 16 = 5 THEN Casts("f32", Beside("bf16"), TRUE) ELSE {})
    [] f = "misc" -> IF blk # 0 THEN {} ELSE Casts("f32", Special, TRUE)
                     \cup IntCasts(Small, "i32", {"f32", "f16", "bf16", "i64", "b"}) \cup IntCasts(Small, "i64", {"f32", "f16", "bf16", "i32", "b"})
                     \cup IntCasts(Big, "i64", {"f32", "bf16", "b"}) \cup IntCasts(BoolSrc, "b", {"f32", "f16", "bf16", "i32", "i64"})

Init == fam \in Fams /\ blk \in Blocks /\ c = [from |-> "none"]
Next == c.from = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<fam, blk>>
Answered == c.from # "none"
\* widening and narrowing back is the identity; the five-point law is what rounding to nearest, ties to even, means
RoundTrip == (Answered /\ fam \in {"f16", "bf16"} /\ c.from = fam /\ c.to = "f32") =>
   \A k \in DOMAIN c.src : c.exp[k][2] >= 0 => ToFloat(Fmt(fam), Val(F32, c.exp[k][1], c.exp[k][2])) = c.src[k]
TieLaw == (Answered /\ fam = "to16" /\ c.from = "f32" /\ c.to = "f16" => c.exp = BesideExp("f16")) /\
          (Answered /\ fam = "tobf16" /\ c.to = "bf16" => c.exp = BesideExp("bf16"))
SameLength == Answered => Len(c.src) = Len(c.exp)
Emit == Answered => PrintT(ToJson(c))
=============================================================================
