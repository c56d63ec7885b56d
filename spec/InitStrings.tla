----------------------------- MODULE InitStrings -----------------------------
(* How a process group is initialised: what every initialisation string, environment and argument asks for.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind
VARIABLE c
NoOne == [set |-> 0, txt |-> "", val |-> -1]
V(t, v) == [set |-> 1, txt |-> t, val |-> v]
DefaultPort == 29500
\* a number in text is what it says if it is a whole number in range, and otherwise refused
Ports == {V("1", 1), V("4444", 4444), V("65535", 65535), V("65536", -1), V("70000", -1), V("123456789012345678901", -1)}
EnvPorts == Ports \cup {NoOne, V("x", -1), V("80x", -1), V("-5", -1)}
Worlds == {NoOne, V("4", 4), V("99999999999", -1), V("x", -1)}
Ranks == {NoOne, V("0", 0), V("3", 3), V("5000000000", -1), V("2z", -1)}
Case(m, addr, port, ew, er, rank, world, backend, exp) ==
   [method |-> m, addr |-> addr, port |-> port, ew |-> ew, er |-> er, rank |-> rank, world |-> world, backend |-> backend, exp |-> exp]
No == [ok |-> 0, rank |-> -1, world |-> -1, kind |-> "", host |-> "", port |-> -1]
Yes(r, w, k, ho, p) == IF r = -1 \/ w = -1 THEN No ELSE [ok |-> 1, rank |-> r, world |-> w, kind |-> k, host |-> ho, port |-> p]
\* an argument given counts, otherwise the environment
From(arg, env) == IF arg # -1 THEN arg ELSE IF env.set = 1 THEN env.val ELSE -1
Host == "127.0.0.1"
Envs == {Case("env://", addr, p, ew, er, rank, world, 1,
              IF addr.set = 0 \/ (p.set = 1 /\ p.val = -1) THEN No
              ELSE Yes(From(rank, er), From(world, ew), "tcp", Host, IF p.set = 1 THEN p.val ELSE DefaultPort)) :
           addr \in {NoOne, V(Host, 0)}, p \in EnvPorts, ew \in Worlds, er \in Ranks, rank \in {-1, 0, 2}, world \in {-1, 3}}
Tcps == {Case("tcp://" \o Host \o ":" \o p.txt, NoOne, NoOne, NoOne, er, rank, world, 1,
              IF p.val = -1 THEN No ELSE Yes(rank, world, "tcp", Host, p.val)) :
           p \in Ports, er \in {NoOne, V("1", 1)}, rank \in {-1, 0, 2}, world \in {-1, 3}}
        \cup {Case("tcp://" \o Host, NoOne, V("81", 81), NoOne, NoOne, rank, world, 1, Yes(rank, world, "tcp", Host, DefaultPort)) :
           rank \in {-1, 0, 2}, world \in {-1, 3}}
Files == {Case("file://@/" \o f, NoOne, NoOne, V("4", 4), V("0", 0), rank, world, 1, Yes(rank, world, "file", f, 0)) :
           f \in {"abc", "a-b.c", "x:1"}, rank \in {-1, 0, 2}, world \in {-1, 3}}
Bad == {Case(m, V(Host, 0), NoOne, V("2", 2), V("0", 0), 0, 2, 1, No) :
           m \in {"", "env", "env:/", "env://x", "tcp:/127.0.0.1:80", "tcp://", "tcp://:80", "tcp://127.0.0.1:", "tcp://127.0.0.1:8x", "tcp://127.0.0.1:-8",
                  "tcp://127.0.0.1:80:81", "TCP://127.0.0.1:80", "file:/x", "udp://127.0.0.1:80", "ile://x"}}
       \cup {Case(m, V(Host, 0), NoOne, NoOne, NoOne, 0, 2, b, No) : m \in {"env://", "tcp://127.0.0.1:4444", "file://@/abc"}, b \in {0, 7}}
Cases == CASE Kind = "env" -> Envs [] Kind = "tcp" -> Tcps [] Kind = "file" -> Files [] OTHER -> Bad
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
