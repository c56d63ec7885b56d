----------------------------- MODULE MnistTrace -----------------------------
(* The MNIST data set and its transforms: sample i is image i of the image file (pixels as fractions of 255, passed through
   the transforms in order, shape 1 x h x w) with label i of the label file.  Values are recorded in units of 1/255; a
   normalising step (m, s) maps v to (v - m) * s.  Batches of a loader over it stack the samples. *)
EXTENDS Integers, Sequences, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i, at
H == Traces[t]
E == H.events[i]
More == i <= Len(H.events)
N == Len(H.px)
Min2(x, y) == IF x < y THEN x ELSE y
RECURSIVE Apply(_, _)
Apply(v, st) == IF st = <<>> THEN v ELSE Apply((v - Head(st).m) * Head(st).s, Tail(st))
Img(k) == [j \in 1..(H.h * H.w) |-> Apply(H.px[k + 1][j], H.steps)]
RECURSIVE Flat(_, _)
Flat(a, z) == IF a > z THEN <<>> ELSE Img(a) \o Flat(a + 1, z)
TInit == t \in 1..Len(Traces) /\ i = 1 /\ at = 0
Step == CASE E.e = "data" -> E.n = N /\ UNCHANGED at
          [] E.e = "item" -> /\ E.img = Img(E.i) /\ E.ishape = <<1, H.h, H.w>>
                             /\ E.lab = <<H.lab[E.i + 1]>> /\ E.lshape = <<>> /\ UNCHANGED at
          [] E.e = "take" -> LET lo == at * H.b  hi == Min2((at + 1) * H.b, N) - 1  w == H.h * H.w IN
                             /\ E.no = at /\ lo <= hi /\ at' = at + 1
                             /\ E.ishape = <<hi - lo + 1, 1, H.h, H.w>> /\ E.lshape = <<hi - lo + 1>>
                             /\ Len(E.img) = (hi - lo + 1) * w
                             /\ \A k \in lo..hi : SubSeq(E.img, (k - lo) * w + 1, (k - lo + 1) * w) = Img(k)
                             /\ E.lab = SubSeq(H.lab, lo + 1, hi + 1)
          [] OTHER -> FALSE
TNext == More /\ Step /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i, at>>
Report == ~More => PrintT(ToJson([ok |-> t]))
=============================================================================
