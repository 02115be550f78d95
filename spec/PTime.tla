------------------------------- MODULE PTime -------------------------------
(* Times and durations as <<seconds div 10^9, seconds mod 10^9, ns>>: TLC's *)
(* integers have 32 bits.  Inf is "no timeout".                             *)
EXTENDS Integers, Sequences
B == 1000000000
TZero == <<0, 0, 0>>
Inf   == <<>>
TAdd(a, b) ==
    LET c0 == IF a[3] >= B - b[3] THEN 1 ELSE 0
        n0 == IF c0 = 1 THEN a[3] - (B - b[3]) ELSE a[3] + b[3]
        c1 == IF a[2] >= B - b[2] - c0 THEN 1 ELSE 0
        n1 == IF c1 = 1 THEN a[2] - (B - b[2] - c0) ELSE a[2] + b[2] + c0
    IN <<a[1] + b[1] + c1, n1, n0>>
TLe(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
=============================================================================
