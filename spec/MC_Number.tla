------------------------------- MODULE MC_Number -------------------------------
(* Numbers and their texts: for boundary significands at every exponent of the doubles, *)
(* the printed text reads back as the number, is as short as can be, and integral        *)
(* numbers have no fraction.  (Digits = 16: a text cut off there does not read back.)      *)
EXTENDS F64, TLC

CONSTANTS Step,     \* exponents: every Step'th
          Digits    \* digits printed at most (0: as many as it takes)

\* significands of 53 bits and less
Sig == <<<<1>>, <<3>>, BSub(BShl(<<1>>, 53), <<1>>), BAdd(BShl(<<1>>, 52), <<1>>), BSub(BShl(<<1>>, 53), <<3>>), BOfDigits(<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,7>>, 10), <<5>>,
         BOfDigits(<<1,2,3,4,5,6,7,8,9,0,1>>, 10)>>
VARIABLES p, b, e
\* every exponent is visited: significand, then block of exponents, then exponent
Init == p \in 1..Len(Sig) /\ b = -1 /\ e = 0
Next == \/ b = -1 /\ b' \in 0..31 /\ UNCHANGED <<p, e>>
        \/ b >= 0 /\ e = 0 /\ (\E k \in 0..63 : LET x == -1074 + (b * 64 + k) * Step IN x <= 971 /\ x # 0 /\ e' = x) /\ UNCHANGED <<p, b>>
Spec == Init /\ [][Next]_<<p, b, e>>
s == p % 2

V == Canon(s, Sig[p], e)
Cut(t) ==
    IF Digits = 0 THEN t
    ELSE LET x == CHOOSE i \in 1..(Len(t) + 1) : (i = Len(t) + 1 \/ t[i] = 101) /\ \A j \in 1..(i - 1) : t[j] # 101
             m == SubSeq(t, 1, x - 1)
         IN IF \E i \in 1..Len(m) : m[i] = 46 THEN SubSeq(m, 1, MinI(Len(m), Digits + 1)) \o SubSeq(t, x, Len(t)) ELSE t
Drop(t) == LET x == CHOOSE i \in 1..(Len(t) + 1) : (i = Len(t) + 1 \/ t[i] = 101) /\ \A j \in 1..(i - 1) : t[j] # 101
           IN SubSeq(t, 1, x - 2) \o SubSeq(t, x, Len(t))
Texts ==
    LET v == V t == Cut(NText(v)) dot == \E i \in 1..Len(t) : t[i] = 46 IN
    \* it reads back
    /\ NSame(ReadNumber(t), v)
    \* no fraction
    /\ IsIntegral(v) => ~dot
    /\ (v[1] \in {"n", "f"} /\ v # NZero) => ((Sgn(v) = 1) = (t[1] = 45))
    \* with the last digit dropped it is another number
    /\ (dot /\ ~IsIntegral(v)) => ~NSame(ReadNumber(Drop(t)), v)
=============================================================================
