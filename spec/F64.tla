--------------------------------- MODULE F64 ---------------------------------
(* The BareScript number type: IEEE-754 doubles, exactly.                     *)
(*   <<"n", k>>        an integral number, |k| < 2^30 (the spelling int/float *)
(*                     of the host is not part of the value)                  *)
(*   <<"f", s, m, e>>  (-1)^s * m * 2^e, m odd (BigNat), everything else      *)
(*   <<"nz">> -0,  <<"inf", s>>,  <<"nan">>                                   *)
(*   <<"any">>         a number the specification leaves open                 *)
EXTENDS BigNat, Text

SmallLimit == 1073741824

IsNum(v) == v[1] \in {"n", "f", "nz", "inf", "nan", "any"}
IsFinite(v) == v[1] \in {"n", "f", "nz"}
NZero == <<"n", 0>>
Nan == <<"nan">>
AnyNum == <<"any">>
Inf(s) == <<"inf", s>>

\* sign bit, magnitude and exponent of a finite number
Sgn(v) == CASE v[1] = "n" -> (IF v[2] < 0 THEN 1 ELSE 0) [] v[1] = "nz" -> 1 [] OTHER -> v[2]
Mag(v) == CASE v[1] = "n" -> OfInt(AbsI(v[2])) [] v[1] = "nz" -> <<>> [] OTHER -> v[3]
Exp2(v) == IF v[1] = "f" THEN v[4] ELSE 0
IsZero(v) == v[1] = "nz" \/ v = NZero

\* canonical form of (-1)^s * m * 2^e - m * 2^e is a double
Canon(s, m, e) ==
    IF m = <<>> THEN (IF s = 1 THEN <<"nz">> ELSE NZero)
    ELSE LET tz == BTz(m)
             mo == BShr(m, tz)
             eo == e + tz
         IN IF eo >= 0 /\ BBitLen(mo) + eo <= 30
            THEN <<"n", (IF s = 1 THEN -1 ELSE 1) * ToInt(BShl(mo, eo))>>
            ELSE <<"f", s, mo, eo>>

\* round-to-nearest-even of (-1)^s * (m + sticky*epsilon) * 2^e
Round(s, m, e, sticky) ==
    IF m = <<>> THEN Canon(s, m, 0)
    ELSE LET bl == BBitLen(m)
             \* the exponent of the last kept bit
             cut == MaxI(MaxI(bl - 53, 0), -1074 - e)
             q == BShr(m, cut)
             half == cut > 0 /\ BIsOdd(BShr(m, cut - 1))
             low == sticky \/ (cut > 1 /\ BLowBits(m, cut - 1))
             up == half /\ (low \/ BIsOdd(q))
             r == IF up THEN BAdd(q, <<1>>) ELSE q
         IN IF cut = 0 THEN (IF bl + e > 1024 THEN Inf(s) ELSE Canon(s, m, e))
            ELSE IF r # <<>> /\ BBitLen(r) + e + cut > 1024 THEN Inf(s)
            ELSE Canon(s, r, e + cut)

\* three-way comparison of two non-NaN numbers (-0 = 0)
CmpMag(a, b) == \* magnitudes
    LET ma == Mag(a) mb == Mag(b)
        la == BBitLen(ma) + Exp2(a) lb == BBitLen(mb) + Exp2(b)
    IN IF ma = <<>> THEN (IF mb = <<>> THEN 0 ELSE -1)
       ELSE IF mb = <<>> THEN 1
       ELSE IF la < lb THEN -1 ELSE IF la > lb THEN 1
       ELSE LET e == MinI(Exp2(a), Exp2(b)) IN BCmp(BShl(ma, Exp2(a) - e), BShl(mb, Exp2(b) - e))
NCmp(a, b) ==
    IF a[1] = "n" /\ b[1] = "n" THEN (IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0)
    ELSE IF a[1] = "inf" THEN (IF a = b THEN 0 ELSE IF a[2] = 1 THEN -1 ELSE 1)
    ELSE IF b[1] = "inf" THEN (IF b[2] = 1 THEN 1 ELSE -1)
    ELSE IF IsZero(a) /\ IsZero(b) THEN 0
    ELSE IF Sgn(a) # Sgn(b) THEN (IF IsZero(a) THEN (IF Sgn(b) = 1 THEN 1 ELSE -1)
                                  ELSE IF Sgn(a) = 1 THEN -1 ELSE 1)
    ELSE IF Sgn(a) = 1 THEN CmpMag(b, a) ELSE CmpMag(a, b)

\* the same number (NaN = NaN, -0 = 0); "any" matches every number
NSame(a, b) == a = b \/ a = AnyNum \/ b = AnyNum \/ (IsZero(a) /\ IsZero(b))

NNeg(v) == CASE v = NZero -> <<"nz">> [] v[1] = "n" -> <<"n", -v[2]>> [] v[1] = "nz" -> NZero
             [] v[1] = "f" -> <<"f", 1 - v[2], v[3], v[4]>> [] v[1] = "inf" -> Inf(1 - v[2]) [] OTHER -> v
NAbs(v) == IF v[1] = "nz" THEN NZero ELSE IF IsFinite(v) /\ Sgn(v) = 1 THEN NNeg(v) ELSE IF v[1] = "inf" THEN Inf(0) ELSE v

SmallAdd(a, b) == a[1] = "n" /\ b[1] = "n" /\ AbsI(a[2]) < 268435456 /\ AbsI(b[2]) < 268435456

NAdd(a, b) ==
    IF SmallAdd(a, b) THEN <<"n", a[2] + b[2]>>
    ELSE IF a = AnyNum \/ b = AnyNum THEN AnyNum
    ELSE IF a = Nan \/ b = Nan THEN Nan
    ELSE IF a[1] = "inf" THEN (IF b[1] = "inf" /\ a # b THEN Nan ELSE a)
    ELSE IF b[1] = "inf" THEN b
    ELSE IF IsZero(a) /\ IsZero(b) THEN (IF a = b THEN a ELSE NZero)
    ELSE IF IsZero(a) THEN b
    ELSE IF IsZero(b) THEN a
    ELSE LET e == MinI(Exp2(a), Exp2(b))
             ma == BShl(Mag(a), Exp2(a) - e)
             mb == BShl(Mag(b), Exp2(b) - e)
         IN IF Sgn(a) = Sgn(b) THEN Round(Sgn(a), BAdd(ma, mb), e, FALSE)
            ELSE LET c == BCmp(ma, mb)
                 IN IF c = 0 THEN NZero
                    ELSE IF c > 0 THEN Round(Sgn(a), BSub(ma, mb), e, FALSE)
                    ELSE Round(Sgn(b), BSub(mb, ma), e, FALSE)
NSub(a, b) == IF SmallAdd(a, b) THEN <<"n", a[2] - b[2]>> ELSE NAdd(a, NNeg(b))

XSgn(v) == IF v[1] = "inf" THEN v[2] ELSE Sgn(v)
Xor(s, t) == IF s = t THEN 0 ELSE 1
NMul(a, b) ==
    IF a[1] = "n" /\ b[1] = "n" /\ a[2] # 0 /\ b[2] # 0 /\ AbsI(a[2]) < 32768 /\ AbsI(b[2]) < 32768 THEN <<"n", a[2] * b[2]>>
    ELSE IF a = AnyNum \/ b = AnyNum THEN AnyNum
    ELSE IF a = Nan \/ b = Nan THEN Nan
    ELSE IF a[1] = "inf" \/ b[1] = "inf"
         THEN (IF (IsFinite(a) /\ IsZero(a)) \/ (IsFinite(b) /\ IsZero(b)) THEN Nan ELSE Inf(Xor(XSgn(a), XSgn(b))))
    ELSE Round(Xor(Sgn(a), Sgn(b)), BMul(Mag(a), Mag(b)), Exp2(a) + Exp2(b), FALSE)

\* m1 * 2^e1 / m2 rounded to a double
DivRound(s, m1, e1, m2) ==
    LET sh == MaxI(0, 66 + BBitLen(m2) - BBitLen(m1))
        qr == BDivMod(BShl(m1, sh), m2)
    IN Round(s, qr[1], e1 - sh, qr[2] # <<>>)

\* division; division by zero has no result: the caller maps <<"none">> to null
None == <<"none">>
NDiv(a, b) ==
    IF a = AnyNum \/ b = AnyNum THEN AnyNum
    ELSE IF b[1] # "inf" /\ b # Nan /\ IsZero(b) THEN None
    ELSE IF a = Nan \/ b = Nan THEN Nan
    ELSE IF a[1] = "inf" THEN (IF b[1] = "inf" THEN Nan ELSE Inf(Xor(a[2], Sgn(b))))
    ELSE IF b[1] = "inf" THEN (IF Xor(Sgn(a), b[2]) = 1 THEN <<"nz">> ELSE NZero)
    ELSE IF a[1] = "n" /\ b[1] = "n" /\ a[2] # 0 /\ AbsI(a[2]) % AbsI(b[2]) = 0
         THEN <<"n", (IF Xor(Sgn(a), Sgn(b)) = 1 THEN -1 ELSE 1) * (AbsI(a[2]) \div AbsI(b[2]))>>
    ELSE DivRound(Xor(Sgn(a), Sgn(b)), Mag(a), Exp2(a) - Exp2(b), Mag(b))

\* remainder with the sign of the divisor
NMod(a, b) ==
    IF a = AnyNum \/ b = AnyNum THEN AnyNum
    ELSE IF IsFinite(b) /\ IsZero(b) THEN None
    ELSE IF a = Nan \/ b = Nan \/ a[1] = "inf" THEN Nan
    ELSE IF b[1] = "inf" THEN (IF IsZero(a) \/ Sgn(a) = b[2] THEN (IF IsZero(a) THEN (IF b[2] = 1 THEN <<"nz">> ELSE NZero) ELSE a) ELSE b)
    ELSE IF a[1] = "n" /\ b[1] = "n" /\ b[2] > 0 THEN <<"n", a[2] % b[2]>>
    ELSE LET e == MinI(Exp2(a), Exp2(b))
             ma == BShl(Mag(a), Exp2(a) - e)
             mb == BShl(Mag(b), Exp2(b) - e)
             r == BDivMod(ma, mb)[2]
         IN IF r = <<>> THEN (IF Sgn(b) = 1 THEN <<"nz">> ELSE NZero)
            ELSE IF Sgn(a) = Sgn(b) THEN Round(Sgn(a), r, e, FALSE)
            \* fmod result plus the divisor, rounded
            ELSE Round(Sgn(b), BSub(mb, r), e, FALSE)

\* powers: exact small cases; otherwise some number, no result (out of range), or open near the limit
PowRange(a, b) ==
    LET l == BBitLen(Mag(a)) - 1 + Exp2(a)                 \* 2^l <= |a| < 2^(l+1)
        up == (Sgn(b) = 0) = (l >= 0)                        \* the magnitude is at least one
        q == IF Exp2(b) >= 0 THEN (IF BBitLen(Mag(b)) + Exp2(b) > 12 THEN <<5000>> ELSE BShl(Mag(b), Exp2(b))) ELSE BShr(Mag(b), -Exp2(b))
        bf == IF q = <<>> THEN 0 ELSE IF Len(q) > 1 THEN 5000 ELSE MinI(q[1], 5000)
        bc == MinI(bf + 1, 5000)
        hi == IF Sgn(b) = 0 THEN (l + 1) * bc ELSE (-l) * bc
        lo == IF Sgn(b) = 0 THEN l * bf ELSE (-l - 1) * bf
    IN IF ~up \/ (Mag(a) = <<1>> /\ Exp2(a) = 0) THEN AnyNum ELSE IF lo > 1024 THEN None ELSE IF hi <= 1023 THEN AnyNum ELSE <<"open">>
RECURSIVE MPow(_, _)
MPow(m, k) == IF k = 0 THEN <<1>> ELSE BMul(m, MPow(m, k - 1))
NPow(a, b) ==
    IF a = AnyNum \/ b = AnyNum THEN AnyNum
    ELSE IF (b[1] = "n" /\ b[2] = 0) \/ b[1] = "nz" \/ a = <<"n", 1>> THEN <<"n", 1>>
    ELSE IF a = Nan \/ b = Nan THEN Nan
    ELSE IF b[1] = "inf" \/ a[1] = "inf" THEN AnyNum
    ELSE LET bint == b[1] = "n" \/ b[4] >= 0
             bneg == Sgn(b) = 1
         IN IF IsZero(a) THEN (IF bneg THEN None
                               ELSE IF a[1] = "nz" /\ b[1] = "n" /\ b[2] % 2 = 1 THEN <<"nz">> ELSE NZero)
            ELSE IF Sgn(a) = 1 /\ ~bint THEN None
            ELSE IF b[1] = "n" /\ AbsI(b[2]) <= 1100
                 THEN LET k == AbsI(b[2])
                          bits == BBitLen(Mag(a)) * k
                          s == IF Sgn(a) = 1 /\ k % 2 = 1 THEN 1 ELSE 0
                      IN \* out of range: no result
                         IF ~bneg /\ (BBitLen(Mag(a)) - 1 + Exp2(a)) * k > 1024 THEN None
                         ELSE IF BBitLen(Mag(a)) = 1 /\ ~bneg THEN
                              (IF Exp2(a) * k > 1023 THEN None
                               ELSE IF a[1] = "n" \/ Exp2(a) * k >= -1074 THEN Round(s, <<1>>, Exp2(a) * k, FALSE) ELSE PowRange(a, b))
                         ELSE IF ~bneg /\ BBitLen(BShr(Mag(a), BTz(Mag(a)))) * k <= 53 /\ bits <= 900 THEN Round(s, MPow(Mag(a), k), Exp2(a) * k, FALSE)
                         ELSE PowRange(a, b)
            ELSE PowRange(a, b)

IsIntegral(v) == v[1] \in {"n", "nz"} \/ (v[1] = "f" /\ v[4] >= 0)
\* floor, ceiling, integer part (a zero result has no sign)
NFloorF(v) ==
    IF v[1] = "nz" THEN NZero
    ELSE IF v[1] # "f" \/ v[4] >= 0 THEN v
    ELSE LET q == BShr(v[3], -v[4]) IN IF v[2] = 0 THEN Canon(0, q, 0) ELSE Canon(1, BAdd(q, <<1>>), 0)
NPosZero(v) == IF v[1] = "nz" THEN NZero ELSE v
NFloor(v) == NFloorF(v)
NCeil(v) == IF v[1] = "nz" THEN NZero ELSE NPosZero(NNeg(NFloorF(NNeg(v))))
NTrunc(v) == IF Sgn(v) = 1 THEN NCeil(v) ELSE NFloor(v)

\* decimal -> double: digits * 10^x (correctly rounded)
OfDecimal(s, ds, x) ==
    LET m == BOfDigits(ds, 10)
    IN IF m = <<>> THEN Canon(s, m, 0)
       ELSE IF x >= 0 THEN (IF x > 400 THEN Inf(s) ELSE Round(s, BMul(m, BPow10(x)), 0, FALSE))
       ELSE IF -x > 400 + Len(ds) THEN Canon(s, <<>>, 0)
       ELSE DivRound(s, m, 0, BPow10(-x))

\* text -> number: [+-]digits[.digits][e[+-]digits] exactly; <<"none">> when it is no number text
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsEnd(t, i + 1) ELSE i
DigitVals(t) == [i \in 1..Len(t) |-> t[i] - 48]
RECURSIVE DigInt(_, _, _)
DigInt(t, i, acc) == IF i > Len(t) THEN acc ELSE IF acc > 100000 THEN acc ELSE DigInt(t, i + 1, acc * 10 + (t[i] - 48))
ReadNumber(t) ==
    LET s == IF t # <<>> /\ t[1] = 45 THEN 1 ELSE 0
        i0 == IF t # <<>> /\ t[1] \in {43, 45} THEN 2 ELSE 1
        i1 == DigitsEnd(t, i0)
        hasDot == i1 <= Len(t) /\ t[i1] = 46
        i2 == IF hasDot THEN DigitsEnd(t, i1 + 1) ELSE i1
        ip == SubSeq(t, i0, i1 - 1)
        fp == IF hasDot THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>
        hasExp == i2 <= Len(t) /\ t[i2] \in {69, 101}
        i3 == IF hasExp THEN i2 + 1 ELSE i2
        eneg == hasExp /\ i3 <= Len(t) /\ t[i3] = 45
        i4 == IF hasExp /\ i3 <= Len(t) /\ t[i3] \in {43, 45} THEN i3 + 1 ELSE i3
        i5 == IF hasExp THEN DigitsEnd(t, i4) ELSE i4
        x == IF hasExp THEN (IF eneg THEN -1 ELSE 1) * DigInt(SubSeq(t, i4, i5 - 1), 1, 0) ELSE 0
    IN IF (ip = <<>> /\ fp = <<>>) \/ (hasExp /\ i5 = i4) \/ i5 # Len(t) + 1 THEN None
       ELSE OfDecimal(s, DigitVals(ip \o fp), x - Len(fp))

\* the shortest decimal digits that read back as v (a positive finite "f" number):
\* <<digits, point>> with value 0.d1d2d3... * 10^point
RECURSIVE GenDigits(_, _, _, _, _, _)
GenDigits(R, S, mp, mm, even, acc) ==
    LET qr == BDivMod(BMulInt(R, 10), S)
        d == ToInt(qr[1]) R1 == qr[2]
        mp1 == BMulInt(mp, 10) mm1 == BMulInt(mm, 10)
        c1 == BCmp(R1, mm1)
        low == IF even THEN c1 <= 0 ELSE c1 < 0
        c2 == BCmp(BAdd(R1, mp1), S)
        high == IF even THEN c2 >= 0 ELSE c2 > 0
    IN IF ~low /\ ~high THEN GenDigits(R1, S, mp1, mm1, even, Append(acc, d))
       ELSE IF low /\ ~high THEN Append(acc, d)
       ELSE IF high /\ ~low THEN Append(acc, d + 1)
       ELSE LET c3 == BCmp(BMulInt(R1, 2), S)
            IN IF c3 < 0 \/ (c3 = 0 /\ d % 2 = 0) THEN Append(acc, d) ELSE Append(acc, d + 1)
\* scale so that 0.1 <= (R + mp) / S < 1
RECURSIVE ScaleUp(_, _, _, _)
ScaleUp(R, S, mp, even) == \* <<S, k>>
    LET c == BCmp(BAdd(R, mp), S)
    IN IF (IF even THEN c >= 0 ELSE c > 0) THEN LET r == ScaleUp(R, BMulInt(S, 10), mp, even) IN <<r[1], r[2] + 1>> ELSE <<S, 0>>
RECURSIVE ScaleDown(_, _, _, _, _)
ScaleDown(R, S, mp, mm, even) == \* <<R, mp, mm, k>>
    LET c == BCmp(BMulInt(BAdd(R, mp), 10), S)
    IN IF (IF even THEN c < 0 ELSE c <= 0)
       THEN LET r == ScaleDown(BMulInt(R, 10), S, BMulInt(mp, 10), BMulInt(mm, 10), even) IN <<r[1], r[2], r[3], r[4] - 1>>
       ELSE <<R, mp, mm, 0>>
Shortest(v) ==
    LET bl == BBitLen(v[3])
        \* the 53-bit (or subnormal) significand f * 2^e
        e == MaxI(v[4] - (53 - bl), -1074)
        f == BShl(v[3], v[4] - e)
        even == ~BIsOdd(f)
        pow2 == f = BShl(<<1>>, 52) /\ e > -1074
        k2 == IF pow2 THEN 2 ELSE 1     \* the lower neighbour is at half the distance
        R0 == IF e >= 0 THEN BShl(f, e + k2) ELSE BShl(f, k2)
        S0 == IF e >= 0 THEN BShl(<<1>>, k2) ELSE BShl(<<1>>, k2 - e)
        mp0 == IF e >= 0 THEN BShl(<<1>>, e + k2 - 1) ELSE BShl(<<1>>, k2 - 1)
        mm0 == IF e >= 0 THEN BShl(<<1>>, e) ELSE <<1>>
        \* estimate of the decimal exponent: log10(2) ~ 30103/100000, rounded down
        est == ((v[4] + bl - 1) * 30103) \div 100000
        est0 == IF est > 0 THEN est - 1 ELSE IF est < 0 THEN est + 1 ELSE 0
        S1 == IF est0 > 0 THEN BMul(S0, BPow10(est0)) ELSE S0
        sc == IF est0 < 0 THEN BPow10(-est0) ELSE <<1>>
        R1 == IF est0 < 0 THEN BMul(R0, sc) ELSE R0
        mp1 == IF est0 < 0 THEN BMul(mp0, sc) ELSE mp0
        mm1 == IF est0 < 0 THEN BMul(mm0, sc) ELSE mm0
        up == ScaleUp(R1, S1, mp1, even)
        dn == ScaleDown(R1, up[1], mp1, mm1, even)
    IN <<GenDigits(dn[1], up[1], dn[2], dn[3], even, <<>>), est0 + up[2] + dn[4]>>

DText(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
\* the text of a number: integral numbers print all their digits without a fraction,
\* other numbers print their shortest decimal representation
NText(v) ==
    CASE v[1] = "n" -> IntText(v[2])
      [] v[1] = "nz" -> <<45, 48>>
      [] v[1] = "inf" -> (IF v[2] = 1 THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
      [] v[1] = "nan" -> <<110, 97, 110>>
      [] OTHER ->
         LET sign == IF v[2] = 1 THEN <<45>> ELSE <<>>
         IN IF v[4] >= 0 THEN sign \o DText(BDigits(BShl(v[3], v[4])))
            ELSE LET r == Shortest(v)
                     ds == DText(r[1]) p == r[2] n == Len(ds)
                     body == IF p > -4 /\ p <= 0 THEN <<48, 46>> \o Repeat(<<48>>, -p) \o ds
                             ELSE IF p > 0 /\ p < n THEN SubSeq(ds, 1, p) \o <<46>> \o SubSeq(ds, p + 1, n)
                             ELSE IF p > 0 /\ p <= 16 THEN ds \o Repeat(<<48>>, p - n)
                             ELSE <<ds[1]>> \o (IF n > 1 THEN <<46>> \o Tail(ds) ELSE <<>>) \o <<101>>
                                  \o (IF p - 1 < 0 THEN <<45>> ELSE <<43>>) \o Pad(NatText(AbsI(p - 1)), 2)
                 IN sign \o body

\* an integral number as a TLC integer, saturated at the small limit
NInt(v) == CASE v[1] = "n" -> v[2] [] v[1] = "nz" -> 0
             [] v[1] = "f" -> (IF v[2] = 1 THEN -SmallLimit ELSE SmallLimit)
             [] v[1] = "inf" -> (IF v[2] = 1 THEN -SmallLimit ELSE SmallLimit) [] OTHER -> 0
=============================================================================
