------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian limbs in base 2^13, no high    *)
(* zero limb, zero is <<>>.  (TLC integers are 32 bit.)                      *)
EXTENDS Integers, Sequences, SequencesExt

BASE == 8192
BBITS == 13

Idx(n) == [i \in 1..n |-> i]
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE OfInt(_)
OfInt(k) == IF k = 0 THEN <<>> ELSE <<k % BASE>> \o OfInt(k \div BASE)

\* the value as a TLC integer (defined below 2^30)
RECURSIVE ToIntFrom(_, _)
ToIntFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + BASE * ToIntFrom(a, i + 1)
ToInt(a) == ToIntFrom(a, 1)

BAdd(a, b) ==
    LET n == MaxI(Len(a), Len(b))
        st(acc, i) == LET t == At(a, i) + At(b, i) + acc[2] IN <<Append(acc[1], t % BASE), t \div BASE>>
        r == FoldLeft(st, <<<<>>, 0>>, Idx(n))
    IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])

\* a - b, where a >= b
BSub(a, b) ==
    LET st(acc, i) == LET t == a[i] - At(b, i) - acc[2]
                      IN IF t < 0 THEN <<Append(acc[1], t + BASE), 1>> ELSE <<Append(acc[1], t), 0>>
    IN Trim(FoldLeft(st, <<<<>>, 0>>, Idx(Len(a)))[1])

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

\* a * k + c for 0 <= k, c < BASE * 8
BMulAdd(a, k, c) ==
    LET st(acc, i) == LET t == a[i] * k + acc[2] IN <<Append(acc[1], t % BASE), t \div BASE>>
        r == FoldLeft(st, <<<<>>, c>>, Idx(Len(a)))
    IN IF r[2] = 0 THEN Trim(r[1]) ELSE Trim(r[1] \o OfInt(r[2]))
BMulInt(a, k) == BMulAdd(a, k, 0)

Zeros(n) == [i \in 1..n |-> 0]
BShiftLimbs(a, n) == IF a = <<>> THEN a ELSE Zeros(n) \o a

BMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET st(acc, j) == BAdd(acc, BShiftLimbs(BMulInt(a, b[j]), j - 1)) IN FoldLeft(st, <<>>, Idx(Len(b)))

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
RECURSIVE BitLenInt(_)
BitLenInt(k) == IF k = 0 THEN 0 ELSE 1 + BitLenInt(k \div 2)
BBitLen(a) == IF a = <<>> THEN 0 ELSE BBITS * (Len(a) - 1) + BitLenInt(a[Len(a)])

BShl(a, n) == IF a = <<>> THEN a ELSE BShiftLimbs(BMulInt(a, P2(n % BBITS)), n \div BBITS)

\* floor(a / k) and remainder for a small k (k < BASE * 8)
BDivInt(a, k) ==
    LET n == Len(a)
        st(acc, i) == LET t == acc[2] * BASE + a[n + 1 - i] IN <<<<t \div k>> \o acc[1], t % k>>
        r == FoldLeft(st, <<<<>>, 0>>, Idx(n))
    IN <<Trim(r[1]), r[2]>>

BShr(a, n) ==
    LET w == n \div BBITS
    IN IF w >= Len(a) THEN <<>> ELSE BDivInt(SubSeq(a, w + 1, Len(a)), P2(n % BBITS))[1]

\* is any of the n low bits set?
BLowBits(a, n) ==
    LET w == n \div BBITS
    IN IF \E i \in 1..MinI(w, Len(a)) : a[i] # 0 THEN TRUE
       ELSE w + 1 <= Len(a) /\ a[w + 1] % P2(n % BBITS) # 0

BIsOdd(a) == a # <<>> /\ a[1] % 2 = 1

\* number of trailing zero bits (a # 0)
RECURSIVE TzInt(_)
TzInt(k) == IF k % 2 = 1 THEN 0 ELSE 1 + TzInt(k \div 2)
RECURSIVE TzFrom(_, _)
TzFrom(a, i) == IF a[i] = 0 THEN BBITS + TzFrom(a, i + 1) ELSE TzInt(a[i])
BTz(a) == TzFrom(a, 1)

\* the largest digit q in lo..hi with b * q <= a
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF BCmp(BMulInt(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi) ELSE QDigit(a, b, lo, mid - 1)

\* <<floor(a / b), a % b>>
BDivMod(a, b) ==
    IF BCmp(a, b) < 0 THEN <<<<>>, a>>
    ELSE IF Len(b) = 1 THEN LET r == BDivInt(a, b[1]) IN <<r[1], OfInt(r[2])>>
    ELSE LET n == Len(a)
             top == b[Len(b)]
             st(acc, i) ==
                LET rem == Trim(<<a[n + 1 - i]>> \o acc[2])
                    \* bounds of the quotient digit from the leading limbs
                    lead == IF Len(rem) < Len(b) THEN 0
                            ELSE IF Len(rem) = Len(b) THEN rem[Len(rem)] ELSE rem[Len(rem)] * BASE + rem[Len(rem) - 1]
                    hi == MinI(BASE - 1, lead \div top)
                    lo == MinI(hi, lead \div (top + 1))
                    q == IF lead = 0 THEN 0 ELSE QDigit(rem, b, lo, hi)
                IN <<<<q>> \o acc[1], IF q = 0 THEN rem ELSE BSub(rem, BMulInt(b, q))>>
             r == FoldLeft(st, <<<<>>, <<>>>>, Idx(n))
         IN <<Trim(r[1]), r[2]>>

\* 10^n
RECURSIVE BPow10(_)
BPow10(n) == IF n = 0 THEN <<1>>
             ELSE IF n >= 4 THEN BMulInt(BPow10(n - 4), 10000) ELSE BMulInt(BPow10(n - 1), 10)

\* decimal digits (as numbers 0..9, most significant first)
RECURSIVE Dig4(_, _)
Dig4(k, n) == IF n = 0 THEN <<>> ELSE Append(Dig4(k \div 10, n - 1), k % 10)
RECURSIVE IntDigits(_)
IntDigits(k) == IF k < 10 THEN <<k>> ELSE Append(IntDigits(k \div 10), k % 10)
RECURSIVE BDigits(_)
BDigits(a) == IF Len(a) <= 2 THEN IntDigits(ToInt(a))
              ELSE LET r == BDivInt(a, 10000) IN BDigits(r[1]) \o Dig4(r[2], 4)

\* digits (any radix <= 36) -> number
BOfDigits(ds, radix) == FoldLeft(LAMBDA acc, d : BMulAdd(acc, radix, d), <<>>, ds)
=============================================================================
