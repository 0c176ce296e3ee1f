------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian sequences of limbs, base     *)
(* 2^13, without trailing (most significant) zero limbs: zero is <<>>.       *)
(* TLC's integers have 32 bits, which is too small for the significand of a  *)
(* double and for exact products and sums of floats.                         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

LB == 13
LBASE == 8192

Pow2(k) == 2^k                                  \* 0 <= k <= 30

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

BZero == <<>>
BOne  == <<1>>

RECURSIVE BOfNat(_)
BOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % LBASE>> \o BOfNat(n \div LBASE)

BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BCarry(_, _, _, _)
BCarry(cols, i, c, acc) ==
    IF i > Len(cols)
    THEN IF c = 0 THEN acc
         ELSE BCarry(cols, i, c \div LBASE, Append(acc, c % LBASE))
    ELSE LET v == cols[i] + c IN BCarry(cols, i + 1, v \div LBASE, Append(acc, v % LBASE))

BNorm(cols) == BTrim(BCarry(cols, 1, 0, <<>>))   \* works for negative columns too, if the total is >= 0

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE BNorm([i \in 1..Max2(Len(a), Len(b)) |-> BLimb(a, i) + BLimb(b, i)])

BSub(a, b) == IF b = <<>> THEN a                   \* requires a >= b
              ELSE BNorm([i \in 1..Len(a) |-> a[i] - BLimb(b, i)])

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] = b[i] THEN BCmpFrom(a, b, i - 1)
                     ELSE IF a[i] < b[i] THEN -1 ELSE 1
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE BCmpFrom(a, b, Len(a))

RECURSIVE BColSum(_, _, _, _, _, _)
BColSum(a, b, k, i, hi, acc) == IF i > hi THEN acc
                                ELSE BColSum(a, b, k, i + 1, hi, acc + a[i] * b[k + 1 - i])
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>      \* up to 31 limbs in the shorter operand
              ELSE BNorm([k \in 1..(Len(a) + Len(b) - 1) |->
                            BColSum(a, b, k, Max2(1, k + 1 - Len(b)), Min2(k, Len(a)), 0)])

BZeros(q) == [i \in 1..q |-> 0]

BShl(a, k) ==                                        \* a * 2^k
    IF a = <<>> THEN <<>>
    ELSE LET q == k \div LB
             r == k % LB
             x == IF r = 0 THEN a ELSE BNorm([i \in 1..Len(a) |-> a[i] * 2^r])
         IN IF q = 0 THEN x ELSE BZeros(q) \o x

BShr(a, k) ==                                        \* floor(a / 2^k)
    LET q == k \div LB
        r == k % LB
    IN IF q >= Len(a) THEN <<>>
       ELSE BTrim([i \in 1..(Len(a) - q) |->
                    (a[i + q] \div 2^r) + (IF i + q < Len(a) THEN (a[i + q + 1] % 2^r) * 2^(LB - r) ELSE 0)])

BLowZero(a, k) ==                                    \* a is a multiple of 2^k
    LET q == k \div LB
    IN a = <<>> \/ /\ q < Len(a)
                   /\ \A i \in 1..q : a[i] = 0
                   /\ a[q + 1] % 2^(k % LB) = 0

RECURSIVE NatBits(_)
NatBits(n) == IF n = 0 THEN 0 ELSE 1 + NatBits(n \div 2)
BBits(a) == IF a = <<>> THEN 0 ELSE LB * (Len(a) - 1) + NatBits(a[Len(a)])   \* bit length

(* number of trailing zero bits, a # 0 *)
RECURSIVE NatTZ(_)
NatTZ(n) == IF n % 2 = 1 THEN 0 ELSE 1 + NatTZ(n \div 2)
RECURSIVE BTZFrom(_, _)
BTZFrom(a, i) == IF a[i] = 0 THEN BTZFrom(a, i + 1) ELSE LB * (i - 1) + NatTZ(a[i])
BTZ(a) == BTZFrom(a, 1)

BOdd(a) == a # <<>> /\ a[1] % 2 = 1
=============================================================================
