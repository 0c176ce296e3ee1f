--------------------------------- MODULE Fp ---------------------------------
(* IEEE 754 binary floating point, as the code under test sees it.           *)
(*                                                                           *)
(* A value is <<class, sign, significand, exponent>>: class "n" (finite,     *)
(* significand a BigNat, value (-1)^sign * significand * 2^exponent), "i"    *)
(* (infinity), "q" (NaN).  Dyadic numbers <<sign, significand, exponent>>    *)
(* are exact: sums and products of finite values are computed without error, *)
(* and "correctly rounded" is decided by comparing the exact result with the *)
(* midpoints around the value the implementation delivered.                  *)
EXTENDS BigNat

(* Formats *)
F32 == [name |-> "f", p |-> 24, lsb |-> -149, top |-> 104, words |-> 1]     \* top: lsb exponent of the largest binade
F64 == [name |-> "d", p |-> 53, lsb |-> -1074, top |-> 971, words |-> 2]
Fmt(ty) == IF ty = "f" THEN F32 ELSE F64

NaN == <<"q", 0, <<>>, 0>>
Inf(s) == <<"i", s, <<>>, 0>>
Zero(s) == <<"n", s, <<>>, 0>>

U31(w) == IF w < 0 THEN (w + 2147483647) + 1 ELSE w      \* the low 31 bits of a 32-bit word

(* Decoding of bit patterns, 32-bit words as signed integers *)
Dec32(w) ==
    LET s == IF w < 0 THEN 1 ELSE 0
        u == U31(w)
        e == u \div 8388608
        f == u % 8388608
    IN IF e = 255 THEN (IF f = 0 THEN <<"i", s, <<>>, 0>> ELSE <<"q", s, <<>>, 0>>)
       ELSE IF u = 0 THEN <<"n", s, <<>>, 0>>
       ELSE LET m == IF e = 0 THEN f ELSE f + 8388608
            IN <<"n", s, IF m < LBASE THEN <<m>> ELSE <<m % LBASE, m \div LBASE>>, (IF e = 0 THEN 1 ELSE e) - 150>>

Dec64(hi, lo) ==
    LET s == IF hi < 0 THEN 1 ELSE 0
        u == U31(hi)
        e == u \div 1048576
        f == u % 1048576
    IN IF e = 2047 THEN (IF f = 0 /\ lo = 0 THEN <<"i", s, <<>>, 0>> ELSE <<"q", s, <<>>, 0>>)
       ELSE IF u = 0 /\ lo = 0 THEN <<"n", s, <<>>, 0>>
       ELSE LET h == IF e = 0 THEN f ELSE f + 1048576
                raw == << lo % 8192, (lo \div 8192) % 8192,
                          ((lo \div 67108864) % 64) + (h % 128) * 64,
                          (h \div 128) % 8192, h \div 1048576 >>
            IN <<"n", s, BTrim(raw), (IF e = 0 THEN 1 ELSE e) - 1075>>

(* element i (1-based) of a recorded buffer *)
Elem(ty, buf, i) == IF ty = "f" THEN Dec32(buf[i]) ELSE Dec64(buf[2*i - 1], buf[2*i])
Cnt(ty, buf) == IF ty = "f" THEN Len(buf) ELSE Len(buf) \div 2
(* raw bits of element i *)
Raw(ty, buf, i) == IF ty = "f" THEN <<buf[i]>> ELSE <<buf[2*i - 1], buf[2*i]>>

IsNaN(v) == v[1] = "q"
IsInf(v) == v[1] = "i"
IsFin(v) == v[1] = "n"
IsZero(v) == v[1] = "n" /\ v[3] = <<>>
Sgn(v) == v[2]

(* ---------------- exact dyadic arithmetic ---------------- *)
D(v) == <<v[2], v[3], v[4]>>                       \* of a finite value
DInt(i) == IF i < 0 THEN <<1, BOfNat(-i), 0>> ELSE <<0, BOfNat(i), 0>>
DNeg(x) == <<1 - x[1], x[2], x[3]>>
DAbs(x) == <<0, x[2], x[3]>>
DMul(x, y) == <<(x[1] + y[1]) % 2, BMul(x[2], y[2]), x[3] + y[3]>>
DScale(x, k) == <<x[1], x[2], x[3] + k>>            \* x * 2^k
DIsZero(x) == x[2] = <<>>

DAdd(x, y) ==
    IF x[2] = <<>> THEN y ELSE IF y[2] = <<>> THEN x
    ELSE LET e == Min2(x[3], y[3])
             a == BShl(x[2], x[3] - e)
             b == BShl(y[2], y[3] - e)
         IN IF x[1] = y[1] THEN <<x[1], BAdd(a, b), e>>
            ELSE LET c == BCmp(a, b)
                 IN IF c = 0 THEN <<0, <<>>, 0>>
                    ELSE IF c > 0 THEN <<x[1], BSub(a, b), e>> ELSE <<y[1], BSub(b, a), e>>
DSub(x, y) == DAdd(x, DNeg(y))

DTopBit(x) == BBits(x[2]) + x[3]                    \* 2^(DTopBit-1) <= |x| < 2^DTopBit
DCmpAbs(x, y) ==                                    \* compares |x| with |y|
    IF x[2] = <<>> THEN (IF y[2] = <<>> THEN 0 ELSE -1)
    ELSE IF y[2] = <<>> THEN 1
    ELSE LET tx == DTopBit(x)
             ty == DTopBit(y)
         IN IF tx # ty THEN (IF tx < ty THEN -1 ELSE 1)
            ELSE LET e == Min2(x[3], y[3])
                 IN BCmp(BShl(x[2], x[3] - e), BShl(y[2], y[3] - e))
DCmp(x, y) ==
    IF x[2] = <<>> /\ y[2] = <<>> THEN 0
    ELSE IF x[2] = <<>> THEN (IF y[1] = 1 THEN 1 ELSE -1)
    ELSE IF y[2] = <<>> THEN (IF x[1] = 1 THEN -1 ELSE 1)
    ELSE IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1)
    ELSE IF x[1] = 0 THEN DCmpAbs(x, y) ELSE DCmpAbs(y, x)

(* ---------------- rounding to a format ---------------- *)
(* The magnitude m*2^e of a finite value in canonical form: e is the exponent *)
(* of the unit in the last place of the value's binade.                       *)
UlpExp(F, x) == IF x[2] = <<>> THEN F.lsb ELSE Max2(F.lsb, DTopBit(x) - F.p)   \* of a dyadic

(* midpoints around the finite magnitude |r| *)
Upper(F, r) == LET x == DAbs(D(r)) IN DAdd(x, <<0, <<1>>, UlpExp(F, x) - 1>>)
IsPow2(a) == a # <<>> /\ BLowZero(a, BBits(a) - 1)
Lower(F, r) ==                                       \* r # 0
    LET x == DAbs(D(r))
        u == UlpExp(F, x)
    IN DSub(x, <<0, <<1>>, IF IsPow2(x[2]) /\ u > F.lsb THEN u - 2 ELSE u - 1>>)
SigOdd(F, r) ==                                      \* last bit of the canonical significand
    LET x == D(r) IN ~ IsZero(r) /\ LET sh == x[3] - UlpExp(F, x) IN
        IF sh > 0 THEN FALSE ELSE BOdd(BShr(x[2], -sh))
MaxMid(F) == <<0, BSub(BShl(<<1>>, F.p + 1), <<1>>), F.top - 1>>     \* largest finite + half an ulp

(* The exact result X >= 0 of an operation, known through its comparison     *)
(* with non-negative dyadics d: X = |a| (k = 1), X = |a|/|b| (k = 2),        *)
(* X = sqrt(|a|) (k = 3).                                                    *)
CmpExact(k, a, b, d) == IF k = 1 THEN DCmpAbs(a, d)
                        ELSE IF k = 2 THEN DCmpAbs(a, DMul(d, b)) ELSE DCmpAbs(a, DMul(d, d))

(* r is the round-to-nearest-even image of the exact real with sign s (1:    *)
(* negative) and magnitude X.  Zero results keep their sign loose: the sign  *)
(* of zero is not part of the comparison.                                    *)
IsRN(F, r, s, k, a, b) ==
    IF IsNaN(r) THEN FALSE
    ELSE IF IsInf(r) THEN r[2] = s /\ CmpExact(k, a, b, MaxMid(F)) >= 0
    ELSE LET up == CmpExact(k, a, b, Upper(F, r))
         IN IF IsZero(r) THEN up <= 0
            ELSE LET lo == CmpExact(k, a, b, Lower(F, r))
                     odd == SigOdd(F, r)
                 IN /\ r[2] = s
                    /\ IF odd THEN up < 0 /\ lo > 0 ELSE up <= 0 /\ lo >= 0
                    /\ CmpExact(k, a, b, MaxMid(F)) < 0

IsRNDyadic(F, r, x) == IsRN(F, r, x[1], 1, x, x)

(* A summand so small that only its sign matters is replaced by a tiny one    *)
Shrink(F, x, y) ==     \* |y| much smaller than |x|: stand-in for y
    IF x[2] # <<>> /\ y[2] # <<>> /\ DTopBit(x) - DTopBit(y) > 3 * F.p + 8
    THEN <<y[1], <<1>>, DTopBit(x) - 3 * F.p>> ELSE y

(* ---------------- IEEE operations as relations ---------------- *)
Add(F, a, b, r) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(r)
    ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a[2] # b[2] THEN IsNaN(r) ELSE IsInf(r) /\ r[2] = a[2])
    ELSE IF IsInf(b) THEN IsInf(r) /\ r[2] = b[2]
    ELSE LET x == D(a)
             y == D(b)
         IN IsRNDyadic(F, r, DAdd(Shrink(F, y, x), Shrink(F, x, y)))
Neg(v) == IF IsNaN(v) THEN v ELSE <<v[1], 1 - v[2], v[3], v[4]>>
Sub(F, a, b, r) == Add(F, a, Neg(b), r)
Mul(F, a, b, r) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(r)
    ELSE IF IsInf(a) \/ IsInf(b)
         THEN IF IsZero(a) \/ IsZero(b) THEN IsNaN(r)
              ELSE IsInf(r) /\ r[2] = (a[2] + b[2]) % 2
    ELSE IsRNDyadic(F, r, DMul(D(a), D(b)))
Div(F, a, b, r) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(r)
    ELSE IF IsInf(a) THEN (IF IsInf(b) THEN IsNaN(r) ELSE IsInf(r) /\ r[2] = (a[2] + b[2]) % 2)
    ELSE IF IsInf(b) THEN IsZero(r)
    ELSE IF IsZero(b) THEN (IF IsZero(a) THEN IsNaN(r) ELSE IsInf(r) /\ r[2] = (a[2] + b[2]) % 2)
    ELSE IsRN(F, r, (a[2] + b[2]) % 2, 2, D(a), D(b))
Sqrt(F, a, r) ==
    IF IsNaN(a) THEN IsNaN(r)
    ELSE IF IsZero(a) THEN IsZero(r)
    ELSE IF a[2] = 1 THEN IsNaN(r)
    ELSE IF IsInf(a) THEN IsInf(r) /\ r[2] = 0
    ELSE IsRN(F, r, 0, 3, D(a), D(a))

(* ---------------- order ---------------- *)
Unordered(a, b) == IsNaN(a) \/ IsNaN(b)
Cmp(a, b) ==                                          \* not for NaN
    IF IsInf(a) THEN (IF IsInf(b) /\ a[2] = b[2] THEN 0 ELSE IF a[2] = 1 THEN -1 ELSE 1)
    ELSE IF IsInf(b) THEN (IF b[2] = 1 THEN 1 ELSE -1)
    ELSE DCmp(D(a), D(b))
Lt(a, b) == ~ Unordered(a, b) /\ Cmp(a, b) < 0
Le(a, b) == ~ Unordered(a, b) /\ Cmp(a, b) <= 0
Eq(a, b) == ~ Unordered(a, b) /\ Cmp(a, b) = 0

(* the same value: NaN equals NaN, the zeros are equal *)
Same(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b) ELSE Cmp(a, b) = 0

One == <<"n", 0, <<1>>, 0>>
Num(i) == IF i = 0 THEN Zero(0) ELSE IF i < 0 THEN <<"n", 1, BOfNat(-i), 0>> ELSE <<"n", 0, BOfNat(i), 0>>

(* ---------------- integral values ---------------- *)
IsIntegral(v) == IsFin(v) /\ (v[3] = <<>> \/ v[4] >= 0 \/ BLowZero(v[3], -v[4]))
(* magnitude of the integer part of |v| *)
IntPart(v) == IF v[4] >= 0 THEN <<v[3], v[4]>> ELSE <<BShr(v[3], -v[4]), 0>>

(* r = floor(v), and so on, exactly; infinities and NaN map to themselves *)
Floor(v, r) ==
    IF ~ IsFin(v) THEN Same(v, r)
    ELSE IF IsIntegral(v) THEN Same(v, r)
    ELSE LET m == IntPart(v)[1]
         IN IsFin(r) /\ DCmp(D(r), IF v[2] = 0 THEN <<0, m, 0>> ELSE <<1, BAdd(m, <<1>>), 0>>) = 0
Ceil(v, r) ==
    IF ~ IsFin(v) THEN Same(v, r)
    ELSE IF IsIntegral(v) THEN Same(v, r)
    ELSE LET m == IntPart(v)[1]
         IN IsFin(r) /\ DCmp(D(r), IF v[2] = 1 THEN <<1, m, 0>> ELSE <<0, BAdd(m, <<1>>), 0>>) = 0
Trunc(v, r) ==
    IF ~ IsFin(v) THEN Same(v, r)
    ELSE IF IsIntegral(v) THEN Same(v, r)
    ELSE IsFin(r) /\ DCmp(D(r), <<v[2], IntPart(v)[1], 0>>) = 0
(* a nearest integer; a tie may go either way *)
Nearest(v, r) ==
    IF ~ IsFin(v) THEN Same(v, r)
    ELSE IF IsIntegral(v) THEN Same(v, r)
    ELSE /\ IsIntegral(r)
         /\ DCmpAbs(DSub(D(r), D(v)), <<0, <<1>>, -1>>) <= 0

(* |x - y| <= tol, dyadics *)
Within(x, y, tol) == DCmpAbs(DSub(x, y), tol) <= 0
=============================================================================
