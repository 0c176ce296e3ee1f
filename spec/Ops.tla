-------------------------------- MODULE Ops --------------------------------
(* The catalogue of nova-simd's elementwise operations: for each operation,  *)
(* the relation between its arguments and the result it may deliver.         *)
(*                                                                           *)
(* Single IEEE operations have to be correctly rounded.  Composite ones may  *)
(* be evaluated in any order: the result has to be within a few roundings of *)
(* the exact value, measured against the magnitude of the terms.             *)
EXTENDS Fp

(* exact extended arithmetic on values (results need not fit a format) *)
V(x) == <<"n", x[1], x[2], x[3]>>
XAdd(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a[2] # b[2] THEN NaN ELSE a)
    ELSE IF IsInf(b) THEN b
    ELSE V(DAdd(D(a), D(b)))
XMul(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) \/ IsInf(b)
         THEN (IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Inf((a[2] + b[2]) % 2))
    ELSE V(DMul(D(a), D(b)))
XAbs(a) == IF IsNaN(a) THEN a ELSE <<a[1], 0, a[3], a[4]>>

(* the largest finite magnitude, a little below: composites that come close  *)
(* to it may overflow in an intermediate result                              *)
NearMax(F) == <<0, <<1>>, F.top + F.p - 2>>

(* r approximates the exact x; mag bounds the terms, k roundings.            *)
(* mag is an upper bound of every intermediate result.                       *)
Close(F, r, x, mag, k) ==
    IF IsNaN(x) THEN IsNaN(r)
    ELSE IF IsInf(x) THEN IsInf(r) /\ r[2] = x[2]
    ELSE IF ~ IsFin(mag) \/ DCmpAbs(D(mag), NearMax(F)) >= 0 THEN TRUE   \* may overflow on the way
    ELSE /\ IsFin(r)
         /\ Within(D(r), D(x),
                   DAdd(DMul(DInt(k), DScale(DAbs(D(mag)), -F.p)),         \* k units of relative error
                        DMul(DInt(k), <<0, <<1>>, F.lsb>>)))               \* underflow

(* a finite intermediate result that is so large that it may overflow *)
Huge(F, x) == IsFin(x) /\ DCmpAbs(D(x), NearMax(F)) >= 0

Bool(r, b) == Same(r, IF b THEN One ELSE Zero(0))

Tiny(F) == <<0, <<1>>, F.lsb + F.p - 1>>               \* smallest normal number

(* ---- single operations and classification ---- *)
Abs(a, r) == Same(r, XAbs(a))
Sign(a, r) == IF IsNaN(a) THEN TRUE
              ELSE Same(r, IF IsZero(a) THEN Zero(0) ELSE IF a[2] = 1 THEN Num(-1) ELSE One)
Undenormalize(F, a, r) ==
    IF ~ IsFin(a) THEN Same(a, r)
    ELSE IF DCmpAbs(D(a), Tiny(F)) < 0 THEN IsZero(r) ELSE Same(a, r)
(* minimum and maximum of ordered operands; with a NaN, one of the operands *)
MinV(a, b, r) == IF Unordered(a, b) THEN Same(r, a) \/ Same(r, b)
                 ELSE Same(r, IF Cmp(a, b) <= 0 THEN a ELSE b)
MaxV(a, b, r) == IF Unordered(a, b) THEN Same(r, a) \/ Same(r, b)
                 ELSE Same(r, IF Cmp(a, b) >= 0 THEN a ELSE b)
Clip(x, lo, hi, r) ==
    IF IsNaN(x) \/ Unordered(lo, hi) \/ Cmp(lo, hi) > 0
    THEN Same(r, x) \/ Same(r, lo) \/ Same(r, hi)
    ELSE Same(r, IF Cmp(x, lo) < 0 THEN lo ELSE IF Cmp(x, hi) > 0 THEN hi ELSE x)
Clip2(x, l, r) == Clip(x, Neg(l), l, r)
Frac(F, a, r) ==
    IF IsNaN(a) \/ IsInf(a) THEN IsNaN(r)
    ELSE IF IsIntegral(a) THEN IsZero(r)
    ELSE LET m == IntPart(a)[1]
             fl == IF a[2] = 0 THEN <<0, m, 0>> ELSE <<1, BAdd(m, <<1>>), 0>>
         IN /\ ~ IsNaN(r)
            /\ Sub(F, a, V(fl), r)

(* softclip: identity below one half, 1 - 0.25/|x| above *)
Half == <<0, <<1>>, -1>>
Quarter == <<0, <<1>>, -2>>
Softclip(F, a, r) ==
    IF IsNaN(a) THEN IsNaN(r)
    ELSE IF IsInf(a) THEN TRUE                        \* inf/inf
    ELSE IF DCmpAbs(D(a), Half) < 0 THEN Same(a, r)
    ELSE \* r*a = |a| - 1/4, up to two roundings of the quotient
         /\ IsFin(r) /\ r[2] = a[2] /\ ~ IsZero(r)
         /\ DCmpAbs(D(r), <<0, <<1>>, 0>>) <= 0
         /\ Within(DMul(D(r), D(a)), DSub(DAbs(D(a)), Quarter), DScale(DAbs(D(a)), 2 - F.p))

Mix(F, s0, f0, s1, f1, r) ==
    LET x == XMul(s0, f0)
        y == XMul(s1, f1)
    IN Huge(F, x) \/ Huge(F, y) \/ Close(F, r, XAdd(x, y), XAdd(XAbs(x), XAbs(y)), 4)

RECURSIVE XSum(_, _, _)
XSum(s, i, acc) == IF i > Len(s) THEN acc ELSE XSum(s, i + 1, XAdd(acc, s[i]))
RECURSIVE XAbsSum(_, _, _)
XAbsSum(s, i, acc) == IF i > Len(s) THEN acc ELSE XAbsSum(s, i + 1, XAdd(acc, XAbs(s[i])))
RECURSIVE FinSum(_, _, _)
FinSum(s, i, acc) == IF i > Len(s) THEN acc ELSE FinSum(s, i + 1, IF IsFin(s[i]) THEN XAdd(acc, XAbs(s[i])) ELSE acc)
SumN(F, s, r) == Huge(F, FinSum(s, 1, Zero(0))) \/ Close(F, r, XSum(s, 1, Zero(0)), XAbsSum(s, 1, Zero(0)), Len(s))

Cube(F, a, r) == LET x == XMul(a, XMul(a, a)) IN Huge(F, XMul(a, a)) \/ Close(F, r, x, XAbs(x), 4)
MulAdd(F, a, b, c, r) ==
    LET x == XMul(a, b) IN Huge(F, x) \/ Close(F, r, XAdd(x, c), XAdd(XAbs(x), XAbs(c)), 3)
AmpMod(F, s, m, a, r) ==
    LET ma == XMul(m, a)
        x  == XMul(s, XAdd(One, ma))
        mg == XMul(XAbs(s), XAdd(One, XAbs(ma)))
        \* the inner sum cancels: it may round to zero, and an infinite s makes that undetermined
        cancels == IsInf(s) /\ IsFin(ma)
                   /\ Within(DAdd(D(One), D(ma)), <<0, <<>>, 0>>, DScale(DAdd(D(One), DAbs(D(ma))), 2 - F.p))
    IN Huge(F, ma) \/ Huge(F, mg) \/ cancels \/ Close(F, r, x, IF IsNaN(mg) THEN Inf(0) ELSE XAdd(XAdd(mg, XAbs(s)), XAbs(ma)), 5)

(* reciprocal: single precision SIMD uses an estimate and one Newton step    *)
Recip(F, a, r) ==
    IF IsNaN(a) THEN IsNaN(r)
    ELSE IF IsInf(a) \/ IsZero(a) THEN TRUE
    ELSE IF DTopBit(D(a)) > 126 \/ DTopBit(D(a)) < -125 THEN (F.name = "f" \/ Div(F, One, a, r))
    ELSE /\ IsFin(r) /\ r[2] = a[2]
         /\ Within(DMul(D(r), D(a)), <<0, <<1>>, 0>>, IF F.name = "f" THEN <<0, <<1>>, -21>> ELSE <<0, <<1>>, -51>>)

(* signed square root *)
SignedSqrt(F, a, r) ==
    IF IsNaN(a) THEN IsNaN(r)
    ELSE IF IsInf(a) THEN Same(a, r)
    ELSE IF IsZero(a) THEN IsZero(r)
    ELSE /\ r[2] = a[2]
         /\ Sqrt(F, XAbs(a), XAbs(r))

(* The relation by name.  as: sequence of argument values, r: the result.    *)
Allowed(F, op, as, r) ==
    CASE op = "plus"     -> Add(F, as[1], as[2], r)
      [] op = "minus"    -> Sub(F, as[1], as[2], r)
      [] op = "times"    -> Mul(F, as[1], as[2], r)
      [] op = "over"     -> Div(F, as[1], as[2], r)
      [] op = "min"      -> MinV(as[1], as[2], r)
      [] op = "max"      -> MaxV(as[1], as[2], r)
      [] op = "less"     -> Bool(r, Lt(as[1], as[2]))
      [] op = "less_equal"    -> Bool(r, Le(as[1], as[2]))
      [] op = "greater"       -> Bool(r, Lt(as[2], as[1]))
      [] op = "greater_equal" -> Bool(r, Le(as[2], as[1]))
      [] op = "equal"    -> Bool(r, Eq(as[1], as[2]))
      [] op = "notequal" -> Bool(r, ~ Eq(as[1], as[2]))
      [] op = "clip2"    -> Clip2(as[1], as[2], r)
      [] op = "clip"     -> Clip(as[1], as[2], as[3], r)
      [] op = "muladd"   -> MulAdd(F, as[1], as[2], as[3], r)
      [] op = "ampmod"   -> AmpMod(F, as[1], as[2], as[3], r)
      [] op = "mix"      -> Mix(F, as[1], as[2], as[3], as[4], r)
      [] op = "sum"      -> IF Len(as) = 2 THEN Add(F, as[1], as[2], r) ELSE SumN(F, as, r)
      [] op = "abs"      -> Abs(as[1], r)
      [] op = "sgn"      -> Sign(as[1], r)
      [] op = "square"   -> Mul(F, as[1], as[1], r)
      [] op = "cube"     -> Cube(F, as[1], r)
      [] op = "round"    -> Nearest(as[1], r)
      [] op = "frac"     -> Frac(F, as[1], r)
      [] op = "ceil"     -> Ceil(as[1], r)
      [] op = "floor"    -> Floor(as[1], r)
      [] op = "trunc"    -> Trunc(as[1], r)
      [] op = "undenormalize" -> Undenormalize(F, as[1], r)
      [] op = "reciprocal"    -> Recip(F, as[1], r)
      [] op = "softclip"      -> Softclip(F, as[1], r)
      [] op = "signed_sqrt"   -> SignedSqrt(F, as[1], r)
=============================================================================
