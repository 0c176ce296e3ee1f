-------------------------------- MODULE Math --------------------------------
(* Elementary functions.  TLA+ has no transcendental functions, so a result   *)
(* is related to a reference value that travels with the event (the C         *)
(* library's extended precision value as the sum of two doubles); the error   *)
(* bounds are the specification's:                                            *)
(*   single precision: 5e-7 relative (the library's documented bound), scaled *)
(*   by the condition of the function where an intermediate result is         *)
(*   rounded: 1 + |ln result| for powers, the offset for logarithmic units;   *)
(*   sine, cosine and tangent get 1e-9 for the reduction of the argument.     *)
(*   double precision: 1e-14, unit conversions (12-digit constants) 1e-11.    *)
EXTENDS Ops

MathOps == {"sin", "cos", "tan", "asin", "acos", "atan", "tanh", "log", "log2", "log10", "exp1", "pow", "spow"}
UnitOps == {"midi2freq", "freq2midi", "midi2ratio", "ratio2midi", "oct2freq", "freq2oct", "amp2db", "db2amp"}
Approximated == MathOps \cup UnitOps

Abs1(i) == IF i < 0 THEN -i ELSE i
(* an upper bound of 10*(1 + |ln(x / 2^c)|) *)
LnScale(x, c) == DInt(10 + 7 * (Abs1(DTopBit(x) - c) + 1))

(* 10 times the magnitude that the relative bound refers to *)
Scale10(op, ref) ==
    LET m == DAbs(ref)
    IN CASE op \in {"pow", "spow", "midi2ratio", "db2amp"} -> DMul(m, LnScale(m, 0))
         [] op \in {"midi2freq", "oct2freq"} -> DMul(m, LnScale(m, 9))
         [] op = "freq2midi" -> DMul(DInt(10), DAdd(DAbs(DSub(ref, DInt(69))), DInt(69)))
         [] op = "freq2oct"  -> DMul(DInt(10), DAdd(DAbs(DSub(ref, DInt(5))), DInt(5)))
         [] OTHER -> DMul(DInt(10), m)
(* absolute part, in units of 1e-9 *)
Nano(F, op, ref) ==
    IF F.name # "f" THEN <<0, <<>>, 0>>
    ELSE CASE op \in {"sin", "cos"} -> DInt(1)
           [] op = "tan" -> DAdd(DInt(1), DMul(ref, ref))
           [] OTHER -> <<0, <<>>, 0>>
Million == DInt(1000000)
Billion == DInt(1000000000)
(* |d| <= k * bound of op at ref *)
WithinBound(F, op, d, ref, k) ==
    LET lhs == DMul(DAbs(d), DInt(10))
        kk == DInt(k)
        tiny == <<0, <<1>>, F.lsb + 6>>
    IN IF F.name = "f"
       THEN \* 5e-7 * scale + 1e-9 * nano   (both sides times 10^10)
            DCmpAbs(DMul(lhs, Billion),
                    DMul(kk, DAdd(DMul(DInt(500), Scale10(op, ref)), DAdd(DMul(DInt(10), Nano(F, op, ref)), tiny)))) <= 0
       ELSE IF op \in UnitOps
       THEN DCmpAbs(DMul(lhs, DMul(Billion, DInt(100))), DMul(kk, DAdd(Scale10(op, ref), tiny))) <= 0
       ELSE DCmpAbs(DMul(lhs, DMul(Billion, DInt(100000))), DMul(kk, DAdd(Scale10(op, ref), tiny))) <= 0

(* r approximates op's exact value ref (a dyadic) *)
MathOk(F, op, ref, r) == IsFin(r) /\ WithinBound(F, op, DSub(D(r), ref), ref, 1)

(* two results of the same call that may differ by the approximation error *)
MathAgree(F, op, a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b)
    ELSE IF ~ IsFin(a) \/ ~ IsFin(b) THEN Cmp(a, b) = 0
    ELSE WithinBound(F, op, DSub(D(a), D(b)), D(b), 2)
=============================================================================
