------------------------------- MODULE Agree -------------------------------
(* Agreement: the same call, delivered in several ways (processing forms,    *)
(* builds for different instruction sets, one call or several blocks).  Each *)
(* event carries the argument values and the outputs of all ways; the first  *)
(* way is compared with every other one.                                     *)
EXTENDS Math, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, judged

E == Tr[t]
Val(c) == IF Len(c) = 1 THEN Dec32(c[1]) ELSE Dec64(c[1], c[2])

(* where the results are not determined *)
Tie(v) == IsFin(v) /\ IsIntegral(V(DScale(D(v), 1))) /\ ~ IsIntegral(v)
AnyNaN(as) == \E k \in DOMAIN as : IsNaN(as[k])
Loose(op, as) ==
    CASE op = "round" -> Tie(as[1])
      [] op \in {"min", "max"} -> AnyNaN(as)
      [] op = "clip2" -> AnyNaN(as) \/ Sgn(as[2]) = 1
      [] op = "clip" -> AnyNaN(as) \/ Cmp(as[2], as[3]) > 0
      [] op = "sgn" -> IsNaN(as[1])
      [] op = "softclip" -> IsInf(as[1])
      [] OTHER -> FALSE
Composite == {"cube", "muladd", "ampmod", "mix", "sum", "softclip", "reciprocal"}

(* the energy or the sum of the data, and the magnitude that rounding refers to *)
PlusSq(acc, c) == XAdd(acc, XMul(c, c))
PlusAbs(acc, c) == XAdd(acc, XAbs(c))
StateAgree(F, op, data, a, b) ==
    CASE op = "energy" -> Within(D(a), D(b), DMul(DInt(2 * Len(data) + 8), DScale(D(FoldLeft(PlusSq, Zero(0), data)), -F.p)))
      [] op = "hsum" -> Within(D(a), D(b), DMul(DInt(2 * Len(data) + 8), DScale(D(FoldLeft(PlusAbs, Zero(0), data)), -F.p)))
      [] OTHER -> Same(a, b)
ChooseState(F, op, data, a, b) ==
    IF IsFin(a) /\ IsFin(b) THEN StateAgree(F, op, data, a, b) ELSE Same(a, b)

(* op's inexact ramps and exponential fills may differ by the accumulated    *)
(* rounding of i steps                                                        *)
Steps(F, i, a, b, mag) ==
    IsFin(a) /\ IsFin(b) /\ Within(D(a), D(b), DAdd(DMul(DInt(4 * i + 48), DScale(mag, -F.p)), DMul(DInt(i + 40), <<0, <<1>>, F.lsb>>)))
LargestFinite(acc, c) == IF IsFin(c) /\ DCmpAbs(D(c), acc) > 0 THEN DAbs(D(c)) ELSE acc

Predicates == {"less", "less_equal", "greater", "greater_equal", "equal", "notequal"}
Truth(a) == IsZero(a) \/ Same(a, One)
Finite(as) == \A k \in DOMAIN as : IsFin(as[k])
ElementAgree(F, e, i, as, a, b, mags) ==
    IF e.op \in {"peak", "energy", "hmin", "hmax", "hsum"} THEN TRUE
    ELSE IF e.op \in Approximated THEN MathAgree(F, e.op, a, b)
    ELSE IF e.op = "exp" THEN Steps(F, i, a, b, DAbs(D(a)))
    ELSE IF e.exact = 0 /\ e.op \in Predicates THEN Truth(a) /\ Truth(b)       \* the operands may differ a little
    ELSE IF e.exact = 0
         THEN Same(a, b) \/ Loose(e.op, as) \/ ~ Finite(as)
              \/ (e.op \in Composite /\ Allowed(F, e.op, as, a) /\ Allowed(F, e.op, as, b))
              \/ Steps(F, i, a, b, mags)
    ELSE IF e.op \in Composite THEN Same(a, b) \/ Loose(e.op, as) \/ (Allowed(F, e.op, as, a) /\ Allowed(F, e.op, as, b))
    ELSE Same(a, b) \/ Loose(e.op, as)

Values(ty, ws) == [i \in 1..Cnt(ty, ws) |-> Elem(ty, ws, i)]
NoFault(e) == \A k \in DOMAIN e.labels : \A i \in 1..Len(e.labels[k]) : SubSeq(e.labels[k], i, i) # "!"

(* bit-exact operations: identical words *)
BitExact == {"zero", "set", "copy"}

(* the magnitude of the terms of element i, for ramps that are not exact: the *)
(* product or the sum of the largest argument magnitudes so far               *)
Mag(F, e, ins, i) ==
    LET m == [k \in DOMAIN ins |-> FoldLeft(LargestFinite, <<0, <<>>, 0>>, SubSeq(ins[k], 1, i))]
    IN IF Len(m) = 0 THEN <<0, <<1>>, 0>>
       ELSE IF Len(m) = 1 THEN m[1]
       ELSE IF e.op = "times" THEN DMul(m[1], m[2]) ELSE DAdd(m[1], m[2])

Agrees(e) ==
    LET F == Fmt(e.ty)
        ins == [k \in DOMAIN e.ins |-> Values(e.ty, e.ins[k])]
        outs == [k \in DOMAIN e.outs |-> Values(e.ty, e.outs[k])]
        n == Len(outs[1])
    IN /\ NoFault(e)
       /\ \A k \in 2..Len(outs) : e.outs[k] # e.outs[1] =>
            IF e.op \in BitExact THEN FALSE
            ELSE IF e.op \in {"peak", "energy", "hmin", "hmax", "hsum"} THEN ChooseState(F, e.op, ins[1], outs[1][1], outs[k][1])
            ELSE \A i \in 1..n : ElementAgree(F, e, i, [j \in DOMAIN ins |-> ins[j][i]], outs[1][i], outs[k][i], Mag(F, e, ins, i))

(* one step per event, so that TLC's workers share the events *)
Init == t \in 1..Len(Tr) /\ judged = FALSE
Next == ~ judged /\ judged' = TRUE /\ t' = t
Spec == Init /\ [][Next]_<<t, judged>>
AllAgree == judged => Agrees(E)
Report == (judged /\ Agrees(E)) => PrintT(<<"accepted", t>>)
Alias == [session |-> t, judged |-> judged]
=============================================================================
