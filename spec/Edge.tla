-------------------------------- MODULE Edge --------------------------------
(* The elementary functions at and beyond the edges of their domains.  One    *)
(* event is one call on a short buffer together with                          *)
(*   neg    the results of the same call on the negated (first) argument,     *)
(*   alone  the result each element gives in a buffer that holds nothing else.*)
(* Where the library documents a saturation (single precision SIMD forms) the *)
(* result is exact; the scalar and double forms follow the C library.         *)
EXTENDS Relations, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<t, l>>

S == Tr[t]
E == S.ev[l]
Cells(ws) == CellsOf(E.ty, ws)

Approximation == E.ty = "f" /\ E.simd = 1
Largest(F) == IF F.name = "f" THEN Dec32(2139095039) ELSE Dec64(2146435071, -1)
Smallest(F) == IF F.name = "f" THEN Dec32(8388608) ELSE Dec64(1048576, 0)        \* normal
N(k) == V(DInt(k))
IsOne(x) == Cmp(x, V(DInt(1))) = 0
NonNeg(x) == ~ IsNaN(x) /\ ~ Lt(x, Zero(0))

(* the exponential: overflow threshold between two neighbouring floats,       *)
(* 0x1.62e42ep6 is the largest argument with a finite result                  *)
ExpTop == Dec32(1118925335)
ExpOk(F, x, r) ==
    IF IsNaN(x) THEN IsNaN(r)
    ELSE IF Approximation
    THEN IF Lt(ExpTop, x) THEN Same(r, Largest(F))
         ELSE IF Lt(x, N(-88)) THEN IsZero(r)
         ELSE IF Lt(x, N(-87)) THEN NonNeg(r) /\ Lt(r, Dec32(16777216))        \* fades out: below 2^-125
         ELSE IsFin(r) /\ Lt(Zero(0), r)
    ELSE IF IsInf(x) THEN IF Lt(x, Zero(0)) THEN IsZero(r) ELSE IsInf(r) /\ NonNeg(r)
    ELSE IF F.name = "f"
    THEN IF Lt(N(89), x) THEN IsInf(r) ELSE IF Lt(x, N(-104)) THEN IsZero(r) ELSE NonNeg(r)
    ELSE IF Lt(N(710), x) THEN IsInf(r) ELSE IF Lt(x, N(-746)) THEN IsZero(r) ELSE NonNeg(r)

TanhOk(F, x, r) ==
    IF IsNaN(x) THEN TRUE
    ELSE /\ ~ IsNaN(r) /\ Le(XAbs(r), N(1))
         /\ Lt(N(22), XAbs(x)) => IsOne(XAbs(r)) /\ Lt(x, Zero(0)) = Lt(r, Zero(0))
         /\ ~ IsZero(x) /\ ~ IsZero(r) => Lt(x, Zero(0)) = Lt(r, Zero(0))

(* inverse circular functions; bounds: pi/2 and pi, rounded up *)
ArcOk(F, op, x, r) ==
    IF IsNaN(x) THEN TRUE
    ELSE IF Lt(N(1), XAbs(x)) THEN IF Approximation THEN IsZero(r) ELSE IsNaN(r)
    ELSE /\ IsFin(r)
         /\ IF op = "asin" THEN Le(XAbs(r), Dec32(1070141403)) /\ (~ IsZero(r) => Lt(x, Zero(0)) = Lt(r, Zero(0)))
            ELSE NonNeg(r) /\ Le(r, Dec32(1078530011))
AtanOk(F, x, r) ==
    IF IsNaN(x) THEN TRUE
    ELSE /\ IsFin(r) /\ Le(XAbs(r), Dec32(1070141403))
         /\ IsInf(x) => Within(D(XAbs(r)), D(Dec32(1070141403)), <<0, <<1>>, -23>>)

(* powers *)
PowOk(F, op, x, y, r) ==
    IF IsNaN(x) \/ IsNaN(y) \/ ~ IsFin(x) \/ ~ IsFin(y) THEN TRUE
    ELSE IF IsZero(x) THEN Lt(Zero(0), y) => IsZero(r)
    ELSE IF op = "pow" /\ Lt(x, Zero(0)) THEN TRUE
    ELSE IF Lt(XAbs(x), Smallest(F)) THEN TRUE
    ELSE /\ ~ IsNaN(r) /\ (~ IsZero(r) => Lt(x, Zero(0)) = Lt(r, Zero(0)))
         /\ Approximation => IsFin(r)

Odd == {"sin", "tan", "asin", "atan", "tanh", "signed_sqrt", "spow"}
Even == {"cos"}
(* bit-exact symmetry; a NaN result says nothing *)
SymmetryOk(op, r, m) ==
    IF op \notin Odd \cup Even THEN TRUE
    ELSE IF IsNaN(r) \/ IsNaN(m) THEN IsNaN(r) /\ IsNaN(m)
    ELSE IF op \in Odd THEN Same(m, Neg(r))
    ELSE Same(m, r)

ElementOk(i) ==
    LET c == Cells(E.x)[i]
        F == FmtOf(c)
        x == Val(c)
        r == Val(Cells(E.out)[i])
        m == Val(Cells(E.neg)[i])
        y == IF Len(E.y) = 0 THEN x ELSE Val(Cells(E.y)[i])
    IN /\ CASE E.op = "exp1" -> ExpOk(F, x, r)
            [] E.op = "tanh" -> TanhOk(F, x, r)
            [] E.op \in {"asin", "acos"} -> ArcOk(F, E.op, x, r)
            [] E.op = "atan" -> AtanOk(F, x, r)
            [] E.op \in {"pow", "spow"} -> PowOk(F, E.op, x, y, r)
            [] OTHER -> TRUE
       /\ ~ IsNaN(x) /\ (Len(E.y) = 0 \/ ~ (IsZero(x) /\ ~ Lt(Zero(0), y))) => SymmetryOk(E.op, r, m)
       /\ Same(Val(Cells(E.alone)[i]), r)                     \* the neighbours do not matter

TraceInit == t \in 1..Len(Tr) /\ l = 1
TraceNext ==
    /\ l <= Len(S.ev) /\ l' = l + 1 /\ t' = t
    /\ E.sig = 0 /\ E.stray = 0
    /\ (\A i \in 1..E.n : ElementOk(i)) = TRUE
Done == l > Len(S.ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Done]_tvars
Alias == [session |-> t, event |-> l, rejected |-> IF l <= Len(S.ev) THEN S.ev[l] ELSE "none"]
(* for the self-test: names the sessions that are accepted to the end *)
Report == l > Len(S.ev) => PrintT(<<"accepted", t>>)
=============================================================================
