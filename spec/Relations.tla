------------------------------- MODULE Relations -------------------------------
(* Relations on recorded cells: bit patterns <<w>> for float, <<hi, lo>> for  *)
(* double.  Shared by the trace specifications of buffers and registers.      *)
EXTENDS Math

FmtOf(c) == IF Len(c) = 1 THEN F32 ELSE F64
Val(c) == IF Len(c) = 1 THEN Dec32(c[1]) ELSE Dec64(c[1], c[2])
CellsOf(ty, ws) == IF ty = "f" THEN [i \in 1..Len(ws) |-> <<ws[i]>>]
                   ELSE [i \in 1..(Len(ws) \div 2) |-> <<ws[2*i - 1], ws[2*i]>>]

(* ---- ramps ---- *)
Abs2(a) == IF a < 0 THEN -a ELSE a
Unit(x) == IF x[2] = <<>> THEN 4000 ELSE x[3] + BTZ(x[2])
(* all partial sums base + k*slope, 0 <= k <= n + 16, are representable      *)
TRampExact(b, s, n) ==
    LET x == Val(b)
        y == Val(s)
    IN /\ IsFin(x) /\ IsFin(y)
       /\ LET q == Min2(Unit(D(x)), Unit(D(y)))
              m == DAdd(DAbs(D(x)), DMul(DInt(n + 16), DAbs(D(y))))
          IN q = 4000 \/ (DTopBit(m) <= q + FmtOf(b).p /\ q >= FmtOf(b).lsb)
RampVal(b, s, i) == DAdd(D(Val(b)), DMul(DInt(i), D(Val(s))))
(* ramp values enter operations as exact numbers: encoded as <<0, 0, value>>  *)
TRampCell(b, s, i) == <<0, 0, V(RampVal(b, s, i))>>
CellVal(c) == IF Len(c) = 3 THEN c[3] ELSE Val(c)
TOpOk(op, args, r) == Allowed(FmtOf(r), op, [k \in DOMAIN args |-> CellVal(args[k])], Val(r))

(* i additions, each rounded: i*(|base| + i*|slope|) half units, doubled     *)
RampTol(b, s, i) == DMul(DInt(2 * i + 2), DScale(DAdd(DAbs(D(Val(b))), DMul(DInt(i + 16), DAbs(D(Val(s))))), -FmtOf(b).p))
TRampOk(b, s, i, r) ==
    /\ IsFin(Val(r))
    /\ IF TRampExact(b, s, i + 1) THEN DCmp(D(Val(r)), RampVal(b, s, i)) = 0
       ELSE Within(D(Val(r)), RampVal(b, s, i), RampTol(b, s, i))

(* products, sums and differences with an inexact ramp *)
AV(a, i) == IF a.k = "r" THEN RampVal(a.v, a.s, i) ELSE D(Val(a.v))
AT(a, i) == IF a.k = "r" THEN RampTol(a.v, a.s, i) ELSE <<0, <<>>, 0>>
TRampOpOk(op, args, i, r, z) ==
    LET F == FmtOf(r) IN
    IF \E k \in DOMAIN args : args[k].k = "s" /\ ~ IsFin(Val(args[k].v)) THEN TRUE      \* the driver avoids these
    ELSE LET x == AV(args[1], i)
             y == AV(args[2], i)
             tx == AT(args[1], i)
             ty == AT(args[2], i)
             ex == CASE op = "plus" -> DAdd(x, y) [] op = "minus" -> DSub(x, y) [] op = "times" -> DMul(x, y)
             tol == IF op = "times" THEN DAdd(DMul(DAbs(x), ty), DAdd(DMul(DAbs(y), tx), DMul(tx, ty))) ELSE DAdd(tx, ty)
         IN IF DCmpAbs(ex, NearMax(F)) >= 0 THEN TRUE
            ELSE IsFin(Val(r)) /\ Within(D(Val(r)), ex, DAdd(tol, DAdd(DScale(DAbs(ex), 1 - F.p), <<0, <<1>>, F.lsb>>)))

(* ---- exponential curves ---- *)
RECURSIVE DPow(_, _)
DPow(x, i) == IF i = 0 THEN <<0, <<1>>, 0>>
              ELSE LET h == DPow(x, i \div 2) IN IF i % 2 = 0 THEN DMul(h, h) ELSE DMul(x, DMul(h, h))
TCurveOk(b, c, i, r) ==
    LET F == FmtOf(r)
        ex == DMul(D(Val(b)), DPow(D(Val(c)), i))
        pow2 == Val(c)[3] # <<>> /\ IsPow2(Val(c)[3])
    IN IF ~ (IsFin(Val(b)) /\ IsFin(Val(c))) \/ DCmpAbs(ex, NearMax(F)) >= 0 THEN TRUE
       ELSE IF pow2 /\ (DIsZero(ex) \/ ex[3] >= F.lsb) THEN IsFin(Val(r)) /\ DCmp(D(Val(r)), ex) = 0
       ELSE IsFin(Val(r)) /\ Within(D(Val(r)), ex, DAdd(DMul(DInt(2 * i + 24), DScale(DAbs(ex), -F.p)), DMul(DInt(i + 20), <<0, <<1>>, F.lsb>>)))

(* ---- reductions over the cells of a range (no NaN) ---- *)
Larger(acc, c) == IF Cmp(Val(c), acc) > 0 THEN Val(c) ELSE acc
Smaller(acc, c) == IF Cmp(Val(c), acc) < 0 THEN Val(c) ELSE acc
MaxOf(s) == FoldLeft(Larger, Val(s[1]), s)
MinOf(s) == FoldLeft(Smaller, Val(s[1]), s)
Plus(acc, c) == XAdd(acc, Val(c))
PlusAbs(acc, c) == XAdd(acc, XAbs(Val(c)))
SumOk(s, r) == Close(FmtOf(r), Val(r), FoldLeft(Plus, Zero(0), s), FoldLeft(PlusAbs, Zero(0), s), Len(s) + 2)
TReduceOk(op, s, r) ==
    CASE op = "max" -> Same(Val(r[1]), MaxOf(s))
      [] op = "min" -> Same(Val(r[1]), MinOf(s))
      [] op = "sum" -> SumOk(s, r[1])
      [] op = "minmax" -> Same(Val(r[1]), MinOf(s)) /\ Same(Val(r[2]), MaxOf(s))
      [] op = "maxsum" -> Same(Val(r[1]), MaxOf(s)) /\ SumOk(s, r[2])

LargerAbs(acc, c) == LET a == XAbs(Val(c)) IN IF Cmp(a, acc) > 0 THEN a ELSE acc
TPeakOk(old, s, new) == Same(Val(new), FoldLeft(LargerAbs, Val(old), s))
PlusSq(acc, c) == LET v == Val(c) IN XAdd(acc, XMul(v, v))
TEnergyOk(old, s, new) ==
    LET x == FoldLeft(PlusSq, Val(old), s) IN Close(FmtOf(new), Val(new), x, x, Len(s) + 3)
TMagOk(c, r) == Same(Val(r), XAbs(Val(c)))

(* reference values: pairs of doubles, their sum is the reference *)
Refs(ws) == [i \in 1..(Len(ws) \div 4) |-> <<<<ws[4*i - 3], ws[4*i - 2]>>, <<ws[4*i - 1], ws[4*i]>>>>]
TApproxOk(op, ref, r) ==
    LET hi == Val(ref[1])
        lo == Val(ref[2])
    IN IF ~ IsFin(hi) THEN TRUE                  \* outside of the domain
       ELSE MathOk(FmtOf(r), op, DAdd(D(hi), D(lo)), Val(r))

TIsZero(c) == \A i \in DOMAIN c : c[i] = 0
=============================================================================
