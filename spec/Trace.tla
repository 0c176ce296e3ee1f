------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded session (a history of calls on the real  *)
(* library, harness/sess.cpp) has to be a behaviour of NovaSimd.             *)
(* Cells are bit patterns: <<w>> for float, <<hi, lo>> for double.           *)
EXTENDS NovaSimd, Relations, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
tvars == <<t, l, mem, meter>>

S  == Tr[t]                               \* the session
E  == S.ev[l]                             \* the next event
Cells(ws) == CellsOf(S.ty, ws)
One1(ws) == Cells(ws)[1]

(* recorded argument -> argument of the specification *)
Arg(a) == CASE a.k = "p" -> [k |-> "p", b |-> a.b, o |-> a.o]
            [] a.k = "s" -> [k |-> "s", v |-> One1(a.v)]
            [] OTHER     -> [k |-> a.k, v |-> One1(a.v), s |-> One1(a.s)]
Args(as) == [k \in 1..Len(as) |-> Arg(as[k])]

Clean == E.stray = 0 /\ E.sig = 0          \* nothing else was modified, no fault (C03)

CallStep ==
    /\ E.e = "call" /\ Clean
    /\ LET vals == Cells(E.out)
           as == Args(E.a)
       IN /\ Len(vals) = E.n
          /\ CASE E.op = "zero"  -> Zero_(E.d, E.o, vals)
               [] E.op = "set"   -> Set_(E.d, E.o, as[1].v, vals)
               [] E.op = "slope" -> Slope_(E.d, E.o, as[1].v, as[1].s, vals)
               [] E.op = "exp" /\ as[1].k = "e" -> Exp_(E.d, E.o, as[1].v, as[1].s, vals)
               [] E.op = "copy"  -> Copy_(E.d, E.o, as[1].b, as[1].o, vals)
               [] E.op = "add"   -> Add_(E.d, E.o, as[1], vals)
               [] E.op \in Approximated -> Approx_(E.op, E.d, E.o, as, Refs(E.ref), vals)
               [] OTHER -> Call(E.op, E.d, E.o, as, vals)
PanStep == E.e = "pan" /\ Clean
    /\ Pan_(E.b, E.o, E.d0, E.o0, Arg(E.g0), Cells(E.out0), E.d1, E.o1, Arg(E.g1), Cells(E.out1))
RedStep == E.e = "red" /\ Clean
    /\ Reduce_(E.op, E.b, E.o, E.n, <<One1(E.r1), One1(E.r2)>>)
PeakStep == E.e = "peak" /\ Clean
    /\ One1(E.sq) = meter.energy
    /\ Peak_(E.b, E.o, E.n, One1(E.pk), One1(E.ret))
RmsStep == E.e = "rms" /\ Clean
    /\ PeakRms_(E.b, E.o, E.n, One1(E.pk), One1(E.sq))
LoadStep == E.e = "load" /\ Load_(E.b, Cells(E.d))
ResetStep == E.e = "mreset" /\ MeterReset_(One1(E.pk), One1(E.sq))

TraceInit ==
    /\ t \in 1..Len(Tr) /\ l = 1
    /\ mem = [b \in 1..Tr[t].nb |-> [i \in 1..Tr[t].cap |-> <<0>>]]
    /\ meter = [peak |-> <<0>>, energy |-> <<0>>]

TraceNext ==
    /\ l <= Len(S.ev) /\ l' = l + 1 /\ t' = t
    /\ CallStep \/ PanStep \/ RedStep \/ PeakStep \/ RmsStep \/ LoadStep \/ ResetStep

Done == l > Len(S.ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Done]_tvars

(* a state with events left and no successor is a rejected call: TLC reports *)
(* it as a deadlock.  The alias shows the rejected event.                    *)
Alias == [session |-> t, event |-> l, rejected |-> IF l <= Len(S.ev) THEN S.ev[l] ELSE "none",
          ty |-> S.ty, cfg |-> S.cfg, meter |-> meter]
(* for the self-test: names the sessions that are accepted to the end *)
Report == l > Len(S.ev) => PrintT(<<"accepted", t>>)
=============================================================================
