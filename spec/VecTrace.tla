------------------------------ MODULE VecTrace ------------------------------
(* Trace validation of the vector classes: every recorded session of the      *)
(* register machine (harness/vecops.cpp) has to be a behaviour of VecMachine. *)
EXTENDS VecMachine, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
tvars == <<t, l, regs, ram>>

S == Tr[t]
E == S.ev[l]
Cells(ws) == CellsOf(S.ty, ws)
One1(ws) == Cells(ws)[1]

(* an operand is a register or a scalar *)
Operand(a) == IF a.r >= 0 THEN Reg(a.r) ELSE LET v == One1(a.v) IN [i \in 1..Lanes |-> v]
Operands == [k \in 1..Len(E.a) |-> Operand(E.a[k])]
Clean == E.stray = 0 /\ E.sig = 0                  \* no other register, no memory, no fault

PokeStep == E.e = "poke" /\ ram' = Cells(E.d) /\ UNCHANGED regs
IoStep ==
    /\ E.e = "io" /\ Clean
    /\ CASE E.op \in {"load", "load_aligned"} -> Load(E.d, E.m, Cells(E.out))
         [] E.op = "load_first" -> LoadFirst(E.d, E.m, Cells(E.out))
         [] E.op \in {"store", "store_aligned", "store_aligned_stream"} -> Store(E.d, E.m, Cells(E.out))
         [] E.op \in {"set_vec", "ctor", "ctorf"} -> Broadcast(E.d, One1(E.v), Cells(E.out))
         [] E.op = "clear" -> Clear(E.d, Cells(E.out))
         [] E.op \in {"copy", "assign", "native"} -> Copy(E.d, E.m, Cells(E.out))
         [] E.op = "get" -> Get(E.d, E.m, One1(E.ret))
         [] E.op = "set" -> SetLane(E.d, E.m, One1(E.v), Cells(E.out))
         [] E.op = "set_slope" -> SetSlope(E.d, One1(E.v), One1(E.s), Cells(E.out), One1(E.ret))
         [] E.op = "set_exp" -> SetExp(E.d, One1(E.v), One1(E.s), Cells(E.out), One1(E.ret))
         [] E.op = "is_aligned" -> E.q = (IF E.m % Lanes = 0 THEN 1 ELSE 0) /\ UNCHANGED vvars
         [] OTHER -> Wide(E.d, Cells(E.out)) /\ Yes(\A i \in 1..Lanes : Cells(E.out)[i] = ConstBits(E.op, S.ty)) /\ Put(E.d, Cells(E.out))
LaneStep ==
    /\ E.e = "lane" /\ Clean
    /\ Lanewise(E.d, LAMBDA as, r : LaneOk(E.op, as, r), Operands, Cells(E.out))
    /\ E.op = "collect" => E.q = Lanes             \* once per lane
IntStep ==
    /\ E.e = "int" /\ Clean
    /\ Lanewise(E.d, LAMBDA as, r : IntOk(E.op, E.q, as, r), Operands, Cells(E.out))
MathStep ==
    /\ E.e = "math" /\ Clean
    /\ LET out == Cells(E.out)
           refs == Refs(E.ref)
       IN /\ Wide(E.d, out) /\ Len(refs) = Lanes
          /\ Yes(\A i \in 1..Lanes : TApproxOk(E.op, refs[i], out[i]))
          /\ Put(E.d, out)
HorStep == E.e = "hor" /\ Clean /\ Horizontal(E.op, E.d, One1(E.ret))

TraceInit ==
    /\ t \in 1..Len(Tr) /\ l = 1
    /\ regs = [r \in 1..Len(Tr[t].regs) |-> CellsOf(Tr[t].ty, Tr[t].regs[r])]
    /\ ram = CellsOf(Tr[t].ty, Tr[t].mem)
TraceNext ==
    /\ l <= Len(S.ev) /\ l' = l + 1 /\ t' = t
    /\ PokeStep \/ IoStep \/ LaneStep \/ IntStep \/ MathStep \/ HorStep
Done == l > Len(S.ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Done]_tvars
Alias == [session |-> t, event |-> l, rejected |-> IF l <= Len(S.ev) THEN S.ev[l] ELSE "none", ty |-> S.ty, cfg |-> S.cfg]
(* for the self-test: names the sessions that are accepted to the end *)
Report == l > Len(S.ev) => PrintT(<<"accepted", t>>)
=============================================================================
