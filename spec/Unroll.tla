------------------------------- MODULE Unroll -------------------------------
(* The vector loop behind every elementwise operation, at the level of vector *)
(* loads and stores: detail/unroll_helpers.hpp loads the first vector of each *)
(* argument, then for every vector of an iteration loads the next vector of   *)
(* each argument (not in the last vector of the iteration), computes and      *)
(* stores.  Schedule = "code" is that order; Schedule = "any" permits every   *)
(* order of loads and stores in which a vector is loaded before the vector of *)
(* the same number is stored, up to Ahead vectors ahead.                      *)
(*                                                                           *)
(* Cells are symbolic terms, so that one behaviour stands for all numbers and *)
(* all functions.  Checked, for every choice of argument kinds and every way  *)
(* the arguments share buffers with each other and with the output:           *)
(*   - the loop refines NovaSimd's atomic action Call (C01, C04, C05),        *)
(*   - it reads and writes nothing but the n elements of its ranges (C03).    *)
(* Back # 0 makes aliased inputs overlap the output at another offset: not   *)
(* permitted by the library, and the refinement must fail (a control).        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS VL,           \* elements of a vector
          PER,          \* vectors of an iteration
          ITERS,        \* iterations
          NARGS, NB, Schedule, Ahead, Back

VARIABLES call,         \* the call: destination, offset, arguments
          mem0,         \* memory when the call was made
          mem,          \* memory
          queue,        \* argument -> loaded vectors that are not consumed yet
          pos,          \* argument -> number of vectors loaded
          stored,       \* number of vectors stored
          reads, writes,\* elements that were accessed
          done
vars == <<call, mem0, mem, queue, pos, stored, reads, writes, done>>

N == VL * PER * ITERS
Total == PER * ITERS
Cap == N + 2 * VL
Off == VL                                               \* the range starts behind one vector of other data
Args == 1..NARGS

Kinds == {"p", "s", "r"}
Bufs == 0..(NB - 1)
ArgSet == [k : {"p"}, b : Bufs, o : {Off}] \cup {[k |-> "s", v |-> "c"]} \cup {[k |-> "r", v |-> "b", s |-> "d"]}
Named(i, a) == IF a.k = "p" THEN [a EXCEPT !.o = IF a.b = 0 THEN @ - Back ELSE @]
               ELSE IF a.k = "s" THEN [a EXCEPT !.v = <<"c", i>>] ELSE [a EXCEPT !.v = <<"b", i>>]

Init ==
    /\ \E as \in [Args -> ArgSet] : call = [d |-> 0, o |-> Off, a |-> [i \in Args |-> Named(i, as[i])]]
    /\ mem0 = [b \in 1..NB |-> [i \in 1..Cap |-> <<"m", b, i>>]]
    /\ mem = mem0
    /\ queue = [i \in Args |-> <<>>] /\ pos = [i \in Args |-> 0] /\ stored = 0
    /\ reads = {} /\ writes = {} /\ done = FALSE

(* element e (from 1) of argument a, read now *)
Elem(a, e) == CASE a.k = "p" -> mem[a.b + 1][a.o + e]
                [] a.k = "s" -> a.v
                [] a.k = "r" -> <<"ramp", a.v, a.s, e - 1>>
Load(i) ==
    /\ pos[i] < Total
    /\ LET a == call.a[i]
           es == [j \in 1..VL |-> pos[i] * VL + j]
       IN /\ queue' = [queue EXCEPT ![i] = Append(@, [j \in 1..VL |-> Elem(a, es[j])])]
          /\ reads' = IF a.k = "p" THEN reads \cup {<<a.b, a.o + es[j]>> : j \in 1..VL} ELSE reads
    /\ pos' = [pos EXCEPT ![i] = @ + 1]
    /\ UNCHANGED <<call, mem0, mem, stored, writes, done>>
StoreV ==
    /\ stored < Total
    /\ \A i \in Args : queue[i] # <<>>
    /\ LET r == [j \in 1..VL |-> <<"f", [i \in Args |-> Head(queue[i])[j]]>>]
           base == call.o + stored * VL
       IN /\ mem' = [mem EXCEPT ![call.d + 1] = [e \in 1..Cap |-> IF e > base /\ e <= base + VL THEN r[e - base] ELSE @[e]]]
          /\ writes' = writes \cup {<<call.d, base + j>> : j \in 1..VL}
    /\ queue' = [i \in Args |-> Tail(queue[i])]
    /\ stored' = stored + 1
    /\ UNCHANGED <<call, mem0, pos, reads, done>>

(* the order of the code: within an iteration, vector v + 1 of all arguments  *)
(* is loaded before vector v is stored; the first vector of the next          *)
(* iteration only after the last store of this one                           *)
Want == LET inIter == stored % PER
        IN IF inIter = 0 /\ \E i \in Args : pos[i] = stored THEN stored + 1       \* first loads
           ELSE IF inIter < PER - 1 THEN stored + 2 ELSE stored + 1
CodeNext ==
    LET want == Want
        todo == {i \in Args : pos[i] < want}
    IN IF todo # {} THEN Load(CHOOSE i \in todo : \A k \in todo : i <= k) ELSE StoreV
AnyNext == StoreV \/ \E i \in Args : pos[i] - stored < Ahead /\ Load(i)
Return == stored = Total /\ ~ done /\ done' = TRUE /\ UNCHANGED <<call, mem0, mem, queue, pos, stored, reads, writes>>
Next == (~ done /\ stored < Total /\ IF Schedule = "code" THEN CodeNext ELSE AnyNext) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- refinement ---- *)
SOpOk(op, args, r) == r = <<"f", args>>
SRampCell(b, s, i) == <<"ramp", b, s, i>>
STrue(b, s, n) == TRUE
SUnused3(a, b, c) == FALSE
SUnused4(a, b, c, d) == FALSE
SUnused5(a, b, c, d, e) == FALSE
SUnused2(a, b) == FALSE
SUnused1(a) == FALSE
A == INSTANCE NovaSimd WITH mem <- (IF done THEN mem ELSE mem0), meter <- 0,
        OpOk <- SOpOk, RampCell <- SRampCell, RampExact <- STrue, RampOk <- SUnused4, CurveOk <- SUnused4, RampOpOk <- SUnused5,
        ReduceOk <- SUnused3, PeakOk <- SUnused3, EnergyOk <- SUnused3, MagOk <- SUnused2, IsZeroCell <- SUnused1, ApproxOk <- SUnused3
Result == SubSeq(mem[call.d + 1], call.o + 1, call.o + N)
Atomic == [][A!Call("f", call.d, call.o, call.a, Result)]_(A!nvars)
Terminates == <>done

(* ---- what is touched ---- *)
Touched ==
    /\ \A x \in reads : \E i \in Args : call.a[i].k = "p" /\ x[1] = call.a[i].b /\ x[2] > call.a[i].o /\ x[2] <= call.a[i].o + N
    /\ \A x \in writes : x[1] = call.d /\ x[2] > call.o /\ x[2] <= call.o + N
AllWritten == done => Cardinality(writes) = N
=============================================================================
