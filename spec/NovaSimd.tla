------------------------------ MODULE NovaSimd ------------------------------
(* nova-simd as a state machine.                                             *)
(*                                                                           *)
(* The state is what a user of the library can observe: the contents of the  *)
(* sample buffers and the state of a level meter (the library itself keeps   *)
(* none).  Every public buffer operation is one action, taken when the call  *)
(* returns.  The actions are relations: they are given the values the call   *)
(* delivered and say whether the specification permits them, and how the     *)
(* state changes.  Two kinds of modules use them:                            *)
(*   - generators (cells are small integers, results are computed), which    *)
(*     are model-checked exhaustively and produce behaviours to replay;      *)
(*   - the trace specification (cells are recorded bit patterns), which      *)
(*     validates calls recorded from the real code.                          *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS
    OpOk(_, _, _),          \* OpOk(op, args, r): the elementwise operation op may deliver r
    RampOk(_, _, _, _),     \* RampOk(base, slope, i, r): r is base + i*slope
    CurveOk(_, _, _, _),    \* CurveOk(base, curve, i, r): r is base * curve^i
    RampCell(_, _, _),      \* the value of an exactly representable ramp at i
    RampExact(_, _, _),     \* RampExact(base, slope, n): the first n values are exact
    RampOpOk(_, _, _, _, _),\* RampOpOk(op, args, i, r): operation on inexact ramps
    ReduceOk(_, _, _),      \* ReduceOk(op, cells, r): horizontal reduction
    PeakOk(_, _, _),        \* PeakOk(old, cells, new)
    EnergyOk(_, _, _),      \* EnergyOk(old, cells, new)
    MagOk(_, _),            \* MagOk(cell, r): r is the magnitude of cell
    IsZeroCell(_),
    ApproxOk(_, _, _)       \* ApproxOk(op, ref, r): r approximates the reference value

VARIABLES
    mem,                    \* buffer -> sequence of cells
    meter                   \* [peak, energy] of the level meter

nvars == <<mem, meter>>

Cell(b, o, i) == mem[b + 1][o + i]                \* buffers are numbered from 0, i from 1
Window(b, o, n) == SubSeq(mem[b + 1], o + 1, o + n)
Fits(b, o, n) == b + 1 \in DOMAIN mem /\ o >= 0 /\ n >= 1 /\ o + n <= Len(mem[b + 1])

(* the buffer after the n elements at offset o received vals *)
Splice(s, o, vals) == SubSeq(s, 1, o) \o vals \o SubSeq(s, o + Len(vals) + 1, Len(s))

(* Guards that relate values are evaluated as one boolean, not explored as    *)
(* alternatives of the action.                                               *)
Is(p) == p = TRUE

(* An argument is a buffer (k = "p"), a constant ("s") or a ramp ("r").      *)
ArgAt(a, i) == CASE a.k = "p" -> Cell(a.b, a.o, i)
                 [] a.k = "s" -> a.v
                 [] a.k = "r" -> RampCell(a.v, a.s, i - 1)
ArgFits(a, n) == a.k = "p" => Fits(a.b, a.o, n)
ExactArgs(args, n) == \A k \in DOMAIN args : args[k].k = "r" => RampExact(args[k].v, args[k].s, n)

(* ---------------- elementwise operations ---------------- *)
(* The values are related to the arguments *before* the call: an output      *)
(* buffer that is also an input is covered without further ado (C04).        *)
Elementwise(op, args, vals) ==
    IF ExactArgs(args, Len(vals))
    THEN \A i \in 1..Len(vals) : OpOk(op, [k \in DOMAIN args |-> ArgAt(args[k], i)], vals[i])
    ELSE \A i \in 1..Len(vals) :
            RampOpOk(op, [k \in DOMAIN args |-> IF args[k].k = "r" THEN args[k]
                                                 ELSE [k |-> "s", v |-> ArgAt(args[k], i)]], i - 1, vals[i], 0)

Store(d, o, vals) == mem' = [mem EXCEPT ![d + 1] = Splice(@, o, vals)]

Call(op, d, o, args, vals) ==
    /\ Fits(d, o, Len(vals))
    /\ Is(\A k \in DOMAIN args : ArgFits(args[k], Len(vals)))
    /\ Is(Elementwise(op, args, vals))
    /\ Store(d, o, vals)
    /\ UNCHANGED meter

(* elementary functions: related to reference values, see Math *)
Approx_(op, d, o, args, refs, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Len(refs) = Len(vals)
    /\ Is(\A k \in DOMAIN args : ArgFits(args[k], Len(vals)))
    /\ Is(\A i \in 1..Len(vals) : ApproxOk(op, refs[i], vals[i]))
    /\ Store(d, o, vals)
    /\ UNCHANGED meter

(* ---------------- memory operations ---------------- *)
Zero_(d, o, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Is(\A i \in 1..Len(vals) : IsZeroCell(vals[i]))
    /\ Store(d, o, vals) /\ UNCHANGED meter
Set_(d, o, v, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Is(\A i \in 1..Len(vals) : vals[i] = v)
    /\ Store(d, o, vals) /\ UNCHANGED meter
Slope_(d, o, base, slope, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Is(\A i \in 1..Len(vals) : RampOk(base, slope, i - 1, vals[i]))
    /\ Store(d, o, vals) /\ UNCHANGED meter
Exp_(d, o, base, curve, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Is(\A i \in 1..Len(vals) : CurveOk(base, curve, i - 1, vals[i]))
    /\ Store(d, o, vals) /\ UNCHANGED meter
Copy_(d, o, b, bo, vals) ==
    /\ Fits(d, o, Len(vals)) /\ Fits(b, bo, Len(vals))
    /\ vals = Window(b, bo, Len(vals))                                 \* bit for bit
    /\ Store(d, o, vals) /\ UNCHANGED meter
Add_(d, o, arg, vals) ==                                              \* accumulate
    Call("plus", d, o, <<[k |-> "p", b |-> d, o |-> o], arg>>, vals)

(* ---------------- panning ---------------- *)
Pan_(b, bo, d0, o0, g0, vals0, d1, o1, g1, vals1) ==
    LET n == Len(vals0)
        src == [k |-> "p", b |-> b, o |-> bo]
    IN /\ Len(vals1) = n /\ Fits(b, bo, n) /\ Fits(d0, o0, n) /\ Fits(d1, o1, n) /\ d0 # d1
       /\ Is(Elementwise("times", <<src, g0>>, vals0))
       /\ Is(Elementwise("times", <<src, g1>>, vals1))
       /\ mem' = [mem EXCEPT ![d0 + 1] = Splice(@, o0, vals0), ![d1 + 1] = Splice(@, o1, vals1)]
       /\ UNCHANGED meter

(* ---------------- reductions and meters: buffers are not touched ---------- *)
Reduce_(op, b, o, n, r) ==
    /\ Fits(b, o, n) /\ Is(ReduceOk(op, Window(b, o, n), r))
    /\ UNCHANGED nvars
Peak_(b, o, n, pk, ret) ==
    /\ Fits(b, o, n)
    /\ Is(PeakOk(meter.peak, Window(b, o, n), pk))
    /\ Is(MagOk(Cell(b, o, n), ret))
    /\ meter' = [meter EXCEPT !.peak = pk]
    /\ UNCHANGED mem
PeakRms_(b, o, n, pk, sq) ==
    /\ Fits(b, o, n)
    /\ Is(PeakOk(meter.peak, Window(b, o, n), pk))
    /\ Is(EnergyOk(meter.energy, Window(b, o, n), sq))
    /\ meter' = [peak |-> pk, energy |-> sq]
    /\ UNCHANGED mem

(* ---------------- the environment: the user's own writes ---------------- *)
Load_(b, cells) ==
    /\ Len(cells) = Len(mem[b + 1])
    /\ mem' = [mem EXCEPT ![b + 1] = cells] /\ UNCHANGED meter
MeterReset_(pk, sq) == meter' = [peak |-> pk, energy |-> sq] /\ UNCHANGED mem
=============================================================================
