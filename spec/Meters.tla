------------------------------- MODULE Meters -------------------------------
(* The metering loops of simd_peakmeter.hpp at the level of vectors: the      *)
(* state enters lane 0 of an accumulator register (load_first, other lanes    *)
(* zero), vectors are folded in groups of four and singly, the lanes are      *)
(* reduced at the end of the call.  A signal is metered in blocks of any      *)
(* length, each in scalar or SIMD form, with or without the energy.           *)
(* Checked for every signal over Vals and every block history:                *)
(*   - every call refines NovaSimd's Peak_ / PeakRms_ (C14),                  *)
(*   - the meter equals the fold over everything seen so far (C14, C24).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSetsExt, SequencesExt, TLC
CONSTANTS VL, GROUP, LEN, Vals, Starts,
          FirstLaneOnly         \* FALSE: a faulty load_first that fills every lane (a control)

VARIABLES sig, start, seen, meter, ret, run        \* run: the call in progress or None
vars == <<sig, start, seen, meter, ret, run>>
None == [on |-> FALSE, simd |-> FALSE, rms |-> FALSE, n |-> 0, at |-> 0, mx |-> <<>>, sq |-> <<>>, last |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
Width(r) == IF r.simd THEN VL ELSE 1

Init == /\ sig \in [1..LEN -> Vals] /\ start \in Starts /\ meter = start /\ seen = 0 /\ ret = 0 /\ run = None
First(v, w) == [i \in 1..w |-> IF i = 1 THEN v ELSE IF FirstLaneOnly THEN 0 ELSE v]
Begin ==
    /\ ~ run.on /\ seen < LEN
    /\ \E simd, rms \in BOOLEAN, n \in 1..(LEN - seen) :
        /\ simd => n % VL = 0
        /\ LET w == IF simd THEN VL ELSE 1
           IN run' = [on |-> TRUE, simd |-> simd, rms |-> rms, n |-> n, at |-> 0, mx |-> First(meter.peak, w), sq |-> First(meter.energy, w), last |-> 0]
    /\ UNCHANGED <<sig, start, seen, meter, ret>>
Sample(k) == sig[seen + k]
(* folds g vectors starting behind run.at *)
Fold(g) ==
    LET w == Width(run)
        el(i, k) == Sample(run.at + (k - 1) * w + i)
    IN run' = [run EXCEPT !.at = @ + g * w,
                 !.mx = [i \in 1..w |-> MaxI(@[i], Max({AbsI(el(i, k)) : k \in 1..g}))],
                 !.sq = [i \in 1..w |-> @[i] + FoldLeft(+, 0, [k \in 1..g |-> el(i, k) * el(i, k)])],
                 !.last = AbsI(el(w, g))]
Step ==
    /\ run.on /\ run.at < run.n
    /\ Fold(IF run.simd /\ run.n - run.at >= GROUP * VL THEN GROUP ELSE 1)
    /\ UNCHANGED <<sig, start, seen, meter, ret>>
End ==
    /\ run.on /\ run.at = run.n
    /\ meter' = [peak |-> FoldLeft(MaxI, run.mx[1], run.mx), energy |-> IF run.rms THEN FoldLeft(+, 0, run.sq) ELSE meter.energy]
    /\ ret' = IF run.rms THEN ret ELSE run.last
    /\ seen' = seen + run.n
    /\ run' = None
    /\ UNCHANGED <<sig, start>>
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

U1(a) == FALSE
U3(a, b, c) == FALSE
U4(a, b, c, d) == FALSE
U5(a, b, c, d, e) == FALSE
IPeak(old, cells, new) == new = FoldLeft(LAMBDA acc, c : MaxI(acc, AbsI(c)), old, cells)
IEnergy(old, cells, new) == new = FoldLeft(LAMBDA acc, c : acc + c * c, old, cells)
IMag(c, r) == r = AbsI(c)
A == INSTANCE NovaSimd WITH mem <- <<sig>>, OpOk <- U3, RampCell <- U3, RampExact <- U3, RampOk <- U4, CurveOk <- U4, RampOpOk <- U5,
        ReduceOk <- U3, PeakOk <- IPeak, EnergyOk <- IEnergy, MagOk <- IMag, IsZeroCell <- U1, ApproxOk <- U3
EndIsAtomic == [][(run.on /\ ~ run'.on) =>
                    IF run.rms THEN A!PeakRms_(0, seen, run.n, meter'.peak, meter'.energy)
                    ELSE A!Peak_(0, seen, run.n, meter'.peak, ret')]_vars
OnlyEndsChange == [][meter' # meter => run.on /\ ~ run'.on]_vars
PeakSoFar == IPeak(start.peak, SubSeq(sig, 1, seen), meter.peak)
(* every sample is counted at most once; exactly once if all calls metered the energy *)
EnergyBound == meter.energy <= FoldLeft(LAMBDA acc, c : acc + c * c, start.energy, SubSeq(sig, 1, seen))
MVals == {-2, 0, 1}
MStarts == {[peak |-> 0, energy |-> 0], [peak |-> 1, energy |-> 3]}
AllSeen == <>(seen = LEN)
=============================================================================
