-------------------------------- MODULE Gen --------------------------------
(* Behaviours of NovaSimd to be replayed in the real code.  Cells are small   *)
(* integers that stand for halves: cell c is the number c/2.  All numbers     *)
(* that occur are exact in single precision, so the specification determines  *)
(* the result of every call completely; calls whose results are not exact, or *)
(* not determined, are not made.  TLC simulates this module; at the end of a  *)
(* behaviour the program (calls and the state NovaSimd prescribes) is written *)
(* to the file OUT, one line of JSON per behaviour (harness/replay.cpp).      *)
EXTENDS NovaSimd, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLES hist
gvars == <<mem, meter, hist>>

NB == 4
Cap == 64
Grid == 8                                   \* SIMD operands start at multiples of 32 bytes
Block == 16                                 \* lengths of SIMD calls are multiples of the loop size
Limit == 1048576
Deep == 14

(* ---------------- the integers as cells ---------------- *)
Bad == 2 * Limit                            \* "not exact or not determined"
A2(x) == IF x < 0 THEN -x ELSE x
Fit(x) == IF A2(x) > Limit THEN Bad ELSE x
AnyBad(s) == \E i \in DOMAIN s : s[i] = Bad
Prod(a, b) == IF A2(a) = Bad \/ A2(b) = Bad \/ (A2(a) > 30000 /\ A2(b) > 30000) \/ (a * b) % 2 # 0 THEN Bad ELSE Fit((a * b) \div 2)
Plus2(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE Fit(a + b)
Quot(a, b) == IF b = 0 \/ (2 * A2(a)) % A2(b) # 0 THEN Bad
              ELSE LET q == (2 * A2(a)) \div A2(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
T(b) == IF b THEN 2 ELSE 0
FloorI(a) == 2 * (a \div 2)                 \* \div rounds down
ClipI(x, lo, hi) == IF lo > hi THEN Bad ELSE MaxI(lo, MinI(x, hi))
RootI(a) == LET k == {j \in 0..64 : j * j = 2 * A2(a)} IN IF k = {} THEN Bad ELSE (IF a < 0 THEN -1 ELSE 1) * Min(k)

Value(op, a) ==
    CASE op = "plus" -> Plus2(a[1], a[2])
      [] op = "minus" -> Fit(a[1] - a[2])
      [] op = "times" -> Prod(a[1], a[2])
      [] op = "over" -> Quot(a[1], a[2])
      [] op = "min" -> MinI(a[1], a[2])
      [] op = "max" -> MaxI(a[1], a[2])
      [] op = "less" -> T(a[1] < a[2])
      [] op = "less_equal" -> T(a[1] <= a[2])
      [] op = "greater" -> T(a[1] > a[2])
      [] op = "greater_equal" -> T(a[1] >= a[2])
      [] op = "equal" -> T(a[1] = a[2])
      [] op = "notequal" -> T(a[1] # a[2])
      [] op = "clip2" -> ClipI(a[1], -a[2], a[2])
      [] op = "clip" -> ClipI(a[1], a[2], a[3])
      [] op = "muladd" -> Plus2(Prod(a[1], a[2]), a[3])
      [] op = "ampmod" -> Prod(a[1], Plus2(2, Prod(a[2], a[3])))
      [] op = "mix" -> Plus2(Prod(a[1], a[2]), Prod(a[3], a[4]))
      [] op = "sum" -> IF A2(FoldLeft(+, 0, a)) > Limit THEN Bad ELSE FoldLeft(+, 0, a)
      [] op = "abs" -> A2(a[1])
      [] op = "sgn" -> IF a[1] < 0 THEN -2 ELSE IF a[1] > 0 THEN 2 ELSE 0
      [] op = "square" -> Prod(a[1], a[1])
      [] op = "cube" -> Prod(Prod(a[1], a[1]), a[1])
      [] op = "round" -> IF a[1] % 2 = 0 THEN a[1] ELSE Bad
      [] op = "frac" -> a[1] % 2
      [] op = "ceil" -> FloorI(a[1] + 1)
      [] op = "floor" -> FloorI(a[1])
      [] op = "trunc" -> IF a[1] < 0 THEN -FloorI(-a[1]) ELSE FloorI(a[1])
      [] op = "undenormalize" -> a[1]
      [] op = "signed_sqrt" -> RootI(a[1])
      [] op = "softclip" -> IF A2(a[1]) <= 1 THEN a[1] ELSE Bad

(* the relations NovaSimd is parameterised with *)
IOpOk(op, args, r) == r = Value(op, args)
IRampCell(b, s, i) == b + i * s
IRampExact(b, s, n) == TRUE
IRampOk(b, s, i, r) == r = b + i * s
RECURSIVE ICurve(_, _, _)
ICurve(b, c, i) == IF i = 0 THEN b ELSE Prod(ICurve(b, c, i - 1), c)
ICurveOk(b, c, i, r) == r = ICurve(b, c, i)
IRampOpOk(op, args, i, r, z) == FALSE
SumI(s) == FoldLeft(+, 0, s)
MaxS(s) == FoldLeft(MaxI, s[1], s)
MinS(s) == FoldLeft(MinI, s[1], s)
IReduceOk(op, s, r) ==
    CASE op = "max" -> r[1] = MaxS(s)
      [] op = "min" -> r[1] = MinS(s)
      [] op = "sum" -> r[1] = SumI(s)
      [] op = "minmax" -> r[1] = MinS(s) /\ r[2] = MaxS(s)
      [] op = "maxsum" -> r[1] = MaxS(s) /\ r[2] = SumI(s)
PeakV(old, s) == FoldLeft(LAMBDA acc, c : MaxI(acc, A2(c)), old, s)
EnergyV(old, s) == FoldLeft(LAMBDA acc, c : Plus2(acc, Prod(c, c)), old, s)
IPeakOk(old, s, new) == new = PeakV(old, s)
IEnergyOk(old, s, new) == new = EnergyV(old, s)
IMagOk(c, r) == r = A2(c)
IZero(c) == c = 0
IApprox(op, ref, r) == FALSE

(* ---------------- random choices ---------------- *)
(* A successor is drawn, not enumerated: Pick(S) is one element of S.         *)
Pick(S) == {RandomElement(S)}

Wanted == LET w == IOEnv.WANT IN w                    \* a list of names, separated by commas
Has(name) ==                                          \* name occurs in the list
    LET s == "," \o Wanted \o ","
        x == "," \o name \o ","
    IN \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
Unary == {"abs", "sgn", "square", "cube", "round", "frac", "ceil", "floor", "trunc", "undenormalize", "signed_sqrt", "softclip"}
Binary == {"plus", "minus", "times", "over", "min", "max", "less", "less_equal", "greater", "greater_equal", "equal", "notequal", "clip2", "sum"}
Ternary == {"clip", "muladd", "ampmod", "sum"}
Quaternary == {"mix", "sum"}
AllOps == {o \in (Unary \X {1}) \cup (Binary \X {2}) \cup (Ternary \X {3}) \cup (Quaternary \X {4}) : Has(o[1])}
Events == {e \in {"zero", "set", "slope", "exp", "copy", "add", "pan", "red", "meter"} : Has(e)} \cup (IF AllOps # {} THEN {"op", "op2"} ELSE {})
Kinds(n) == CASE n = 1 -> {"p"}
              [] n = 2 -> {"pp", "ps", "sp", "pr", "rp", "ss", "sr", "rs", "rr"}
              [] n = 3 -> {"ppp", "pss", "pps", "psp", "prr", "ppr", "prp", "psr", "prs", "spp", "rpp", "ssp", "rrr", "srp", "rsp"}
              [] n = 4 -> {"pppp", "psps", "prpr", "pspr", "prps", "ppps", "pppr", "sprp", "rspp", "ppsr"}
Small == {-6, -4, -2, 0, 2, 4, 6, 8, 1, -3}
Mild == {-2, 0, 2, 4, 1}

(* forms: v scalar, s SIMD run-time length, c SIMD compile-time length        *)
CtOps(ks) == IF \A i \in 1..Len(ks) : SubSeq(ks, i, i) = "p" THEN {16, 48, 64} ELSE {32, 64}      \* instantiated lengths
CtMem == {16, 48}
LengthsOf(f, ct) == IF f = "v" THEN 1..Cap ELSE IF f = "c" THEN ct ELSE {Block * k : k \in 1..(Cap \div Block)}
Offsets(f, n) == IF f = "v" THEN 0..(Cap - n) ELSE {x \in 0..(Cap - n) : x % Grid = 0}
(* the argument keeps TLC from taking these for constants, which would be drawn once *)
Contents(x) ==
    CASE RandomElement(1..8) = 1 -> [i \in 1..Cap |-> x + RandomElement(-9..9)]
      [] RandomElement(1..7) = 1 -> [i \in 1..Cap |-> x + 2 * i]
      [] RandomElement(1..6) = 1 -> [i \in 1..Cap |-> x + 2 * (i % 7) - 6]
      [] RandomElement(1..5) = 1 -> [i \in 1..Cap |-> x - i - 3]
      [] RandomElement(1..4) = 1 -> [i \in 1..Cap |-> x + RandomElement({-2, 0, 2})]
      [] OTHER -> [i \in 1..Cap |-> x + 2 * RandomElement({-20, -3, -2, -1, 0, 1, 2, 3, 4, 5, 50})]
Rec(r) == hist' = Append(hist, r)
Reload == \E b \in Pick(0..(NB - 1)) : \E s \in {Contents(0 * Len(hist))} : Load_(b, s) /\ Rec([e |-> "load", b |-> b, d |-> s])
Bounded(s) == \A i \in DOMAIN s : s[i] # Bad

(* an argument for a call of n elements with output (d, o): the output range  *)
(* itself, or a range of another buffer                                      *)
RandArg(k, d, o, f, n) ==
    CASE k = "p" -> IF RandomElement(1..10) <= 4 THEN [k |-> "p", b |-> d, o |-> o]
                    ELSE [k |-> "p", b |-> RandomElement((0..(NB - 1)) \ {d}), o |-> RandomElement(Offsets(f, n))]
      [] k = "s" -> [k |-> "s", v |-> RandomElement(Small)]
      [] k = "r" -> [k |-> "r", v |-> RandomElement(Small), s |-> RandomElement(Mild)]
Char(s, i) == SubSeq(s, i, i)

OpEvent ==
    \E x \in Pick(AllOps) : \E f \in Pick({"v", "s", "c"}) : \E ks \in Pick(Kinds(x[2])) : \E n \in Pick(LengthsOf(f, CtOps(ks))) :
    \E d \in Pick(0..(NB - 1)) : \E o \in Pick(Offsets(f, n)) :
    \E as \in {[k \in 1..x[2] |-> RandArg(Char(ks, k), d, o, f, n)]} :
    LET vals == [i \in 1..n |-> Value(x[1], [k \in 1..x[2] |-> ArgAt(as[k], i)])]
    IN IF Bounded(vals)
       THEN Call(x[1], d, o, as, vals) /\ Rec([e |-> "call", op |-> x[1], f |-> f, n |-> n, d |-> d, o |-> o, a |-> as, out |-> vals])
       ELSE Reload
FillEvent(op) ==
    \E f \in Pick({"v", "s", "c"}) : \E n \in Pick(LengthsOf(f, CtMem)) : \E d \in Pick(0..(NB - 1)) : \E o \in Pick(Offsets(f, n)) :
    \E v \in Pick(Small) : \E s \in Pick(Mild) : \E c \in Pick({2, -2, 4}) :
    LET vals == [i \in 1..n |-> CASE op = "zero" -> 0 [] op = "set" -> v [] op = "slope" -> v + (i - 1) * s [] op = "exp" -> ICurve(v, c, i - 1)]
        ev(as) == [e |-> "call", op |-> op, f |-> f, n |-> n, d |-> d, o |-> o, a |-> as, out |-> vals]
    IN IF ~ Bounded(vals) \/ (f = "c" /\ op \in {"slope", "exp"}) THEN Reload
       ELSE CASE op = "zero" -> Zero_(d, o, vals) /\ Rec(ev(<<>>))
              [] op = "set" -> Set_(d, o, v, vals) /\ Rec(ev(<<[k |-> "s", v |-> v]>>))
              [] op = "slope" -> Slope_(d, o, v, s, vals) /\ Rec(ev(<<[k |-> "r", v |-> v, s |-> s]>>))
              [] op = "exp" -> Exp_(d, o, v, c, vals) /\ Rec(ev(<<[k |-> "e", v |-> v, s |-> c]>>))
CopyEvent ==                               \* x, y, u: source, destination, both at any element
    \E f \in Pick({"v", "s", "c", "x", "y", "u"}) : \E n \in Pick(LengthsOf(f, CtMem)) : \E d \in Pick(0..(NB - 1)) :
    \E b \in Pick((0..(NB - 1)) \ {d}) :
    \E o \in Pick(Offsets(IF f \in {"y", "u"} THEN "v" ELSE f, n)) : \E bo \in Pick(Offsets(IF f \in {"x", "u"} THEN "v" ELSE f, n)) :
    LET vals == Window(b, bo, n)
    IN Copy_(d, o, b, bo, vals) /\ Rec([e |-> "call", op |-> "copy", f |-> f, n |-> n, d |-> d, o |-> o, a |-> <<[k |-> "p", b |-> b, o |-> bo]>>, out |-> vals])
AddEvent ==
    \E f \in Pick({"v", "s", "c"}) : \E k \in Pick({"p", "s", "r"}) : \E n \in Pick(LengthsOf(f, CtMem)) :
    \E d \in Pick(0..(NB - 1)) : \E o \in Pick(Offsets(f, n)) : \E a \in {RandArg(k, d, o, f, n)} :
    LET vals == [i \in 1..n |-> Plus2(Cell(d, o, i), ArgAt(a, i))]
    IN IF Bounded(vals) THEN Add_(d, o, a, vals) /\ Rec([e |-> "call", op |-> "add", f |-> f, n |-> n, d |-> d, o |-> o, a |-> <<a>>, out |-> vals])
       ELSE Reload
PanEvent ==
    \E f \in Pick({"v", "s", "c"}) : \E n \in Pick(LengthsOf(f, {16, 32})) :
    \E bs \in Pick({q \in (0..(NB - 1)) \X (0..(NB - 1)) \X (0..(NB - 1)) : q[2] # q[3]}) : \E kind \in Pick({"s", "r"}) :
    \E o \in Pick(Offsets(f, n)) : \E x0 \in Pick(Offsets(f, n)) : \E x1 \in Pick(Offsets(f, n)) :
    \E g0 \in {RandArg(kind, 0, 0, f, n)} : \E g1 \in {RandArg(kind, 0, 0, f, n)} :
    LET o0 == IF bs[2] = bs[1] THEN o ELSE x0
        o1 == IF bs[3] = bs[1] THEN o ELSE x1
        v0 == [i \in 1..n |-> Prod(Cell(bs[1], o, i), ArgAt(g0, i))]
        v1 == [i \in 1..n |-> Prod(Cell(bs[1], o, i), ArgAt(g1, i))]
    IN IF Bounded(v0) /\ Bounded(v1)
       THEN Pan_(bs[1], o, bs[2], o0, g0, v0, bs[3], o1, g1, v1)
            /\ Rec([e |-> "pan", f |-> f, n |-> n, b |-> bs[1], o |-> o, d0 |-> bs[2], o0 |-> o0, g0 |-> g0, out0 |-> v0, d1 |-> bs[3], o1 |-> o1, g1 |-> g1, out1 |-> v1])
       ELSE Reload
RedEvent ==
    \E f \in Pick({"v", "s"}) : \E op \in Pick({"max", "min", "sum", "minmax", "maxsum"}) : \E n \in Pick(LengthsOf(f, CtMem)) :
    \E b \in Pick(0..(NB - 1)) : \E o \in Pick(Offsets(f, n)) :
    LET s == Window(b, o, n)
        r == CASE op = "max" -> <<MaxS(s), 0>> [] op = "min" -> <<MinS(s), 0>> [] op = "sum" -> <<SumI(s), 0>>
               [] op = "minmax" -> <<MinS(s), MaxS(s)>> [] op = "maxsum" -> <<MaxS(s), SumI(s)>>
    IN IF FoldLeft(LAMBDA acc, c : acc + A2(c), 0, s) > Limit THEN Reload
       ELSE Reduce_(op, b, o, n, r) /\ Rec([e |-> "red", op |-> op, f |-> f, n |-> n, b |-> b, o |-> o, r |-> r])
MeterEvent ==
    \E f \in Pick({"v", "s"}) : \E rms \in Pick(BOOLEAN) : \E n \in Pick(LengthsOf(f, CtMem)) : \E b \in Pick(0..(NB - 1)) : \E o \in Pick(Offsets(f, n)) :
    LET s == Window(b, o, n)
        pk == PeakV(meter.peak, s)
        sq == EnergyV(meter.energy, s)
    IN IF rms /\ sq = Bad THEN (MeterReset_(0, 0) /\ Rec([e |-> "mreset", pk |-> 0, sq |-> 0]))
       ELSE IF rms THEN PeakRms_(b, o, n, pk, sq) /\ Rec([e |-> "rms", f |-> f, n |-> n, b |-> b, o |-> o, pk |-> pk, sq |-> sq])
       ELSE Peak_(b, o, n, pk, A2(s[n])) /\ Rec([e |-> "peak", f |-> f, n |-> n, b |-> b, o |-> o, pk |-> pk, sq |-> meter.energy, ret |-> A2(s[n])])

GInit == /\ mem \in {[b \in 1..NB |-> [i \in 1..Cap |-> 2 * b]]}
         /\ meter = [peak |-> 0, energy |-> 0] /\ hist = <<>>
Event ==
    \E e \in Pick(Events) :
        CASE e \in {"op", "op2"} -> OpEvent
          [] e \in {"zero", "set", "slope", "exp"} -> FillEvent(e)
          [] e = "copy" -> CopyEvent
          [] e = "add" -> AddEvent
          [] e = "pan" -> PanEvent
          [] e = "red" -> RedEvent
          [] e = "meter" -> MeterEvent
Write == Len(hist) = NB + Deep
         /\ Serialize(ToJson(hist) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
         /\ hist' = Append(hist, [e |-> "end"]) /\ UNCHANGED nvars
GNext == IF Len(hist) < NB THEN \E s \in {Contents(0 * Len(hist))} : Load_(Len(hist), s) /\ Rec([e |-> "load", b |-> Len(hist), d |-> s])
         ELSE IF Len(hist) < NB + Deep THEN Event \/ (RandomElement(1..5) = 1 /\ Reload)
         ELSE Write
GSpec == GInit /\ [][GNext]_gvars
(* nothing but the buffers and the meter, and always within the exact range *)
InRange == \A b \in 1..NB : Len(mem[b]) = Cap /\ \A i \in 1..Cap : A2(mem[b][i]) <= Limit
=============================================================================
