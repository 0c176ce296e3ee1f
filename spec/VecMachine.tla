----------------------------- MODULE VecMachine -----------------------------
(* The vector classes as a register machine.  The state is a file of vector   *)
(* registers (sequences of lanes) and a memory of scalars; lanes and memory   *)
(* cells are bit patterns (<<w>> float, <<hi, lo>> double).  One action per   *)
(* instruction; the instruction is given what the real code delivered and the *)
(* action says whether the specification permits it.                          *)
EXTENDS Relations, Bitwise

VARIABLES regs, ram
vvars == <<regs, ram>>

Reg(r) == regs[r + 1]                              \* registers and cells are numbered from 0
Lanes == Len(regs[1])
Wide(r, lanes) == Len(lanes) = Len(regs[r + 1])

Put(d, lanes) == regs' = [regs EXCEPT ![d + 1] = lanes] /\ UNCHANGED ram
Yes(p) == p = TRUE                                 \* evaluated as a value, not explored

ZeroBits(c) == \A i \in DOMAIN c : c[i] = 0
OneBits(c)  == \A i \in DOMAIN c : c[i] = -1
SetBits(c, on) == IF on THEN OneBits(c) ELSE ZeroBits(c)

(* ---- 32-bit words as two halves: TLC's integers must not overflow ---- *)
Lo(w) == w % 65536
Hi(w) == ((w - Lo(w)) \div 65536) % 65536
Word(w, h, l) == Hi(w) = h /\ Lo(w) = l            \* w consists of these halves
BitAnd(a, b, r) == Word(r, Hi(a) & Hi(b), Lo(a) & Lo(b))
BitOr(a, b, r)  == Word(r, Hi(a) | Hi(b), Lo(a) | Lo(b))
BitXor(a, b, r) == Word(r, Hi(a) ^^ Hi(b), Lo(a) ^^ Lo(b))
BitAndNot(a, b, r) == Word(r, (65535 - Hi(a)) & Hi(b), (65535 - Lo(a)) & Lo(b))      \* ~a & b
IAdd(a, b, r) == LET s == Lo(a) + Lo(b) IN Word(r, (Hi(a) + Hi(b) + s \div 65536) % 65536, s % 65536)
ISub(a, b, r) == LET s == Lo(a) - Lo(b) + 65536 IN Word(r, (Hi(a) - Hi(b) + 65535 + s \div 65536) % 65536, s % 65536)
(* logical shifts by k bits; a number of 32 bits and more is not used *)
ShlOk(a, k, r) == IF k >= 16 THEN Word(r, (Lo(a) % Pow2(32 - k)) * Pow2(k - 16), 0)
                  ELSE Word(r, (Hi(a) % Pow2(16 - k)) * Pow2(k) + Lo(a) \div Pow2(16 - k), (Lo(a) % Pow2(16 - k)) * Pow2(k))
ShrOk(a, k, r) == IF k >= 16 THEN Word(r, 0, Hi(a) \div Pow2(k - 16))
                  ELSE Word(r, Hi(a) \div Pow2(k), (Hi(a) % Pow2(k)) * Pow2(16 - k) + Lo(a) \div Pow2(k))
IntOf(w) == <<"n", IF w < 0 THEN 1 ELSE 0,                                             \* the value of an integer lane
              IF w >= 0 THEN BOfNat(w) ELSE IF w = -2147483647 - 1 THEN BShl(<<1>>, 31) ELSE BOfNat(-w), 0>>

(* ---- io and lane access: bit patterns move unchanged ---- *)
Load(d, m, out) == m + Lanes <= Len(ram) /\ out = SubSeq(ram, m + 1, m + Lanes) /\ Put(d, out)
LoadFirst(d, m, out) ==
    /\ Wide(d, out) /\ out[1] = ram[m + 1]
    /\ Yes(\A i \in 2..Lanes : ZeroBits(out[i]))
    /\ Put(d, out)
Store(r, m, out) ==
    /\ m + Lanes <= Len(ram) /\ out = Reg(r)
    /\ ram' = SubSeq(ram, 1, m) \o out \o SubSeq(ram, m + Lanes + 1, Len(ram))
    /\ UNCHANGED regs
Broadcast(d, v, out) == Wide(d, out) /\ Yes(\A i \in DOMAIN out : out[i] = v) /\ Put(d, out)
Clear(d, out) == Wide(d, out) /\ Yes(\A i \in DOMAIN out : ZeroBits(out[i])) /\ Put(d, out)
Copy(d, r, out) == out = Reg(r) /\ Put(d, out)
Get(r, k, ret) == ret = Reg(r)[k + 1] /\ UNCHANGED vvars
SetLane(d, k, v, out) == out = [Reg(d) EXCEPT ![k + 1] = v] /\ Put(d, out)

(* sequences; the returned value continues them in the next vector *)
SetSlope(d, base, slope, out, ret) ==
    /\ Wide(d, out)
    /\ Yes(\A i \in DOMAIN out : TRampOk(base, slope, i - 1, out[i]))
    /\ LET inc == DMul(DInt(Lanes), D(Val(slope)))
       IN Yes(/\ IsFin(Val(ret))
              /\ IF TRampExact(base, slope, Lanes) THEN DCmp(D(Val(ret)), inc) = 0
                 ELSE Within(D(Val(ret)), inc, DScale(DAbs(inc), 2 - FmtOf(ret).p)))
    /\ Put(d, out)
SetExp(d, base, curve, out, ret) ==
    /\ Wide(d, out)
    /\ Yes(\A i \in DOMAIN out : TCurveOk(base, curve, i - 1, out[i]))
    /\ Yes(TCurveOk(base, curve, Lanes, ret))
    /\ Put(d, out)

(* ---- lanewise instructions ---- *)
(* operands: sequences of lanes (a scalar operand is the same in all lanes)   *)
Lanewise(d, P(_, _), args, out) ==
    /\ Wide(d, out)
    /\ Yes(\A i \in DOMAIN out : P([k \in DOMAIN args |-> args[k][i]], out[i]))
    /\ Put(d, out)
EachWord(W(_, _, _), a, b, r) == \A j \in DOMAIN r : W(a[j], b[j], r[j])
Relation(op, a, b) ==
    CASE op = "mask_lt" -> Lt(a, b) [] op = "mask_le" -> Le(a, b)
      [] op = "mask_gt" -> Lt(b, a) [] op = "mask_ge" -> Le(b, a)
      [] op = "mask_eq" -> Eq(a, b) [] op = "mask_neq" -> ~ Eq(a, b)
Masks == {"mask_lt", "mask_le", "mask_gt", "mask_ge", "mask_eq", "mask_neq"}
(* the estimate of the reciprocal has 11 good bits *)
FastRecip(a, r) ==
    IF ~ IsFin(a) \/ IsZero(a) \/ DTopBit(D(a)) > 120 \/ DTopBit(D(a)) < -120 THEN TRUE
    ELSE IsFin(r) /\ Within(DMul(D(r), D(a)), <<0, <<1>>, 0>>, <<0, <<1>>, -11>>)
LaneOk(op, as, r) ==
    LET F == FmtOf(r) IN
    CASE op \in Masks -> SetBits(r, Relation(op, Val(as[1]), Val(as[2])))
      [] op = "and" -> EachWord(BitAnd, as[1], as[2], r)
      [] op = "or"  -> EachWord(BitOr, as[1], as[2], r)
      [] op = "xor" -> EachWord(BitXor, as[1], as[2], r)
      [] op = "andnot" -> EachWord(BitAndNot, as[1], as[2], r)
      [] op = "select" -> r = (IF ZeroBits(as[3]) THEN as[1] ELSE as[2])
      [] op = "neg" -> Same(Val(r), Neg(Val(as[1]))) /\ (~ IsNaN(Val(r)) => Val(r)[2] # Val(as[1])[2])
      [] op = "collect" -> Same(Val(r), Neg(Val(as[1])))
      [] op = "sqrt" -> Sqrt(F, Val(as[1]), Val(r))
      [] op = "fast_reciprocal" -> FastRecip(Val(as[1]), Val(r))
      [] OTHER -> Allowed(F, op, [k \in DOMAIN as |-> Val(as[k])], Val(r))
(* integer lanes *)
IntOk(op, k, as, r) ==
    LET a == as[1][1]
        b == IF Len(as) > 1 THEN as[2][1] ELSE 0
        w == r[1]
    IN CASE op = "iadd" -> IAdd(a, b, w)
         [] op = "isub" -> ISub(a, b, w)
         [] op = "ilt" -> SetBits(r, a < b)
         [] op = "igt" -> SetBits(r, a > b)
         [] op = "ieq" -> SetBits(r, a = b)
         [] op = "iand" -> BitAnd(a, b, w)
         [] op = "iandnot" -> BitAndNot(a, b, w)
         [] op = "islli" -> ShlOk(a, k, w)
         [] op = "isrli" -> ShrOk(a, k, w)
         [] op = "itof" -> Add(F32, IntOf(a), Zero(0), Dec32(w))                         \* correctly rounded
         [] op = "ftoi" -> Trunc(Dec32(a), IntOf(w))                                     \* in the range of the integers

(* ---- horizontal instructions ---- *)
Horizontal(op, r, ret) ==
    /\ Yes(TReduceOk(op, Reg(r), <<ret>>))
    /\ UNCHANGED vvars

(* ---- constants ---- *)
ConstBits(op, ty) ==
    CASE op = "gen_sign_mask" -> IF ty = "f" THEN <<-2147483647 - 1>> ELSE <<-2147483647 - 1, 0>>
      [] op = "gen_abs_mask"  -> IF ty = "f" THEN <<2147483647>> ELSE <<2147483647, -1>>
      [] op = "gen_one"       -> IF ty = "f" THEN <<1065353216>> ELSE <<1072693248, 0>>
      [] op = "gen_05"        -> IF ty = "f" THEN <<1056964608>> ELSE <<1071644672, 0>>
      [] op = "gen_025"       -> <<1048576000>>
      [] op = "gen_zero"      -> IF ty = "f" THEN <<0>> ELSE <<0, 0>>
      [] op = "gen_ones"      -> IF ty = "f" THEN <<-1>> ELSE <<-1, -1>>
      [] op = "gen_exp_mask"  -> <<2139095040>>                                          \* 0x7F800000
      [] op = "gen_exp_mask_1" -> <<1056964608>>                                         \* 0x3F000000
=============================================================================
