-------------------------------- MODULE Pure --------------------------------
(* Calls are functions of their arguments.  The state is what an observer has *)
(* learned: the result of every call (identified by operation, form, length   *)
(* and arguments) in every floating-point environment it was made in.  A call *)
(* that was seen before has to deliver the same bits again, after any history *)
(* and on whichever thread, and every call leaves the environment (rounding   *)
(* mode, exception masks, treatment of denormals) as it found it.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, memo
pvars == <<t, l, memo>>

Known(c) == c \in DOMAIN memo
Made(c, out) == IF Known(c) THEN memo[c] = out /\ UNCHANGED memo ELSE memo' = memo @@ (c :> out)

E == Tr[t].ev[l]
PInit == t \in 1..Len(Tr) /\ l = 1 /\ memo = << >>
PNext == /\ l <= Len(Tr[t].ev) /\ l' = l + 1 /\ t' = t
         /\ E.sig = 0 /\ E.after = E.before
         /\ Made(<<E.id, E.before>>, E.out)
PDone == l > Len(Tr[t].ev) /\ UNCHANGED pvars
PSpec == PInit /\ [][PNext \/ PDone]_pvars
PAlias == [session |-> t, event |-> l, rejected |-> IF l <= Len(Tr[t].ev) THEN E ELSE "none"]
PReport == l > Len(Tr[t].ev) => PrintT(<<"accepted", t>>)
=============================================================================
