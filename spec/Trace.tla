-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: each recorded history of operations is run through    *)
(* the specification; all invariants and action properties are evaluated   *)
(* at every step, and the prescribed answers and observations are printed  *)
(* for the comparison with what the implementation did.                    *)
(***************************************************************************)
EXTENDS Ledger, Json, IOUtils
VARIABLES tr, i, st, out
F == JsonDeserialize(IOEnv.FAMILY)
T == F.traces
Init == tr \in 1..Len(T) /\ i = 0 /\ st = InitState(T[tr].init) /\ out = << >>
Next == /\ i < Len(T[tr].ops)
        /\ LET x == Step(st, T[tr].ops[i + 1]) IN st' = x.s /\ out' = x.r
        /\ i' = i + 1 /\ UNCHANGED tr
Emit == PrintT(ToJson([t |-> tr, i |-> i', r |-> out', v |-> View(st'), b |-> SubSeq(st'.log, Len(st.log) + 1, Len(st'.log))]))
CheckStep == Assert(StepOK(st, T[tr].ops[i'], st', out'), <<"step", tr, i'>>)
ActionConstraint == CheckStep /\ Emit
Invariant == Inv(st)
=============================================================================
