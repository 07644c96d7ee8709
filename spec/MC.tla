--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of several families.  In each, from the state    *)
(* after a prelude, every sequence of at most depth operations out of a    *)
(* table is run.  Each transition found is printed, with the history that  *)
(* leads to it, the answer and the observation the specification           *)
(* prescribes; the driver makes a test of the implementation of each.      *)
(***************************************************************************)
EXTENDS Ledger, Json, IOUtils
VARIABLES fam, st, hist, out
Fams == JsonDeserialize(IOEnv.FAMILY).fams
F == Fams[fam]

RECURSIVE Run(_, _)
Run(S, ops) == IF ops = << >> THEN S ELSE Run(Step(S, Head(ops)).s, Tail(ops))

Init == fam \in 1..Len(Fams) /\ st = Run(InitState(F.init), F.prelude) /\ hist = << >> /\ out = << >>
Next == /\ Len(hist) < F.depth
        /\ \E i \in 1..Len(F.ops) :
             LET x == Step(st, F.ops[i]) IN st' = x.s /\ hist' = Append(hist, i) /\ out' = x.r
        /\ UNCHANGED fam

\* Everything that matters for the future, with times relative to the present.
\* With F.paths = 1 every history counts as a state of its own: what the specification takes for
\* the same state need not be the same for an implementation.
RelE(S, e) == IF e = << >> \/ e[1] >= FAR THEN e ELSE <<e[1] - S.now>>
RelM(S, m) == [ x \in DOMAIN m |-> [m[x] EXCEPT !.exp = RelE(S, @), !.at = IF S.now - @ > F.agecap THEN -F.agecap ELSE @ - S.now] ]
\* of a finalised file the age does not matter
RelF(S, f) == [f EXCEPT !.at = IF f.st = "Finalized" THEN 0 ELSE @ - S.now]
StateView ==
  LET S == st
      k == StaleFront(S, 0)
      allstale == k = Len(S.led)
  IN << fam, IF F.paths = 1 THEN hist ELSE << >>, S.own, S.meta, S.nxt, [i \in DOMAIN S.tapp |-> RelM(S, S.tapp[i])], [a \in DOMAIN S.capp |-> RelM(S, S.capp[a])],
        S.cfg, S.perm, [i \in 1..Len(S.busy) |-> [S.busy[i] EXCEPT !.file = [j \in 1..Len(@) |-> RelF(S, @[j])]]],
        [p \in DOMAIN S.files |-> RelF(S, S.files[p])], S.red, S.stor, [i \in 1..Len(S.gc) |-> [S.gc[i] EXCEPT !.at = @ - S.now]],
        IF \E p \in DOMAIN S.files : S.files[p].st # "Finalized" THEN S.gcnext - S.now ELSE 0,
        IF allstale THEN << >> ELSE [i \in 1..Len(S.led) |-> [ts |-> S.now - S.led[i].ts, key |-> S.led[i].key]],
        [i \in { j \in DOMAIN S.rl : Recent(S, j) # << >> } |-> [n \in 1..Len(Recent(S, i)) |-> S.now - Recent(S, i)[n]]],
        IF F.abstime = 1 THEN S.now ELSE 0,
        IF F.arch = 1 THEN <<S.arch, S.acan, S.aend, S.arnext - S.now, Len(S.log), [i \in 1..(Len(S.log) - S.arch) |-> S.now - S.log[S.arch + i].ts]>> ELSE << >>,
        IF S.x.on THEN <<S.x.n, S.x.cache, S.x.held, S.x.next - S.now, S.x.clean - S.now, Len(S.log)>> ELSE << >> >>

Emit == PrintT(ToJson([f |-> fam, h |-> hist', r |-> out', v |-> View(st'), b |-> SubSeq(st'.log, Len(st.log) + 1, Len(st'.log))]))
CheckStep == Assert(StepOK(st, F.ops[hist'[Len(hist')]], st', out'), <<"step", fam, hist'>>)
ActionConstraint == CheckStep /\ Emit
Invariant == Inv(st)
=============================================================================
