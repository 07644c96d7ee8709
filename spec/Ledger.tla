------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* The whole ledger canister: one function Step from a state and an        *)
(* operation to the next state and the answer, what an observer sees of a  *)
(* state, and the invariants and action properties.                        *)
(***************************************************************************)
EXTENDS Upload

Queries == {"q_tokens", "q_tokens_of", "q_owner", "q_meta", "q_balance", "q_approved", "q_tapp", "q_capp", "q_perms", "q_has", "q_consent", "q_blocks", "q_archs", "q_inst", "q_upbad", "q_xinst", "q_xupbad"}

(* -------------------------------- the log ------------------------------- *)
\* Requested are ranges <<start, length>> of block ids, counted from 0; what has been archived is
\* answered with the range to ask the archive for.
RangeSeq(a, b) == [i \in 1..(IF b > a THEN b - a ELSE 0) |-> a + i - 1]
RECURSIVE BlockRanges(_, _, _)
BlockRanges(S, args, acc) ==
  IF args = << >> THEN acc
  ELSE LET s == args[1][1]
           e == Min2(s + args[1][2], Len(S.log))
           m == IF s > S.arch THEN s ELSE S.arch
           here == RangeSeq(m, e)
           far == IF s < Min2(e, S.arch) THEN << <<s, Min2(e, S.arch) - s>> >> ELSE << >>
       IN BlockRanges(S, Tail(args), [acc EXCEPT !.l = @ \o here, !.a = @ \o far])
LogQuery(S, o) ==
  CASE o.op = "q_blocks" -> LET x == BlockRanges(S, o.args, [l |-> << >>, a |-> << >>]) IN OK(<<Len(S.log), x.l, x.a>>)
    [] o.op = "q_archs"  -> OK(IF S.acan = 2 THEN << <<0, S.aend>> >> ELSE << >>)

\* What a ledger is that is newly installed with these arguments, o.test: in test mode; arguments meant for
\* an upgrade, a limit of approvals of zero and a logo that is not an address are refused.
NoAddress == {"", "logo", "no address", "://x", "/logo.png"}
Declared == {"7mint", "7burn", "7xfer", "7update_token", "37approve", "37approve_coll", "37xfer", "37revoke", "37revoke_coll"}
Standards == {"ICRC-3", "ICRC-7", "ICRC-10", "ICRC-21", "ICRC-37"}
Installed(o) ==
  IF o.kind # "init" \/ o.c.maxappr = <<0>> \/ o.c.maxrev = <<0>> \/ (o.c.cfg.logo # << >> /\ o.c.cfg.logo[1] \in NoAddress) THEN REJ("install")
  ELSE LET S == InitState(o.c)
           P == [p \in DOMAIN S.perm \cup (IF o.test = 1 THEN {o.by} ELSE {}) |->
                   (IF p \in DOMAIN S.perm THEN S.perm[p] ELSE {}) \cup (IF o.test = 1 /\ p = o.by THEN Permissions ELSE {})]
       IN OK([cfg |-> S.cfg, maxappr |-> S.maxappr, maxrev |-> S.maxrev, perm |-> SetToSeq({ <<p, SetToSeq(P[p])>> : p \in DOMAIN P }),
              supply |-> Cardinality(DOMAIN S.own), len |-> Len(S.log), uploads |-> Cardinality(DOMAIN S.files), types |-> SetToSeq(Declared), standards |-> SetToSeq(Standards)])

\* Every operation may be preceded by the passage of o.dt milliseconds.
\* An operation may also arrive while an archiving round waits for the archive ("during", o.dt is the
\* time of the round): it is served as at any other time.
BeforeRound(S, o) == Advance(Pass(S, S.now + o.dt - 1, NoFault), 1)
RECURSIVE Step(_, _)
Step(S0, o) ==
  IF o.op = "during" THEN
    LET x == Step(BeforeRound(S0, o), o.sub)
    IN [s |-> Pass(x.s, x.s.now, NoFault), r |-> x.r]
  ELSE
  LET S == Later(S0, o) IN
  CASE o.op \in CoreOps -> CoreStep(S, o)
    [] o.op \in UploadCalls -> UploadCall(S, o)
    [] o.op \in UploadQueries -> [s |-> S, r |-> UploadQuery(S, o)]
    [] o.op = "end"     -> End(S, o)
    [] o.op = "gcend"   -> [s |-> GcEnd(S), r |-> OK(<< >>)]
    [] o.op \in {"q_blocks", "q_archs"} -> [s |-> S, r |-> LogQuery(S, o)]
    [] o.op = "q_inst"  -> [s |-> S, r |-> Installed(o)]
    [] o.op = "q_upbad" -> [s |-> S, r |-> REJ("install")]   \* an upgrade with the arguments of an installation
    \* another index of this ledger, which has yet to ask it for a block; it too knows its kinds of arguments apart
    [] o.op = "q_xinst" -> [s |-> S, r |-> IF o.kind = "init" THEN OK([n |-> 0, ledger |-> 1]) ELSE REJ("install")]
    [] o.op = "q_xupbad" -> [s |-> S, r |-> REJ("install")]
    [] o.op \in XOps -> XCall(S, o)
    [] o.op \in Queries -> [s |-> S, r |-> Query(S, o)]
    [] o.op = "wait"    -> [s |-> S, r |-> OK(<< >>)]
    [] o.op = "upgrade" -> [s |-> Upgraded(S), r |-> OK(<< >>)]

(* ------------------------------ observation ----------------------------- *)
Pairs(f) == SetToSeq({ <<k, f[k]>> : k \in DOMAIN f })
Grantees(S) == { S.own[i] : i \in DOMAIN S.own } \cup UNION { DOMAIN S.tapp[i] : i \in DOMAIN S.tapp }
                 \cup UNION { DOMAIN S.capp[a] : a \in DOMAIN S.capp }
View(S) ==
  [ now  |-> S.now, own |-> Pairs(S.own), meta |-> Pairs(S.meta), nxt |-> S.nxt,
    tapp |-> SetToSeq({ <<i, ApprSeq(S, ApprSet(S.tapp[i]))>> : i \in DOMAIN S.tapp }),
    capp |-> SetToSeq({ <<a, ApprSeq(S, ApprSet(S.capp[a]))>> : a \in DOMAIN S.capp }),
    appd |-> SetToSeq({ <<sp, i>> \in (Grantees(S) \X DOMAIN S.own) : IsApproved(S, sp, i) }),
    cfg  |-> S.cfg, perm |-> SetToSeq({ <<p, SetToSeq(S.perm[p])>> : p \in DOMAIN S.perm }),
    rel |-> S.rel, test |-> S.test, len  |-> Len(S.log), busy |-> Len(S.busy),
    files |-> SetToSeq({ <<p, S.files[p].st>> : p \in DOMAIN S.files }), red |-> SetToSeq(DOMAIN S.red), subs |-> Len(S.stor), arch |-> S.arch, x |-> XView(S) ]

(* ------------------------------- invariants ----------------------------- *)
\* Reading the log from the start gives the owner of every token (L11).
RECURSIVE ReplayOwn(_, _)
ReplayOwn(log, acc) ==
  IF log = << >> THEN acc ELSE
  LET b == Head(log) IN ReplayOwn(Tail(log),
    CASE b.t = "7mint" -> Put(acc, b.tid[1], b.to[1])
      [] b.t \in {"7xfer", "37xfer"} -> Put(acc, b.tid[1], b.to[1])
      [] b.t = "7burn" -> Drop(acc, b.tid[1])
      [] OTHER -> acc)
\* ... and which token approvals there are, apart from those that have expired
RECURSIVE ReplayApp(_, _, _)
ReplayApp(log, S, acc) ==
  IF log = << >> THEN acc ELSE
  LET b == Head(log)
      cur == IF b.tid # << >> /\ b.tid[1] \in DOMAIN acc THEN acc[b.tid[1]] ELSE {}
  IN ReplayApp(Tail(log), S,
    CASE b.t = "37approve" -> Put(acc, b.tid[1], (cur \ { x \in cur : x[1] = b.sp[1] })
                                    \cup (IF b.exp = << >> \/ b.exp[1] > S.now THEN {<<b.sp[1], b.from[1], b.exp>>} ELSE {}))
      [] b.t = "37revoke" -> Put(acc, b.tid[1], IF b.sp = << >> THEN {} ELSE { x \in cur : x[1] # b.sp[1] })
      [] b.t \in {"7xfer", "37xfer", "7burn"} -> Put(acc, b.tid[1], {})
      [] OTHER -> acc)

TypeOK(S) ==
  /\ DOMAIN S.meta = DOMAIN S.own
  /\ \A i \in DOMAIN S.own : i >= 1 /\ i < S.nxt /\ S.own[i].s >= 0
  /\ DOMAIN S.tapp \subseteq DOMAIN S.own                                    \* L08: nothing is left of a burned token
  /\ \A p \in DOMAIN S.perm : S.perm[p] \subseteq Permissions
LogFaithful(S) ==                                                            \* L11
  /\ ReplayOwn(S.log, Empty) = S.own
  /\ LET ra == ReplayApp(S.log, S, Empty) IN
       \A i \in DOMAIN S.own :
          { <<sp, S.own[i], S.tapp[i][sp].exp>> : sp \in (IF i \in DOMAIN S.tapp THEN DOMAIN S.tapp[i] ELSE {}) }
             = (IF i \in DOMAIN ra THEN ra[i] ELSE {})                        \* L03: all by the present owner
LimitsHold(S) ==                                                             \* L06
  /\ \A i \in DOMAIN S.tapp : Cardinality(DOMAIN S.tapp[i]) <= MaxAppr(S)
  /\ \A a \in DOMAIN S.capp : Cardinality(DOMAIN S.capp[a]) <= MaxAppr(S)
RateHolds(S) == \A i \in DOMAIN S.rl : Len(SelectSeq(S.rl[i], LAMBDA t : S.now - t < 60)) <= 5  \* T15
NoAnon(S) == \A i \in DOMAIN S.tapp : \A sp \in DOMAIN S.tapp[i] : sp.p # ANON
Inv(S) == TypeOK(S) /\ LogFaithful(S) /\ LimitsHold(S) /\ RateHolds(S) /\ NoAnon(S) /\ UploadInv(S) /\ XInv(S)

(* --------------------------- action properties -------------------------- *)
Vis(S) == <<S.own, S.meta, S.nxt, S.tapp, S.capp, S.cfg, S.perm, S.log, S.files, S.red>>

\* S --o--> T answering r
StepOK1(S0, o, T, r) ==
  LET S == Later(S0, o) IN
  /\ UploadStep(S, o, T, r)
  /\ XStep(S, o, T, r)
  /\ S.x.on /\ o.op = "wait" /\ FaultOf(o) = NoFault /\ o.dt >= 60000 => T.x.n >= Min2(Len(S.log), S0.x.n + 100)   \* X26
  /\ r.k \in {"err", "rej"} => Vis(S) = Vis(T)                                            \* L09
  /\ IsPrefix(S.log, T.log)                                                  \* L12
  /\ T.arch >= S.arch /\ T.arch <= Len(S.log) /\ (T.arch > 0 => T.acan = 2)
  /\ T.arch > S0.arch => T.log[T.arch].ts + 120000 < T.now
  /\ o.op \in Queries \cup UploadCalls \cup UploadQueries \cup {"wait", "upgrade", "end", "gcend", "grant", "revoke", "ucfg"} => S.log = T.log   \* L10
  \* L02: a token changes hands only by its owner or by an approved spender
  /\ \A i \in DOMAIN S.own :
        IF i \in DOMAIN T.own
        THEN T.own[i] # S.own[i] =>
               /\ T.own[i].p # ANON
               /\ \/ o.op = "xfer" /\ \E j \in 1..Len(o.items) : o.items[j].id = i
                  \/ o.op = "xfrom" /\ \E j \in 1..Len(o.items) : o.items[j].id = i
        ELSE o.op = "burn" /\ o.id = i /\ S.own[i].p = o.by                  \* L08
  /\ o.op = "xfrom" /\ Len(o.items) = 1 /\ S.own # T.own => MayMove(S, Acc(o.by, o.items[1].ss), o.items[1].id, Norm(o.items[1].from))
  /\ o.op = "xfer" /\ Len(o.items) = 1 /\ S.own # T.own => S.own[o.items[1].id].p = o.by
  \* L07: new ids only by minting, never used before, within the cap
  /\ DOMAIN T.own \ DOMAIN S.own # {} =>
       /\ o.op = "mint" /\ DOMAIN T.own \ DOMAIN S.own = S.nxt .. (T.nxt - 1)
       /\ Supply(T) <= Cap(S) /\ Has(S, o.by, "Minting")
  /\ T.nxt >= S.nxt
  \* L03, L04: grants appear only through the owner's call
  /\ \A i \in DOMAIN T.tapp : \A sp \in DOMAIN T.tapp[i] :
       ~(i \in DOMAIN S.tapp /\ sp \in DOMAIN S.tapp[i]) => o.op = "appr" /\ S.own[i].p = o.by
  /\ \A a \in DOMAIN T.capp : \A sp \in DOMAIN T.capp[a] :
       ~(a \in DOMAIN S.capp /\ sp \in DOMAIN S.capp[a]) => o.op = "apprc" /\ a.p = o.by
  /\ \A a \in DOMAIN S.capp : (a \notin DOMAIN T.capp \/ ~(DOMAIN S.capp[a] \subseteq DOMAIN T.capp[a])) =>
       \/ o.op = "revc" /\ a.p = o.by
       \/ o.op = "apprc" /\ a.p = o.by            \* replaced by one that has already expired
       \/ o.op = "xfrom" /\ (OwnedBy(T, a) = {} \/ Len(o.items) > 1)
  \* M22, C23, G16: changed only by the call for it
  /\ S.cfg # T.cfg => o.op = "ucfg" /\ Has(S, o.by, "UpdateCollectionMetadata")
  /\ S.perm # T.perm => o.op \in {"grant", "revoke"} /\ Has(S, o.by, "ManageAuthorities")
  /\ \A i \in DOMAIN S.meta \cap DOMAIN T.meta : S.meta[i] # T.meta[i] => o.op = "umeta" /\ o.id = i /\ Has(S, o.by, "UpdateMetadata")
StepOK(S0, o, T, r) ==
  IF o.op = "during" THEN LET S == BeforeRound(S0, o)  x == Step(S, o.sub) IN StepOK1(S, o.sub, x.s, x.r) /\ x.s.log = T.log
  ELSE StepOK1(S0, o, T, r)
=============================================================================
