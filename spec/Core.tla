-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The NFT ledger canister (core_nft): state, and the effect and answer of *)
(* every synchronous entry point, as functions of the state.               *)
(*                                                                         *)
(* Each call is one action of the specification: on the Internet Computer  *)
(* a message without an await runs atomically, so the call's return is its *)
(* linearisation point.  Calls with awaits are in Upload.tla.              *)
(*                                                                         *)
(* Times are milliseconds; 0 stands for time 0 and FAR for 2^64-1.         *)
(* An account is [p |-> principal, s |-> subaccount number], where s = 0   *)
(* is no subaccount and s = -1 the explicit all-zero one (the same         *)
(* account).  Optional values are sequences of length 0 or 1.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

FAR == 2000000000
T0  == 1000000          \* the clock when the canister is installed

Empty == << >>          \* the empty function
Norm(a) == IF a.s = -1 THEN [p |-> a.p, s |-> 0] ELSE a
Acc(p, s) == [p |-> p, s |-> IF s = -1 THEN 0 ELSE s]
ANON == "anon"
None == << >>
Some(x) == <<x>>
Get(o, d) == IF o = << >> THEN d ELSE o[1]

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Min2(a, b) == IF a < b THEN a ELSE b

SortIds(s) == SetToSortSeq(s, LAMBDA x, y : x < y)

(* ----------------------------- configuration --------------------------- *)
CfgFields == { "name", "symbol", "description", "logo", "supply_cap", "max_query_batch_size",
               "max_update_batch_size", "max_take_value", "default_take_value", "max_memo_size",
               "atomic_batch_transfers", "tx_window", "permitted_drift", "max_canister_storage_threshold" }
\* tx_window and permitted_drift are in milliseconds here; a negative value -n stands for n nanoseconds
MsOf(w) == IF w < 0 THEN 0 ELSE w
Window(S)    == MsOf(Get(S.cfg.tx_window, 10000))
Drift(S)     == MsOf(Get(S.cfg.permitted_drift, 50))
MaxUpdate(S) == Get(S.cfg.max_update_batch_size, 100)
MaxQuery(S)  == Get(S.cfg.max_query_batch_size, 100)
MaxTake(S)   == Get(S.cfg.max_take_value, 100)
DefTake(S)   == Get(S.cfg.default_take_value, 100)
MaxMemo(S)   == Get(S.cfg.max_memo_size, 1000000)
Cap(S)       == Get(S.cfg.supply_cap, 10000)
MaxAppr(S)   == Get(S.maxappr, 10)
MaxRev(S)    == Get(S.maxrev, 10)
\* The log library takes the number configured for tx_window at installation as milliseconds.
LogWindow(w) == IF w = << >> THEN 0 ELSE IF w[1] < 0 THEN -w[1]
                ELSE IF w[1] >= 2000 THEN FAR ELSE w[1] * 1000000

Permissions == { "Minting", "ManageAuthorities", "UpdateMetadata", "UpdateCollectionMetadata", "ReadUploads", "UpdateUploads" }

XNone == [on |-> FALSE, n |-> 0, cache |-> {}, next |-> FAR, clean |-> FAR, held |-> << >>]

(* -------------------------------- state -------------------------------- *)
\* c: [cfg |-> ..., maxappr |-> opt, maxrev |-> opt, perm |-> principal -> set]
\* In test mode the installer gets all permissions, once.
InitPerm(c) == [p \in DOMAIN c.perm \cup (IF c.test = 1 THEN {"admin"} ELSE {}) |->
                  (IF p \in DOMAIN c.perm THEN ToSet(c.perm[p]) ELSE {}) \cup (IF c.test = 1 /\ p = "admin" THEN Permissions ELSE {})]
InitState(c) ==
  [ now |-> T0, cfg |-> c.cfg, maxappr |-> c.maxappr, maxrev |-> c.maxrev, perm |-> InitPerm(c), rank |-> c.rank, test |-> c.test,
    rel  |-> 0,             \* the release: 1 once it has been upgraded
    win  |-> LogWindow(c.cfg.tx_window),
    own  |-> Empty,         \* token id -> owning account
    meta |-> Empty,         \* token id -> metadata
    nxt  |-> 1,             \* next token id
    tapp |-> Empty,         \* token id -> (spender account -> approval)
    capp |-> Empty,         \* owning account -> (spender account -> approval)
    log  |-> << >>,         \* blocks, oldest first
    arch |-> 0,             \* how many of them have been moved to an archive
    arnext |-> T0 + 600000, \* the next round of archiving
    acan |-> 0,             \* the archive canister: 0 none, 1 created but not installed, 2 installed
    aend |-> 0,             \* the last block it is said to hold
    led  |-> << >>,         \* the log library's memory of recent transactions
    rl   |-> Empty,         \* token id -> times of the recent rate-limited requests
    busy |-> << >>,         \* the management call in progress, if any
    gcnext |-> T0 + 86400000, prank |-> c.prank,
    gc   |-> << >>,         \* a cancellation of the garbage collection on its way
    x    |-> XNone,           \* the index canister (Index.tla)
    files |-> Empty,        \* path -> upload
    red  |-> Empty,         \* published path -> storage canister
    stor |-> << >> ]        \* storage canisters

OwnedBy(S, a) == { i \in DOMAIN S.own : S.own[i] = a }
Supply(S) == Cardinality(DOMAIN S.own)

Live(S, ap) == ap.exp = << >> \/ ap.exp[1] > S.now
\* Approvals end by themselves when they expire.
PruneA(S, m) == LET k == { sp \in DOMAIN m : Live(S, m[sp]) } IN [ sp \in k |-> m[sp] ]
PruneAll(S, f) == LET g == [ k \in DOMAIN f |-> PruneA(S, f[k]) ]
                      d == { k \in DOMAIN f : DOMAIN g[k] # {} } IN [ k \in d |-> g[k] ]
TApp(S, id) == IF id \in DOMAIN S.tapp THEN PruneA(S, S.tapp[id]) ELSE Empty
CApp(S, a)  == IF a \in DOMAIN S.capp THEN PruneA(S, S.capp[a]) ELSE Empty

\* May account sp move token id out of account from?
MayMove(S, sp, id, from) ==
  /\ id \in DOMAIN S.own /\ S.own[id] = from
  /\ sp = from \/ sp \in DOMAIN TApp(S, id) \/ sp \in DOMAIN CApp(S, from)
IsApproved(S, sp, id) == id \in DOMAIN S.own /\ MayMove(S, sp, id, S.own[id])

Advance(S, d) == LET T == [S EXCEPT !.now = @ + d] IN
  [T EXCEPT !.tapp = PruneAll(T, @), !.capp = PruneAll(T, @)]

(* ------------------------------- answers ------------------------------- *)
\* why is not part of the answer: it tells which rule refused the call
OK(v)     == [k |-> "ok",  c |-> "", v |-> v, why |-> ""]
ERR(c, w) == [k |-> "err", c |-> c, v |-> << >>, why |-> w]
REJ(w)    == [k |-> "rej", c |-> "", v |-> << >>, why |-> w]

(* ------------------------------ rate limit ----------------------------- *)
Recent(S, id) == IF id \in DOMAIN S.rl THEN SelectSeq(S.rl[id], LAMBDA t : S.now - t < 60) ELSE << >>
RateOk(S, id) == Len(Recent(S, id)) < 5
Rate(S, id)   == [S EXCEPT !.rl = Put(@, id, Append(Recent(S, id), S.now))]

(* -------------------------------- times -------------------------------- *)
\* a stated time: <<"r", d>> is relative to now, <<"a", t>> absolute
At(S, t) == IF t = << >> THEN << >> ELSE IF t[1] = "r" THEN <<S.now + t[2]>> ELSE <<t[2]>>
TimeVerdict(S, t, back) ==
  IF t > S.now + Drift(S) THEN "CreatedInFuture" ELSE IF t < S.now - back THEN "TooOld" ELSE "ok"

(* --------------------------- the transaction log ------------------------ *)
Acc0(o) == IF o = << >> THEN << >> ELSE <<o[1].p>>
\* What makes two transactions the same (the time of the block does not; of an account, the principal does).
Key(b) == <<b.t, b.tid, Acc0(b.from), Acc0(b.to), Acc0(b.sp), b.meta, b.memo, b.cr, b.exp>>
Stale(S, e) == S.now - e.ts > S.win + 100
RECURSIVE StaleFront(_, _)
StaleFront(S, k) == IF k < Len(S.led) /\ k < 25 /\ Stale(S, S.led[k + 1]) THEN StaleFront(S, k + 1) ELSE k
Full(S) == Len(S.log) - S.arch >= 1000
Log(S, b) ==
  IF Full(S) THEN [ok |-> FALSE, why |-> "full", s |-> S]
  ELSE LET k == StaleFront(S, 0)
           led == SubSeq(S.led, k + 1, Len(S.led))
           P == [S EXCEPT !.led = led]
       IN IF k = 0 /\ Len(led) >= 5 THEN [ok |-> FALSE, why |-> "throttled", s |-> S]
          ELSE IF \E i \in 1..Len(led) : led[i].key = Key(b) THEN [ok |-> FALSE, why |-> "dup", s |-> P]
          ELSE [ok |-> TRUE, why |-> "",
                s |-> [P EXCEPT !.led = Append(led, [ts |-> S.now, key |-> Key(b)]), !.log = Append(@, b)]]
Block(S, t) == [t |-> t, tid |-> << >>, from |-> << >>, to |-> << >>, sp |-> << >>, memo |-> << >>,
                cr |-> << >>, exp |-> << >>, meta |-> << >>, ts |-> S.now]
\* the answer of a logged call carries the number of blocks
TxId(S) == Len(S.log)

LogErr(r, kinds) == IF r.why = "dup" /\ "Duplicate" \in kinds THEN ERR("Duplicate", "dup") ELSE ERR("GenericError", r.why)

(* ------------------------------ batches -------------------------------- *)
\* F(S, item) gives [s, r]; items are processed one after the other
RECURSIVE Batch(_, _, _, _)
Batch(F(_, _), S, items, acc) ==
  IF items = << >> THEN [s |-> S, r |-> OK(acc)]
  ELSE LET x == F(S, Head(items)) IN Batch(F, x.s, Tail(items), Append(acc, x.r))
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

(* ------------------------------- transfers ------------------------------ *)
Move(S, id, to) ==
  [S EXCEPT !.own = Put(@, id, to), !.tapp = Drop(@, id)]

\* one item of icrc7_transfer: [id, to, fs, memo, cr]
XferItem(S0, by, it) ==
  IF ~RateOk(S0, it.id) THEN [s |-> S0, r |-> ERR("GenericError", "rate")] ELSE
  LET S == Rate(S0, it.id)
      to == Norm(it.to)
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
      cr == At(S, it.cr)
      t == Get(cr, S.now)
      v == TimeVerdict(S, t, Window(S) + Drift(S))
  IN IF it.id \notin DOMAIN S.own THEN no("NonExistingTokenId", "none")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF S.own[it.id].p # by THEN no("InvalidRecipient", "notowner")
     ELSE IF to.p = ANON \/ to = S.own[it.id] THEN no("InvalidRecipient", "recipient")
     ELSE IF v # "ok" THEN no(v, "time")
     ELSE LET b == [Block(S, "7xfer") EXCEPT !.tid = <<it.id>>, !.from = <<S.own[it.id]>>, !.to = <<to>>,
                                             !.memo = it.memo, !.cr = <<t>>]
              l == Log(S, b)
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {"Duplicate"})]
             ELSE [s |-> Move(l.s, it.id, to), r |-> OK(TxId(l.s))]

Xfer(S, o) ==
  IF o.items = << >> THEN [s |-> S, r |-> OK(<< >>)]
  ELSE IF Get(S.cfg.atomic_batch_transfers, 0) = 1 /\ Len(o.items) > MaxUpdate(S)
       THEN [s |-> S, r |-> OK(<<ERR("GenericError", "batch")>>)]
  ELSE IF o.by = ANON THEN [s |-> S, r |-> OK(<<ERR("GenericError", "anon")>>)]
  ELSE Batch(LAMBDA T, it : XferItem(T, o.by, it), S, Take(o.items, MaxUpdate(S)), << >>)

\* one item of icrc37_transfer_from: [id, from, to, ss, memo, cr]
XFromItem(S0, by, it) ==
  IF ~RateOk(S0, it.id) THEN [s |-> S0, r |-> ERR("GenericError", "rate")] ELSE
  LET S == Rate(S0, it.id)
      from == Norm(it.from)
      to == Norm(it.to)
      sp == Acc(by, it.ss)
      cr == At(S, it.cr)
      v == IF cr = << >> THEN "ok" ELSE TimeVerdict(S, cr[1], Window(S))
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
  IN IF v # "ok" THEN no(v, "time")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF it.id \notin DOMAIN S.own THEN no("NonExistingTokenId", "none")
     ELSE IF from = to \/ to.p = ANON THEN no("InvalidRecipient", "recipient")
     ELSE IF ~MayMove(S, sp, it.id, from) THEN no("Unauthorized", "auth")
     ELSE LET b == [Block(S, "37xfer") EXCEPT !.tid = <<it.id>>, !.from = <<from>>, !.to = <<to>>, !.sp = <<sp>>,
                                              !.memo = it.memo, !.cr = cr]
              l == Log(S, b)
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {"Duplicate"})]
             ELSE LET M == Move(l.s, it.id, to)
                  IN [s |-> IF OwnedBy(M, from) = {} THEN [M EXCEPT !.capp = Drop(@, from)] ELSE M,
                      r |-> OK(TxId(l.s))]
XFrom(S, o) ==
  IF Get(S.cfg.atomic_batch_transfers, 0) = 1 /\ Len(o.items) > MaxUpdate(S) THEN [s |-> S, r |-> ERR("GenericError", "batch")]
  ELSE Batch(LAMBDA T, it : XFromItem(T, o.by, it), S, Take(o.items, MaxUpdate(S)), << >>)

(* ------------------------------- approvals ------------------------------ *)
Approval(S, fs, it) == [fs |-> IF fs = -1 THEN 0 ELSE fs, exp |-> At(S, it.exp), memo |-> it.memo, at |-> S.now]

\* [id, sp, fs, exp, memo, cr]
ApprItem(S0, by, it) ==
  IF ~RateOk(S0, it.id) THEN [s |-> S0, r |-> ERR("GenericError", "rate")] ELSE
  LET S == Rate(S0, it.id)
      sp == Norm(it.sp)
      from == Acc(by, it.fs)
      cr == At(S, it.cr)
      v == TimeVerdict(S, cr[1], Window(S))
      cur == TApp(S, it.id)
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
  IN IF v # "ok" THEN no(v, "time")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF it.id \notin DOMAIN S.own THEN no("NonExistingTokenId", "none")
     ELSE IF S.own[it.id] # from THEN no("Unauthorized", "auth")
     ELSE IF sp.p = ANON THEN no("InvalidSpender", "spender")
     ELSE IF Cardinality(DOMAIN cur) >= MaxAppr(S) THEN no("GenericError", "maxappr")
     ELSE LET a == Approval(S, it.fs, it)
              b == [Block(S, "37approve") EXCEPT !.tid = <<it.id>>, !.from = <<from>>, !.sp = <<sp>>, !.memo = it.memo,
                                                 !.cr = cr, !.exp = a.exp]
              l == Log(S, b)
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {})]
             ELSE [s |-> [l.s EXCEPT !.tapp = PruneAll(S, Put(@, it.id, Put(cur, sp, a)))], r |-> OK(TxId(l.s))]
Appr(S, o) == Batch(LAMBDA T, it : ApprItem(T, o.by, it), S, Take(o.items, MaxUpdate(S)), << >>)

\* [sp, fs, exp, memo, cr]
ApprCItem(S0, by, it) ==
  IF ~RateOk(S0, 0) THEN [s |-> S0, r |-> ERR("GenericError", "rate")] ELSE
  LET S == Rate(S0, 0)
      sp == Norm(it.sp)
      from == Acc(by, it.fs)
      cr == At(S, it.cr)
      v == TimeVerdict(S, cr[1], Window(S))
      cur == CApp(S, from)
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
  IN IF v # "ok" THEN no(v, "time")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF sp.p = ANON THEN no("InvalidSpender", "spender")
     ELSE IF ~\E i \in DOMAIN S.own : S.own[i].p = by THEN no("GenericError", "nonft")
     ELSE IF Cardinality(DOMAIN cur) >= MaxAppr(S) THEN no("GenericError", "maxappr")
     ELSE LET a == Approval(S, it.fs, it)
              b == [Block(S, "37approve_coll") EXCEPT !.from = <<from>>, !.sp = <<sp>>, !.memo = it.memo, !.cr = cr, !.exp = a.exp]
              l == Log(S, b)
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {})]
             ELSE [s |-> [l.s EXCEPT !.capp = PruneAll(S, Put(@, from, Put(cur, sp, a)))], r |-> OK(TxId(l.s))]
ApprC(S, o) == Batch(LAMBDA T, it : ApprCItem(T, o.by, it), S, Take(o.items, MaxUpdate(S)), << >>)

\* [id, sp (optional), fs, memo, cr]
RevItem(S, by, it) ==
  LET from == Acc(by, it.fs)
      cr == At(S, it.cr)
      v == IF cr = << >> THEN "ok" ELSE TimeVerdict(S, cr[1], Window(S))
      cur == TApp(S, it.id)
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
      gone == IF it.sp = << >> THEN DOMAIN cur ELSE DOMAIN cur \cap {Norm(it.sp[1])}
  IN IF v # "ok" THEN no(v, "time")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF it.id \notin DOMAIN S.own THEN no("NonExistingTokenId", "none")
     ELSE IF S.own[it.id] # from THEN no("Unauthorized", "auth")
     ELSE IF gone = {} THEN no("ApprovalDoesNotExist", "noappr")
     ELSE LET b == [Block(S, "37revoke") EXCEPT !.tid = <<it.id>>, !.from = <<from>>, !.memo = it.memo, !.cr = cr,
                                                !.sp = IF it.sp = << >> THEN << >> ELSE <<Norm(it.sp[1])>>]
              l == Log(S, b)
              left == [x \in DOMAIN cur \ gone |-> cur[x]]
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {})]
             ELSE [s |-> [l.s EXCEPT !.tapp = PruneAll(S, Put(@, it.id, left))], r |-> OK(TxId(l.s))]
Rev(S, o) ==
  IF o.items = << >> THEN [s |-> S, r |-> OK(<< >>)]
  ELSE IF ~RateOk(S, o.items[1].id) THEN [s |-> S, r |-> ERR("GenericError", "rate")]
  ELSE Batch(LAMBDA T, it : RevItem(T, o.by, it), Rate(S, o.items[1].id), Take(o.items, MaxRev(S)), << >>)

\* [sp (optional), fs, memo, cr]
RevCItem(S0, by, it) ==
  IF ~RateOk(S0, 0) THEN [s |-> S0, r |-> ERR("GenericError", "rate")] ELSE
  LET S == Rate(S0, 0)
      from == Acc(by, it.fs)
      cr == At(S, it.cr)
      v == IF cr = << >> THEN "ok" ELSE TimeVerdict(S, cr[1], Window(S))
      cur == CApp(S, from)
      no(c, w) == [s |-> S, r |-> ERR(c, w)]
      gone == IF it.sp = << >> THEN DOMAIN cur ELSE DOMAIN cur \cap {Norm(it.sp[1])}
  IN IF v # "ok" THEN no(v, "time")
     ELSE IF it.memo # << >> /\ it.memo[1] > MaxMemo(S) THEN no("GenericError", "memo")
     ELSE IF gone = {} THEN no("ApprovalDoesNotExist", "noappr")
     ELSE LET b == [Block(S, "37revoke_coll") EXCEPT !.from = <<from>>, !.memo = it.memo, !.cr = cr,
                                                !.sp = IF it.sp = << >> THEN << >> ELSE <<Norm(it.sp[1])>>]
              l == Log(S, b)
              left == [x \in DOMAIN cur \ gone |-> cur[x]]
          IN IF ~l.ok THEN [s |-> l.s, r |-> LogErr(l, {})]
             ELSE [s |-> [l.s EXCEPT !.capp = PruneAll(S, Put(@, from, left))], r |-> OK(TxId(l.s))]
RevC(S, o) == Batch(LAMBDA T, it : RevCItem(T, o.by, it), S, Take(o.items, MaxRev(S)), << >>)

(* --------------------------- management calls --------------------------- *)
Has(S, p, perm) == p \in DOMAIN S.perm /\ perm \in S.perm[p]
\* a call that needs a permission and the management exclusion
Managed(S, by, perm, x) ==
  IF perm # "" /\ ~Has(S, by, perm) THEN [s |-> S, r |-> REJ("perm")]
  ELSE IF S.busy # << >> THEN [s |-> S, r |-> ERR("ConcurrentManagementCall", "busy")]
  ELSE x

RECURSIVE MintLog(_, _, _)
MintLog(S, reqs, i) ==      \* logs the items from the i-th on
  IF i > Len(reqs) THEN [ok |-> TRUE, i |-> i, why |-> "", s |-> S]
  ELSE LET b == [Block(S, "7mint") EXCEPT !.tid = <<S.nxt + i - 1>>, !.to = <<Norm(reqs[i].to)>>, !.memo = reqs[i].memo, !.cr = <<S.now>>]
           l == Log(S, b)
       IN IF l.ok THEN MintLog(l.s, reqs, i + 1) ELSE [ok |-> FALSE, i |-> i, why |-> l.why, s |-> l.s]
\* metadata with numbers beyond 64 bits is refused
Storable(m) == m # "m8"
Mint0(S, o) ==
  LET n == Len(o.reqs)
      l == MintLog(S, o.reqs, 1)
  IN IF n > MaxUpdate(S) THEN [s |-> S, r |-> ERR("ExceedMaxAllowedSupplyCap", "batch")]
     ELSE IF Supply(S) + n > Cap(S) THEN [s |-> S, r |-> ERR("ExceedMaxAllowedSupplyCap", "cap")]
     ELSE IF \E i \in 1..n : o.reqs[i].memo # << >> /\ o.reqs[i].memo[1] > MaxMemo(S) THEN [s |-> S, r |-> ERR("InvalidMemo", "memo")]
     ELSE IF ~l.ok THEN IF l.i = 1 THEN [s |-> l.s, r |-> ERR("StorageCanisterError", l.why)] ELSE [s |-> S, r |-> REJ(l.why)]
     ELSE IF \E i \in 1..n : ~Storable(o.reqs[i].meta) THEN [s |-> S, r |-> REJ("meta")]
     ELSE LET ids == S.nxt .. (S.nxt + n - 1)
          IN [s |-> [l.s EXCEPT !.own = [i \in ids |-> Norm(o.reqs[i - S.nxt + 1].to)] @@ @,
                                !.meta = [i \in ids |-> o.reqs[i - S.nxt + 1].meta] @@ @,
                                !.nxt = @ + n],
              r |-> OK(S.nxt)]
Mint(S, o) == Managed(S, o.by, "Minting", Mint0(S, o))

Burn0(S, o) ==
  IF o.id \notin DOMAIN S.own THEN [s |-> S, r |-> ERR("TokenDoesNotExist", "none")]
  ELSE IF S.own[o.id].p # o.by THEN [s |-> S, r |-> ERR("NotTokenOwner", "notowner")]
  ELSE LET b == [Block(S, "7burn") EXCEPT !.tid = <<o.id>>, !.from = <<S.own[o.id]>>, !.cr = <<S.now>>]
           l == Log(S, b)
       IN IF ~l.ok THEN [s |-> l.s, r |-> ERR("StorageCanisterError", l.why)]
          ELSE [s |-> [l.s EXCEPT !.own = Drop(@, o.id), !.meta = Drop(@, o.id), !.tapp = Drop(@, o.id)], r |-> OK(<< >>)]
Burn(S, o) == Managed(S, o.by, "", Burn0(S, o))

UMeta0(S, o) ==
  IF o.id \notin DOMAIN S.own THEN [s |-> S, r |-> ERR("TokenDoesNotExist", "none")]
  ELSE LET b == [Block(S, "7update_token") EXCEPT !.tid = <<o.id>>, !.from = <<Acc(o.by, 0)>>, !.cr = <<S.now>>, !.meta = <<S.meta[o.id], o.meta>>]
           l == Log(S, b)
       IN IF ~l.ok THEN [s |-> l.s, r |-> ERR("StorageCanisterError", l.why)]
          ELSE IF ~Storable(o.meta) THEN [s |-> S, r |-> REJ("meta")]
          ELSE [s |-> [l.s EXCEPT !.meta = Put(@, o.id, o.meta)], r |-> OK(o.id)]
UMeta(S, o) == Managed(S, o.by, "UpdateMetadata", UMeta0(S, o))

\* o.f: sequence of <<field, value>>
RECURSIVE SetAll(_, _)
SetAll(c, f) == IF f = << >> THEN c ELSE SetAll([c EXCEPT ![f[1][1]] = <<f[1][2]>>], Tail(f))
UCfg(S, o) == Managed(S, o.by, "UpdateCollectionMetadata", [s |-> [S EXCEPT !.cfg = SetAll(@, o.f)], r |-> OK(<< >>)])

PermsOf(S, p) == IF p \in DOMAIN S.perm THEN S.perm[p] ELSE {}
Grant(S, o)  == Managed(S, o.by, "ManageAuthorities", [s |-> [S EXCEPT !.perm = Put(@, o.who, PermsOf(S, o.who) \cup {o.perm})], r |-> OK(<< >>)])
Revoke(S, o) == Managed(S, o.by, "ManageAuthorities",
   [s |-> IF o.who \in DOMAIN S.perm THEN [S EXCEPT !.perm = Put(@, o.who, @[o.who] \ {o.perm})] ELSE S, r |-> OK(<< >>)])

(* -------------------------------- queries ------------------------------- *)
Page(ids, prev, n) == Take(SelectSeq(ids, LAMBDA i : i > prev), n)
QTokens(S, o, ids) ==
  IF o.take # << >> /\ o.take[1] > MaxTake(S) THEN REJ("take")
  ELSE OK(Page(SortIds(ids), Get(o.prev, 0), Get(o.take, DefTake(S))))

\* newest first, then by spender (principals by their binary form, whose order is given by S.rank);
\* prev is the last spender received
ApprSet(m) == { [sp |-> x, fs |-> m[x].fs, exp |-> m[x].exp, memo |-> m[x].memo, at |-> m[x].at] : x \in DOMAIN m }
ApprBefore(S, y, z) == \/ y.at > z.at
                       \/ y.at = z.at /\ S.rank[y.sp.p] < S.rank[z.sp.p]
                       \/ y.at = z.at /\ y.sp.p = z.sp.p /\ y.sp.s < z.sp.s
RECURSIVE ApprSeq(_, _)
ApprSeq(S, set) == IF set = {} THEN << >>
  ELSE LET x == CHOOSE y \in set : \A z \in set : y = z \/ ApprBefore(S, y, z) IN <<x>> \o ApprSeq(S, set \ {x})
ApprPage(S, m, prev, n) ==
  LET l == ApprSeq(S, ApprSet(m))
      at == { i \in 1..Len(l) : prev # << >> /\ l[i].sp = Norm(prev[1]) }
      from == IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
  IN Take(SubSeq(l, from + 1, Len(l)), n)

\* What a user is shown before signing a call: the call it is for, how many tokens it concerns (1 when
\* it says no number) and, for an approval of the whole collection, who would be approved.
\* o.of holds the call whose arguments are shown, o.m the method they are shown for; o.junk # ""
\* stands for arguments that are no arguments at all.  Arguments of another method pass when
\* they have everything that this method needs (Candid's rules).
ShownRevT == {"icrc37_revoke_token_approvals", "icrc37_revoke_collection_approvals"}
ShownRevC == {"icrc37_revoke_collection_approvals"}
ConsentFor == [ xfer |-> {"icrc7_transfer"} \cup ShownRevT, xfrom |-> {"icrc37_transfer_from", "icrc7_transfer"} \cup ShownRevT,
                appr |-> {"icrc37_approve_tokens", "icrc37_approve_collection"} \cup ShownRevT, apprc |-> {"icrc37_approve_collection"} \cup ShownRevC,
                rev |-> ShownRevT, revc |-> ShownRevC ]
Consent(S, o) ==
  IF o.junk # "" \/ o.m \notin ConsentFor[o.of.op] THEN ERR("UnsupportedCanisterCall", "consent")
  ELSE LET its == o.of.items
           coll == o.m \in {"icrc37_approve_collection", "icrc37_revoke_collection_approvals"}
           n == Len(its)
       IN OK(<<o.m, IF coll \/ n = 0 THEN 1 ELSE n,
               IF o.m = "icrc37_approve_collection" THEN SetToSortSeq({ its[i].sp.p : i \in 1..n }, LAMBDA x, y : S.rank[x] < S.rank[y]) ELSE << >>,
               o.lang, o.off>>)

Query(S, o) ==
  LET ids == IF "ids" \in DOMAIN o THEN o.ids ELSE << >>
      big == Len(ids) > MaxQuery(S)
  IN CASE o.op = "q_tokens"    -> QTokens(S, o, DOMAIN S.own)
       [] o.op = "q_tokens_of" -> QTokens(S, o, OwnedBy(S, Norm(o.acc)))
       [] o.op = "q_owner"     -> IF big THEN REJ("batch") ELSE OK([i \in 1..Len(ids) |-> IF ids[i] \in DOMAIN S.own THEN <<S.own[ids[i]]>> ELSE << >>])
       [] o.op = "q_meta"      -> IF big THEN REJ("batch") ELSE OK([i \in 1..Len(ids) |-> IF ids[i] \in DOMAIN S.own THEN <<S.meta[ids[i]]>> ELSE << >>])
       [] o.op = "q_balance"   -> IF big THEN REJ("batch") ELSE OK([i \in 1..Len(ids) |-> Cardinality(OwnedBy(S, Norm(ids[i])))])
       [] o.op = "q_approved"  -> IF big THEN REJ("batch") ELSE OK([i \in 1..Len(ids) |-> IF IsApproved(S, Norm(ids[i].sp), ids[i].id) THEN 1 ELSE 0])
       [] o.op = "q_tapp"      -> OK(ApprPage(S, TApp(S, o.id), o.prev, Get(o.take, 10)))
       [] o.op = "q_capp"      -> OK(ApprPage(S, CApp(S, Norm(o.acc)), o.prev, Get(o.take, 10)))
       [] o.op = "q_perms"     -> IF ~Has(S, o.by, "ManageAuthorities") THEN REJ("perm")
                                  ELSE IF o.who \in DOMAIN S.perm THEN OK(S.perm[o.who]) ELSE ERR("UserNotFound", "none")
       [] o.op = "q_consent"   -> Consent(S, o)
       [] o.op = "q_has"       -> IF ~Has(S, o.by, "ManageAuthorities") THEN REJ("perm") ELSE OK(IF Has(S, o.who, o.perm) THEN 1 ELSE 0)

CoreOps == {"mint", "burn", "xfer", "xfrom", "appr", "apprc", "rev", "revc", "umeta", "ucfg", "grant", "revoke"}
CoreStep(S, o) ==
  CASE o.op = "mint"   -> Mint(S, o)
    [] o.op = "burn"   -> Burn(S, o)
    [] o.op = "xfer"   -> Xfer(S, o)
    [] o.op = "xfrom"  -> XFrom(S, o)
    [] o.op = "appr"   -> Appr(S, o)
    [] o.op = "apprc"  -> ApprC(S, o)
    [] o.op = "rev"    -> Rev(S, o)
    [] o.op = "revc"   -> RevC(S, o)
    [] o.op = "umeta"  -> UMeta(S, o)
    [] o.op = "ucfg"   -> UCfg(S, o)
    [] o.op = "grant"  -> Grant(S, o)
    [] o.op = "revoke" -> Revoke(S, o)
=============================================================================
