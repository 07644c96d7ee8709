------------------------------- MODULE Upload -------------------------------
(***************************************************************************)
(* Uploads: the ledger canister keeps the state of each upload and passes  *)
(* the data on to storage canisters, which it creates as needed.  The      *)
(* calls wait for other canisters, so they can fail on the way, other      *)
(* messages can come in between, and the ledger can be upgraded before     *)
(* they have ended.                                                        *)
(*                                                                         *)
(* A call of the table either runs to its end in one step, or (o.hold) it  *)
(* stops at a call to another canister: "first" at the first one, "req"    *)
(* before its main request is delivered, "rep" when that has been          *)
(* executed but the answer is still on its way.  The operation "end" lets  *)
(* it continue.  o.f = <<[m, n]>> makes the first n requests for method m  *)
(* during the operation fail (without being executed).                     *)
(*                                                                         *)
(* Storage canisters are interchangeable: where several could take a file, *)
(* the specification takes the first; no answer depends on it.             *)
(*                                                                         *)
(* A storage canister may be full: with o.f = <<[m |-> "full", n]>> the    *)
(* first n that are asked say that they have one byte too little left.     *)
(***************************************************************************)
EXTENDS Index

(* --------------------------- a storage canister ------------------------- *)
NewStore == [inst |-> FALSE, up |-> Empty, done |-> Empty]
NSlots(o) == IF o.csz = << >> THEN (IF o.size = 0 THEN 0 ELSE 1) ELSE (o.size + o.csz[1] - 1) \div o.csz[1]
GoodChunk(o) == o.csz = << >> \/ (o.csz[1] > 0 /\ o.csz[1] <= 1000001)
Accepts(c, o) == o.key \notin DOMAIN c.up /\ o.key \notin DOMAIN c.done /\ GoodChunk(o)
Reserve(c, o) == [c EXCEPT !.up = Put(@, o.key, [size |-> o.size, n |-> NSlots(o), doc |-> o.doc, slots |-> Empty])]
RECURSIVE Concat(_, _, _)
Concat(sl, i, n) == IF i >= n THEN << >> ELSE (IF i \in DOMAIN sl THEN sl[i] ELSE << >>) \o Concat(sl, i + 1, n)
Content(r) == Concat(r.slots, 0, r.n)

\* The effect of a request on a storage canister: the canister, and "" or an error.
SStore(c, key, i, data) ==
  IF key \notin DOMAIN c.up THEN [c |-> c, e |-> IF key \in DOMAIN c.done THEN "UploadAlreadyFinalized" ELSE "UploadNotInitialized"]
  ELSE LET r == c.up[key] IN
    IF i >= r.n \/ i \in DOMAIN r.slots \/ Len(Content(r)) + Len(data) > r.size THEN [c |-> c, e |-> "StorageCanisterError"]
    ELSE [c |-> IF data = << >> THEN c ELSE [c EXCEPT !.up[key].slots = Put(@, i, data)], e |-> ""]
SFinal(c, key) ==
  IF key \in DOMAIN c.done THEN [c |-> [c EXCEPT !.done = Drop(@, key)], e |-> "UploadAlreadyFinalized"]   \* and forgets the file
  ELSE IF key \notin DOMAIN c.up THEN [c |-> c, e |-> "UploadNotStarted"]
  ELSE LET r == c.up[key]
           gone == [c EXCEPT !.up = Drop(@, key)]
       IN IF Len(Content(r)) # r.size THEN [c |-> gone, e |-> "IncompleteUpload"]
          ELSE IF Content(r) # r.doc THEN [c |-> gone, e |-> "StorageCanisterError"]
          ELSE [c |-> [gone EXCEPT !.done = Put(@, key, r.doc)], e |-> ""]
SCancel(c, key) ==
  IF key \in DOMAIN c.up THEN [c |-> [c EXCEPT !.up = Drop(@, key)], e |-> ""]
  ELSE [c |-> c, e |-> IF key \in DOMAIN c.done THEN "StorageCanisterError" ELSE "UploadNotInitialized"]

(* ------------------------------- initiation ----------------------------- *)
RECURSIVE Place(_, _, _, _)      \* the first installed canister that takes the file
Place(S, o, i, fl) ==
  IF i > Len(S.stor) THEN [at |-> 0, fl |-> fl]
  ELSE IF ~S.stor[i].inst THEN Place(S, o, i + 1, fl)
  ELSE LET a == Try(fl, "get_storage_size", 3)
           u == Try(a.fl, "full", 1)
           b == Try(u.fl, "init_upload", 3)
       IN IF ~a.ok \/ ~u.ok THEN Place(S, o, i + 1, u.fl)
          ELSE IF ~b.ok \/ ~Accepts(S.stor[i], o) THEN Place(S, o, i + 1, b.fl)
          ELSE [at |-> i, fl |-> b.fl]
Opened(S, o, i) == [s |-> [S EXCEPT !.files = Put(@, o.path, [st |-> "Init", can |-> i, at |-> S.now, key |-> o.key])], r |-> OK(<< >>)]
SCE(S, w) == [s |-> S, r |-> ERR("StorageCanisterError", w)]
IuRemote(S, o) ==
  LET p == Place(S, o, 1, FaultOf(o))
  IN IF p.at # 0 THEN Opened([S EXCEPT !.stor[p.at] = Reserve(@, o)], o, p.at)
     ELSE LET made == { i \in 1..Len(S.stor) : ~S.stor[i].inst }
              a == IF made = {} THEN Try(p.fl, "create_canister", 3) ELSE [ok |-> TRUE, fl |-> p.fl]
              C == IF made = {} THEN [S EXCEPT !.stor = Append(@, NewStore)] ELSE S
              k == IF made = {} THEN Len(C.stor) ELSE Min(made)
              b == Try(a.fl, "install_code", 1)
              I == [C EXCEPT !.stor[k].inst = TRUE]
              d == Try(b.fl, "init_upload", 3)
          IN IF ~a.ok THEN SCE(S, "create")
             ELSE IF ~b.ok THEN SCE(C, "install")
             ELSE IF ~d.ok \/ ~GoodChunk(o) THEN SCE(I, "call")
             ELSE Opened([I EXCEPT !.stor[k] = Reserve(@, o)], o, k)

Known(S, key) == \E p \in DOMAIN S.files : S.files[p].key = key
\* answers that need no other canister
\* o.bad: no request could lead to a file of this path
IuLocal(S, o) == IF Known(S, o.key) THEN <<ERR("FileAlreadyExists", "exists")>>
                 ELSE IF o.bad = 1 THEN <<ERR("StorageCanisterError", "path")>>
                 ELSE IF o.size >= 1000000000 THEN <<ERR("StorageCanisterError", "toobig")>> ELSE << >>
NotOpen(S, o, none, init) ==
  IF o.path \notin DOMAIN S.files THEN <<ERR(none, "order")>>
  ELSE IF S.files[o.path].st = "Finalized" THEN <<ERR("UploadAlreadyFinalized", "order")>>
  ELSE IF S.files[o.path].st = "Init" /\ init # "" THEN <<ERR(init, "order")>>
  ELSE << >>
Local(S, o) ==
  CASE o.op = "iu" -> IuLocal(S, o)
    [] o.op = "sc" -> NotOpen(S, o, "UploadNotInitialized", "")
    [] o.op = "fu" -> NotOpen(S, o, "UploadNotStarted", "UploadNotStarted")
    [] o.op = "cu" -> NotOpen(S, o, "UploadNotInitialized", "")

(* -------------------- the main request of sc, fu and cu ------------------ *)
Method(o) == CASE o.op = "iu" -> "init_upload" [] o.op = "sc" -> "store_chunk" [] o.op = "fu" -> "finalize_upload" [] o.op = "cu" -> "cancel_upload"
Remote(c, o) == CASE o.op = "sc" -> SStore(c, o.key, o.i, o.data) [] o.op = "fu" -> SFinal(c, o.key) [] o.op = "cu" -> SCancel(c, o.key)
\* what the ledger does with the answer e of the storage canister; file as it was when the call began
Answered(S, o, file, e) ==
  IF e # "" /\ ~(o.op = "cu" /\ e = "UploadNotInitialized") THEN [s |-> S, r |-> ERR(e, "remote")]
  ELSE CASE o.op = "sc" -> IF o.path \in DOMAIN S.files
                           THEN [s |-> [S EXCEPT !.files = Put(@, o.path, [file EXCEPT !.st = "InProgress"])], r |-> OK(<< >>)]
                           ELSE [s |-> S, r |-> ERR("UploadNotInitialized", "gone")]
         [] o.op = "fu" -> [s |-> [S EXCEPT !.files = Put(@, o.path, [file EXCEPT !.st = "Finalized"]), !.red = Put(@, o.key, file.can)],
                            r |-> OK("self")]
         [] o.op = "cu" -> [s |-> [S EXCEPT !.files = Drop(@, o.path)], r |-> OK(<< >>)]
DoRemote(S, o, can) == LET x == Remote(S.stor[can], o) IN [s |-> [S EXCEPT !.stor[can] = x.c], e |-> x.e]
Complete(S, o) ==
  IF o.op = "iu" THEN IuRemote(S, o)
  ELSE LET file == S.files[o.path]
           a == Try(FaultOf(o), Method(o), 3)
           x == DoRemote(S, o, file.can)
       IN IF ~a.ok THEN SCE(S, "call") ELSE Answered(x.s, o, file, x.e)

(* ----------------------------- calls that stop --------------------------- *)
HeldR == [k |-> "held", c |-> "", v |-> << >>, why |-> ""]
FirstInst(S) == { i \in 1..Len(S.stor) : S.stor[i].inst }
Hold(S, o) ==
  IF o.op = "iu"
  THEN LET c == FirstInst(S)
           early == o.hold = "rep" /\ c # {} /\ Accepts(S.stor[Min(c)], o)
       IN [s |-> [(IF early THEN [S EXCEPT !.stor[Min(c)] = Reserve(@, o)] ELSE S)
                   EXCEPT !.busy = <<[o |-> o, can |-> IF c = {} THEN 0 ELSE Min(c), done |-> early, e |-> "", file |-> << >>]>>],
           r |-> HeldR]
  ELSE LET file == S.files[o.path]
           x == DoRemote(S, o, file.can)
       IN [s |-> IF o.hold = "rep" THEN [x.s EXCEPT !.busy = <<[o |-> o, can |-> file.can, done |-> TRUE, e |-> x.e, file |-> <<file>>]>>]
                 ELSE [S EXCEPT !.busy = <<[o |-> o, can |-> file.can, done |-> FALSE, e |-> "", file |-> <<file>>]>>],
           r |-> HeldR]
End(S, o) ==
  IF S.busy = << >> THEN [s |-> S, r |-> OK(<< >>)]
  ELSE LET b == S.busy[1]
           F == [S EXCEPT !.busy = << >>]
       IN IF b.o.op = "iu" THEN (IF b.done THEN Opened(F, b.o, b.can) ELSE IuRemote(F, b.o))
          ELSE IF b.done THEN Answered(F, b.o, b.file[1], b.e)
          ELSE LET x == DoRemote(F, b.o, b.can) IN Answered(x.s, b.o, b.file[1], x.e)
\* The cancellation of the garbage collection reaches the storage canister, if it has not yet done so.
GcSent(S) ==
  IF S.gc = << >> \/ S.gc[1].done THEN S
  ELSE LET g == S.gc[1]
           x == SCancel(S.stor[g.can], g.key)
       IN [S EXCEPT !.stor[g.can] = x.c, !.gc = <<[g EXCEPT !.done = TRUE, !.e = x.e]>>]
\* Its answer: the upload is forgotten, unless it has been completed or begun anew in the meantime.
GcEnd(S) ==
  IF S.gc = << >> THEN S
  ELSE LET T == GcSent(S)
           g == T.gc[1]
           F == [T EXCEPT !.gc = << >>]
       IN IF g.e # "StorageCanisterError" /\ g.path \in DOMAIN F.files /\ F.files[g.path].st # "Finalized" /\ F.files[g.path].at = g.at
          THEN [F EXCEPT !.files = Drop(@, g.path)] ELSE F
\* A request that is on its way when the ledger is upgraded is still executed; its answer is lost.
Upgraded(S) ==
  LET G == [GcSent(S) EXCEPT !.busy = << >>, !.gc = << >>, !.gcnext = S.now + DAY, !.arnext = S.now + 600000, !.rel = 1]
  IN IF S.busy = << >> \/ S.busy[1].done THEN G
     ELSE LET b == S.busy[1] IN
       IF b.o.op = "iu"
       THEN IF b.o.hold = "req" /\ b.can # 0 /\ Accepts(G.stor[b.can], b.o) THEN [G EXCEPT !.stor[b.can] = Reserve(@, b.o)] ELSE G
       ELSE DoRemote(G, b.o, b.can).s

UploadCall(S, o) ==
  IF ~Has(S, o.by, "UpdateUploads") THEN [s |-> S, r |-> REJ("perm")]
  ELSE IF S.busy # << >> THEN [s |-> S, r |-> ERR("ConcurrentManagementCall", "busy")]
  ELSE LET l == Local(S, o)
       IN IF l # << >> THEN [s |-> S, r |-> l[1]]
          ELSE IF o.hold # "" THEN Hold(S, o) ELSE Complete(S, o)

(* --------------------------- garbage collection -------------------------- *)
\* once a day, uploads that were begun more than a day ago and never completed are cancelled
RECURSIVE Collect(_, _, _)
Collect(S, ps, fail) ==
  IF ps = {} THEN S
  ELSE LET p == CHOOSE x \in ps : TRUE
           f == S.files[p]
       IN Collect(IF fail \/ SCancel(S.stor[f.can], f.key).e = "StorageCanisterError" THEN S ELSE [S EXCEPT !.files = Drop(@, p), !.stor[f.can] = SCancel(@, f.key).c], ps \ {p}, fail)
(* -------------------------------- archiving ------------------------------ *)
\* Every ten minutes the blocks that are more than two minutes old are moved to an archive, one after
\* the other, oldest first.  Requests are made three times before they count as failed, except for the
\* installation; a round ends with the first failure.
RECURSIVE ArchRound(_, _)
ArchRound(S, fl) ==
  IF S.arch = Len(S.log) \/ S.log[S.arch + 1].ts + 120000 >= S.now \/ S.acan = 1 THEN [s |-> S, fl |-> fl]
  ELSE IF S.acan = 0 THEN
    LET c == Try(fl, "create_canister", 3)
        i == Try(c.fl, "install_code", 1)
        b == Try(i.fl, "insert_blocks", 3)
    IN IF ~c.ok THEN [s |-> S, fl |-> c.fl]
       ELSE IF ~i.ok THEN [s |-> [S EXCEPT !.acan = 1], fl |-> i.fl]
       ELSE IF ~b.ok THEN [s |-> [S EXCEPT !.acan = 2], fl |-> b.fl]
       ELSE ArchRound([S EXCEPT !.acan = 2, !.arch = @ + 1], b.fl)
  ELSE
    LET b == Try(fl, "insert_blocks", 3)
    IN IF ~b.ok THEN [s |-> S, fl |-> b.fl]
       ELSE ArchRound([S EXCEPT !.arch = @ + 1, !.aend = @ + 1], b.fl)

\* The passage of time up to `end': what falls due is done in order.
Next4(S) == Min2(Min2(S.gcnext, S.arnext), Min2(S.x.next, S.x.clean))
RECURSIVE Pass(_, _, _)
Pass(S, end, fl) ==
  LET t == Next4(S) IN
  IF t > end THEN Advance(S, end - S.now)
  ELSE LET T == Advance(S, t - S.now) IN
    IF t = S.gcnext
    THEN LET due == { p \in DOMAIN T.files : T.files[p].st # "Finalized" /\ T.files[p].at + DAY < T.now }
             one == CHOOSE p \in due : TRUE
             sent == [T EXCEPT !.gc = <<[path |-> one, can |-> T.files[one].can, key |-> T.files[one].key, at |-> T.files[one].at, done |-> FALSE, e |-> ""]>>]
         IN IF fl.hold \in {"gcreq", "gcrep"} /\ due # {}
            THEN Pass([IF fl.hold = "gcrep" THEN GcSent(sent) ELSE sent EXCEPT !.gcnext = @ + DAY], end, [fl EXCEPT !.hold = ""])
            ELSE Pass([Collect(T, due, fl.m = "cancel_upload") EXCEPT !.gcnext = @ + DAY], end, fl)
    ELSE IF t = S.arnext
    THEN LET x == ArchRound(T, fl)
         IN Pass([x.s EXCEPT !.arnext = @ + 600000], end, x.fl)
    ELSE IF t = S.x.clean THEN Pass([T EXCEPT !.x.clean = @ + DAY, !.x.cache = {}], end, fl)
    ELSE LET x == XRound([T EXCEPT !.x.next = @ + 60000], fl)
         IN Pass(x.s, end, x.fl)
\* the passage of o.dt milliseconds before o
Later(S, o) == IF o.dt = 0 THEN S ELSE Pass(S, S.now + o.dt, IF o.op = "wait" THEN FaultOf(o) ELSE NoFault)

(* -------------------------------- queries ------------------------------- *)
RECURSIVE SortPaths(_, _)
SortPaths(S, ps) == IF ps = {} THEN << >> ELSE LET m == CHOOSE x \in ps : \A y \in ps : S.prank[x] <= S.prank[y] IN <<m>> \o SortPaths(S, ps \ {m})
UploadQuery(S, o) ==
  CASE o.op = "q_ust" -> IF ~Has(S, o.by, "ReadUploads") THEN REJ("perm")
                         ELSE IF o.path \in DOMAIN S.files THEN OK(S.files[o.path].st) ELSE ERR("UploadNotFound", "none")
    [] o.op = "q_uploads" -> IF ~Has(S, o.by, "ReadUploads") THEN REJ("perm")
                             ELSE LET l == SortPaths(S, DOMAIN S.files)
                                      pg == Take(SubSeq(l, Get(o.prev, 0) + 1, Len(l)), Get(o.take, 100))
                                  IN OK([i \in 1..Len(pg) |-> <<pg[i], S.files[pg[i]].st>>])
    \* A storage canister takes orders from its ledger, not from those who use it (asked here by those who
    \* had no authority over permissions when the ledger was installed).
    [] o.op = "q_direct" -> REJ("direct")
    [] o.op = "q_subs" -> IF ~Has(S, o.by, "ManageAuthorities") THEN REJ("perm") ELSE OK(Len(S.stor))
    [] o.op = "fetch" -> IF o.key \in DOMAIN S.red THEN OK(S.stor[S.red[o.key]].done[o.key]) ELSE ERR("none", "none")

UploadCalls == {"iu", "sc", "fu", "cu"}
UploadQueries == {"q_direct", "q_ust", "q_uploads", "q_subs", "fetch"}

(* ------------------------------- invariants ----------------------------- *)
Finished(S) == { p \in DOMAIN S.files : S.files[p].st = "Finalized" }
UploadInv(S) ==
  /\ DOMAIN S.red = { S.files[p].key : p \in Finished(S) }                                   \* U18, U20
  /\ \A p, q \in DOMAIN S.files : S.files[p].key = S.files[q].key => p = q
  /\ \A p \in DOMAIN S.files : S.stor[S.files[p].can].inst
  /\ \A k \in DOMAIN S.red : k \in DOMAIN S.stor[S.red[k]].done
  /\ \A i \in 1..Len(S.stor) : DOMAIN S.stor[i].up \cap DOMAIN S.stor[i].done = {}
Served(S) == [k \in DOMAIN S.red |-> S.stor[S.red[k]].done[k]]
\* S --o--> T answering r; S is the state at the time of the call
UploadStep(S, o, T, r) ==
  /\ DOMAIN S.red \subseteq DOMAIN T.red                                                     \* U19: what is published stays
  /\ \A k \in DOMAIN S.red : Served(T)[k] = Served(S)[k]
  /\ Len(T.stor) >= Len(S.stor) /\ \A i \in 1..Len(S.stor) : S.stor[i].inst => T.stor[i].inst
  /\ DOMAIN T.red # DOMAIN S.red => \/ o.op = "fu" /\ r.k = "ok"
                                    \/ o.op = "end" /\ S.busy # << >> /\ S.busy[1].o.op = "fu" /\ r.k = "ok"
  \* U18: published exactly what was announced and stored
  /\ o.op = "fu" /\ r.k = "ok" =>
       LET c == S.stor[S.files[o.path].can].up[o.key] IN Served(T)[o.key] = c.doc /\ c.doc = Content(c)
  \* U19: a failure of another canister is reported, changes no upload, and the call can be repeated
  /\ o.op \in UploadCalls /\ r.k = "err" => T.files = S.files /\ T.red = S.red
  /\ o.op \in UploadCalls /\ o.hold = "" /\ FaultOf(o).m # "" /\ r.k = "err" =>
       LET again == [o EXCEPT !.f = << >>]
       IN UploadCall(S, again).r.k = "ok" => UploadCall(T, again).r.k = "ok"
  \* G17: one management call at a time, and it comes to an end
  /\ S.busy # << >> /\ o.op \in UploadCalls \cup {"mint", "burn", "umeta", "ucfg", "grant", "revoke"} => r.k # "ok" /\ r.k # "held" /\ T.busy = S.busy
  /\ o.op \in {"end", "upgrade"} => T.busy = << >>
  /\ T.busy # S.busy => o.op \in {"end", "upgrade"} \/ r.k = "held"
=============================================================================
