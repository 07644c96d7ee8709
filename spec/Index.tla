------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* The index canister (index_icrc7): every minute it asks the ledger (and  *)
(* the archives the ledger points to) for the next hundred blocks and      *)
(* files each under its parties, its type and its token.  It answers       *)
(* queries by filters, fetching the blocks it does not keep in its cache.  *)
(*                                                                         *)
(* Rounds and queries wait for other canisters.  One that is held stops at *)
(* its first request: "req" before the ledger gets it, "rep" when the      *)
(* ledger has answered but the answer is still on its way; "xend" lets the *)
(* o.i-th of those held continue.  Several can be on their way at once.    *)
(*                                                                         *)
(* The state is the record S.x of the ledger's state:                      *)
(*   on     has it been installed?                                         *)
(*   n      the blocks 0 .. n-1 have been processed                        *)
(*   cache  the blocks (ids) it has at hand                                *)
(*   next, clean  the times of the next round and of emptying the cache    *)
(*   held   rounds and queries on their way                                *)
(***************************************************************************)
EXTENDS Core

DAY == 86400000
NoFault == [m |-> "", n |-> 0, hold |-> ""]
FaultOf(o) ==
  LET h == IF "hold" \in DOMAIN o THEN o.hold ELSE "" IN
  IF "f" \in DOMAIN o /\ o.f # << >> THEN [m |-> o.f[1].m, n |-> o.f[1].n, hold |-> h] ELSE [NoFault EXCEPT !.hold = h]
\* at most `max' attempts at calling method m
Try(fl, m, max) ==
  IF fl.m # m \/ fl.n = 0 THEN [ok |-> TRUE, fl |-> fl]
  ELSE IF fl.n >= max THEN [ok |-> FALSE, fl |-> [fl EXCEPT !.n = @ - max]]
  ELSE [ok |-> TRUE, fl |-> [fl EXCEPT !.m = "", !.n = 0]]

XOps  == { "xinst", "xup", "xq", "xend" }

(* ------------------------------ what matches ---------------------------- *)
Parties(b) == { a[1].p : a \in { x \in {b.from, b.to, b.sp} : x # << >> } }
\* A block names its parties by their principals, so only the default subaccount has blocks.
Matches(b, f) ==
  CASE f.t = "acc"  -> f.s <= 0 /\ f.p \in Parties(b)
    [] f.t = "type" -> b.t = f.v
    [] f.t = "tok"  -> b.tid = <<f.id>>
Filed(S, fs) == { i \in 0 .. S.x.n - 1 : \A j \in 1..Len(fs) : Matches(S.log[i + 1], fs[j]) }
Slice(q, start, len) == IF start >= Len(q) THEN << >> ELSE SubSeq(q, start + 1, Min2(start + len, Len(q)))
Monus(a, b) == IF a > b THEN a - b ELSE 0
Wanted(S, o) ==
  IF o.filters = << >>
  THEN LET s == IF o.desc = 1 THEN Monus(S.x.n, o.len) ELSE o.start IN s .. s + o.len - 1
  ELSE ToSet(Slice(SortIds(Filed(S, o.filters)), o.start, o.len))

(* -------------------------------- fetching ------------------------------ *)
\* A set of ids as runs of consecutive ones.  No more than a thousand blocks are asked for at once:
\* an archive would not answer with more.
RECURSIVE RunEnd(_, _)
RunEnd(s, e) == IF e + 1 \in s THEN RunEnd(s, e + 1) ELSE e
RECURSIVE Runs(_)
Runs(s) == IF s = {} THEN << >> ELSE LET a == Min(s) r == a .. Min2(RunEnd(s, a), a + 999) IN << r >> \o Runs(s \ r)
There(S, r) == { i \in r : i < Len(S.log) }
\* got: what has been fetched so far
RECURSIVE Fetch(_, _, _, _)
Fetch(S, runs, got, fl) ==
  IF runs = << >> THEN [ok |-> TRUE, s |-> S, got |-> got, fl |-> fl]
  ELSE LET here == There(S, Head(runs))
           a == Try(fl, "icrc3_get_blocks", 1)
           b == IF \E i \in here : i < S.arch THEN Try(a.fl, "archive", 1) ELSE a
       IN IF ~a.ok THEN [ok |-> FALSE, s |-> S, got |-> got, fl |-> a.fl]
          ELSE IF ~b.ok THEN [ok |-> FALSE, s |-> S, got |-> got, fl |-> b.fl]
          ELSE Fetch([S EXCEPT !.x.cache = @ \cup here], Tail(runs), got \cup here, b.fl)
\* the same for one that has been held, h.first being what the ledger answered before
Resume(S, h, fl) ==
  IF h.at = "req" THEN Fetch(S, h.runs, h.got, fl)
  ELSE LET b == IF h.far THEN Try(fl, "archive", 1) ELSE [ok |-> TRUE, fl |-> fl]
       IN IF ~b.ok THEN [ok |-> FALSE, s |-> S, got |-> h.got, fl |-> b.fl]
          ELSE Fetch([S EXCEPT !.x.cache = @ \cup h.first], h.runs, h.got \cup h.first, b.fl)
\* what is held at its first request; k is a round or a query, desc the order asked for
XHold(S, k, want, at, desc) ==
  LET runs == Runs(want \ S.x.cache)
      first == There(S, Head(runs))
  IN [S EXCEPT !.x.held = Append(@, [k |-> k, at |-> at, got |-> want \cap S.x.cache, desc |-> desc,
        runs |-> IF at = "req" THEN runs ELSE Tail(runs), first |-> IF at = "req" THEN {} ELSE first,
        far |-> at = "rep" /\ \E i \in first : i < S.arch])]

(* -------------------------------- rounds -------------------------------- *)
\* Blocks are processed in order and without gaps; those that another round processed meanwhile are left out.
RECURSIVE Upto(_, _)
Upto(n, got) == IF n \in got THEN Upto(n + 1, got) ELSE n
Filing(S, got) == [S EXCEPT !.x.n = Upto(@, got)]
XRound(S, fl) ==
  LET want == S.x.n .. S.x.n + 99 IN
  IF fl.hold # "" /\ ~(want \subseteq S.x.cache) THEN [s |-> XHold(S, "round", want, fl.hold, 0), fl |-> [fl EXCEPT !.hold = ""]]
  ELSE LET r == Fetch(S, Runs(want \ S.x.cache), want \cap S.x.cache, fl)
       IN [s |-> IF r.ok THEN Filing(r.s, r.got) ELSE r.s, fl |-> r.fl]

(* -------------------------------- calls --------------------------------- *)
Ordered(got, desc) == IF desc = 1 THEN Reverse(SortIds(got)) ELSE SortIds(got)
Answer(S, got, desc) == OK(<<S.x.n, Ordered(got, desc)>>)
XCall(S, o) ==
  CASE o.op = "xinst" -> [s |-> [S EXCEPT !.x = [XNone EXCEPT !.on = TRUE, !.next = S.now + 60000, !.clean = S.now + DAY]], r |-> OK(<< >>)]
    [] o.op = "xup"   -> [s |-> [S EXCEPT !.x.next = S.now + 60000, !.x.clean = S.now + DAY, !.x.held = << >>], r |-> OK(<< >>)]
    [] o.op = "xq" ->
         LET want == Wanted(S, o) IN
         IF o.hold # "" /\ ~(want \subseteq S.x.cache) THEN [s |-> XHold(S, "query", want, o.hold, o.desc), r |-> [k |-> "held", c |-> "", v |-> << >>, why |-> ""]]
         ELSE LET r == Fetch(S, Runs(want \ S.x.cache), want \cap S.x.cache, FaultOf(o))
              IN [s |-> r.s, r |-> IF r.ok THEN Answer(r.s, r.got, o.desc) ELSE REJ("fetch")]
    [] o.op = "xend" ->
         IF o.i > Len(S.x.held) THEN [s |-> S, r |-> OK(<< >>)]
         ELSE LET h == S.x.held[o.i]
                  r == Resume([S EXCEPT !.x.held = RemoveAt(@, o.i)], h, FaultOf(o))
              IN IF h.k = "round" THEN [s |-> IF r.ok THEN Filing(r.s, r.got) ELSE r.s, r |-> OK(<< >>)]
                 ELSE [s |-> r.s, r |-> IF r.ok THEN Answer(r.s, r.got, h.desc) ELSE REJ("fetch")]

(* ------------------------------ observation ----------------------------- *)
FilterKeys(S) ==
  LET bs == { S.log[i] : i \in 1 .. S.x.n } IN
  { [t |-> "acc", p |-> p, s |-> 0] : p \in UNION { Parties(b) : b \in bs } } \cup { [t |-> "type", v |-> b.t] : b \in bs }
  \cup { [t |-> "tok", id |-> b.tid[1]] : b \in { c \in bs : c.tid # << >> } }
XView(S) == [on |-> S.x.on, n |-> S.x.n, held |-> Len(S.x.held),
             keys |-> IF S.x.n > 60 THEN << >> ELSE SetToSeq({ <<f, SortIds(Filed(S, <<f>>))>> : f \in FilterKeys(S) })]

(* -------------------------------- properties ---------------------------- *)
XInv(S) ==
  /\ S.x.n <= Len(S.log) /\ S.x.n >= 0                                         \* X26
  /\ \A i \in S.x.cache : i < Len(S.log)                                       \* X28: nothing made up
  /\ S.x.on => S.x.next >= S.now /\ S.x.next <= S.now + 60000
\* S (when the operation begins) --o--> T
XStep(S, o, T, r) ==
  /\ o.op # "xinst" => T.x.n >= S.x.n /\ (T.x.cache # S.x.cache => S.x.on)      \* X26, X28
  /\ o.op \in XOps => S.log = T.log /\ S.own = T.own
  /\ o.op = "xq" => T.x.n = S.x.n
  /\ o.op = "xq" /\ r.k = "ok" =>                                              \* X27
       /\ \A i \in 1..Len(r.v[2]) : r.v[2][i] < Len(S.log) /\ (o.filters # << >> => r.v[2][i] < S.x.n)
       /\ \A i \in 1..Len(r.v[2]) : \A j \in 1..Len(o.filters) : Matches(S.log[r.v[2][i] + 1], o.filters[j])
       /\ \A i \in 1..(Len(r.v[2]) - 1) : IF o.desc = 1 THEN r.v[2][i] > r.v[2][i + 1] ELSE r.v[2][i] < r.v[2][i + 1]
       /\ Len(r.v[2]) <= o.len
       /\ XCall(T, [o EXCEPT !.hold = "", !.f = << >>, !.dt = 0]).r = r
=============================================================================
