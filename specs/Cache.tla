------------------------------- MODULE Cache -------------------------------
(* One dispatcher with its container pool: publishes and removes of instances
   of two cached types (C, D) and one uncached type (U) that share a shape
   (key k, properties p and q; value 0 means "unset"), and handlers that come
   and go: e1, e2 (events of C), d1 (events of D), u1 (events of U) and t1
   (raw transmissions of C), tu (raw transmissions of U).

   A stamp stands for a pair (sender, sent time), see Sender and Sent.

   Every action records the command given to the implementation and all it is
   expected to show: events per handler, container content, clone information. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, PVals, QVals, Stamps, Incs, Types, Handlers, DropSet, Sample

VARIABLES cache, subs, seen, act

svars == <<cache, subs, seen>>
vars == <<svars, act>>
View == svars

Cached == {"C", "D"} \cap Types
None == [p |-> -1, q |-> -1, c |-> -1, m |-> -1, op |-> "none"]
Sender(s) == CASE s = 0 -> 0 [] s = 1 -> 2 [] s = 2 -> 3 [] s = 3 -> 2 [] OTHER -> 3
Sent(s)   == CASE s = 0 -> 0 [] s = 1 -> 1 [] s = 2 -> 2 [] s = 3 -> 2 [] OTHER -> 1

HType(h) == CASE h \in {"e1", "e2", "t1"} -> "C" [] h = "d1" -> "D" [] OTHER -> "U"
Raw(h) == h \in {"t1", "tu"}
IncSets == IF Incs = "all" THEN {{"k"}, {"k", "p"}, {"k", "q"}, {"k", "p", "q"}, {"k", "p", "q", "$outside"}}
           ELSE IF Incs = "full" THEN {{"k", "p", "q"}}
           ELSE {{"k"}, {"k", "p"}, {"k", "p", "q"}}

Val(k, p, q) == [k |-> k, p |-> p, q |-> q]
Content(r, k) == Val(k, r.p, r.q)
Valid(v) == {"k"} \cup (IF v.p # 0 THEN {"p"} ELSE {}) \cup (IF v.q # 0 THEN {"q"} ELSE {})

-----------------------------------------------------------------------------
(* The rule of the cache *)
Merge(r, p, q, inc) == [r EXCEPT !.p = IF "p" \in inc THEN p ELSE r.p, !.q = IF "q" \in inc THEN q ELSE r.q]

Created(p, q, st) == [p |-> p, q |-> q, c |-> st, m |-> st, op |-> "create"]
Updated(r, p, q, inc, st) == [Merge(r, p, q, inc) EXCEPT !.m = st, !.op = "update"]
Removed(r, p, q, inc, st) == [Merge(r, p, q, inc) EXCEPT !.m = st, !.op = "remove"]

Clone(r) == [op |-> r.op, by |-> Sender(r.c), at |-> Sent(r.c), from |-> Sender(r.m), mod |-> Sent(r.m)]
CloneU(st) == [op |-> "create", by |-> Sender(st), at |-> Sent(st), from |-> 0, mod |-> 0]

-----------------------------------------------------------------------------
(* What handlers see *)
RawEv(v, inc, st, rm) == [tx |-> v, attrS |-> inc, rm |-> rm, snd |-> Sender(st), sent |-> Sent(st)]
Ev(mt, v, u, clone, inc, st, rm) ==
    [mt |-> mt, tx |-> v, up |-> u, clone |-> clone, attrS |-> inc, rm |-> rm, snd |-> Sender(st), sent |-> Sent(st),
     fc |-> -1, updS |-> inc \cap Valid(u), mine |-> FALSE]
Replay(k, r, n) ==
    [mt |-> "create", tx |-> Content(r, k), up |-> Content(r, k), clone |-> Clone(r), attrS |-> Valid(Content(r, k)), rm |-> FALSE,
     snd |-> 0, sent |-> 0, fc |-> n, updS |-> Valid(Content(r, k)), mine |-> FALSE]

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
KeysOf(c, t) == IF t \in Cached THEN {k \in Keys : c[t][k] # None} ELSE {}

Entries(c, t) == LET ks == Sorted(KeysOf(c, t)) IN
    [i \in 1..Len(ks) |-> [v |-> Content(c[t][ks[i]], ks[i])]]
Clones(c, t) == LET ks == Sorted(KeysOf(c, t)) IN [i \in 1..Len(ks) |-> Clone(c[t][ks[i]])]
Obs(c, ev, exc) ==
    [ev |-> ev, exc |-> exc,
     cache |-> [t \in Cached |-> Entries(c, t)],
     clone |-> [t \in Cached |-> Clones(c, t)],
     size |-> [t \in Cached |-> Cardinality(KeysOf(c, t))],
     found |-> [t \in Cached |-> Sorted(KeysOf(c, t))]]
NoEv == [h \in Handlers |-> <<>>]

(* a subscriber that folds its events over what it was shown first *)
Fold(view, evs) ==
    [k \in Keys |-> LET mine == SelectSeq(evs, LAMBDA e : e.up.k = k) IN
        IF mine = <<>> THEN view[k]
        ELSE LET e == mine[Len(mine)] IN IF e.mt = "remove" THEN <<-1, -1>> ELSE <<e.up.p, e.up.q>>]
EmptyView == [k \in Keys |-> <<-1, -1>>]

Put(t, k, p, q, inc, st, rm) ==
    LET v == Val(k, p, q)
        old == IF t \in Cached THEN cache[t][k] ELSE None
        new == IF old = None THEN Created(p, q, st) ELSE Updated(old, p, q, inc, st)
        gone == Removed(old, p, q, inc, st)
        exc == t \notin Cached /\ rm
        \* a message that reaches a dispatcher carries values for included properties only
        sane == Valid(v) \subseteq inc
        evs == IF t \notin Cached THEN IF rm THEN <<>> ELSE <<Ev("create", v, v, CloneU(st), inc, st, FALSE)>>
               ELSE IF rm THEN IF old = None THEN <<>> ELSE <<Ev("remove", v, Content(gone, k), Clone(gone), inc, st, TRUE)>>
               ELSE <<Ev(IF old = None THEN "create" ELSE "update", v, Content(new, k), Clone(new), inc, st, FALSE)>>
        c2 == IF t \notin Cached THEN cache
              ELSE [cache EXCEPT ![t][k] = IF rm THEN None ELSE new]
        ev == [h \in Handlers |-> IF h \notin subs \/ HType(h) # t THEN <<>>
                                  ELSE IF Raw(h) THEN <<RawEv(v, inc, st, rm)>> ELSE evs]
    IN /\ (old = None => sane)
       /\ cache' = c2
       /\ seen' = [h \in Handlers |-> IF Raw(h) \/ HType(h) \notin Cached THEN seen[h] ELSE Fold(seen[h], ev[h])]
       /\ act' = [cmd |-> [op |-> "Put", t |-> t, v |-> v, inc |-> inc, snd |-> Sender(st), sent |-> Sent(st), rm |-> rm],
                  obs |-> Obs(c2, ev, exc)]
       /\ UNCHANGED subs

Sub(h) ==
    LET t == HType(h)
        ks == IF t \in Cached THEN Sorted(KeysOf(cache, t)) ELSE <<>>
        evs == IF Raw(h) THEN <<>> ELSE [i \in 1..Len(ks) |-> Replay(ks[i], cache[t][ks[i]], Len(ks) - i)]
    IN /\ h \notin subs
       /\ subs' = subs \cup {h}
       /\ seen' = IF Raw(h) \/ t \notin Cached THEN seen ELSE [seen EXCEPT ![h] = Fold(EmptyView, evs)]
       /\ act' = [cmd |-> [op |-> "Sub", h |-> h], obs |-> Obs(cache, [NoEv EXCEPT ![h] = evs], FALSE)]
       /\ UNCHANGED cache

Unsub(h) ==
    /\ h \in subs
    /\ subs' = subs \ {h}
    /\ seen' = [seen EXCEPT ![h] = EmptyView]
    /\ act' = [cmd |-> [op |-> "Unsub", h |-> h], obs |-> Obs(cache, NoEv, FALSE)]
    /\ UNCHANGED cache

Init == /\ cache = [t \in Cached |-> [k \in Keys |-> None]]
        /\ subs = {}
        /\ seen = [h \in Handlers |-> EmptyView]
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]

(* for simulation: one choice of arguments at a time *)
Some(S) == IF Sample THEN {RandomElement(S)} ELSE S
Next == /\ subs \subseteq Handlers \* (keeps TLC from choosing the arguments once and for all)
        /\ (
              \/ \E i \in (IF Sample THEN 1..4 ELSE {1}), t \in Some(Types), k \in Some(Keys), p \in Some(PVals), q \in Some(QVals), inc \in Some(IncSets), st \in Some(Stamps),
                    rm \in (IF Sample THEN {RandomElement(1..6) = 1} ELSE BOOLEAN) : Put(t, k, p, q, inc, st, rm)
              \/ \E h \in Some(Handlers) : Sub(h)
              \/ DropSet # {} /\ \E h \in Some(Handlers \cap DropSet) : Unsub(h))

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

-----------------------------------------------------------------------------
TypeOK == /\ subs \subseteq Handlers
          /\ \A t \in Cached, k \in Keys : cache[t][k] = None \/ cache[t][k].p \in PVals \cup {0}

(* C03: folding the events a subscriber received gives the container *)
FoldIsCache == \A h \in subs : (~Raw(h) /\ HType(h) \in Cached) =>
                 \A k \in Keys : seen[h][k] = <<cache[HType(h)][k].p, cache[HType(h)][k].q>>
(* C02: updates keep the creator; a new creation forgets it *)
CreatorKept == [][\A t \in Cached, k \in Keys :
                    (cache[t][k] # None /\ cache'[t][k] # None) => cache'[t][k].c = cache[t][k].c]_vars
FreshStart == [][\A t \in Cached, k \in Keys :
                    (cache[t][k] = None /\ cache'[t][k] # None) => (cache'[t][k].c = cache'[t][k].m /\ cache'[t][k].op = "create")]_vars
(* C01: an update touches only what it names *)
UnnamedKept == [][act'.cmd.op = "Put" =>
                    \A t \in Cached, k \in Keys :
                       /\ (t # act'.cmd.t \/ k # act'.cmd.v.k) => cache'[t][k] = cache[t][k]
                       /\ (cache[t][k] # None /\ cache'[t][k] # None) =>
                            /\ ("p" \notin act'.cmd.inc => cache'[t][k].p = cache[t][k].p)
                            /\ ("q" \notin act'.cmd.inc => cache'[t][k].q = cache[t][k].q)]_vars
(* C03: one event per accepted change, none for the rest *)
OneEvent == [][act'.cmd.op = "Put" =>
                 \A h \in subs : ~Raw(h) =>
                    Len(act'.obs.ev[h]) = IF HType(h) = act'.cmd.t /\ (IF h = "u1" THEN ~act'.cmd.rm ELSE cache'[HType(h)] # cache[HType(h)] \/ (KeysOf(cache', HType(h)) = KeysOf(cache, HType(h)) /\ ~act'.cmd.rm))
                                          THEN 1 ELSE 0]_vars
(* C04: the countdown of a replay ends at zero *)
CountDown == [][act'.cmd.op = "Sub" =>
                  LET e == act'.obs.ev[act'.cmd.h] IN \A i \in 1..Len(e) : e[i].fc = Len(e) - i]_vars
=============================================================================
