------------------------------- MODULE Guest -------------------------------
(* A guest transceiver whose host is scripted: opening, losing and re-opening
   its connection, preloading, subscribing and publishing, and what it makes of
   the updates the host sends.  Every call of the application and every message
   of the host is one transition.

   conn    none | hello (waits for the hello) | resp (waits for the response)
           | early | on
   joined  types whose group the guest asked to join on this connection
   lost    types it had joined on an earlier connection: a new connection
           joins them again
   descd   types described on this connection
   Types: C cached, D cached with cleanup, U uncached; slots are subscriptions,
   named by kind (e event, r raw transmissions) and type.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Keys, PVals, QVals, Incs, Slots, Ops, Preloads, Senders, Bads

VARIABLES conn, joined, lost, descd, pre, subs, cache, broken, up, act

svars == <<conn, joined, lost, descd, pre, subs, cache, broken, up>>
vars == <<svars, act>>
View == svars

Cached == {"C", "D"} \cap Types
Order == <<"C", "D", "U">>
None == [p |-> -1, q |-> -1, by |-> -1]
NoPre == [p |-> {}, s |-> {}]
Val(k, p, q) == [k |-> k, p |-> p, q |-> q]
Valid(v) == {"k"} \cup (IF v.p # 0 THEN {"p"} ELSE {}) \cup (IF v.q # 0 THEN {"q"} ELSE {})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
KeysOf(c, t) == {k \in Keys : c[t][k] # None}
TypeOf(s) == IF s \in {"eC", "fC", "rC"} THEN "C" ELSE IF s \in {"eD", "rD"} THEN "D" ELSE "U"
Raw(s) == s \in {"rC", "rD", "rU"}

-----------------------------------------------------------------------------
W0 == [conn |-> conn, joined |-> joined, lost |-> lost, descd |-> descd, subs |-> subs, cache |-> cache, broken |-> broken,
       tx |-> <<>>, rep |-> <<>>, ev |-> [s \in Slots |-> <<>>]]
Say(w, m) == [w EXCEPT !.tx = @ \o <<m>>]
Report(w, s, err) == [w EXCEPT !.rep = @ \o <<[s |-> s, err |-> err]>>]

Close(w, err) ==
    IF w.conn = "none" THEN w ELSE
    LET w1 == IF err /\ w.conn = "on" /\ ~w.broken THEN Say(w, [m |-> "err"]) ELSE w
    IN Report([w1 EXCEPT !.conn = "none", !.lost = w1.lost \cup w1.joined, !.joined = {}, !.descd = {}, !.broken = FALSE], "closed", err)

(* messages of the guest: a channel that fails closes the connection *)
Send(w, m) == IF w.conn = "none" THEN w ELSE IF w.broken THEN Close(w, TRUE) ELSE Say(w, m)
Describe(w, t) == IF w.conn = "none" \/ t \in w.descd THEN w
                  ELSE IF w.broken THEN Close(w, TRUE)
                  ELSE Say([w EXCEPT !.descd = @ \cup {t}], [m |-> "desc", t |-> t])
Join(w, t) == IF w.conn = "none" \/ t \in w.joined THEN w ELSE Send([w EXCEPT !.joined = @ \cup {t}], [m |-> "join", t |-> t])

RECURSIVE DescribeAll(_, _, _), JoinAll(_, _, _), PreAll(_, _, _)
DescribeAll(w, S, i) == IF i > 3 THEN w ELSE DescribeAll(IF Order[i] \in S THEN Describe(w, Order[i]) ELSE w, S, i + 1)
JoinAll(w, S, i) == IF i > 3 THEN w ELSE JoinAll(IF Order[i] \in S THEN Join(w, Order[i]) ELSE w, S, i + 1)
PreAll(w, S, i) == IF i > 3 THEN w ELSE PreAll(IF Order[i] \in S THEN Join(Describe(w, Order[i]), Order[i]) ELSE w, S, i + 1)
Rejoin(w) == LET w1 == JoinAll([w EXCEPT !.lost = {}], w.lost, 1) IN [w1 EXCEPT !.lost = IF w1.conn = "none" THEN w.lost ELSE {}]

(* what the guest's own handlers get to see *)
Told(w, t, e, raw) == [w EXCEPT !.ev = [s \in Slots |-> IF s \in w.subs /\ TypeOf(s) = t /\ Raw(s) = raw THEN @[s] \o <<e>> ELSE @[s]]]
Event(v, mt, snd, fc) == [v |-> v, mt |-> mt, snd |-> snd, mine |-> snd = 7, fc |-> fc]
RawEvent(v, inc, rm, snd) == [v |-> v, incS |-> inc, rm |-> rm, snd |-> snd]

Process(w, t, v, inc, rm, snd, fc) ==
    LET old == IF t \in Cached THEN w.cache[t][v.k] ELSE None
        new == IF old = None THEN [p |-> v.p, q |-> v.q, by |-> snd]
               ELSE [p |-> IF "p" \in inc THEN v.p ELSE old.p, q |-> IF "q" \in inc THEN v.q ELSE old.q, by |-> snd]
        mt == IF t \notin Cached THEN "create" ELSE IF rm THEN "remove" ELSE IF old = None THEN "create" ELSE "update"
        w1 == Told(w, t, RawEvent(v, inc, rm, snd), TRUE)
        w2 == IF t \notin Cached THEN w1 ELSE [w1 EXCEPT !.cache[t][v.k] = IF rm THEN None ELSE new]
    IN IF t \in Cached /\ rm /\ old = None THEN w2
       ELSE Told(w2, t, Event(IF t \in Cached THEN Val(v.k, new.p, new.q) ELSE v, mt, snd, fc), FALSE)

Entries(c, t) == LET ks == Sorted(KeysOf(c, t)) IN
    [i \in 1..Len(ks) |-> [v |-> Val(ks[i], c[t][ks[i]].p, c[t][ks[i]].q), by |-> c[t][ks[i]].by]]
Obs(w, exc) == [tx |-> w.tx, rep |-> w.rep, ev |-> w.ev, exc |-> exc, conn |-> w.conn = "on", held |-> w.conn # "none",
                cache |-> [t \in Cached |-> Entries(w.cache, t)]]
Become(w, p) ==
    /\ conn' = w.conn /\ joined' = w.joined /\ lost' = w.lost /\ descd' = w.descd /\ subs' = w.subs /\ cache' = w.cache /\ broken' = w.broken
    /\ pre' = p /\ UNCHANGED up
Done(w, p, cmd, exc) == Become(w, p) /\ act' = [cmd |-> cmd, obs |-> Obs(w, exc)]
Rx(w, p, cmd) == Become(w, p) /\ act' = [cmd |-> cmd, obs |-> Obs(w, FALSE) @@ [armed |-> w.conn # "none"]]
Live == conn # "none"
Served == conn \in {"early", "on"}

-----------------------------------------------------------------------------
Open(p) ==
    /\ IF Live THEN Done(W0, pre, [op |-> "Open", pubs |-> p.p, subs |-> p.s], TRUE)
       ELSE Done(Report([W0 EXCEPT !.conn = "hello"], "connecting", FALSE), p, [op |-> "Open", pubs |-> p.p, subs |-> p.s], FALSE)

Hello ==
    /\ Live
    /\ LET w == IF conn # "hello" THEN Close(W0, TRUE) ELSE Send([W0 EXCEPT !.conn = "resp"], [m |-> "connect"])
       IN Rx(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Hello"])

Response(acc, preload) ==
    /\ Live
    /\ LET early == Report([W0 EXCEPT !.conn = "early"], "early_subscribe", FALSE)
           w == IF conn # "resp" \/ ~acc THEN Close(W0, TRUE)
                ELSE IF preload THEN Send(Rejoin(PreAll(DescribeAll(early, pre.p, 1), pre.s, 1)), [m |-> "predone"])
                ELSE Rejoin(Report([W0 EXCEPT !.conn = "on"], "connected", FALSE))
       IN Rx(w, IF w.conn = "none" \/ preload THEN NoPre ELSE pre, [op |-> "Response", acc |-> acc, preload |-> preload])

Fin ==
    /\ Live
    /\ LET w == IF conn # "early" THEN Close(W0, TRUE) ELSE Report([W0 EXCEPT !.conn = "on"], "connected", FALSE)
       IN Rx(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Fin"])

(* snd: 7 the guest itself, 0 none given (the host), others; fc: remaining, -1 for a live update *)
Update(t, v, inc, rm, snd, fc) ==
    /\ Live
    /\ Valid(v) \subseteq inc
    /\ LET w == IF ~Served \/ (rm /\ t \notin Cached) THEN Close(W0, TRUE) ELSE Process(W0, t, v, inc, rm, IF snd = 0 THEN 1 ELSE snd, fc)
       IN Rx(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Update", t |-> t, v |-> v, inc |-> inc, rm |-> rm, snd |-> snd, fc |-> fc])

Info(t) ==
    /\ Live
    /\ LET w == IF ~Served THEN Close(W0, TRUE) ELSE W0 IN Rx(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Info", t |-> t])

Bad(what) == Live /\ Rx(Close(W0, TRUE), NoPre, [op |-> "Bad", what |-> what])
PeerError(zero) == Live /\ Rx(Close(W0, ~zero), NoPre, [op |-> "PeerError", zero |-> zero])
ChannelError == Live /\ Done(Close(W0, TRUE), NoPre, [op |-> "ChannelError"], FALSE)
Break == Live /\ ~broken /\ Done([W0 EXCEPT !.broken = TRUE], pre, [op |-> "Break"], FALSE)

Publish(t, v, inc, rm) ==
    LET real == IF inc = {"all"} THEN Valid(v) ELSE (inc \cup {"k"}) \ {"$outside"}
        bad == v.k = 0 \/ t = "S" \/ ~Served
        v2 == Val(v.k, IF "p" \in real THEN v.p ELSE 0, IF "q" \in real THEN v.q ELSE 0)
        w == IF bad THEN W0 ELSE Send(Describe(W0, t), [m |-> "pub", t |-> t, v |-> v2, attrS |-> real, rm |-> rm])
    IN Done(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Publish", t |-> t, v |-> v, inc |-> inc, rm |-> rm], bad)

Replay(w, s) == IF Raw(s) \/ TypeOf(s) \notin Cached THEN w ELSE
    LET t == TypeOf(s) ks == Sorted(KeysOf(w.cache, t))
        e(i) == [v |-> Val(ks[i], w.cache[t][ks[i]].p, w.cache[t][ks[i]].q), mt |-> "create", fc |-> Len(ks) - i]
    IN [w EXCEPT !.ev[s] = @ \o [i \in 1..Len(ks) |-> e(i)]]

Subscribe(s) ==
    /\ s \notin subs
    /\ LET t == TypeOf(s)
           ok == Served
           w == IF ~ok THEN W0 ELSE Replay([Join(W0, t) EXCEPT !.subs = @ \cup {s}], s)
       IN Done(w, IF w.conn = "none" THEN NoPre ELSE pre, [op |-> "Subscribe", s |-> s], ~ok)

Unsubscribe(s) == s \in subs /\ Done([W0 EXCEPT !.subs = @ \ {s}], pre, [op |-> "Unsubscribe", s |-> s], FALSE)

Destroy ==
    /\ up' = FALSE /\ UNCHANGED <<lost, pre, subs, cache>>
    /\ conn' = "none" /\ joined' = {} /\ descd' = {} /\ broken' = FALSE
    /\ LET w == IF conn = "on" /\ ~broken THEN Say(W0, [m |-> "bye"]) ELSE W0
           w2 == IF Live THEN Report(w, "closed", conn = "on" /\ broken) ELSE w
       IN act' = [cmd |-> [op |-> "Destroy"], obs |-> [tx |-> w2.tx, rep |-> w2.rep, exc |-> FALSE, held |-> FALSE]]

-----------------------------------------------------------------------------
Init == /\ conn = "none" /\ joined = {} /\ lost = {} /\ descd = {} /\ pre = NoPre /\ subs = {} /\ broken = FALSE /\ up = TRUE
        /\ cache = [t \in Cached |-> [k \in Keys |-> None]]
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]

Vals == {Val(k, p, q) : k \in Keys, p \in PVals, q \in QVals}
IncSets == IF Incs = "all" THEN {{"k"}, {"k", "p"}, {"k", "q"}, {"k", "p", "q"}} ELSE {{"k", "p", "q"}}
PubIncs == {{"all"}} \cup (IF Incs = "all" THEN {{}, {"p"}, {"q", "$outside"}, {"k", "p", "q"}} ELSE {})
Pre(p) == CASE p = "none" -> NoPre
            [] p = "sub" -> [p |-> {}, s |-> Cached]
            [] p = "pub" -> [p |-> Types, s |-> {}]
            [] p = "both" -> [p |-> {"U"} \cap Types, s |-> Types]

Next == /\ up
        /\ \/ "open" \in Ops /\ \E p \in Preloads : Open(Pre(p))
           \/ /\ "open" \in Ops
              /\ (Hello \/ Fin \/ Response(TRUE, TRUE) \/ Response(TRUE, FALSE))
           \/ "refuse" \in Ops /\ Response(FALSE, TRUE)
           \/ "update" \in Ops /\ \E t \in Types, v \in Vals, inc \in IncSets, snd \in Senders : Update(t, v, inc, FALSE, snd, -1)
           \/ "remove" \in Ops /\ \E t \in Cached, k \in Keys, snd \in Senders : Update(t, Val(k, 0, 0), {"k"}, TRUE, snd, -1)
           \/ "snapshot" \in Ops /\ \E t \in Cached, v \in Vals, n \in {0, 1} : Update(t, v, Valid(v), FALSE, 5, n)
           \/ "snapshot" \in Ops /\ \E t \in Cached : Info(t)
           \/ "bad" \in Ops /\ \E b \in Bads : Bad(b)
           \/ "peer" \in Ops /\ \E z \in BOOLEAN : PeerError(z)
           \/ "chfail" \in Ops /\ ChannelError
           \/ "break" \in Ops /\ Break
           \/ "pub" \in Ops /\ \E t \in Types, v \in Vals, inc \in PubIncs : Publish(t, v, inc, FALSE)
           \/ "pubrm" \in Ops /\ \E t \in Types, k \in Keys : Publish(t, Val(k, 0, 0), {"all"}, TRUE)
           \/ "pubbad" \in Ops /\ \E t \in Types, rm \in BOOLEAN : Publish(t, Val(0, 1, 0), {"all"}, rm)
           \/ "pubbad" \in Ops /\ Publish("S", Val(1, 0, 0), {"all"}, FALSE)
           \/ "sub" \in Ops /\ \E s \in Slots : (Subscribe(s) \/ Unsubscribe(s))
           \/ "down" \in Ops /\ Destroy

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

-----------------------------------------------------------------------------
Sent(kind) == {act'.obs.tx[i] : i \in {j \in 1..Len(act'.obs.tx) : act'.obs.tx[j].m = kind}}
TypeOK == /\ conn \in {"none", "hello", "resp", "early", "on"} /\ joined \cap lost = {} /\ subs \subseteq Slots
          /\ conn = "none" => joined = {} /\ descd = {} /\ ~broken
          /\ conn \notin {"early", "on"} => joined = {}
(* C22: whoever is subscribed while the guest is served is a member of the type's group *)
SubscribedIsJoined == (conn \in {"early", "on"}) => \A s \in subs : TypeOf(s) \in joined
(* C19 *)
RefusedWithoutEffect == [][(up' /\ act'.obs.exc) => (svars' = svars /\ act'.obs.tx = <<>>)]_vars
ServiceOnlyWhenOpen == [][(Sent("pub") # {} \/ Sent("join") # {}) => (conn' \in {"early", "on"} \/ \E i \in 1..Len(act'.obs.rep) : act'.obs.rep[i].s = "closed")]_vars
(* C17: described before the first use, once per connection *)
DescribedFirst == [][\A m \in Sent("pub") : m.t \in descd']_vars
DescribedOnce == [][\A m \in Sent("desc") : m.t \notin descd]_vars
(* C27: one closing report per connection; a graceful close is never answered *)
ClosedOnce == [][Cardinality({i \in 1..Len(act'.obs.rep) : act'.obs.rep[i].s = "closed"}) <= 1]_vars
GraceUnanswered == [][(act'.cmd.op = "PeerError" /\ act'.cmd.zero) => (act'.obs.tx = <<>> /\ ~act'.obs.rep[1].err)]_vars
=============================================================================
