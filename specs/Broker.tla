------------------------------- MODULE Broker -------------------------------
(* The host: guest connections behind scripted channels, groups, the cache and
   what every guest is sent.  An incoming message, a host publish or a fault is
   one transition; everything the host does in response happens in it, including
   the cascade of closing guests whose channel fails while they are sent to and
   the removal of the objects they leave behind.

   Types: C cached, D cached with cleanup, U uncached, I the internal type
   DotsClearCache (only its group matters), X a name no type has.  Values are
   records [k, p, q], 0 means "unset"; guest numbers 1.. and 0 for the host.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Guests, Types, Keys, PVals, QVals, Incs, Sents, Ops, Bads, Names, MemberEvents, Clears,
          Started,   \* TRUE: all guests are connected initially
          Auth,      \* "none" or "stub"
          Sample,    \* for simulation
          Reconnect, \* a guest may come back
          Reactor    \* "none", or what a host subscriber does to the next instance of D when one is
                     \* removed: "remove" it, "touch" (publish) it; or "again": publish the removed one again

VARIABLES conn, broken, groups, cache, up, act

svars == <<conn, broken, groups, cache, up>>
vars == <<svars, act>>
View == svars

Cached == {"C", "D", "E"} \cap Types
Cleaned == {"D", "E"} \cap Types   \* end with the guest that changed them last
None == [p |-> -1, q |-> -1, by |-> -1, at |-> -1]
GroupNames == Types \cup {"I", "X"}
Alive == {"greeted", "early", "on"}

Val(k, p, q) == [k |-> k, p |-> p, q |-> q]
Valid(v) == {"k"} \cup (IF v.p # 0 THEN {"p"} ELSE {}) \cup (IF v.q # 0 THEN {"q"} ELSE {})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
KeysOf(c, t) == {k \in Keys : c[t][k] # None}

-----------------------------------------------------------------------------
(* Messages to guests *)
Upd(t, v, inc, rm, snd, fc, at) == [m |-> "upd", t |-> t, v |-> v, attrS |-> inc, rm |-> rm, snd |-> snd, fc |-> fc, at |-> at, sst |-> TRUE]
Simple(m) == [m |-> m]
Info(name) == [m |-> "info", ty |-> name]
ClearMsg(s) == [m |-> "clear", typesS |-> s]

(* The world while a transition is carried out: the state plus what was observed *)
W0 == [conn |-> conn, groups |-> groups, cache |-> cache, tx |-> [g \in Guests |-> <<>>], ev |-> <<>>,
       rep |-> [g \in Guests |-> <<>>], n |-> 0, any |-> FALSE, auth |-> <<>>]

Say(w, g, m) == [w EXCEPT !.tx[g] = @ \o <<m>>]
Report(w, g, s, err) == [w EXCEPT !.rep[g] = @ \o <<[s |-> s, err |-> err]>>]
Enter(w, g, s) == Report([w EXCEPT !.conn[g] = IF s = "early_subscribe" THEN "early" ELSE "on"], g, s, FALSE)

Event(t, v, mt, snd, mine) == [t |-> t, v |-> v, mt |-> mt, snd |-> snd, mine |-> mine]

RECURSIVE Process(_, _, _, _, _, _, _), CloseAll(_, _), Close(_, _, _), RemoveAll(_, _, _, _), SayAll(_, _, _), React(_, _)

SayAll(w, S, m) == IF S = {} THEN w ELSE LET g == CHOOSE x \in S : \A y \in S : x <= y IN SayAll(Say(w, g, m), S \ {g}, m)

(* one update the host accepts: dispatched to its own subscribers, then sent to the group *)
Process(w, src, t, v, inc, rm, at) ==
    LET old == IF t \in Cached THEN w.cache[t][v.k] ELSE None
        new == IF old = None THEN [p |-> v.p, q |-> v.q, by |-> src, at |-> at]
               ELSE [p |-> IF "p" \in inc THEN v.p ELSE old.p, q |-> IF "q" \in inc THEN v.q ELSE old.q, by |-> src, at |-> at]
        merged == Val(v.k, new.p, new.q)
        mt == IF t \notin Cached THEN "create" ELSE IF rm THEN "remove" ELSE IF old = None THEN "create" ELSE "update"
        none == t \in Cached /\ rm /\ old = None
        w1 == IF t \notin Cached THEN w ELSE [w EXCEPT !.cache[t][v.k] = IF rm THEN None ELSE new]
        w2 == IF none THEN w1 ELSE [w1 EXCEPT !.ev = @ \o <<Event(t, IF t \in Cached THEN merged ELSE v, mt, src, src = 0)>>]
        w3 == IF Reactor # "none" /\ rm /\ ~none /\ t = "D" THEN React(w2, v.k) ELSE w2
        to == w3.groups[t]
    IN CloseAll(SayAll(w3, to \ broken, Upd(t, v, inc, rm, src, -1, at)), to \cap broken)

(* the reacting subscriber *)
React(w, k) == LET more == IF Reactor = "again" THEN {k} ELSE {x \in KeysOf(w.cache, "D") : x # k} IN
               IF more = {} THEN w ELSE LET x == CHOOSE x \in more : \A y \in more : x <= y IN
               [IF Reactor = "remove" THEN Process(w, 0, "D", Val(x, 0, 0), {"k"}, TRUE, 0)
                ELSE Process(w, 0, "D", Val(x, 1, 0), {"k", "p"}, FALSE, 0) EXCEPT !.any = TRUE]

CloseAll(w, S) == IF S = {} THEN w ELSE LET g == CHOOSE x \in S : \A y \in S : x <= y IN CloseAll(Close(w, g, TRUE), S \ {g})

(* of: only instances that guest was still the last to change, -1: all *)
RemoveAll(w, t, ks, of) == IF ks = <<>> THEN w
                           ELSE RemoveAll(IF w.cache[t][Head(ks)] = None \/ (of # -1 /\ w.cache[t][Head(ks)].by # of) THEN w
                                          ELSE Process(w, 0, t, Val(Head(ks), 0, 0), {"k"}, TRUE, 0), t, Tail(ks), of)

(* err: closed with an error, which a connected guest is told *)
Close(w, g, err) ==
    IF w.conn[g] \notin Alive THEN w ELSE
    LET w1 == IF err /\ w.conn[g] = "on" /\ g \notin broken THEN Say(w, g, Simple("err")) ELSE w
        w2 == Report([w1 EXCEPT !.conn[g] = "gone", !.groups = [t \in GroupNames |-> @[t] \ {g}], !.n = @ + 1], g, "closed", err)
        Mine(t) == IF t \in Types THEN {k \in KeysOf(w2.cache, t) : w2.cache[t][k].by = g} ELSE {}
        w3 == IF Mine("D") # {} /\ Mine("E") # {} THEN [w2 EXCEPT !.any = TRUE] ELSE w2 \* in any order of types
    IN RemoveAll(RemoveAll(w3, "D", Sorted(Mine("D")), g), "E", Sorted(Mine("E")), g)

(* the answer to one guest: a channel that fails closes it *)
Answer(w, g, m) == IF g \in broken THEN Close(w, g, TRUE) ELSE Say(w, g, m)

-----------------------------------------------------------------------------
Entries(c, t) == LET ks == Sorted(KeysOf(c, t)) IN
    [i \in 1..Len(ks) |-> [v |-> Val(ks[i], c[t][ks[i]].p, c[t][ks[i]].q), by |-> c[t][ks[i]].by, at |-> c[t][ks[i]].at]]

(* Where several guests fall at once, their order is not part of the contract. *)
Obs(w, exc, unordered) ==
    LET o == [cache |-> [t \in Cached |-> Entries(w.cache, t)], rep |-> w.rep, exc |-> exc, auth |-> w.auth,
              heldS |-> {g \in Guests : w.conn[g] \in Alive}]
    IN IF w.n >= 2 \/ w.any \/ unordered
       THEN o @@ [txu |-> [g \in Guests |-> [msgsS |-> {w.tx[g][i] : i \in 1..Len(w.tx[g])}, n |-> Len(w.tx[g])]], evS |-> {w.ev[i] : i \in 1..Len(w.ev)}, nev |-> Len(w.ev)]
       ELSE o @@ [tx |-> w.tx, ev |-> w.ev]

Done(w, cmd, exc, unordered) ==
    /\ conn' = w.conn /\ groups' = w.groups /\ cache' = w.cache
    /\ broken' = {g \in broken : w.conn[g] \in Alive}
    /\ act' = [cmd |-> cmd, obs |-> Obs(w, exc, unordered)]

(* a message of guest g was handled: the channel goes on receiving unless it is closed *)
Rx(w, g, cmd) ==
    /\ conn' = w.conn /\ groups' = w.groups /\ cache' = w.cache /\ UNCHANGED up
    /\ broken' = {x \in broken : w.conn[x] \in Alive}
    /\ act' = [cmd |-> cmd, obs |-> Obs(w, FALSE, FALSE) @@ [armed |-> w.conn[g] \in Alive]]

Served(g) == conn[g] \in {"early", "on"}

-----------------------------------------------------------------------------
Accept(g, fine) ==
    /\ IF Reconnect THEN conn[g] \in {"none", "gone"} ELSE conn[g] = "none"
    /\ LET w == Report(W0, g, "connecting", FALSE)
           w2 == IF fine THEN Say([w EXCEPT !.conn[g] = "greeted"], g, [m |-> "hello", ch |-> Auth = "stub"])
                 ELSE Report([w EXCEPT !.conn[g] = "gone"], g, "closed", TRUE)
       IN Done(w2, [op |-> "Accept", g |-> g, fine |-> fine], FALSE, FALSE)
    /\ UNCHANGED up

Connect(g, pre, resp) ==
    /\ conn[g] \in Alive
    /\ Auth = "none" => resp = "good"
    /\ LET ask == IF Auth = "stub" /\ conn[g] = "greeted" THEN [W0 EXCEPT !.auth = <<[g |-> g, exact |-> TRUE]>>] ELSE W0
           w == IF conn[g] # "greeted" \/ (Auth = "stub" /\ resp \in {"junk", "long"}) THEN Close(W0, g, TRUE)    \* no digest at all
                ELSE IF Auth = "stub" /\ resp \notin {"good", "bare"}
                THEN Close(IF g \in broken THEN ask ELSE Say(ask, g, [m |-> "resp", acc |-> FALSE]), g, TRUE)
                ELSE IF g \in broken THEN Close(ask, g, TRUE)
                ELSE Enter(Say(ask, g, [m |-> "resp", acc |-> TRUE]), g, IF pre THEN "early_subscribe" ELSE "connected")
       IN Rx(w, g, [op |-> "Connect", g |-> g, pre |-> pre, resp |-> resp])

PreDone(g) ==
    /\ conn[g] \in Alive
    /\ Rx(IF conn[g] # "early" THEN Close(W0, g, TRUE) ELSE Answer(Enter(W0, g, "connected"), g, Simple("fin")), g, [op |-> "PreDone", g |-> g])

(* leaving and coming back of members *)
Snapshot(w, g, t) ==
    LET ks == Sorted(KeysOf(w.cache, t))
        msg(i) == LET r == w.cache[t][ks[i]] v == Val(ks[i], r.p, r.q) IN Upd(t, v, Valid(v), FALSE, r.by, Len(ks) - i, r.at)
    IN [w EXCEPT !.tx[g] = @ \o [i \in 1..Len(ks) |-> msg(i)] \o <<Info(t)>>]

Member(g, e, name) ==
    /\ conn[g] \in Alive
    /\ LET w == IF ~Served(g) \/ e = "none" THEN Close(W0, g, TRUE)
                ELSE IF e = "kill" THEN W0
                ELSE IF e = "leave" THEN [W0 EXCEPT !.groups[name] = @ \ {g}]
                ELSE IF name \in Cached
                THEN IF g \in broken THEN Close(W0, g, TRUE) ELSE Snapshot([W0 EXCEPT !.groups[name] = @ \cup {g}], g, name)
                ELSE [W0 EXCEPT !.groups[name] = @ \cup {g}]
       IN Rx(w, g, [op |-> "Member", g |-> g, e |-> e, name |-> name])

Publish(g, t, v, inc, rm, at) ==
    /\ conn[g] \in Alive
    /\ Valid(v) \subseteq inc
    /\ LET w == IF ~Served(g) \/ (rm /\ t \notin Cached) THEN Close(W0, g, TRUE)
                ELSE Process(W0, g, t, v, inc, rm, at)
       IN Rx(w, g, [op |-> "Publish", g |-> g, t |-> t, v |-> v, inc |-> inc, rm |-> rm, at |-> at])

(* the host's own publishes: inc is what the application asked for, "all" or a set *)
HostPublish(t, v, inc, rm) ==
    LET real == IF inc = {"all"} THEN Valid(v) ELSE (inc \cup {"k"}) \ {"$outside"}
        v2 == Val(v.k, IF "p" \in real THEN v.p ELSE 0, IF "q" \in real THEN v.q ELSE 0)
        bad == v.k = 0 \/ (rm /\ t \notin Cached) \/ t = "S"
    IN /\ Done(IF bad THEN W0 ELSE Process(W0, 0, t, v2, real, rm, 0),
               [op |-> "HostPublish", t |-> t, v |-> v, inc |-> inc, rm |-> rm], bad, FALSE)
       /\ UNCHANGED up

(* messages no guest may send *)
Bad(g, what) ==
    /\ conn[g] \in Alive
    /\ Rx(Close(W0, g, TRUE), g, [op |-> "Bad", g |-> g, what |-> what])

PeerError(g, zero) ==
    /\ conn[g] \in Alive
    /\ Rx(Close(W0, g, ~zero), g, [op |-> "PeerError", g |-> g, zero |-> zero])

ChannelError(g) ==
    /\ conn[g] \in Alive
    /\ Done(Close(W0, g, TRUE), [op |-> "ChannelError", g |-> g], FALSE, FALSE) /\ UNCHANGED up

Break(g) ==
    /\ conn[g] \in Alive /\ g \notin broken
    /\ broken' = broken \cup {g} /\ UNCHANGED <<conn, groups, cache, up>>
    /\ act' = [cmd |-> [op |-> "Break", g |-> g], obs |-> Obs(W0, FALSE, FALSE)]

RECURSIVE ClearTypes(_, _)
ClearTypes(w, ts) == IF ts = {} THEN w ELSE LET t == CHOOSE x \in ts : TRUE IN ClearTypes(RemoveAll(w, t, Sorted(KeysOf(w.cache, t)), -1), ts \ {t})

Clear(g, S) ==
    /\ conn[g] \in Alive
    /\ LET w1 == ClearTypes(W0, S \cap Cached)
           to == w1.groups["I"]
           w2 == CloseAll(SayAll(w1, to \ broken, ClearMsg(S)), to \cap broken)
           w == IF ~Served(g) THEN Close(W0, g, TRUE) ELSE w2
       IN Rx([w EXCEPT !.any = w.any \/ (Served(g) /\ Cardinality(S \cap Cached) > 1)], g, [op |-> "Clear", g |-> g, types |-> S])

Echo(g, req) ==
    /\ conn[g] \in Alive
    /\ Rx(IF ~Served(g) THEN Close(W0, g, TRUE)
          ELSE IF req = "T" THEN Answer(W0, g, [m |-> "echo", same |-> TRUE, req |-> FALSE]) ELSE W0,
          g, [op |-> "Echo", g |-> g, req |-> req])

RECURSIVE Bye(_, _)
Bye(w, S) == IF S = {} THEN w
             ELSE LET g == CHOOSE x \in S : \A y \in S : x <= y
                      w1 == IF w.conn[g] = "on" /\ g \notin broken THEN Say(w, g, Simple("bye")) ELSE w
                  IN Bye(Close([w1 EXCEPT !.conn[g] = "greeted"], g, w.conn[g] = "on" /\ g \in broken), S \ {g})
Shutdown ==
    /\ up' = FALSE
    /\ LET w == Bye([W0 EXCEPT !.groups = [t \in GroupNames |-> {}]], {g \in Guests : conn[g] \in Alive})
       IN /\ conn' = w.conn /\ groups' = w.groups /\ broken' = {} /\ cache' = w.cache
          /\ act' = [cmd |-> [op |-> "Shutdown"], obs |-> [rep |-> w.rep, tx |-> w.tx, heldS |-> {}, evS |-> {w.ev[i] : i \in 1..Len(w.ev)}, nev |-> Len(w.ev)]]

-----------------------------------------------------------------------------
Init == /\ conn = [g \in Guests |-> IF Started THEN "on" ELSE "none"]
        /\ broken = {} /\ up = TRUE
        /\ groups = [t \in GroupNames |-> {}]
        /\ cache = [t \in Cached |-> [k \in Keys |-> None]]
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]

Vals == {Val(k, p, q) : k \in Keys, p \in PVals, q \in QVals}
IncSets == IF Incs = "all" THEN {{"k"}, {"k", "p"}, {"k", "q"}, {"k", "p", "q"}}
           ELSE IF Incs = "few" THEN {{"k"}, {"k", "p"}} ELSE {{"k", "p", "q"}}
HostIncs == {{"all"}} \cup (IF Incs = "all" THEN {{}, {"p"}, {"q", "$outside"}, {"k", "p", "q"}} ELSE IF Incs = "few" THEN {{"p"}} ELSE {})

(* for simulation: one choice of arguments at a time, and publishes more often than the rest *)
Some(S) == IF Sample THEN {RandomElement(S)} ELSE S
Times == IF Sample THEN {1, 2, 3} ELSE {1}

Next == /\ up
        /\ \/ \E g \in Some(Guests) :
             \/ "accept" \in Ops /\ Accept(g, TRUE)
             \/ "acceptbroken" \in Ops /\ Accept(g, FALSE)
             \/ "connect" \in Ops /\ \E pre \in Some(BOOLEAN), r \in {"good", "bare", "bad", "other", "none", "junk", "long"} : Connect(g, pre, r)
             \/ "connect" \in Ops /\ PreDone(g)
             \/ "member" \in Ops /\ \E e \in Some(MemberEvents), n \in Some(Names) : Member(g, e, n)
             \/ "pub" \in Ops /\ \E i \in Times : \E t \in Some(Types), v \in Some(Vals), inc \in Some(IncSets), at \in Some(Sents) : Publish(g, t, v, inc, FALSE, at)
             \/ "rm" \in Ops /\ \E t \in Some(Types), k \in Some(Keys) : Publish(g, t, Val(k, 0, 0), {"k"}, TRUE, 0)
             \/ "bad" \in Ops /\ \E b \in Some(Bads) : Bad(g, b)
             \/ "peer" \in Ops /\ \E z \in Some(BOOLEAN) : PeerError(g, z)
             \/ "chfail" \in Ops /\ ChannelError(g)
             \/ "break" \in Ops /\ Break(g)
             \/ "clear" \in Ops /\ \E S \in Some(Clears) : Clear(g, S)
             \/ "echo" \in Ops /\ \E r \in {"T", "F", "-"} : Echo(g, r)
           \/ "host" \in Ops /\ \E t \in Some(Types), v \in Some(Vals), inc \in Some(HostIncs) : HostPublish(t, v, inc, FALSE)
           \/ "hostrm" \in Ops /\ \E t \in Some(Types), k \in Some(Keys) : HostPublish(t, Val(k, 0, 0), {"all"}, TRUE)
           \/ "hostbad" \in Ops /\ \/ \E t \in Some(Types), rm \in Some(BOOLEAN) : HostPublish(t, Val(0, 1, 0), {"all"}, rm)
                                   \/ HostPublish("S", Val(1, 0, 0), {"all"}, FALSE)
           \/ "down" \in Ops /\ Shutdown

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

-----------------------------------------------------------------------------
Msgs(o, g) == IF "tx" \in DOMAIN o THEN {o.tx[g][i] : i \in 1..Len(o.tx[g])} ELSE o.txu[g].msgsS
Sends(g, kind) == {m \in Msgs(act'.obs, g) : m.m = kind}

TypeOK == /\ \A g \in Guests : conn[g] \in {"none", "greeted", "early", "on", "gone"}
          /\ \A t \in GroupNames : groups[t] \subseteq {g \in Guests : conn[g] \in {"early", "on"}}
          /\ broken \subseteq {g \in Guests : conn[g] \in Alive}
(* C14: no object of a cleanup type outlives the guest that last updated it *)
NoOrphans == \A t \in Cleaned, k \in Keys : cache[t][k] # None =>
                (cache[t][k].by = 0 \/ conn[cache[t][k].by] \in {"early", "on"})
(* C10: live updates go to members and to nobody else; the guest that publishes gets its own *)
OnlyMembers == [][up' => \A g \in Guests : (Sends(g, "upd") # {} /\ act'.cmd.op # "Member") =>
                    \A m \in Sends(g, "upd") : g \in groups[m.t]]_vars
(* C09: who is not admitted is neither sent anything nor has any effect *)
NoService == [][up' => \A g \in Guests : conn[g] \notin {"early", "on"} => Sends(g, "upd") \cup Sends(g, "info") \cup Sends(g, "echo") = {}]_vars
NoEffect == [][(act'.cmd.op \in {"Publish", "Clear", "Member", "Echo"} /\ conn[act'.cmd.g] = "greeted") =>
                 (cache' = cache /\ groups' = groups /\ conn'[act'.cmd.g] = "gone")]_vars
(* C15: only guests that are at fault or cannot be sent to are closed *)
OnlyTheFaulty == [][up' => \A g \in Guests : (conn[g] \in Alive /\ conn'[g] = "gone") =>
                      (g \in broken \/ ("g" \in DOMAIN act'.cmd /\ act'.cmd.g = g))]_vars
ClosedOnce == [][\A g \in Guests : Cardinality({i \in 1..Len(act'.obs.rep[g]) : act'.obs.rep[g][i].s = "closed"}) <= 1]_vars
(* C13: an update carries the connection it came from; a claimed origin is never believed *)
Stamped == [][act'.cmd.op = "Publish" => \A t \in Cached, k \in Keys :
                 (cache'[t][k] # cache[t][k] /\ cache'[t][k] # None) => cache'[t][k].by \in {act'.cmd.g} \cup (IF Reactor \in {"touch", "again"} THEN {0} ELSE {})]_vars
(* C16 *)
ClearedExactly == [][(act'.cmd.op = "Clear" /\ conn[act'.cmd.g] \in {"early", "on"} /\ broken = {}) =>
                       \A t \in Cached : cache'[t] = IF t \in act'.cmd.types THEN [k \in Keys |-> None] ELSE cache[t]]_vars
(* C19 *)
RefusedWithoutEffect == [][("exc" \in DOMAIN act'.obs /\ act'.obs.exc) => (svars' = svars /\ \A g \in Guests : Msgs(act'.obs, g) = {})]_vars
=============================================================================
