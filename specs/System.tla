------------------------------- MODULE System -------------------------------
(* A host and several guests, all of them real, connected by in-process
   channels.  What one side says arrives at the other in order, but whenever
   the schedule pleases: every delivery of one message is a transition.

   Each connecting of a guest uses a new link; up[l] and down[l] are the messages
   under way on link l.  Instances are identified by k and carry the optional
   values p and q (0: unset); by is the last updater (0 the host, otherwise the
   link).  Type C is plain, D is removed when its last updater leaves, U is not
   cached.

   The guests' caches follow from the messages they get, the host's cache from
   what it processes: that they agree once everything is delivered is what has
   to be shown.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Guests, Links, Types, Keys, PVals, QVals,
          Start,      \* guests that are connected and subscribed from the beginning
          Preload,    \* types a guest subscribes to while connecting
          Ops, MaxUp, MaxDown, MaxAll,
          Sample      \* only look at one choice of arguments at a time (for simulation)

VARIABLES hc,      \* the host's cache
          hcon, hjoin, hdesc,             \* per link, at the host
          link, gcon, gjoin, glost, gdesc, gsub, gc,  \* per guest
          stale,   \* instances a guest kept although they were removed while it was away
          used,    \* links that have been used
          halive, galive,                 \* per link: which ends still exist
          up, down, act

svars == <<hc, hcon, hjoin, hdesc, link, gcon, gjoin, glost, gdesc, gsub, gc, stale, used, halive, galive, up, down>>
vars == <<svars, act>>
View == svars

Cached == Types \ {"U"}
Order == <<"C", "D", "U">>
None == [p |-> -1, q |-> -1, by |-> -1]
Val(k, p, q) == [k |-> k, p |-> p, q |-> q]
Valid(v) == {"k"} \cup (IF v.p # 0 THEN {"p"} ELSE {}) \cup (IF v.q # 0 THEN {"q"} ELSE {})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
KeysOf(c, t) == {k \in Keys : c[t][k] # None}
Owner(w, l) == CHOOSE g \in Guests : w.link[g] = l
Merge(old, v, rm, by) == IF rm THEN None
                         ELSE [p |-> IF v.p # 0 THEN v.p ELSE IF old = None THEN 0 ELSE old.p,
                               q |-> IF v.q # 0 THEN v.q ELSE IF old = None THEN 0 ELSE old.q, by |-> by]

-----------------------------------------------------------------------------
W0 == [hc |-> hc, hcon |-> hcon, hjoin |-> hjoin, hdesc |-> hdesc, link |-> link, gcon |-> gcon, gjoin |-> gjoin, glost |-> glost,
       gdesc |-> gdesc, gsub |-> gsub, gc |-> gc, stale |-> stale, used |-> used, halive |-> halive, galive |-> galive, up |-> up, down |-> down,
       ev |-> [g \in Guests |-> <<>>], hev |-> <<>>, rep |-> [g \in Guests |-> <<>>]]
Msg(m) == [m |-> m]

(* the host *)
HSay(w, l, m) == IF w.galive[l] THEN [w EXCEPT !.down[l] = @ \o <<m>>] ELSE w
HDescribe(w, l, t) == IF t \in w.hdesc[l] THEN w ELSE HSay([w EXCEPT !.hdesc[l] = @ \cup {t}], l, [m |-> "desc", t |-> t])
HSend(w, l, t, v, rm, snd, fc) ==
    HSay(HDescribe(w, l, t), l, [m |-> "upd", t |-> t, v |-> v, rm |-> rm, snd |-> snd, fc |-> fc])

RECURSIVE HPublish(_, _, _, _, _), HForward(_, _, _, _, _, _, _), HClose(_, _, _), HCleanup(_, _, _)
(* an accepted update: into the cache, then to everyone who joined *)
HPublish(w, t, v, rm, snd) ==
    LET old == IF t \in Cached THEN w.hc[t][v.k] ELSE None
        mt == IF t \notin Cached THEN "create" ELSE IF rm THEN "remove" ELSE IF old = None THEN "create" ELSE "update"
        new == Merge(old, v, rm, snd)
        seen == IF t \notin Cached THEN v ELSE IF rm THEN Val(v.k, Merge(old, v, FALSE, snd).p, Merge(old, v, FALSE, snd).q) ELSE Val(v.k, new.p, new.q)
        w1 == IF t \notin Cached THEN w ELSE [w EXCEPT !.hc[t][v.k] = new]
        w2 == IF t \in Cached /\ rm /\ old = None THEN w1
              ELSE [w1 EXCEPT !.hev = @ \o <<[t |-> t, v |-> seen, mt |-> mt, snd |-> snd]>>]
        members == {l \in Links : t \in w2.hjoin[l]}
    IN HForward(w2, members, members, t, v, rm, snd)
HForward(w, S, M, t, v, rm, snd) ==
    IF S = {} THEN
        LET dead == {l \in M : ~w.galive[l] /\ w.hcon[l] # "closed"}
        IN IF dead = {} THEN w ELSE HClose(w, CHOOSE l \in dead : \A x \in dead : l <= x, TRUE)
    ELSE LET l == CHOOSE x \in S : \A y \in S : x <= y
         IN HForward(IF w.hcon[l] = "closed" THEN w ELSE HSend(w, l, t, v, rm, snd, -1), S \ {l}, M, t, v, rm, snd)
(* the connection is closed; err: by the host itself, which says so *)
HClose(w, l, err) ==
    LET w1 == IF err /\ w.hcon[l] = "on" THEN HSay(w, l, Msg("err")) ELSE w
        w2 == [w1 EXCEPT !.hcon[l] = "closed", !.hjoin[l] = {}]
        w3 == IF "D" \in Types THEN HCleanup(w2, l, Sorted({k \in Keys : w2.hc["D"][k].by = l})) ELSE w2
    IN [w3 EXCEPT !.halive[l] = FALSE, !.up[l] = <<>>]
HCleanup(w, l, ks) == IF ks = <<>> THEN w
                      ELSE HCleanup(IF w.hc["D"][Head(ks)].by = l THEN HPublish(w, "D", Val(Head(ks), 0, 0), TRUE, 0) ELSE w, l, Tail(ks))

(* a guest asked for the removal of everything of a type *)
RECURSIVE HClear(_, _, _)
HClear(w, t, ks) == IF ks = <<>> THEN w ELSE HClear(IF w.hc[t][Head(ks)] = None THEN w ELSE HPublish(w, t, Val(Head(ks), 0, 0), TRUE, 0), t, Tail(ks))

RECURSIVE HSnapshot(_, _, _, _)
HSnapshot(w, l, t, ks) ==
    IF ks = <<>> THEN w
    ELSE LET c == w.hc[t][Head(ks)] IN HSnapshot(HSend(w, l, t, Val(Head(ks), c.p, c.q), FALSE, c.by, Len(ks) - 1), l, t, Tail(ks))
HJoin(w, l, t) ==
    LET w1 == [w EXCEPT !.hjoin[l] = @ \cup {t}]
    IN IF t \notin Cached THEN w1
       ELSE IF ~w1.galive[l] THEN HClose(w1, l, TRUE)
       ELSE HSay(HSnapshot(w1, l, t, Sorted(KeysOf(w1.hc, t))), l, [m |-> "info", t |-> t])

HReceive(w, l, m) ==
    CASE m.m = "accept" -> IF ~w.galive[l] THEN w ELSE HSay([w EXCEPT !.hcon[l] = "connecting", !.halive[l] = TRUE], l, Msg("hello"))
      [] m.m = "connect" -> IF w.galive[l] THEN HSay([w EXCEPT !.hcon[l] = "early"], l, Msg("resp")) ELSE HClose(w, l, FALSE)
      [] m.m = "predone" -> IF w.galive[l] THEN HSay([w EXCEPT !.hcon[l] = "on"], l, Msg("fin")) ELSE HClose(w, l, FALSE)
      [] m.m = "desc" -> [w EXCEPT !.hdesc[l] = @ \cup {m.t}]
      [] m.m = "join" -> HJoin(w, l, m.t)
      [] m.m = "clear" -> HClear(w, m.t, Sorted(KeysOf(w.hc, m.t)))
      [] m.m = "pub" -> HPublish(w, m.t, m.v, m.rm, l)
      [] OTHER -> HClose(w, l, FALSE)

(* a guest *)
Served(w, g) == w.gcon[g] \in {"early", "on"}
GClose(w, g, err) ==
    LET l == w.link[g]
        w1 == IF err /\ w.gcon[g] = "on" /\ w.halive[l] THEN [w EXCEPT !.up[l] = @ \o <<Msg("err")>>] ELSE w
    IN [w1 EXCEPT !.gcon[g] = "none", !.link[g] = 0, !.glost[g] = @ \cup w.gjoin[g], !.gjoin[g] = {}, !.gdesc[g] = {}, !.galive[l] = FALSE, !.down[l] = <<>>,
                  !.rep[g] = @ \o <<[s |-> "closed", err |-> err]>>]
GSay(w, g, m) == IF w.gcon[g] = "none" THEN w
                 ELSE IF w.halive[w.link[g]] THEN [w EXCEPT !.up[w.link[g]] = @ \o <<m>>] ELSE GClose(w, g, TRUE)
GDescribe(w, g, t) == IF w.gcon[g] = "none" \/ t \in w.gdesc[g] THEN w ELSE GSay([w EXCEPT !.gdesc[g] = @ \cup {t}], g, [m |-> "desc", t |-> t])
GJoin(w, g, t) == IF w.gcon[g] = "none" \/ t \in w.gjoin[g] THEN w ELSE GSay([w EXCEPT !.gjoin[g] = @ \cup {t}], g, [m |-> "join", t |-> t])
RECURSIVE GJoinAll(_, _, _, _)
GJoinAll(w, g, S, i) == IF i > 3 THEN w ELSE GJoinAll(IF Order[i] \in S THEN GJoin(w, g, Order[i]) ELSE w, g, S, i + 1)
RECURSIVE GPreAll(_, _, _, _)
GPreAll(w, g, S, i) == IF i > 3 THEN w ELSE GPreAll(IF Order[i] \in S THEN GJoin(GDescribe(w, g, Order[i]), g, Order[i]) ELSE w, g, S, i + 1)
GRejoin(w, g) == GJoinAll([w EXCEPT !.glost[g] = {}], g, w.glost[g], 1)

GUpdate(w, g, m) ==
    LET t == m.t k == m.v.k
        old == IF t \in Cached THEN w.gc[g][t][k] ELSE None
        mt == IF t \notin Cached THEN "create" ELSE IF m.rm THEN "remove" ELSE IF old = None THEN "create" ELSE "update"
        mg == Merge(old, m.v, FALSE, m.snd)
        e == [t |-> t, v |-> IF t \in Cached THEN Val(k, mg.p, mg.q) ELSE m.v, mt |-> mt, snd |-> m.snd, mine |-> m.snd = w.link[g], fc |-> m.fc]
        w1 == IF t \notin Cached THEN w ELSE [w EXCEPT !.gc[g][t][k] = Merge(old, m.v, m.rm, m.snd), !.stale[g] = IF m.rm \/ old = None THEN @ \ {<<t, k>>} ELSE @]
    IN IF (t \in Cached /\ m.rm /\ old = None) \/ t \notin w.gsub[g] THEN w1 ELSE [w1 EXCEPT !.ev[g] = @ \o <<e>>]

GReceive(w, g, m) ==
    CASE m.m = "hello" -> GSay([w EXCEPT !.gcon[g] = "resp"], g, Msg("connect"))
      [] m.m = "resp" -> GSay(GRejoin(GPreAll([w EXCEPT !.gcon[g] = "early"], g, IF w.glost[g] = {} /\ w.gsub[g] = {} THEN Preload ELSE {}, 1), g), g, Msg("predone"))
      [] m.m = "fin" -> [w EXCEPT !.gcon[g] = "on", !.rep[g] = @ \o <<[s |-> "connected", err |-> FALSE]>>]
      [] m.m = "desc" -> [w EXCEPT !.gdesc[g] = @ \cup {m.t}]
      [] m.m = "info" -> w
      [] m.m = "upd" -> GUpdate(w, g, m)
      [] OTHER -> GClose(w, g, FALSE)

-----------------------------------------------------------------------------
Entries(c) == [t \in Cached |-> LET ks == Sorted(KeysOf(c, t)) IN
    [i \in 1..Len(ks) |-> [v |-> Val(ks[i], c[t][ks[i]].p, c[t][ks[i]].q), by |-> c[t][ks[i]].by]]]
Obs(w, exc) == [host |-> Entries(w.hc), hev |-> w.hev, ev |-> w.ev, rep |-> w.rep, exc |-> exc,
                guests |-> [g \in Guests |-> [c |-> Entries(w.gc[g]), on |-> w.gcon[g] = "on", held |-> w.gcon[g] \notin {"none", "gone"}]],
                openS |-> {l \in Links : w.hcon[l] \notin {"none", "closed"}}]
(* what a guest keeps that the host does not have any more, once nothing about it is under way *)
Become(w) ==
    /\ hc' = w.hc /\ hcon' = w.hcon /\ hjoin' = w.hjoin /\ hdesc' = w.hdesc /\ link' = w.link /\ gcon' = w.gcon /\ gjoin' = w.gjoin /\ glost' = w.glost
    /\ gdesc' = w.gdesc /\ gsub' = w.gsub /\ gc' = w.gc /\ used' = w.used /\ halive' = w.halive /\ galive' = w.galive /\ up' = w.up /\ down' = w.down
    /\ stale' = [g \in Guests |-> {x \in w.stale[g] : w.gc[g][x[1]][x[2]] # None}]
Room(w) == /\ \A l \in Links : Len(w.up[l]) <= MaxUp /\ Len(w.down[l]) <= MaxDown
RECURSIVE Sum(_, _)
Sum(q, l) == IF l = 0 THEN 0 ELSE Len(q[l]) + Sum(q, l - 1)
UnderWay == Sum(up, Cardinality(Links)) + Sum(down, Cardinality(Links))
Idle == UnderWay = 0
Step(w, cmd, exc) == Room(w) /\ Become(w) /\ act' = [cmd |-> cmd, obs |-> Obs(w, exc)]
New == UnderWay < MaxAll

DeliverUp(l) == up[l] # <<>> /\ Step(HReceive([W0 EXCEPT !.up[l] = Tail(@)], l, Head(up[l])), [op |-> "Up", l |-> l], FALSE)
DeliverDown(g) == LET l == link[g] IN
    /\ l # 0 /\ (l # 0 => down[l] # <<>>)
    /\ Step(GReceive([W0 EXCEPT !.down[l] = Tail(@)], g, Head(down[l])), [op |-> "Down", g |-> g, l |-> l], FALSE)

Open(g) ==
    /\ gcon[g] \in {"none", "gone"} /\ used < Cardinality(Links)
    \* whatever the guest still has might be out of date
    /\ LET l == used + 1
           w == [W0 EXCEPT !.used = l, !.link[g] = l, !.gcon[g] = "hello", !.galive[l] = TRUE, !.up[l] = <<Msg("accept")>>,
                           !.stale[g] = {<<t, k>> \in Cached \X Keys : gc[g][t][k] # None}]
       IN Step(w, [op |-> "Open", g |-> g, l |-> l, fresh |-> gcon[g] = "gone", preload |-> IF glost[g] = {} /\ gsub[g] = {} THEN Preload ELSE {}], FALSE)
Subscribe(g, t) == /\ Served(W0, g) /\ t \notin gsub[g]
                   /\ LET w == GJoin(W0, g, t)
                          ks == IF t \in Cached THEN Sorted(KeysOf(gc[g], t)) ELSE <<>>
                          e(i) == [t |-> t, v |-> Val(ks[i], gc[g][t][ks[i]].p, gc[g][t][ks[i]].q), mt |-> "create", snd |-> -9, mine |-> FALSE, fc |-> Len(ks) - i]
                      IN Step([w EXCEPT !.gsub[g] = @ \cup {t}, !.ev[g] = [i \in 1..Len(ks) |-> e(i)]], [op |-> "Subscribe", g |-> g, t |-> t], FALSE)
Publish(g, t, v, rm) ==
    /\ Served(W0, g) /\ ~(rm /\ t = "U")
    /\ Step(GSay(GDescribe(W0, g, t), g, [m |-> "pub", t |-> t, v |-> v, rm |-> rm]), [op |-> "Publish", g |-> g, t |-> t, v |-> v, rm |-> rm], FALSE)
(* the guest stays a member, it only stops listening *)
Unsubscribe(g, t) == /\ t \in gsub[g]
                     /\ Step([W0 EXCEPT !.gsub[g] = @ \ {t}], [op |-> "Unsubscribe", g |-> g, t |-> t], FALSE)
Clear(g, t) == /\ Served(W0, g) /\ t \in Cached
               /\ Step(GSay(W0, g, [m |-> "clear", t |-> t]), [op |-> "Clear", g |-> g, t |-> t], FALSE)
HostPublish(t, v, rm) ==
    /\ ~(rm /\ t = "U") /\ (rm => hc[t][v.k] # None)
    /\ Step(HPublish(W0, t, v, rm, 0), [op |-> "HostPublish", t |-> t, v |-> v, rm |-> rm], FALSE)
(* at most one end at a time has gone without the other noticing *)
Unnoticed == {l \in Links : hcon[l] \notin {"none", "closed"} /\ ~galive[l]}
Fail(g) == gcon[g] = "on" /\ Unnoticed = {} /\ Step(GClose(W0, g, TRUE), [op |-> "Fail", g |-> g], FALSE)
Destroy(g) ==
    /\ gcon[g] \notin {"none", "gone"} /\ Unnoticed = {}
    /\ LET l == link[g]
           w == IF gcon[g] = "on" /\ halive[l] THEN [W0 EXCEPT !.up[l] = @ \o <<Msg("bye")>>] ELSE W0
           w1 == [w EXCEPT !.gcon[g] = "gone", !.link[g] = 0, !.gjoin[g] = {}, !.glost[g] = {}, !.gdesc[g] = {}, !.gsub[g] = {}, !.galive[l] = FALSE, !.down[l] = <<>>,
                           !.rep[g] = <<[s |-> "closed", err |-> FALSE]>>, !.gc[g] = [t \in Cached |-> [k \in Keys |-> None]]]
       IN Step(w1, [op |-> "Destroy", g |-> g], FALSE)

Init == /\ hc = [t \in Cached |-> [k \in Keys |-> None]]
        /\ hcon = [l \in Links |-> IF l \in Start THEN "on" ELSE "none"] /\ hjoin = [l \in Links |-> IF l \in Start THEN Types ELSE {}]
        /\ hdesc = [l \in Links |-> IF l \in Start THEN Types ELSE {}]
        /\ link = [g \in Guests |-> IF g \in Start THEN g ELSE 0] /\ gcon = [g \in Guests |-> IF g \in Start THEN "on" ELSE "gone"]
        /\ gjoin = [g \in Guests |-> IF g \in Start THEN Types ELSE {}] /\ glost = [g \in Guests |-> {}] /\ gdesc = [g \in Guests |-> IF g \in Start THEN Types ELSE {}]
        /\ gsub = [g \in Guests |-> IF g \in Start THEN Types ELSE {}] /\ gc = [g \in Guests |-> [t \in Cached |-> [k \in Keys |-> None]]]
        /\ stale = [g \in Guests |-> {}] /\ used = Cardinality(Start)
        /\ halive = [l \in Links |-> l \in Start] /\ galive = [l \in Links |-> l \in Start]
        /\ up = [l \in Links |-> <<>>] /\ down = [l \in Links |-> <<>>]
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]

Vals == {Val(k, p, q) : k \in Keys, p \in PVals, q \in QVals}
Some(S) == IF Sample THEN {RandomElement(S)} ELSE S
Next == \/ \E l \in Links : DeliverUp(l)
        \/ \E g \in Some(Guests) : DeliverDown(g)
        \/ /\ New
           /\ \/ "open" \in Ops /\ \E g \in Some(Guests) : Open(g)
              \/ "sub" \in Ops /\ \E g \in Some(Guests), t \in Some(Types) : Subscribe(g, t)
              \/ "unsub" \in Ops /\ \E g \in Some(Guests), t \in Some(Types) : Unsubscribe(g, t)
              \/ "clear" \in Ops /\ \E g \in Some(Guests), t \in Some(Types) : Clear(g, t)
              \/ "pub" \in Ops /\ \E g \in Some(Guests), t \in Some(Types), v \in Some(Vals) : Publish(g, t, v, FALSE)
              \/ "rm" \in Ops /\ \E g \in Some(Guests), t \in Some(Types), k \in Some(Keys) : Publish(g, t, Val(k, 0, 0), TRUE)
              \/ "hpub" \in Ops /\ \E t \in Some(Types), v \in Some(Vals) : HostPublish(t, v, FALSE)
              \/ "hrm" \in Ops /\ \E t \in Some(Types), k \in Some(Keys) : HostPublish(t, Val(k, 0, 0), TRUE)
              \/ "fail" \in Ops /\ \E g \in Some(Guests) : Fail(g)
              \/ "destroy" \in Ops /\ \E g \in Some(Guests) : Destroy(g)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == /\ \A g \in Guests : gcon[g] \in {"none", "gone"} <=> link[g] = 0
          /\ \A l \in Links : hcon[l] \in {"none", "closed"} => hjoin[l] = {}
(* what a guest will have once everything under way to it has arrived *)
RECURSIVE Fold(_, _, _)
Fold(c, t, q) == IF q = <<>> THEN c
                 ELSE Fold(IF Head(q).m = "upd" /\ Head(q).t = t THEN [c EXCEPT ![Head(q).v.k] = Merge(@, Head(q).v, Head(q).rm, Head(q).snd)] ELSE c, t, Tail(q))
(* C12: what has joined will agree with the host.  The exception is what a guest
   kept while it was not connected: instances that were removed meanwhile stay,
   and so do properties that instances lost by being removed and created again. *)
Agrees(g, t, k, c) ==
    LET h == hc[t][k] IN
    IF <<t, k>> \in stale[g] THEN h = None \/ (c # None /\ c.by = h.by /\ (h.p # 0 => c.p = h.p) /\ (h.q # 0 => c.q = h.q))
    ELSE c = h
Converging == \A g \in Guests : link[g] # 0 =>
                 \A t \in Cached : t \in hjoin[link[g]] => \A k \in Keys : Agrees(g, t, k, Fold(gc[g][t], t, down[link[g]])[k])
Converged == Idle => \A g \in Guests : gcon[g] = "on" => \A t \in gjoin[g] \cap Cached : \A k \in Keys : Agrees(g, t, k, gc[g][t][k])
(* a guest that has always been connected agrees without exception *)
NeverStale == (Ops \cap {"fail"} = {}) => \A g \in Guests : gcon[g] = "on" => stale[g] = {}
(* C14 *)
NoOrphans == "D" \in Types => \A k \in Keys : hc["D"][k].by > 0 => hcon[hc["D"][k].by] # "closed"
(* the subscriptions of a guest that is served are known to the host or on their way *)
JoinedOrJoining == \A g \in Guests : gcon[g] = "on" => \A t \in gjoin[g] :
                      LET l == link[g] IN hcon[l] = "closed" \/ t \in hjoin[l] \/ \E i \in 1..Len(up[l]) : up[l][i].m = "join" /\ up[l][i].t = t
=============================================================================
