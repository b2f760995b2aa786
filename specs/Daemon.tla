------------------------------- MODULE Daemon -------------------------------
(* The daemon: its list of clients and the sweep that removes departed ones.

   Clients are numbered in the order in which they are accepted and never come
   back under the same number.  rec[i] is the DotsClient object of client i in
   the daemon's cache; obj are other cached objects: C plain, D removed when its
   last updater leaves, L the
   authentication policy that refuses everybody.  cr and up are creator and
   last updater (0: the daemon itself).

   The daemon's clock only moves with Advance; a sweep is due every 10 seconds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Max,       \* clients
          Watchers,  \* clients that may join the group DotsClient
          Objs,      \* subset of {"C", "D", "L"}
          Claims,    \* what clients publish about clients: subset of {"run", "other", "closed", "remove"}
          Leaves,    \* subset of {"bye", "error", "fail"}
          Preload,   \* subset of BOOLEAN
          Steps,     \* seconds the clock may advance by
          Breaks,    \* BOOLEAN: transmitting to a client may fail
          Status     \* BOOLEAN: look at the status of the daemon

(* wat are the clients in the group of the daemon's status; fresh tells that the
   status is the current one, told that there is one at all *)
VARIABLES conn, mem, bad, rec, obj, t, wat, told, fresh, act

svars == <<conn, mem, bad, rec, obj, t, wat, told, fresh>>
vars == <<svars, act>>
View == svars

Clients == 1..Max
None == [st |-> "-", name |-> "-", run |-> "-", cr |-> -1, up |-> -1]
NoObj == [cr |-> -1, up |-> -1]
Live(w, i) == w.conn[i] \notin {"none", "closed"}

-----------------------------------------------------------------------------
W0 == [conn |-> conn, mem |-> mem, bad |-> bad, rec |-> rec, obj |-> obj, tx |-> [i \in Clients |-> <<>>], acc |-> "-"]
Put(old, new) == IF new = "-" THEN old ELSE new
Merge(r, m) == IF m.rm THEN None
               ELSE [st |-> Put(r.st, m.st), name |-> Put(r.name, m.name), run |-> Put(r.run, m.run), cr |-> IF r = None THEN m.snd ELSE r.cr, up |-> m.snd]
Upd(i, st, name, run, rm, snd) == [id |-> i, st |-> st, name |-> name, run |-> run, rm |-> rm, snd |-> snd]
Wire(m, fc) == [id |-> m.id, st |-> m.st, name |-> m.name, run |-> m.run, rm |-> m.rm, snd |-> m.snd, fc |-> fc]

RECURSIVE Tell(_, _), Close(_, _)
(* an update of a client object: into the cache, then to everyone in the group *)
Tell(w, m) ==
    LET to == {c \in w.mem : w.conn[c] # "closed"}
        failing == to \cap w.bad
        w1 == [w EXCEPT !.rec[m.id] = Merge(@, m),
                        !.tx = [c \in Clients |-> IF c \in to \ w.bad THEN @[c] \o <<Wire(m, -1)>> ELSE @[c]]]
    IN IF failing = {} THEN w1 ELSE Close(w1, CHOOSE c \in failing : TRUE)
Name(w, i) == IF w.conn[i] = "connecting" THEN "ns" ELSE "g"
Enter(w, i, st) == Tell([w EXCEPT !.conn[i] = st], Upd(i, st, IF st = "connecting" THEN "ns" ELSE "g", "-", FALSE, 0))
Close(w, i) ==
    IF ~Live(w, i) THEN w ELSE
    LET n == Name(w, i)
        w1 == Tell([w EXCEPT !.conn[i] = "closed"], Upd(i, "closed", n, "-", FALSE, 0))
    IN [w1 EXCEPT !.mem = @ \ {i}, !.bad = @ \ {i}, !.obj = [o \in Objs |-> IF o = "D" /\ @[o].up = i THEN NoObj ELSE @[o]]]

Refers(w, i) == (\E o \in Objs : i \in {w.obj[o].cr, w.obj[o].up}) \/ (\E j \in Clients : i \in {w.rec[j].cr, w.rec[j].up})
Expired(w) == {i \in Clients : w.rec[i].st = "closed" /\ ~Refers(w, i)}
RECURSIVE SweepAll(_, _, _)
SweepAll(w, S, i) == IF i > Max THEN w ELSE SweepAll(IF i \in S THEN Tell(w, Upd(i, "-", "-", "-", TRUE, 0)) ELSE w, S, i + 1)
Sweep(w) == SweepAll(w, Expired(w), 1)

RECURSIVE Contents(_, _)
Contents(w, i) ==
    IF i > Max THEN <<>>
    ELSE (IF w.rec[i] = None THEN <<>>
          ELSE << Wire(Upd(i, w.rec[i].st, w.rec[i].name, w.rec[i].run, FALSE, w.rec[i].up), Cardinality({j \in (i + 1)..Max : w.rec[j] # None})) >>)
         \o Contents(w, i + 1)

-----------------------------------------------------------------------------
Shown(w) == [i \in Clients |-> w.rec[i]]
Obs(w) == [recs |-> Shown(w), objs |-> w.obj, tx |-> w.tx, acc |-> w.acc, liveS |-> {i \in Clients : Live(w, i)}]
(* The status is refreshed every second if anything has changed; publishing the
   first one changes the number of types.  It is not said whether a sweep that
   happens at the same time comes first. *)
Content(w) == <<w.rec, w.obj>>
StatusOf(w, s) ==
    LET settled == s >= 2 /\ (t + s) % 10 # 0
        there == told \/ s >= 1
        cur == settled \/ (fresh /\ s = 0 /\ Content(w) = <<rec, obj>>)
    IN [there |-> there, cur |-> cur]
StatusObs(w, s) ==
    LET x == StatusOf(w, s)
    IN (IF x.cur THEN [there |-> x.there, right |-> TRUE, atMost |-> TRUE] ELSE [there |-> x.there, atMost |-> TRUE])
Apply2(w, t2, cmd, s, wt) ==
    /\ conn' = w.conn /\ mem' = w.mem /\ bad' = w.bad /\ rec' = w.rec /\ obj' = w.obj /\ t' = t2
    /\ IF Status
       THEN LET wl == {i \in wt : Live(w, i)} IN
            /\ wat' = wl /\ told' = StatusOf(w, s).there /\ fresh' = StatusOf(w, s).cur
            /\ act' = [cmd |-> cmd, obs |-> [status |-> StatusObs(w, s), sameS |-> wl] @@ Obs(w)]
       ELSE /\ UNCHANGED <<wat, told, fresh>>
            /\ act' = [cmd |-> cmd, obs |-> Obs(w)]
Apply(w, t2, cmd) == Apply2(w, t2, cmd, 0, wat)

On(i) == conn[i] = "connected"
Locked == "L" \in Objs /\ obj["L"] # NoObj

Accept(i) ==
    /\ conn[i] = "none" /\ \A j \in 1..(i - 1) : conn[j] # "none"
    /\ Apply(Enter(W0, i, "connecting"), t, [op |-> "Accept", i |-> i])
(* nobody is admitted while the policy forbids it *)
Connect(i, pre) ==
    /\ conn[i] = "connecting"
    /\ LET w == IF Locked THEN [Close(W0, i) EXCEPT !.acc = "no"]
                ELSE [Enter(W0, i, IF pre THEN "early_subscribe" ELSE "connected") EXCEPT !.acc = "yes"]
       IN Apply(w, t, [op |-> "Connect", i |-> i, pre |-> pre])
Finish(i) == conn[i] = "early_subscribe" /\ Apply(Enter(W0, i, "connected"), t, [op |-> "Finish", i |-> i])
Leave(i, how) == i \notin bad /\ Live(W0, i) /\ Apply(Close(W0, i), t, [op |-> "Leave", i |-> i, how |-> how])
Join(i) ==
    /\ conn[i] \in {"connected", "early_subscribe"} /\ i \notin bad
    /\ Apply([W0 EXCEPT !.mem = @ \cup {i}, !.tx[i] = Contents(W0, 1)], t, [op |-> "Join", i |-> i])
Break(i) == Breaks /\ i \in mem /\ bad = {} /\ Apply([W0 EXCEPT !.bad = {i}], t, [op |-> "Break", i |-> i])

Publish(i, o) ==
    /\ On(i)
    /\ Apply([W0 EXCEPT !.obj[o] = [cr |-> IF @ = NoObj THEN i ELSE @.cr, up |-> i]], t, [op |-> "Publish", i |-> i, o |-> o])
Remove(i, o) ==
    /\ On(i) /\ obj[o] # NoObj
    /\ Apply([W0 EXCEPT !.obj[o] = NoObj], t, [op |-> "Remove", i |-> i, o |-> o])
Claim(i, j, what) ==
    /\ On(i) /\ (what = "run" => i = j) /\ (what \in {"other"} => i # j) /\ conn[j] # "none"
    /\ (what = "remove" => rec[j] # None)
    /\ LET m == CASE what = "closed" -> Upd(j, "closed", "-", "-", FALSE, i)
                  [] what = "remove" -> Upd(j, "-", "-", "-", TRUE, i)
                  [] OTHER -> Upd(j, "-", "-", "T", FALSE, i)
       IN Apply(Tell(W0, m), t, [op |-> "Claim", i |-> i, j |-> j, what |-> what])

Advance(s) ==
    LET w == IF t + s >= 10 THEN Sweep(W0) ELSE W0
        \* several sweeps that have become due follow one another
        w2 == IF t + s >= 20 THEN Sweep(w) ELSE w
    IN Apply2(w2, (t + s) % 10, [op |-> "Advance", s |-> s], s, wat)
(* a client wants to know the status of the daemon *)
Watch(i) ==
    /\ Status /\ conn[i] \in {"connected", "early_subscribe"} /\ bad = {}
    /\ Apply2(W0, t, [op |-> "Watch", i |-> i], 0, wat \cup {i})

Init == /\ conn = [i \in Clients |-> "none"] /\ mem = {} /\ bad = {} /\ t = 0 /\ wat = {} /\ told = FALSE /\ fresh = FALSE
        /\ rec = [i \in Clients |-> None] /\ obj = [o \in Objs |-> NoObj]
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E i \in Clients : Accept(i) \/ Finish(i)
        \/ \E i \in Clients, p \in Preload : Connect(i, p)
        \/ \E i \in Clients, h \in Leaves : Leave(i, h)
        \/ \E i \in Watchers : Join(i) \/ Break(i) \/ Watch(i)
        \/ \E i \in Clients, o \in Objs : Publish(i, o) \/ Remove(i, o)
        \/ \E i \in Clients, j \in Clients, c \in Claims : Claim(i, j, c)
        \/ \E s \in Steps : Advance(s)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == /\ \A i \in Clients : rec[i].cr \in -1..Max /\ rec[i].up \in -1..Max
          /\ mem \subseteq Clients /\ bad \subseteq mem /\ \A i \in mem : conn[i] \notin {"none", "closed"}
Honest == Claims \subseteq {"run"}
(* C26: every connection has its object, which tells its state *)
Mirrors == Honest => \A i \in Clients : /\ (conn[i] \notin {"none", "closed"} => rec[i] # None)
                                        /\ (conn[i] = "none" => rec[i] = None)
                                        /\ (rec[i] # None => rec[i].st = conn[i] /\ rec[i].name = (IF conn[i] = "connecting" THEN "ns" ELSE rec[i].name))
(* whoever is referred to by an object keeps his client object *)
ReferredStays == Honest => \A i \in Clients : (\E o \in Objs : i \in {obj[o].cr, obj[o].up}) => rec[i] # None
NoOrphans == \A o \in Objs : o = "D" => (obj[o].up > 0 => conn[obj[o].up] # "closed")
(* only sweeps (and, where allowed, clients) remove client objects, and a sweep leaves no unreferred one behind *)
OnlySweeps == [][Honest => \A i \in Clients : (rec[i] # None /\ rec'[i] = None) => act'.cmd.op = "Advance"]_vars
(* C34: there is a status from the first second on; it is current when nothing has happened for two seconds *)
StatusStays == [][told => told']_vars
StatusComes == [][(Status /\ act'.cmd.op = "Advance") => told']_vars
StatusCurrent == [][(Status /\ act'.cmd.op = "Advance" /\ act'.cmd.s >= 2 /\ t' # 0) => fresh']_vars
SweepsClean == [][(act'.cmd.op = "Advance" /\ act'.cmd.s + t >= 10 /\ bad = {}) =>
                    \A i \in Clients : (rec'[i].st = "closed" => \/ \E o \in Objs : i \in {obj'[o].cr, obj'[o].up}
                                                                 \/ \E j \in Clients : i \in {rec[j].cr, rec[j].up})]_vars
=============================================================================
