-------------------------------- MODULE App --------------------------------
(* What dots::Application gives a program: a connection made while it is being
   constructed (or an error, and then nothing remains of the attempt), an event
   loop that runs until the application exits, and an orderly departure.

   host   the host the application connects to: up, locked (it demands the
          secret) and its cache, key -> p or 0
   app    kind none | global | own (a transceiver of its own) | host (the
          application is a host itself, for guests)
   The endpoint is given by argument or environment and may name a user and a
   secret.  "nowhere" has no host behind it.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Ps, Kinds, Vias, Wheres, Users, Pws, Srcs, Locks, Rudes, Plans, Lists, Ops

VARIABLES host, app, act

svars == <<host, app>>
vars == <<svars, act>>
View == svars

NoApp == [kind |-> "none", name |-> "", over |-> FALSE, alone |-> FALSE, sub |-> FALSE, eps |-> {}, cache |-> [k \in Keys |-> 0]]
NoHost == [up |-> FALSE, lock |-> FALSE, cache |-> [k \in Keys |-> 0]]
Empty == [k \in Keys |-> 0]
Secrets == {"right", "wrong", ""}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
List(c) == LET ks == Sorted({k \in Keys : c[k] # 0}) IN [i \in 1..Len(ks) |-> [k |-> ks[i], p |-> c[ks[i]]]]

(* the ways to say where to connect to *)
Forms == {f \in [via : Vias, where : Wheres, user : Users, pw : Pws, src : Srcs] :
            /\ f.where \in {"tcp", "nowhere"} \/ f.user = ""
            /\ f.user # "" \/ (f.pw = "" /\ f.src = "url")
            /\ f.pw # "" \/ f.src = "url"}

Guest(a) == a.kind \in {"global", "own"}
Clients(h, a) == IF h.up /\ Guest(a) /\ ~a.alone THEN <<[name |-> a.name, running |-> TRUE]>> ELSE <<>>
Ev(mt, k, p, c) == [mt |-> mt, k |-> k, p |-> p, fromCache |-> c]
Base(h, a) == [hcache |-> List(h.cache), clients |-> Clients(h, a),
               set |-> a.kind = "global", connected |-> Guest(a) /\ ~a.alone,
               cache |-> List(a.cache), guestsS |-> a.eps]
Note == [ok |-> TRUE, ev |-> <<>>, left |-> <<>>, code |-> -1, exc |-> FALSE, byes |-> 0]
Step(h, a, cmd, note) == host' = h /\ app' = a /\ act' = [cmd |-> cmd, obs |-> Base(h, a) @@ note]

Init == host = NoHost /\ app = NoApp /\ act = [cmd |-> [op |-> "Init"], obs |-> Note]

-----------------------------------------------------------------------------
HostUp(l) == /\ ~host.up /\ app.kind = "none"
             /\ Step([NoHost EXCEPT !.up = TRUE, !.lock = l], app, [op |-> "HostUp", lock |-> l], Note)
HostDown == /\ host.up /\ app.kind = "none"
            /\ Step(NoHost, app, [op |-> "HostDown"], Note)

(* what the application sees of a change at the host *)
Sees(a) == Guest(a) /\ ~a.alone /\ (a.kind = "global" \/ a.sub)
Seen(a, k, p) == IF ~Sees(a) THEN a ELSE [a EXCEPT !.cache[k] = p]
Told(a, k, p) == IF ~Sees(a) \/ ~a.sub THEN <<>>
                 ELSE <<Ev(IF p = 0 THEN "remove" ELSE IF a.cache[k] = 0 THEN "create" ELSE "update", k, IF p = 0 THEN a.cache[k] ELSE p, FALSE)>>
Put(k, p) == /\ host.up /\ host.cache[k] # p
             /\ Step([host EXCEPT !.cache[k] = p], Seen(app, k, p), [op |-> "Put", k |-> k, p |-> p], [Note EXCEPT !.ev = Told(app, k, p)])
AppPut(k, p) ==
    /\ Guest(app)
    /\ IF app.alone THEN Step(host, app, [op |-> "AppPut", k |-> k, p |-> p], [Note EXCEPT !.exc = TRUE])
       ELSE /\ host.cache[k] # p /\ p # 0
            /\ Step([host EXCEPT !.cache[k] = p], Seen(app, k, p), [op |-> "AppPut", k |-> k, p |-> p], [Note EXCEPT !.ev = Told(app, k, p)])

Served(f) == /\ host.up /\ f.where \in {"tcp", "uds"}
             /\ (host.lock /\ f.where = "tcp") => (f.user # "" /\ f.pw = "right")
Start(kd, f) ==
    /\ app.kind = "none"
    /\ LET a == [NoApp EXCEPT !.kind = kd, !.name = IF f.user # "" /\ kd = "global" THEN f.user ELSE "app",
                              !.cache = IF kd = "global" THEN host.cache ELSE Empty]
           cmd == [op |-> "Start", kind |-> kd, form |-> f]
       IN IF Served(f)
          THEN Step(host, a, cmd, Note) ELSE Step(host, app, cmd, [Note EXCEPT !.ok = FALSE])
(* a host that does not behave, or a user that gives up while connecting *)
Rude(kd, how) ==
    /\ app.kind = "none"
    /\ Step(host, app, [op |-> "Rude", kind |-> kd, how |-> how], [Note EXCEPT !.ok = FALSE])
(* there is one global transceiver *)
Second == /\ app.kind = "global"
          /\ Step(host, app, [op |-> "Second", alone |-> app.alone], [Note EXCEPT !.ok = FALSE])
Sub == /\ Guest(app) /\ ~app.sub /\ ~app.alone
       /\ LET ks == Sorted({k \in Keys : host.cache[k] # 0})
          IN Step(host, [app EXCEPT !.sub = TRUE, !.cache = host.cache], [op |-> "Sub"],
                  [Note EXCEPT !.ev = [i \in 1..Len(ks) |-> Ev("create", ks[i], host.cache[ks[i]], TRUE)]])

(* what ends the event loop *)
Exec(plan) ==
    /\ Guest(app) \/ app.kind = "host"
    /\ ~app.over
    /\ plan \in {"host", "error"} => app.kind = "global"
    /\ plan = "event" => (app.sub /\ \E k \in Keys : host.cache[k] # 2)
    /\ LET cmd == [op |-> "Exec", plan |-> plan]
           o == [app EXCEPT !.over = TRUE]
       IN CASE plan \in {"exit", "timer", "late"} -> Step(host, o, cmd, [Note EXCEPT !.code = 3])
            [] plan \in {"INT", "TERM"} -> Step(host, o, cmd, [Note EXCEPT !.code = 0])
            [] plan = "throw" -> Step(host, app, cmd, [Note EXCEPT !.exc = TRUE])
            [] plan = "host" -> Step(NoHost, [o EXCEPT !.alone = TRUE], cmd, [Note EXCEPT !.code = 0, !.left = <<[name |-> app.name, err |-> FALSE]>>])
            [] plan = "event" -> LET k == CHOOSE x \in Keys : host.cache[x] # 2 /\ \A y \in Keys : host.cache[y] # 2 => x <= y
                                 IN Step([host EXCEPT !.cache[k] = 2], Seen(o, k, 2), [op |-> "Exec", plan |-> plan, k |-> k],
                                         [Note EXCEPT !.code = 2, !.ev = Told(app, k, 2)])
            [] OTHER -> FALSE

Quit == /\ app.kind # "none"
        /\ Step(host, NoApp, [op |-> "Quit"],
                [Note EXCEPT !.left = IF Clients(host, app) # <<>> THEN <<[name |-> app.name, err |-> FALSE]>> ELSE <<>>,
                             !.byes = Cardinality(app.eps)])

(* the application is a host *)
Up(l) == CASE l = "tcp" -> {"tcp"} [] l = "uds" -> {"uds"} [] l \in {"both", "envs", "over"} -> {"tcp", "uds"} [] l = "none" -> {} [] OTHER -> {}
StartHost(l) ==
    /\ app.kind = "none" /\ ~host.up
    /\ LET cmd == [op |-> "StartHost", list |-> l]
       IN IF l \in {"scheme", "second"} THEN Step(host, app, cmd, [Note EXCEPT !.ok = FALSE])
          ELSE Step(host, [NoApp EXCEPT !.kind = "host", !.name = l], cmd, Note)
Visit(e) == /\ app.kind = "host" /\ e \notin app.eps /\ ~app.over
            /\ LET cmd == [op |-> "Visit", where |-> e]
               IN IF e \in Up(app.name) THEN Step(host, [app EXCEPT !.eps = @ \cup {e}], cmd, Note)
                  ELSE Step(host, app, cmd, [Note EXCEPT !.ok = FALSE])

On(o, A) == o \in Ops /\ A
Next == \/ \E l \in Locks : On("host", HostUp(l))
        \/ On("host", HostDown)
        \/ \E k \in Keys, p \in Ps : On("put", Put(k, p))
        \/ \E k \in Keys, p \in Ps : On("appput", AppPut(k, p))
        \/ \E kd \in Kinds, f \in Forms : Start(kd, f)
        \/ \E kd \in Kinds, how \in Rudes : Rude(kd, how)
        \/ On("second", Second) \/ On("sub", Sub)
        \/ \E pl \in Plans : Exec(pl)
        \/ Quit
        \/ \E l \in Lists : StartHost(l)
        \/ \E e \in {"tcp", "uds"} : On("visit", Visit(e))
Spec == Init /\ [][Next]_vars

TypeOK == /\ host.up \in BOOLEAN /\ app.kind \in {"none", "global", "own", "host"}
          /\ app.alone => ~host.up
(* a preloading application knows what the host knows, from the first moment on *)
Preloaded == (app.kind = "global" /\ ~app.alone) => app.cache = host.cache
NobodyLeft == app.kind = "none" => Clients(host, app) = <<>>
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

(* an attempt that fails changes nothing *)
FailedIsNothing == [][~act'.obs.ok => UNCHANGED svars]_vars
(* nothing but the end of the application ends its connection, the host's end aside *)
StaysConnected == [][(Guest(app) /\ ~app.alone /\ act'.cmd.op # "Quit" /\ host'.up) => (Guest(app') /\ ~app'.alone)]_vars
(* the secret guards *)
Guarded == [][(act'.cmd.op = "Start" /\ act'.obs.ok /\ host.lock /\ act'.cmd.form.where = "tcp") => act'.cmd.form.pw = "right"]_vars
=============================================================================
