------------------------------ MODULE Listener ------------------------------
(* A listener and the clients that come to it.  A client connects, opens the
   transport (only some transports need more than connecting for that) and is then
   handed on as a channel as soon as the event loop runs.  Clients may be gone
   before they are accepted, stay silent, or send nonsense instead of opening:
   that concerns nobody else.

   Kinds of clients: good (opens at once), gone (closes at once), reset (aborts
   at once), silent (does not open yet), half (opens halfway), late (opens and
   closes at once), bad (sends something else).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, Kinds, Shakes, Ops

VARIABLES lst,     \* "on", "off": the accept handler declined further clients, "gone"
          armed,   \* the accept handler is going to decline further clients
          st,      \* per client: none, queue, shake, open, left, hung, refused
          kind, queue, ghosts,
          chan,    \* clients that have a channel
          told, said, act

svars == <<lst, armed, st, kind, queue, ghosts, chan, told, said>>
vars == <<svars, act>>
View == svars

None == [served |-> {}, got |-> {}, heard |-> {}, errs |-> {}, hung |-> {}, refused |-> FALSE, lost |-> FALSE]
Obs(o) == [servedS |-> o.served, gotS |-> o.got, heardS |-> o.heard, errS |-> o.errs, hungS |-> o.hung, refused |-> o.refused, lost |-> o.lost]
Did(cmd, o) == act' = [cmd |-> cmd, obs |-> Obs(o)]

Alive(c) == st[c] \in {"queue", "shake", "open"}
Opened(c) == kind[c] = "good"
(* with several clients on their way it is not determined which one the handler sees first *)
Determined(k) == armed => (k = "good" /\ ghosts = {} /\ (Shakes => queue = <<>> /\ \A c \in Clients : st[c] # "shake"))

Connect(c, k) ==
    /\ st[c] = "none" /\ (\A d \in Clients : d < c => st[d] # "none") /\ Determined(k)
    /\ kind' = [kind EXCEPT ![c] = k]
    /\ st' = [st EXCEPT ![c] = IF lst = "gone" THEN "refused" ELSE IF k \in {"gone", "reset", "late"} THEN "left" ELSE "queue"]
    /\ queue' = IF st'[c] = "queue" THEN Append(queue, c) ELSE queue
    /\ ghosts' = IF st'[c] = "left" THEN ghosts \cup {c} ELSE ghosts
    /\ Did([op |-> "Connect", c |-> c, kind |-> k], [None EXCEPT !.refused = (lst = "gone")])
    /\ UNCHANGED <<lst, armed, chan, told, said>>
Finish(c) ==
    /\ kind[c] \in {"silent", "half"} /\ st[c] \in {"queue", "shake"} /\ ~armed
    /\ kind' = [kind EXCEPT ![c] = "good"]
    /\ Did([op |-> "Finish", c |-> c, half |-> kind[c] = "half"], None)
    /\ UNCHANGED <<lst, armed, st, queue, ghosts, chan, told, said>>
Leave(c, how) ==
    /\ Alive(c) /\ ~armed /\ c \notin told
    /\ st' = [st EXCEPT ![c] = "left"] /\ queue' = SelectSeq(queue, LAMBDA x : x # c)
    /\ ghosts' = IF st[c] = "queue" THEN ghosts \cup {c} ELSE ghosts
    /\ said' = said \ {c}
    /\ Did([op |-> "Leave", c |-> c, how |-> how], None)
    /\ UNCHANGED <<lst, armed, kind, chan, told>>
Tell(c) == /\ st[c] = "open" /\ c \notin told
           /\ told' = told \cup {c}
           /\ Did([op |-> "Tell", c |-> c], None)
           /\ UNCHANGED <<lst, armed, st, kind, queue, ghosts, chan, said>>
(* the same transmission to everyone *)
Say == /\ chan # {} /\ said = {}
       /\ \A c \in chan : st[c] = "open"
       /\ said' = chan
       /\ Did([op |-> "Say"], None)
       /\ UNCHANGED <<lst, armed, st, kind, queue, ghosts, chan, told>>
Stop == /\ lst = "on" /\ ~armed /\ queue = <<>> /\ ghosts = {} /\ \A c \in Clients : st[c] # "shake"
        /\ armed' = TRUE
        /\ Did([op |-> "Stop"], None)
        /\ UNCHANGED <<lst, st, kind, queue, ghosts, chan, told, said>>
Resume == /\ lst = "off"
          /\ lst' = "on"
          /\ Did([op |-> "Resume"], None)
          /\ UNCHANGED <<armed, st, kind, queue, ghosts, chan, told, said>>
Destroy == /\ lst # "gone"
           /\ lst' = "gone" /\ armed' = FALSE
           /\ st' = [c \in Clients |-> IF st[c] \in {"queue", "shake"} THEN "hung" ELSE st[c]]
           /\ queue' = <<>> /\ ghosts' = {}
           /\ Did([op |-> "Destroy"], None)
           /\ UNCHANGED <<kind, chan, told, said>>

Range(q) == {q[i] : i \in 1..Len(q)}
(* everything that can be done is done *)
Run ==
    LET taken == IF lst # "on" THEN {} ELSE IF armed THEN (IF queue = <<>> THEN {} ELSE {Head(queue)}) ELSE Range(queue)
        shaking == taken \cup {c \in Clients : st[c] = "shake"}
        opened == IF lst # "on" THEN {} ELSE {c \in shaking : Opened(c)}
        bad == {c \in shaking : kind[c] = "bad"}
        left == {c \in chan : st[c] = "left"}
    IN /\ st' = [c \in Clients |-> IF c \in opened THEN "open" ELSE IF c \in bad THEN "hung" ELSE IF c \in taken THEN "shake" ELSE st[c]]
       /\ queue' = SelectSeq(queue, LAMBDA x : x \notin taken)
       /\ ghosts' = IF lst = "on" THEN {} ELSE ghosts
       /\ lst' = IF armed /\ opened # {} THEN "off" ELSE lst
       /\ armed' = (armed /\ opened = {})
       /\ chan' = (chan \cup opened) \ left
       /\ told' = {} /\ said' = {}
       /\ kind' = kind
       /\ Did([op |-> "Run"], [None EXCEPT !.served = opened, !.got = told, !.heard = said, !.errs = left,
                                           !.hung = {c \in Clients : st'[c] = "hung"}])

Init == /\ lst = "on" /\ armed = FALSE /\ st = [c \in Clients |-> "none"] /\ kind = [c \in Clients |-> "none"]
        /\ queue = <<>> /\ ghosts = {} /\ chan = {} /\ told = {} /\ said = {} /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E c \in Clients, k \in Kinds : Connect(c, k)
        \/ Run
        \/ \E c \in Clients : Finish(c)
        \/ "leave" \in Ops /\ \E c \in Clients, how \in {"close", "abort"} : Leave(c, how)
        \/ "tell" \in Ops /\ \E c \in Clients : Tell(c)
        \/ "say" \in Ops /\ Say
        \/ "stop" \in Ops /\ (Stop \/ Resume)
        \/ "destroy" \in Ops /\ Destroy

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == /\ chan = {c \in Clients : st[c] = "open"} \cup {c \in chan : st[c] = "left"}
          /\ \A c \in Clients : st[c] = "queue" <=> \E i \in 1..Len(queue) : queue[i] = c
(* nobody who opened the transport waits longer than until the event loop runs *)
Served == [][(Run /\ lst = "on" /\ ~armed) => \A c \in Clients : (Alive(c) /\ Opened(c)) => st'[c] = "open"]_vars
(* only what a client does itself, or the end of the listener, ends it *)
Undisturbed == [][\A c \in Clients : st[c] = "open" => st'[c] = "open" \/ act'.cmd.op = "Leave"]_vars
(* a listener ends only when it is told to *)
KeepsListening == [][lst = "on" => lst' = "on" \/ armed \/ act'.cmd.op = "Destroy"]_vars
=============================================================================
