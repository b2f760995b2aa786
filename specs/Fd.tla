--------------------------------- MODULE Fd ---------------------------------
(* Observers of file descriptors: the handler is called whenever the descriptor
   is ready, as long as the observer exists (or was let go of), never after it,
   also when observers are destroyed, moved or replaced inside a handler; an
   observation that ends closes its descriptor.

   slot   observation the observer in this slot manages, or 0
   st     observation -> new | on | loose (nobody can end it any more) | over
   cond   what it waits for: read, write (the handler fills the descriptor up),
          error (the other end is gone)
   left   bytes to be read; full: nothing can be written; gone: the other end
          was closed                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, N, Conds, Most, Ops

VARIABLES slot, st, cond, left, full, gone, act

svars == <<slot, st, cond, left, full, gone>>
vars == <<svars, act>>
View == svars

Obss == 1..N
Live(s, o) == s[o] \in {"on", "loose"}
Ready(o) == CASE cond[o] = "read" -> left[o] > 0 \/ gone[o]
              [] cond[o] = "write" -> ~full[o] \/ gone[o]
              [] OTHER -> gone[o]
Calls(o) == CASE cond[o] = "read" -> left[o] [] cond[o] = "write" -> 1 [] OTHER -> 0
(* an observation is over and its descriptor closed *)
Closed(s) == {o \in Obss : s[o] = "over"}
Zero == [o \in Obss |-> 0]
Named(f) == [k \in {ToString(o) : o \in DOMAIN f} |-> f[CHOOSE o \in DOMAIN f : ToString(o) = k]]
(* what is over is closed as soon as the event loop has run *)
Obs(s, c) == [calls |-> Named(c), closedS |-> {ToString(o) : o \in Closed(s)}, late |-> 0, errors |-> 0]
Idle(cmd) == act' = [cmd |-> cmd, obs |-> [calls |-> Named(Zero), late |-> 0, errors |-> 0]]

Make(a, c) ==
    /\ slot[a] = 0 /\ \E o \in Obss : st[o] = "new"
    /\ LET o == CHOOSE x \in Obss : st[x] = "new" /\ \A y \in Obss : st[y] = "new" => x <= y IN
       /\ slot' = [slot EXCEPT ![a] = o] /\ st' = [st EXCEPT ![o] = "on"] /\ cond' = [cond EXCEPT ![o] = c]
       /\ Idle([op |-> "Make", a |-> a, o |-> o, cond |-> c])
    /\ UNCHANGED <<left, full, gone>>
(* the slot is emptied: the observation that was there is over, unless it is loose *)
Ended(s, o) == IF o # 0 /\ s[o] = "on" THEN [s EXCEPT ![o] = "over"] ELSE s
Drop(a) == /\ slot[a] # 0 /\ slot' = [slot EXCEPT ![a] = 0] /\ st' = Ended(st, slot[a])
           /\ Idle([op |-> "Drop", a |-> a]) /\ UNCHANGED <<cond, left, full, gone>>
Move(a, b, how) == /\ a # b /\ slot[a] # 0 /\ (how = "build" => slot[b] = 0)
                   /\ slot' = [slot EXCEPT ![b] = slot[a], ![a] = 0] /\ st' = Ended(st, slot[b])
                   /\ Idle([op |-> "Move", a |-> a, b |-> b, how |-> how]) /\ UNCHANGED <<cond, left, full, gone>>
Discard(a) == /\ slot[a] # 0 /\ ~gone[slot[a]]
              /\ slot' = [slot EXCEPT ![a] = 0] /\ st' = [st EXCEPT ![slot[a]] = "loose"]
              /\ Idle([op |-> "Discard", a |-> a]) /\ UNCHANGED <<cond, left, full, gone>>

(* the other end *)
Send(o) == /\ Live(st, o) /\ ~gone[o] /\ left[o] < Most /\ left' = [left EXCEPT ![o] = @ + 1]
           /\ Idle([op |-> "Send", o |-> o]) /\ UNCHANGED <<slot, st, cond, full, gone>>
Drain(o) == /\ Live(st, o) /\ ~gone[o] /\ full[o] /\ full' = [full EXCEPT ![o] = FALSE]
            /\ Idle([op |-> "Drain", o |-> o]) /\ UNCHANGED <<slot, st, cond, left, gone>>
(* a loose observation can not be ended, it would be called for ever *)
Hang(o) == /\ st[o] = "on" /\ ~gone[o] /\ gone' = [gone EXCEPT ![o] = TRUE]
           /\ Idle([op |-> "Hang", o |-> o]) /\ UNCHANGED <<slot, st, cond, left, full>>

(* the event loop runs until nothing is ready: a handler reads one byte or writes
   until nothing more fits; it gives up on a descriptor whose other end is gone  *)
Poll ==
    /\ LET up == {o \in Obss : Live(st, o) /\ Ready(o)}
           dead == {o \in up : gone[o]}
       IN /\ st' = [o \in Obss |-> IF o \in dead THEN "over" ELSE st[o]]
          /\ slot' = [a \in Slots |-> IF slot[a] \in dead THEN 0 ELSE slot[a]]
          /\ left' = [o \in Obss |-> IF o \in up /\ cond[o] = "read" THEN 0 ELSE left[o]]
          /\ full' = [o \in Obss |-> IF o \in up /\ cond[o] = "write" THEN TRUE ELSE full[o]]
          /\ act' = [cmd |-> [op |-> "Poll"],
                     obs |-> Obs(st', [o \in Obss |-> IF o \notin up THEN 0 ELSE IF gone[o] THEN (IF cond[o] = "read" THEN left[o] ELSE 0) + 1 ELSE Calls(o)])]
    /\ UNCHANGED <<cond, gone>>

(* the event loop runs, and the first time the handler of the observer in slot a
   is called it drops the observer in b, lets go of it or replaces it by another *)
PollPlan(a, b, plan) ==
    /\ slot[a] # 0 /\ slot[b] # 0 /\ Ready(slot[a]) /\ \A o \in Obss : ~gone[o]
    /\ plan = "swap" => a # b
    /\ LET x == slot[a]
           y == slot[b]
           fromto == IF plan = "swap" THEN [st EXCEPT ![x] = "over"]      \* the observer in b takes the place of the one that is called
                     ELSE IF plan = "discard" THEN [st EXCEPT ![y] = "loose"] ELSE [st EXCEPT ![y] = "over"]
           runs(o) == Live(fromto, o) /\ Ready(o)
       IN /\ st' = fromto
          /\ slot' = IF plan = "swap" THEN [slot EXCEPT ![a] = y, ![b] = 0] ELSE [slot EXCEPT ![b] = 0]
          /\ left' = [o \in Obss |-> IF runs(o) /\ cond[o] = "read" THEN 0 ELSE IF fromto[o] = "over" THEN 0 ELSE left[o]]
          /\ full' = [o \in Obss |-> IF runs(o) /\ cond[o] = "write" THEN TRUE ELSE IF fromto[o] = "over" THEN FALSE ELSE full[o]]
          (* how often an observation was called before it ended is left open *)
          /\ act' = [cmd |-> [op |-> "PollPlan", a |-> a, b |-> b, plan |-> plan],
                     obs |-> Obs(fromto, [o \in {z \in Obss : fromto[z] # "over" \/ st[z] = "over"} |-> IF runs(o) THEN Calls(o) ELSE 0])]
    /\ UNCHANGED <<cond, gone>>

On(op, A) == op \in Ops /\ A
Next == \/ \E a \in Slots, c \in Conds : Make(a, c)
        \/ \E a \in Slots : Drop(a) \/ Discard(a)
        \/ \E a, b \in Slots, how \in {"build", "assign"} : On("move", Move(a, b, how))
        \/ \E o \in Obss : On("peer", Send(o)) \/ On("peer", Drain(o)) \/ On("hang", Hang(o))
        \/ Poll
        \/ \E a, b \in Slots, plan \in {"drop", "discard", "swap"} : On("plan", PollPlan(a, b, plan))
Init == /\ slot = [a \in Slots |-> 0] /\ st = [o \in Obss |-> "new"] /\ cond = [o \in Obss |-> "read"]
        /\ left = Zero /\ full = [o \in Obss |-> FALSE] /\ gone = [o \in Obss |-> FALSE]
        /\ act = [cmd |-> [op |-> "Init"], obs |-> Obs([o \in Obss |-> "new"], Zero)]
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A a \in Slots : slot[a] = 0 \/ st[slot[a]] = "on"
          /\ \A a, b \in Slots : (a # b /\ slot[a] # 0) => slot[a] # slot[b]
          /\ \A o \in Obss : st[o] = "on" => \E a \in Slots : slot[a] = o
(* only what is alive and ready is called *)
OnlyLive == [][act'.cmd.op \in {"Poll", "PollPlan"} => \A o \in Obss : (ToString(o) \in DOMAIN act'.obs.calls /\ act'.obs.calls[ToString(o)] > 0) => (Live(st, o) /\ Ready(o))]_vars
OverStays == [][\A o \in Obss : st[o] = "over" => st'[o] = "over"]_vars
(* what is ready is called whenever the loop runs *)
Called == [][act'.cmd.op = "Poll" => \A o \in Obss : (Live(st, o) /\ Ready(o)) => act'.obs.calls[ToString(o)] > 0]_vars
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
=============================================================================
