------------------------------- MODULE Timers -------------------------------
(* Timers on a clock that only moves with Advance.

   A timer is known by its label.  slot[s] is the label of the timer that the
   Timer object s manages, or 0; a timer that nobody manages any more has been
   discarded and goes on until it is through.  due counts the ticks until the
   timer is next due, "spent" timers are one-shot timers that have fired.

   What the handler of a timer does when called:
     none | destroy (the object that manages it) | discard | again (replaces
     itself by a new timer like itself) | kill (destroys the object in slot
     Victim)                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Labels, Ivals, Periodic, Deeds, Victim, Steps, Ops

VARIABLES slot, tm, act

svars == <<slot, tm>>
vars == <<svars, act>>
View == svars

None == [due |-> -1, ival |-> 0, per |-> FALSE, deed |-> "none"]
Spent(x) == x.due = -1
Held(l, w) == \E s \in Slots : w.slot[s] = l
Holder(l, w) == CHOOSE s \in Slots : w.slot[s] = l

(* the object in slot s is destroyed *)
Clear(w, s) == IF w.slot[s] = 0 THEN w ELSE [w EXCEPT !.tm[w.slot[s]] = None, !.slot[s] = 0]

(* the handler of l is called *)
Call(w, l) ==
    LET x == w.tm[l]
        \* it will be called again after the interval
        w0 == [w EXCEPT !.n[l] = @ + 1]
        next == IF x.per THEN [x EXCEPT !.due = x.ival] ELSE [x EXCEPT !.due = -1]
        w1 == [w0 EXCEPT !.tm[l] = IF ~x.per /\ ~Held(l, w0) THEN None ELSE next]
    IN CASE x.deed = "destroy" /\ Held(l, w) -> Clear(w1, Holder(l, w))
         [] x.deed = "discard" /\ Held(l, w) -> [w1 EXCEPT !.slot[Holder(l, w)] = 0, !.tm[l] = IF x.per THEN @ ELSE None]
         [] x.deed = "again" /\ Held(l, w) -> [w1 EXCEPT !.tm[l] = [x EXCEPT !.due = x.ival]]
         [] x.deed = "kill" -> Clear(w1, Victim)
         [] OTHER -> w1

(* everything that is due is called, in the order of the times; d: ticks that have passed *)
RECURSIVE Fire(_, _, _)
Fire(w, d, fuel) ==
    LET ready == {l \in Labels : w.tm[l].due >= 0 /\ w.tm[l].due <= d /\ l \notin w.fresh}
    IN IF ready = {} \/ fuel = 0 THEN w
       ELSE LET l == CHOOSE x \in ready : \A y \in ready : w.tm[x].due < w.tm[y].due \/ (w.tm[x].due = w.tm[y].due /\ x <= y)
                tie == \E y \in ready : y # l /\ w.tm[y].due = w.tm[l].due /\ "kill" \in {w.tm[y].deed, w.tm[l].deed}
                x == w.tm[l]
                \* the times of its next call relate to the beginning of the advance
                w1 == Call(w, l)
                back == IF x.per /\ w1.tm[l].due >= 0 /\ ~(x.deed = "again" /\ Held(l, w)) THEN [w1 EXCEPT !.tm[l].due = x.due + x.ival]
                        ELSE w1
                fr == IF x.deed = "again" /\ Held(l, w) THEN [back EXCEPT !.fresh = @ \cup {l}] ELSE back
            IN Fire([fr EXCEPT !.tie = @ \/ tie], d, fuel - 1)
Elapsed(w, d) == [w EXCEPT !.tm = [l \in Labels |-> IF w.tm[l].due = -1 \/ l \in w.fresh THEN w.tm[l] ELSE [w.tm[l] EXCEPT !.due = @ - d]]]

-----------------------------------------------------------------------------
W0 == [slot |-> slot, tm |-> tm, n |-> [l \in Labels |-> 0], fresh |-> {}, tie |-> FALSE]
Apply(w, cmd) == /\ slot' = w.slot /\ tm' = w.tm /\ act' = [cmd |-> cmd, obs |-> [calls |-> w.n]]
Free == {l \in Labels : tm[l] = None /\ \A s \in Slots : slot[s] # l}

Create(s, iv, per, deed) ==
    /\ Free # {}
    /\ LET l == CHOOSE x \in Free : \A y \in Free : x <= y
           w == Clear(W0, s)
       IN Apply([w EXCEPT !.slot[s] = l, !.tm[l] = [due |-> iv, ival |-> iv, per |-> per, deed |-> deed]],
                [op |-> "Create", s |-> s, l |-> l, iv |-> iv, per |-> per, deed |-> deed])
Destroy(s) == "Destroy" \in Ops /\ slot[s] # 0 /\ Apply(Clear(W0, s), [op |-> "Destroy", s |-> s])
Discard(s) ==
    /\ "Discard" \in Ops
    /\ Apply([W0 EXCEPT !.slot[s] = 0, !.tm = [l \in Labels |-> IF l = slot[s] /\ Spent(tm[l]) THEN None ELSE tm[l]]], [op |-> "Discard", s |-> s])
Move(a, b) ==
    /\ "Move" \in Ops /\ a # b
    /\ LET w == Clear(W0, b) IN Apply([w EXCEPT !.slot[b] = slot[a], !.slot[a] = 0], [op |-> "Move", a |-> a, b |-> b])
Advance(d) ==
    LET w == Fire(W0, d, 60) IN ~w.tie /\ Apply(Elapsed(w, d), [op |-> "Advance", d |-> d])

Init == slot = [s \in Slots |-> 0] /\ tm = [l \in Labels |-> None] /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E s \in Slots, iv \in Ivals, per \in Periodic, d \in Deeds : Create(s, iv, per, d)
        \/ \E s \in Slots : Destroy(s) \/ Discard(s)
        \/ \E a \in Slots, b \in Slots : Move(a, b)
        \/ \E d \in Steps : Advance(d)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == /\ \A l \in Labels : tm[l].due >= -1 /\ tm[l].due <= tm[l].ival
          /\ \A a, b \in Slots : a # b /\ slot[a] # 0 => slot[a] # slot[b]
(* C29: a one-shot timer is called once at most, and never early *)
OnceNotEarly == [][act'.cmd.op = "Advance" => \A l \in Labels :
                     /\ (tm[l].due = -1 => act'.obs.calls[l] = 0)
                     /\ (tm[l].due > act'.cmd.d => act'.obs.calls[l] = 0)
                     /\ (~tm[l].per => act'.obs.calls[l] <= 1)]_vars
(* whatever is due is called, unless another handler ended it *)
NotMissed == [][(act'.cmd.op = "Advance" /\ "kill" \notin Deeds) => \A l \in Labels : (tm[l].due >= 0 /\ tm[l].due <= act'.cmd.d) => act'.obs.calls[l] >= 1]_vars
(* periodic timers keep their rhythm *)
Rhythm == [][act'.cmd.op = "Advance" => \A l \in Labels : (tm[l].per /\ tm[l].deed \in {"none", "discard"} /\ tm'[l].due >= 0) =>
                 tm[l].due + act'.obs.calls[l] * tm[l].ival = tm'[l].due + act'.cmd.d]_vars
OnlyAdvanceCalls == [][act'.cmd.op # "Advance" => \A l \in Labels : act'.obs.calls[l] = 0]_vars
=============================================================================
