-------------------------------- MODULE Subs --------------------------------
(* The lifetimes of transceivers, handlers and subscription objects.

   There are two places for transceivers and some places for subscription
   objects.  Every subscribing creates a handler with a label of its own; the
   subscription object that comes with it refers to the label.  Transceivers are
   created, destroyed, move constructed and move assigned; subscriptions are
   destroyed, cancelled, discarded, moved over each other, and may be owned by
   another handler, so that they go away together with it.  A handler may, when
   it is called, cancel whatever a place holds at that moment.

   The only thing that matters to a user: a handler is called if and only if it
   has been subscribed at the transceiver and its subscription has not ended. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Places,   \* of transceivers, e.g. {1, 2}
          Slots,    \* of subscriptions
          Kinds,    \* ev (by type), evd (by descriptor), evn (by name), raw, rawn, new
          Ops,
          MaxHs,    \* how many handlers there are at most
          Extra     \* what a handler may do or own: none, own, drop

VARIABLES T,     \* place -> [st |-> none/moved/live, hs |-> handlers, newest first]
          S,     \* slot -> label, or 0
          act

svars == <<T, S>>
vars == <<svars, act>>
View == svars

IsEv(k) == k \in {"ev", "evd", "evn"}
IsRaw(k) == k \in {"raw", "rawn"}
None == [st |-> "none", hs |-> <<>>]
Moved == [st |-> "moved", hs |-> <<>>]

AllHs(t) == UNION {{t[p].hs[i] : i \in 1..Len(t[p].hs)} : p \in Places}
Labels(t) == {h.l : h \in AllHs(t)}
Used == Labels(T) \cup {S[s] : s \in Slots} \cup {h.own : h \in AllHs(T)}
Fresh == CHOOSE l \in 1..100 : l \notin Used /\ \A k \in 1..(l - 1) : k \in Used

(* removes the handlers with the given labels everywhere, and those whose
   subscriptions they own, and so on *)
Prune(t, L) == [p \in Places |-> [t[p] EXCEPT !.hs = SelectSeq(@, LAMBDA h : h.l \notin L)]]
RECURSIVE Cancel(_, _)
Cancel(t, L) ==
    LET owned == {h.own : h \in {x \in AllHs(t) : x.l \in L}} \ {0}
        t2 == Prune(t, L)
    IN IF owned = {} THEN t2 ELSE Cancel(t2, owned)
HsLabels(hs) == {hs[i].l : i \in 1..Len(hs)}

Result(cmd, t, s, told) ==
    /\ T' = t /\ S' = s
    /\ act' = [cmd |-> cmd, obs |-> [told |-> told]]

Create(p) == T[p].st = "none" /\ Result([op |-> "Create", p |-> p], [T EXCEPT ![p] = [st |-> "live", hs |-> <<>>]], S, <<>>)
Destroy(p) ==
    /\ T[p].st # "none"
    /\ Result([op |-> "Destroy", p |-> p], [Cancel(T, HsLabels(T[p].hs)) EXCEPT ![p] = None], S, <<>>)
MoveConstruct(p, q) ==
    /\ p # q /\ T[p].st = "live" /\ T[q].st = "none"
    /\ Result([op |-> "MoveConstruct", p |-> p, q |-> q], [T EXCEPT ![q] = T[p], ![p] = Moved], S, <<>>)
MoveAssign(p, q) ==
    /\ p # q /\ T[p].st = "live" /\ T[q].st \in {"live", "moved"}
    /\ LET t2 == Cancel(T, HsLabels(T[q].hs))
       IN Result([op |-> "MoveAssign", p |-> p, q |-> q], [t2 EXCEPT ![q] = t2[p], ![p] = Moved], S, <<>>)

Clear(p) ==
    /\ T[p].st = "live"
    /\ Result([op |-> "Clear", p |-> p], Cancel(T, {h.l : h \in {T[p].hs[i] : i \in {j \in 1..Len(T[p].hs) : T[p].hs[j].k # "new"}}}), S, <<>>)

(* o: the slot of the subscription the handler takes over, or 0; d: the slot it cancels when called, or 0 *)
Subscribe(p, s, k, o, d) ==
    /\ T[p].st = "live" /\ S[s] = 0 /\ Cardinality(AllHs(T)) < MaxHs
    /\ o # "-" => S[o] # 0 /\ o # s
    /\ LET h == [l |-> Fresh, k |-> k, own |-> IF o = "-" THEN 0 ELSE S[o], drop |-> d]
       IN Result([op |-> "Subscribe", p |-> p, s |-> s, k |-> k, own |-> o, drop |-> d, l |-> Fresh],
                 [T EXCEPT ![p].hs = <<h>> \o @], [x \in Slots |-> IF x = s THEN Fresh ELSE IF x = o THEN 0 ELSE S[x]], <<>>)

Drop(s, how) ==
    Result([op |-> "Drop", s |-> s, how |-> how], Cancel(T, {S[s]} \ {0}), [S EXCEPT ![s] = 0], <<>>)
Discard(s) == Result([op |-> "Discard", s |-> s], T, [S EXCEPT ![s] = 0], <<>>)
MoveSub(a, b) ==
    /\ a # b
    /\ Result([op |-> "MoveSub", a |-> a, b |-> b], Cancel(T, {S[b]} \ {0}), [S EXCEPT ![b] = S[a], ![a] = 0], <<>>)

(* Delivering: st is [t, s, dead, told]; handlers of the dispatch that is going on
   (place p, new-type handlers or the others) are cancelled at once, but what they
   own goes away when all handlers have been called; others go away right then. *)
RECURSIVE CancelIn(_, _, _, _)
CancelIn(st, L, p, new) ==
    IF L = {} THEN st
    ELSE LET l == CHOOSE x \in L : TRUE
             hs == {h \in AllHs(st.t) : h.l = l}
         IN IF hs = {} THEN CancelIn(st, L \ {l}, p, new)
            ELSE LET h == CHOOSE x \in hs : TRUE IN
                 IF l \in HsLabels(st.t[p].hs) /\ ((h.k = "new") <=> new)
                 THEN CancelIn([st EXCEPT !.dead = @ \cup {l}], L \ {l}, p, new)
                 ELSE CancelIn([st EXCEPT !.t = Prune(@, {l})], (L \ {l}) \cup ({h.own} \ {0}), p, new)

RECURSIVE Deliver(_, _, _, _)
Deliver(st, todo, p, new) ==
    IF todo = <<>> THEN [st EXCEPT !.t = Cancel(@, st.dead), !.dead = {}]
    ELSE LET h == Head(todo) IN
         IF h.l \in st.dead \/ h.l \notin Labels(st.t) THEN Deliver(st, Tail(todo), p, new)
         ELSE LET s1 == [st EXCEPT !.told = Append(@, h.l)] IN
              Deliver(IF h.drop = "-" THEN s1 ELSE CancelIn([s1 EXCEPT !.s = [@ EXCEPT ![h.drop] = 0]], {s1.s[h.drop]} \ {0}, p, new), Tail(todo), p, new)

Quiet == [t |-> T, s |-> S, dead |-> {}, told |-> <<>>]
Publish(p) ==
    /\ T[p].st = "live"
    /\ LET st1 == Deliver(Quiet, SelectSeq(T[p].hs, LAMBDA h : IsRaw(h.k)), p, FALSE)
           st2 == Deliver(st1, SelectSeq(st1.t[p].hs, LAMBDA h : IsEv(h.k)), p, FALSE)
       IN Result([op |-> "Publish", p |-> p], st2.t, st2.s, st2.told)

NewType(p) ==
    /\ T[p].st = "live"
    /\ LET st == Deliver(Quiet, SelectSeq(T[p].hs, LAMBDA h : h.k = "new"), p, TRUE)
       IN Result([op |-> "NewType", p |-> p], st.t, st.s, st.told)

Init == /\ T = [p \in Places |-> None] /\ S = [s \in Slots |-> 0]
        /\ act = [cmd |-> [op |-> "Init"], obs |-> [ok |-> TRUE]]
On(op) == op \in Ops
Next ==
    \/ \E p \in Places :
        \/ Create(p)
        \/ On("Destroy") /\ Destroy(p)
        \/ On("Clear") /\ Clear(p)
        \/ Publish(p)
        \/ "new" \in Kinds /\ NewType(p)
        \/ \E q \in Places :
            \/ On("MoveT") /\ MoveConstruct(p, q)
            \/ On("MoveT") /\ MoveAssign(p, q)
        \/ \E s \in Slots, k \in Kinds :
            \/ Subscribe(p, s, k, "-", "-")
            \/ "own" \in Extra /\ \E o \in Slots : Subscribe(p, s, k, o, "-")
            \/ "drop" \in Extra /\ \E d \in Slots : Subscribe(p, s, k, "-", d)
    \/ \E s \in Slots :
        \/ \E how \in {"unsubscribe", "destroy"} : Drop(s, how)
        \/ On("Discard") /\ Discard(s)
        \/ On("MoveSub") /\ \E b \in Slots : MoveSub(s, b)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
Spec == Init /\ [][Next /\ Emit]_vars

-----------------------------------------------------------------------------
TypeOK == \A h \in AllHs(T) : h.l > 0
LabelsUnique == \A p, q \in Places : \A i \in 1..Len(T[p].hs), j \in 1..Len(T[q].hs) :
                    T[p].hs[i].l = T[q].hs[j].l => p = q /\ i = j
(* a live subscription object keeps exactly its handler; nothing else ends a handler but its transceiver *)
EndedOnlyByItsOwner == [][act'.cmd.op \in {"Drop"} =>
        \A h \in AllHs(T) : h.l \notin Labels(T') => h.l = S[act'.cmd.s] \/ \E g \in AllHs(T) : g.own = h.l]_vars
DiscardKeeps == [][act'.cmd.op \in {"Discard", "Create", "MoveConstruct"} => Labels(T) = Labels(T')]_vars
DropEnds == [][act'.cmd.op = "Drop" => S[act'.cmd.s] \notin Labels(T')]_vars
ToldAreSubscribed == [][act'.cmd.op \in {"Publish", "NewType"} =>
        \A i \in 1..Len(act'.obs.told) : act'.obs.told[i] \in HsLabels(T[act'.cmd.p].hs)]_vars
=============================================================================
