------------------------------ MODULE Dispatch ------------------------------
(* Re-entrant dispatching.  Handlers e* (events) and r* (raw transmissions) of a
   cached type C, u* (events) and v* (raw) of an uncached type U.  A handler that
   is called stays on the stack until it returns or throws, and may meanwhile add
   and remove handlers (itself included) and publish, which dispatches at once.

   The specification is small-step: a transition is one thing a handler (or, with
   an empty stack, the application) does, followed by everything the dispatcher
   does until the next handler is called or control comes back.  The harness is
   driven in lock step: the real handler that was called asks for its next
   command, so every interleaving explored here is executed for real.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Keys, MaxDepth, Types

VARIABLES reg,      \* registered handlers, newest first
          present,  \* keys of C in the cache
          stack,    \* frames, outermost first
          act

svars == <<reg, present, stack>>
vars == <<svars, act>>
View == svars

CEv == {"e1", "e2", "e3"}
CRaw == {"r1", "r2"}
UEv == {"u1", "u2"}
URaw == {"v1"}
TypeOf(h) == IF h \in CEv \cup CRaw THEN "C" ELSE "U"
Raw(h) == h \in CRaw \cup URaw

(* A frame: pass "raw" or "ev" of a dispatch, or the replay of the cache to a
   handler being added; cur is the handler that is running, todo what follows. *)
Frame(pass, t, k, rm, mt, todo) == [pass |-> pass, t |-> t, k |-> k, rm |-> rm, mt |-> mt, todo |-> todo, cur |-> "-"]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, f) == [s EXCEPT ![Len(s)] = f]
Interested(r, t, raw) == SelectSeq(r, LAMBDA h : TypeOf(h) = t /\ Raw(h) = raw)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

(* The dispatcher goes on: result [r, p, s, fresh] *)
RECURSIVE Go(_, _, _)
Go(r, p, s) ==
    IF s = <<>> THEN [r |-> r, p |-> p, s |-> s, fresh |-> FALSE]
    ELSE LET f == Top(s) IN
    IF f.todo # <<>> THEN
        IF f.pass = "rep" /\ Head(f.todo) \notin p
        THEN Go(r, p, SetTop(s, [f EXCEPT !.todo = Tail(f.todo)]))
        ELSE [r |-> r, p |-> p, fresh |-> TRUE,
              s |-> SetTop(s, IF f.pass = "rep" THEN [f EXCEPT !.k = Head(f.todo), !.todo = Tail(f.todo)]
                              ELSE [f EXCEPT !.cur = Head(f.todo), !.todo = Tail(f.todo)])]
    ELSE IF f.pass = "raw" THEN
        LET here == f.k \in p
            p2 == IF f.t # "C" THEN p ELSE IF f.rm THEN p \ {f.k} ELSE p \cup {f.k}
            mt == IF f.t # "C" THEN "create" ELSE IF f.rm THEN "remove" ELSE IF here THEN "update" ELSE "create"
            none == f.t = "C" /\ f.rm /\ ~here
        IN Go(r, p2, SetTop(s, Frame("ev", f.t, f.k, f.rm, mt, IF none THEN <<>> ELSE Interested(r, f.t, FALSE))))
    ELSE [r |-> r, p |-> p, s |-> Pop(s), fresh |-> FALSE]

At(g) == IF g.s = <<>> THEN [h |-> "-", w |-> "idle", d |-> 0, fresh |-> FALSE, k |-> 0, mt |-> "-"]
         ELSE LET f == Top(g.s) IN [h |-> f.cur, w |-> f.pass, d |-> Len(g.s), fresh |-> g.fresh, k |-> f.k, mt |-> f.mt]

Result(cmd, g, errs, exc) ==
    /\ reg' = g.r /\ present' = g.p /\ stack' = g.s
    /\ act' = [cmd |-> cmd, obs |-> [at |-> At(g), errs |-> errs, exc |-> exc, present |-> Sorted(g.p)]]

Stay == [r |-> reg, p |-> present, s |-> stack, fresh |-> FALSE]

Add(h) ==
    LET r2 == <<h>> \o reg
        rep == h \in CEv /\ present # {}
        s2 == IF rep THEN stack \o <<[Frame("rep", "C", 0, FALSE, "create", Sorted(present)) EXCEPT !.cur = h]>> ELSE stack
    IN /\ \A i \in 1..Len(reg) : reg[i] # h
       /\ rep => Len(stack) < MaxDepth
       /\ Result([op |-> "Add", h |-> h], IF rep THEN Go(r2, present, s2) ELSE [Stay EXCEPT !.r = r2], 0, FALSE)

BeingAdded(h) == \E i \in 1..Len(stack) : stack[i].pass = "rep" /\ stack[i].cur = h

(* a removed handler is not called any more, by any dispatch *)
Remove(h) ==
    /\ \E i \in 1..Len(reg) : reg[i] = h
    /\ ~BeingAdded(h)
    /\ Result([op |-> "Remove", h |-> h],
              [r |-> SelectSeq(reg, LAMBDA x : x # h), p |-> present, fresh |-> FALSE,
               s |-> [i \in 1..Len(stack) |-> IF stack[i].pass = "rep" THEN stack[i]
                                              ELSE [stack[i] EXCEPT !.todo = SelectSeq(stack[i].todo, LAMBDA x : x # h)]]],
              0, FALSE)

RemoveUnknown(h) ==
    /\ \A i \in 1..Len(reg) : reg[i] # h
    /\ Result([op |-> "RemoveUnknown", h |-> h], Stay, 0, TRUE)

Publish(t, k, rm) ==
    /\ Len(stack) < MaxDepth
    /\ ~(t = "U" /\ rm)
    /\ Result([op |-> "Publish", t |-> t, k |-> k, rm |-> rm],
              Go(reg, present, stack \o <<Frame("raw", t, k, rm, "-", Interested(reg, t, TRUE))>>), 0, FALSE)

Return == /\ stack # <<>>
          /\ Result([op |-> "Return"], Go(reg, present, stack), 0, FALSE)

(* An exception is reported once and the dispatch goes on; one that leaves the
   replay ends the attempt to add the handler. *)
Throw == /\ stack # <<>>
         /\ IF Top(stack).pass = "rep"
            THEN Result([op |-> "Throw"], [r |-> SelectSeq(reg, LAMBDA x : x # Top(stack).cur), p |-> present, s |-> Pop(stack), fresh |-> FALSE], 0, TRUE)
            ELSE Result([op |-> "Throw"], Go(reg, present, stack), 1, FALSE)

Init == /\ reg = <<>> /\ present = {} /\ stack = <<>>
        /\ act = [cmd |-> [op |-> "init"], obs |-> 0]

Next == \/ \E h \in Slots : Add(h) \/ Remove(h) \/ RemoveUnknown(h)
        \/ \E t \in Types, k \in Keys, rm \in BOOLEAN : Publish(t, k, rm)
        \/ Return \/ Throw

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

-----------------------------------------------------------------------------
InReg(h) == \E i \in 1..Len(reg) : reg[i] = h
TypeOK == /\ Len(stack) <= MaxDepth
          /\ \A i, j \in 1..Len(reg) : i # j => reg[i] # reg[j]
(* who is about to be called is registered *)
TodoRegistered == \A i \in 1..Len(stack) : stack[i].pass # "rep" =>
                     \A j \in 1..Len(stack[i].todo) : InReg(stack[i].todo[j])
(* nobody is called twice by one pass *)
TodoOnce == \A i \in 1..Len(stack) : stack[i].pass # "rep" =>
                \A j, l \in 1..Len(stack[i].todo) : j # l => stack[i].todo[j] # stack[i].todo[l]
CalledWhileRegistered == [][(act'.obs.at.fresh /\ act'.obs.at.w \in {"raw", "ev"}) => \E i \in 1..Len(reg') : reg'[i] = act'.obs.at.h]_vars
RawFirst == [][(act'.obs.at.fresh /\ act'.obs.at.w = "raw") => Raw(act'.obs.at.h)]_vars
=============================================================================
