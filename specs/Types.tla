-------------------------------- MODULE Types --------------------------------
(* The types a transceiver knows and the handlers that are told about new ones.

   The universe is AT (a struct that uses BS and a vector of CE), BS (a struct
   that uses CE), CE (an enum) and VC (the vector of CE); dependants come before
   their dependencies in the order of names.  A handler may, when it is told of
   one particular type, throw, end a subscription (its own included), make
   another subscription, or register a further type; all of it takes effect in
   the middle of the announcement that is going on, so the operators below mirror
   the recursion of the implementation's obligations: every type is announced to
   every handler exactly once, dependencies before dependants.

   A second part is the plain map of types that registries are built on.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,      \* places for subscriptions
          Kinds,      \* what handlers are interested in
          Acts,       \* what handlers do
          On,         \* the types at which they do it
          UsePlain    \* drive the map instead

VARIABLES reg,    \* known types
          hs,     \* subscribed handlers, newest first
          map,    \* the plain map
          act

svars == <<reg, hs, map>>
vars == <<svars, act>>
View == svars

Order == <<"AT", "BS", "CE", "VC">>   \* by name
Universe == {"AT", "BS", "CE", "VC"}
KindOf(t) == CASE t \in {"AT", "BS"} -> "struct" [] t = "CE" -> "enum" [] OTHER -> "vector"
Deps(t) == CASE t = "AT" -> <<"BS", "VC">> [] t = "BS" -> <<"CE">> [] t = "VC" -> <<"CE">> [] OTHER -> <<>>
Ordered(S) == SelectSeq(Order, LAMBDA t : t \in S)

(* transient state of one operation: [reg, hs, n, log, exc]; handlers get numbers
   while it runs, since a slot can be used again *)
Told(h, t) == h.kind = "all" \/ h.kind = KindOf(t)
Alive(st, u) == \E i \in 1..Len(st.hs) : st.hs[i].u = u
Without(st, u) == [st EXCEPT !.hs = SelectSeq(st.hs, LAMBDA h : h.u # u)]
BySlot(st, s) == SelectSeq(st.hs, LAMBDA h : h.slot = s)

RECURSIVE Reg(_, _), RegAll(_, _), Notify(_, _, _), Tell(_, _, _), Replay(_, _, _)

RegAll(st, ts) == IF ts = <<>> THEN st ELSE RegAll(Reg(st, Head(ts)), Tail(ts))

(* the type is known when its dependencies have been announced and before it is announced itself *)
Reg(st, t) ==
    IF t \in st.reg THEN st
    ELSE LET s1 == RegAll(st, Deps(t)) IN
         IF t \in s1.reg THEN s1
         ELSE LET s2 == [s1 EXCEPT !.reg = @ \cup {t}] IN Notify(s2, s2.hs, t)

(* only the handlers that were there when the announcement began and still are *)
Notify(st, todo, t) ==
    IF todo = <<>> THEN st
    ELSE LET h == Head(todo)
             s1 == IF Alive(st, h.u) THEN [Tell(st, h, t) EXCEPT !.exc = FALSE] ELSE st
         IN Notify(s1, Tail(todo), t)

Tell(st, h, t) ==
    IF ~Told(h, t) THEN st
    ELSE LET s1 == [st EXCEPT !.log = Append(@, <<h.slot, t>>)] IN
    IF h.on # t THEN s1
    ELSE CASE h.do = "throw" -> [s1 EXCEPT !.exc = TRUE]
           [] h.do = "unsub" ->
                LET x == SelectSeq(s1.hs, LAMBDA g : g.slot = h.arg /\ ~g.pending)
                IN IF x = <<>> THEN s1 ELSE Without(s1, x[1].u)
           [] h.do = "sub" ->
                IF BySlot(s1, h.arg) # <<>> THEN s1
                ELSE LET new == [slot |-> h.arg, kind |-> "all", on |-> "-", do |-> "nop", arg |-> "-", u |-> s1.n, pending |-> TRUE]
                         s2 == Replay([s1 EXCEPT !.hs = <<new>> \o @, !.n = @ + 1], new, Ordered(s1.reg))
                     IN [s2 EXCEPT !.hs = [i \in 1..Len(s2.hs) |-> IF s2.hs[i].u = new.u THEN [s2.hs[i] EXCEPT !.pending = FALSE] ELSE s2.hs[i]]]
           [] h.do = "reg" -> Reg(s1, h.arg)
           [] OTHER -> s1

(* the types that were known when the subscribing began; stops at the first exception *)
Replay(st, h, todo) ==
    IF todo = <<>> THEN st
    ELSE LET s1 == Tell(st, h, Head(todo)) IN IF s1.exc THEN s1 ELSE Replay(s1, h, Tail(todo))

Numbered == [i \in 1..Len(hs) |-> [slot |-> hs[i].slot, kind |-> hs[i].kind, on |-> hs[i].on, do |-> hs[i].do, arg |-> hs[i].arg, u |-> Len(hs) - i, pending |-> FALSE]]
Begin == [reg |-> reg, hs |-> Numbered, n |-> Len(hs), log |-> <<>>, exc |-> FALSE]
Strip(h) == [slot |-> h.slot, kind |-> h.kind, on |-> h.on, do |-> h.do, arg |-> h.arg]

Known(r) == [t \in Universe |-> IF t \in r THEN KindOf(t) ELSE "none"]
Finish(cmd, st, ok) ==
    /\ reg' = st.reg
    /\ hs' = [i \in 1..Len(st.hs) |-> Strip(st.hs[i])]
    /\ map' = map
    /\ act' = [cmd |-> cmd, obs |-> [ok |-> ok, log |-> st.log, known |-> Known(st.reg), others |-> "ok",
                                     subsS |-> {st.hs[i].slot : i \in 1..Len(st.hs)}]]

Args(do) == CASE do \in {"unsub", "sub"} -> Slots [] do = "reg" -> Universe [] OTHER -> {"-"}
Behaviours == {[on |-> "-", do |-> "nop", arg |-> "-"]} \cup
              UNION {{[on |-> o, do |-> d, arg |-> a] : o \in On, a \in Args(d)} : d \in Acts}

Subscribe(s, k, b) ==
    /\ \A i \in 1..Len(hs) : hs[i].slot # s
    /\ b.do = "sub" => b.arg # s
    /\ LET new == [slot |-> s, kind |-> k, on |-> b.on, do |-> b.do, arg |-> b.arg, u |-> Len(hs), pending |-> TRUE]
           st == Replay([Begin EXCEPT !.hs = <<new>> \o @, !.n = @ + 1], new, Ordered(reg))
       IN Finish([op |-> "Subscribe", s |-> s, kind |-> k, on |-> b.on, do |-> b.do, arg |-> b.arg],
                 IF st.exc THEN Without(st, new.u) ELSE st, ~st.exc)

Unsubscribe(s) ==
    /\ \E i \in 1..Len(hs) : hs[i].slot = s
    /\ Finish([op |-> "Unsubscribe", s |-> s], [Begin EXCEPT !.hs = SelectSeq(@, LAMBDA h : h.slot # s)], TRUE)

Register(t, new) ==
    /\ LET st == IF new /\ t \in reg THEN Begin ELSE Reg(Begin, t)
       IN Finish([op |-> "Register", t |-> t, new |-> new], st, ~(new /\ t \in reg))

Deregister(t, assert) ==
    Finish([op |-> "Deregister", t |-> t, assert |-> assert], [Begin EXCEPT !.reg = @ \ {t}], t \in reg \/ ~assert)

TypesNext ==
    \/ \E s \in Slots, k \in Kinds, b \in Behaviours : Subscribe(s, k, b)
    \/ \E s \in Slots : Unsubscribe(s)
    \/ \E t \in Universe, b \in BOOLEAN : Register(t, b)
    \/ \E t \in Universe, b \in BOOLEAN : Deregister(t, b)

-----------------------------------------------------------------------------
Plain(cmd, m, ok, res) ==
    /\ map' = m /\ UNCHANGED <<reg, hs>>
    /\ act' = [cmd |-> cmd, obs |-> [ok |-> ok, res |-> res, map |-> Ordered(m), size |-> Cardinality(m)]]

PlainNext ==
    \/ \E t \in Universe :
        \/ Plain([op |-> "mEmplace", t |-> t], map \cup {t}, t \notin map, t \notin map)
        \/ Plain([op |-> "mTryEmplace", t |-> t], map \cup {t}, TRUE, t \notin map)
        \/ \E b \in BOOLEAN : Plain([op |-> "mErase", t |-> t, assert |-> b], map \ {t}, t \in map \/ ~b, TRUE)
        \/ Plain([op |-> "mContains", t |-> t], map, TRUE, t \in map)
        \/ \E b \in BOOLEAN : Plain([op |-> "mFind", t |-> t, assert |-> b], map, t \in map \/ ~b, t \in map)
        \/ Plain([op |-> "mGet", t |-> t], map, t \in map, t \in map)
    \/ Plain([op |-> "mClear"], {}, TRUE, TRUE)

-----------------------------------------------------------------------------
Init == /\ reg = {} /\ hs = <<>> /\ map = {}
        /\ act = [cmd |-> [op |-> "Init"], obs |-> [ok |-> TRUE]]
Next == IF UsePlain THEN PlainNext ELSE TypesNext
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
Spec == Init /\ [][Next /\ Emit]_vars

-----------------------------------------------------------------------------
TypeOK == reg \subseteq Universe /\ map \subseteq Universe /\ \A i, j \in 1..Len(hs) : hs[i].slot = hs[j].slot => i = j

Pos(log, s, t) == {i \in 1..Len(log) : log[i] = <<s, t>>}
Slot(q, s) == SelectSeq(q, LAMBDA h : h.slot = s)
Live == act'.cmd.op = "Register"
(* handlers that stay subscribed are told of every type that is registered, exactly once *)
ToldOnce == [][Live => \A i \in 1..Len(hs) :
                 Slot(hs', hs[i].slot) = <<hs[i]>> /\ hs[i].do # "unsub" /\ (\A j \in 1..Len(hs) : hs[j].do # "unsub") =>
                     \A t \in Universe : Cardinality(Pos(act'.obs.log, hs[i].slot, t)) = (IF t \in reg' \ reg /\ Told(hs[i], t) THEN 1 ELSE 0)]_vars
(* what is registered while subscribed is announced after its dependencies *)
DepsFirst == [][Live => \A i \in 1..Len(hs) : \A t \in reg' \ reg : \A d \in Universe :
                 (\E k \in 1..Len(Deps(t)) : Deps(t)[k] = d) /\ (\A j \in 1..Len(hs) : hs[j].do \notin {"sub", "unsub", "reg"}) =>
                     \A p \in Pos(act'.obs.log, hs[i].slot, t) : \A q \in Pos(act'.obs.log, hs[i].slot, d) : q < p]_vars
(* a new subscriber is told of all that is known, exactly once *)
ReplayOnce == [][act'.cmd.op = "Subscribe" /\ act'.obs.ok /\ act'.cmd.do # "unsub" =>
                 \A t \in Universe : Cardinality(Pos(act'.obs.log, act'.cmd.s, t)) =
                     (IF t \in reg' /\ (act'.cmd.kind = "all" \/ act'.cmd.kind = KindOf(t)) THEN 1 ELSE 0)]_vars
(* dependencies of known types are known, unless they were taken away *)
Closed == [][act'.cmd.op = "Register" => \A t \in reg' \ reg : \A k \in 1..Len(Deps(t)) : Deps(t)[k] \in reg']_vars
(* a failed subscription leaves nothing behind *)
FailedSub == [][act'.cmd.op = "Subscribe" /\ ~act'.obs.ok => Slot(hs', act'.cmd.s) = <<>>]_vars
(* only the new subscriber is told about what was known before *)
OthersUndisturbed == [][act'.cmd.op = "Subscribe" /\ act'.cmd.do # "unsub" /\ (\A j \in 1..Len(hs) : hs[j].do # "unsub") => \A i \in 1..Len(hs) : \A t \in reg : Pos(act'.obs.log, hs[i].slot, t) = {}]_vars
=============================================================================
