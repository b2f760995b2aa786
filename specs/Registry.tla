------------------------------ MODULE Registry ------------------------------
(* The registry of types: one descriptor per name, whatever is registered under
   that name later; a type never becomes known before the types it is made of;
   whoever asked to be told learns of every type that becomes known, once, in
   that order, also when it registers types while it is being told.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Policy,   \* which static types a new registry holds: all, internal, fundamental
          Hook,     \* what the listener registers while it is told: none, tone, nest
          Handled   \* whether there is a listener

VARIABLES reg,   \* name -> the descriptor held: "s" (static), "d" (dynamic) or "-"
          act

svars == reg
vars == <<svars, act>>
View == svars

Names == <<"VtNest", "VtSub", "VtTone", "vector<VtSub>", "vector<VtTone>">>    \* in the order of the registry
All == {Names[i] : i \in 1..Len(Names)}
Kind(n) == CASE n = "VtTone" -> "enum" [] n \in {"VtSub", "VtNest"} -> "struct" [] OTHER -> "vector"
Parts(n) == CASE n = "VtNest" -> <<"VtSub", "vector<VtSub>">> [] n = "vector<VtSub>" -> <<"VtSub">> [] n = "vector<VtTone>" -> <<"VtTone">> [] OTHER -> <<>>
(* descriptors that can be registered: every static one, and dynamic ones of the same name *)
Things == {<<n, "s">> : n \in All} \cup {<<"VtSub", "d">>, <<"VtTone", "d">>}
Start == [n \in All |-> IF Policy = "all" \/ (Policy = "internal" /\ n \in {"VtTone", "vector<VtTone>"}) THEN "s" ELSE "-"]

Follow(n) == IF ~Handled THEN "" ELSE IF Hook = "tone" /\ n = "VtSub" THEN "VtTone" ELSE IF Hook = "nest" /\ n = "VtSub" THEN "VtNest" ELSE ""
RECURSIVE Add(_, _, _), AddAll(_, _, _)
Add(w, n, i) ==
    IF w.reg[n] # "-" THEN w ELSE
    LET d == AddAll(w, Parts(n), 1)
        e == [reg |-> [d.reg EXCEPT ![n] = i], seen |-> Append(d.seen, n)]
    IN IF d.reg[n] # "-" THEN d ELSE IF Follow(n) = "" THEN e ELSE Add(e, Follow(n), "s")
AddAll(w, s, k) == IF k > Len(s) THEN w ELSE AddAll(Add(w, s[k], "s"), s, k + 1)

Listed(r, kinds) == LET held(n) == r[n] # "-" /\ Kind(n) \in kinds IN SelectSeq(Names, held)
Base(r) == [held |-> r, list |-> Listed(r, {"enum", "struct", "vector"}), structs |-> Listed(r, {"struct"}), enums |-> Listed(r, {"enum"}),
            both |-> Listed(r, {"enum", "struct"}), more |-> Cardinality({n \in All : r[n] # "-"}) - Cardinality({n \in All : Start[n] # "-"})]
Step(r, cmd, seen, exc, got) == reg' = r /\ act' = [cmd |-> cmd, obs |-> Base(r) @@ [seen |-> IF Handled THEN seen ELSE <<>>, exc |-> exc, got |-> got]]

Register(x, new) ==
    LET n == x[1]
        cmd == [op |-> "Register", n |-> n, i |-> x[2], new |-> new]
        w == Add([reg |-> reg, seen |-> <<>>], n, x[2])
    IN IF new /\ reg[n] # "-" THEN Step(reg, cmd, <<>>, TRUE, "-") ELSE Step(w.reg, cmd, w.seen, FALSE, w.reg[n])
Deregister(n, must, how) ==
    LET cmd == [op |-> "Deregister", n |-> n, must |-> must, how |-> how]
    IN IF reg[n] = "-" THEN Step(reg, cmd, <<>>, must, "-") ELSE Step([reg EXCEPT ![n] = "-"], cmd, <<>>, FALSE, "-")
Find(n, kind, how) ==
    LET fits == n \in All /\ (kind = "any" \/ Kind(n) = kind)
        it == IF fits THEN reg[n] ELSE "-"
    IN Step(reg, [op |-> "Find", n |-> n, kind |-> kind, how |-> how], <<>>, it = "-" /\ how # "find", it)
Has(n) == Step(reg, [op |-> "Has", n |-> n], <<>>, FALSE, IF n \in All /\ reg[n] # "-" THEN "yes" ELSE "no")
(* types every registry knows, and those that depend on the policy *)
Known == Step(reg, [op |-> "Known"], <<>>, FALSE, IF Policy = "fundamental" THEN "no" ELSE "yes")

Next == \/ \E x \in Things, new \in BOOLEAN : Register(x, new)
        \/ \E n \in All, must \in BOOLEAN, how \in {"name", "descriptor"} : Deregister(n, must, how)
        \/ \E n \in All \cup {"VtNone", ""}, kind \in {"any", "struct", "enum"}, how \in {"find", "must", "get"} : Find(n, kind, how)
        \/ \E n \in All \cup {"VtNone"} : Has(n)
        \/ Known
Init == reg = Start /\ act = [cmd |-> [op |-> "Init"], obs |-> [held |-> Start]]
Spec == Init /\ [][Next]_vars

TypeOK == \A n \in All : reg[n] \in {"s", "d", "-"}
(* what is held is never replaced, only removed on request *)
NeverReplaced == [][\A n \in All : (reg[n] # "-" /\ reg'[n] # reg[n]) => (act'.cmd.op = "Deregister" /\ act'.cmd.n = n /\ reg'[n] = "-")]_vars
(* a type becomes known after its parts *)
PartsFirst == [][\A n \in All : (reg[n] = "-" /\ reg'[n] # "-") => \A k \in 1..Len(Parts(n)) : reg'[Parts(n)[k]] # "-"]_vars
(* exactly the types that became known are told, once *)
ToldOnce == [][Handled => /\ {act'.obs.seen[k] : k \in 1..Len(act'.obs.seen)} = {n \in All : reg[n] = "-" /\ reg'[n] # "-"}
                          /\ Len(act'.obs.seen) = Cardinality({n \in All : reg[n] = "-" /\ reg'[n] # "-"})]_vars
RefusedKeeps == [][act'.obs.exc => reg' = reg]_vars
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
=============================================================================
