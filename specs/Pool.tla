-------------------------------- MODULE Pool --------------------------------
(* The container pool: at most one container per type, found by descriptor and
   by name alike; references to it stay valid until it is removed.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Keys, Ops

VARIABLES pool,   \* type -> the keys in its container, or <<>> while there is none
          held,   \* the keys in the container removed last, with its type
          act

svars == <<pool, held>>
vars == <<svars, act>>
View == svars

No == [has |-> FALSE, keys |-> {}]
Some(ks) == [has |-> TRUE, keys |-> ks]
KeysOf(t) == IF t = "One" THEN {1} ELSE Keys     \* no key: one instance at most

Obs(p, h, ok) == [ok |-> ok, sizeN |-> Cardinality({t \in Types : p[t].has}),
                  byDescriptor |-> [t \in Types |-> p[t]], byName |-> [t \in Types |-> p[t]],
                  each |-> [t \in Types |-> p[t]], held |-> h, memory |-> "sum", same |-> TRUE]
Result(cmd, p, h, ok) == pool' = p /\ held' = h /\ act' = [cmd |-> cmd, obs |-> Obs(p, h, ok)]

Get(t, insert) == Result([op |-> "Get", t |-> t, insert |-> insert], IF insert /\ ~pool[t].has THEN [pool EXCEPT ![t] = Some({})] ELSE pool, held, insert \/ pool[t].has)
GetName(t) == Result([op |-> "GetName", t |-> t], pool, held, pool[t].has)
Insert(t, k) == Result([op |-> "Insert", t |-> t, k |-> k], [pool EXCEPT ![t] = Some(@.keys \cup {k})], held, TRUE)
Erase(t, k) == pool[t].has /\ Result([op |-> "Erase", t |-> t, k |-> k], [pool EXCEPT ![t] = Some(@.keys \ {k})], held, k \in pool[t].keys)
Clear(t) == pool[t].has /\ Result([op |-> "Clear", t |-> t], [pool EXCEPT ![t] = Some({})], held, TRUE)
Remove(t) == Result([op |-> "Remove", t |-> t], [pool EXCEPT ![t] = No], IF pool[t].has THEN [t |-> t, keys |-> pool[t].keys] ELSE held, pool[t].has)

Init == /\ pool = [t \in Types |-> No] /\ held = [t |-> "-", keys |-> {}]
        /\ act = [cmd |-> [op |-> "Init"], obs |-> [ok |-> TRUE]]
Next == \E t \in Types :
    \/ \E b \in BOOLEAN : Get(t, b)
    \/ GetName(t)
    \/ \E k \in KeysOf(t) : Insert(t, k) \/ Erase(t, k)
    \/ Clear(t)
    \/ Remove(t)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

TypeOK == \A t \in Types : pool[t].keys \subseteq KeysOf(t) /\ (~pool[t].has => pool[t].keys = {})
OnlyThatType == [][\A t \in Types : t # act'.cmd.t => pool'[t] = pool[t]]_vars
RemovedIsHeld == [][act'.cmd.op = "Remove" /\ act'.obs.ok => held'.keys = pool[act'.cmd.t].keys /\ ~pool'[act'.cmd.t].has]_vars
=============================================================================
