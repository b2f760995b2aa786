-------------------------------- MODULE Log --------------------------------
(* Log messages: which of them reach which backend, and what chooses the level. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Backends
VARIABLES level, to, act
svars == <<level, to>>
vars == <<svars, act>>
View == svars

Names == <<"data", "debug", "info", "notice", "warn", "error", "crit", "emerg">>
Numbers == {-256, -255, -1, 0, 9, 128, 255, 256, 257, 264, 65537, 1000000} \cup 1..8
Texts == {"", "plain", "100% %s %n %d", "two\nlines", "long"}
Is(cmd, got, extra) == act' = [cmd |-> cmd, obs |-> [level |-> Names[level'], got |-> got] @@ extra]

Init == level = 3 /\ to = "A" /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
(* only the numbers of levels are levels *)
Number(n) == /\ level' = (IF n \in 1..8 THEN n ELSE level)
             /\ UNCHANGED to /\ Is([op |-> "Number", n |-> n], <<>>, [refused |-> n \notin 1..8])
Set(l) == level' = l /\ UNCHANGED to /\ Is([op |-> "Set", l |-> Names[l]], <<>>, [refused |-> FALSE])
Use(b) == to # b /\ to' = b /\ UNCHANGED level /\ Is([op |-> "Use", b |-> b], <<>>, [refused |-> FALSE])
(* a message of at least the level arrives once, at the one backend, as it was written; of others not even the text is made *)
Write(l, form, t) == /\ UNCHANGED svars
                     /\ Is([op |-> "Write", l |-> Names[l], form |-> form, t |-> t],
                           IF l >= level THEN <<[b |-> to, l |-> Names[l], t |-> t, place |-> TRUE]>> ELSE <<>>,
                           [made |-> IF l >= level THEN 1 ELSE 0])
(* the environment names a level, or a default for when it does not *)
Fresh(e, d) == UNCHANGED svars /\ Is([op |-> "Fresh", e |-> e, d |-> d], <<>>,
                  [fresh |-> Names[IF e # 0 THEN e ELSE IF d # 0 THEN d ELSE 3]])
Next == \/ \E n \in Numbers : Number(n)
        \/ \E l \in 1..8 : Set(l)
        \/ \E b \in Backends : Use(b)
        \/ \E l \in 1..8, f \in {"s", "p"}, t \in Texts : ~(f = "p" /\ t = "long") /\ Write(l, f, t)
        \/ \E e, d \in {0, 1, 4, 8} : Fresh(e, d)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == level \in 1..8 /\ to \in Backends
OnlyFromLevel == [][\A i \in 1..Len(act'.obs.got) : \E l \in level..8 : act'.obs.got[i].l = Names[l]]_vars
RefusedKeeps == [][act'.cmd.op = "Number" /\ act'.obs.refused => UNCHANGED svars]_vars
=============================================================================
