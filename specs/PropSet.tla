------------------------------ MODULE PropSet ------------------------------
(* Sets of properties: what the operators make of two sets, how sets compare,
   which members are found first and last, and the forms of a set as a number
   and as text. A set is a set of places; the library has to behave as one.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Places,    \* places that are used one by one
          Rich       \* more operands
VARIABLES set, act
svars == set
vars == <<svars, act>>
View == svars

All == 0..31
Operands == {{}, All, {0}, {31}, {0, 31}, {1, 2}, {7, 15}, Places, All \ Places}
            \cup (IF Rich THEN {{p} : p \in Places} \cup {All \ {p} : p \in Places} \cup {{p, q} : p, q \in Places} ELSE {})
Starts == {0, 1, 8, 16, 31}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Digits(_, _)
Digits(S, i) == IF i < 0 THEN "" ELSE (IF i \in S THEN "1" ELSE "0") \o Digits(S, i - 1)
From(S, i) == {x \in S : x >= i}
Upto(S, i) == {x \in S : x <= i}
About(S) == [membersS |-> S, count |-> Cardinality(S), empty |-> S = {}, text |-> Digits(S, 31),
             first |-> [i \in {ToString(x) : x \in {y \in Starts : From(S, y) # {}}} |-> Min(From(S, CHOOSE x \in Starts : ToString(x) = i))],
             last |-> [i \in {ToString(x) : x \in {y \in Starts : Upto(S, y) # {}}} |-> Max(Upto(S, CHOOSE x \in Starts : ToString(x) = i))]]

Is(cmd, S) == set' = S /\ act' = [cmd |-> cmd, obs |-> About(S)]
Init == set = {} /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Union(B) == Is([op |-> "Union", b |-> B], set \cup B)
Minus(B) == Is([op |-> "Minus", b |-> B], set \ B)
Common(B) == Is([op |-> "Common", b |-> B], set \cap B)
Either(B) == Is([op |-> "Either", b |-> B], (set \ B) \cup (B \ set))
Rest == Is([op |-> "Rest"], All \ set)
Compare(B) == UNCHANGED svars /\ act' = [cmd |-> [op |-> "Compare", b |-> B],
                 obs |-> [eq |-> set = B, ne |-> set # B, lt |-> set \subseteq B /\ set # B, le |-> set \subseteq B, gt |-> B \subseteq set /\ set # B, ge |-> B \subseteq set]]
Next == \/ \E B \in Operands \cup {{p} : p \in Places} : Union(B) \/ Minus(B) \/ Common(B) \/ Either(B)
        \/ Rest
        \/ \E B \in Operands : Compare(B)
        \/ Compare(set)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == set \subseteq All
(* the order is that of inclusion, and what is taken away is gone *)
Gone == [][act'.cmd.op = "Minus" => set' \cap act'.cmd.b = {}]_vars
Twice == [][act'.cmd.op = "Either" => (set' \ act'.cmd.b) \cup (act'.cmd.b \ set') = set]_vars
=============================================================================
