----------------------------- MODULE StructOps -----------------------------
(* Operations on instances.  An instance maps each property of its type to
   nothing (<<>>) or to a value (<<v>>); values are ranks, instances of a
   sub-struct type, or (for vectors) ranks of a fixed ascending list.

     VtWhole  p (3) int32, k (9, key) string, s (1) VtPart, v (31) vector
     VtPart   x (2) int32, l (1) VtLeaf
     VtLeaf   z (4) string

   Two instances a and b of VtWhole are operated on; "gone" is the content an
   instance has after it was moved from: whatever it is, it may only be
   overwritten.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS PVals, KVals, XVals, ZVals, VVals,  \* ranks besides "unset"
          Ops, Sets                            \* operations in use; property sets in use ("all" or "some")

VARIABLES a, b, act
svars == <<a, b>>
vars == <<svars, act>>
View == svars

Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Leaf == [z : Opt(ZVals)]
Part == [x : Opt(XVals), l : Opt(Leaf)]
Whole == [p : Opt(PVals), k : Opt(KVals), s : Opt(Part), v : Opt(VVals)]
Blank == [p |-> <<>>, k |-> <<>>, s |-> <<>>, v |-> <<>>]
NoPart == [x |-> <<>>, l |-> <<>>]
NoLeaf == [z |-> <<>>]
Order == <<"p", "k", "s", "v">>        \* as declared
Names == {"p", "k", "s", "v"}
Keys == {"k"}
Gone == [gone |-> TRUE]
Live(i) == i # Gone

-----------------------------------------------------------------------------
(* Operations *)
Assign(x, y, inc) == [n \in Names |-> IF n \in inc THEN y[n] ELSE <<>>]
Copy(x, y, inc) == [n \in Names |-> IF n \in inc THEN y[n] ELSE x[n]]
Clear(x, inc) == [n \in Names |-> IF n \in inc THEN <<>> ELSE x[n]]
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
MergeLeaf(x, y) == [z |-> IF y.z # <<>> THEN y.z ELSE x.z]
MergePart(x, y) == [x |-> IF y.x # <<>> THEN y.x ELSE x.x,
                    l |-> IF y.l # <<>> THEN <<MergeLeaf(Or(x.l, NoLeaf), y.l[1])>> ELSE x.l]
Merge(x, y, inc) == [n \in Names |->
    IF n \notin inc \/ y[n] = <<>> THEN x[n]
    ELSE IF n = "s" THEN <<MergePart(Or(x.s, NoPart), y.s[1])>>
    ELSE y[n]]

(* -1, 0, 1: an unset property precedes every value, properties are compared in declared order *)
CmpOpt(x, y, C(_, _)) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1) ELSE IF y = <<>> THEN 1 ELSE C(x[1], y[1])
CmpRank(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
First2(c, d) == IF c # 0 THEN c ELSE d
CmpLeaf(x, y) == CmpOpt(x.z, y.z, CmpRank)
CmpPart(x, y) == First2(CmpOpt(x.x, y.x, CmpRank), CmpOpt(x.l, y.l, CmpLeaf))
CmpProp(n, x, y) == IF n = "s" THEN CmpOpt(x.s, y.s, CmpPart) ELSE CmpOpt(x[n], y[n], CmpRank)
Cmp(x, y, inc) == LET c(n) == IF n \in inc THEN CmpProp(n, x, y) ELSE 0 IN
    First2(c("p"), First2(c("k"), First2(c("s"), c("v"))))
Diff(x, y, inc) == {n \in inc : x[n] # y[n]}

(* property sets by number: bit i - 1 stands for Order[i] *)
Bit(m, i) == (m \div (2 ^ (i - 1))) % 2 = 1
SetOf(m) == {Order[i] : i \in {j \in 1..4 : Bit(m, j)}}
NumOf(S) == (IF "p" \in S THEN 1 ELSE 0) + (IF "k" \in S THEN 2 ELSE 0) + (IF "s" \in S THEN 4 ELSE 0) + (IF "v" \in S THEN 8 ELSE 0)
Nums == IF Sets = "all" THEN 0..15 ELSE {0, 1, 2, 4, 5, 6, 7, 15}
Valid(x) == {n \in Names : x[n] # <<>>}
Seqs(S) == SelectSeq(Order, LAMBDA n : n \in S)

(* nested properties *)
Paths == <<"p", "k", "s", "s.x", "s.l", "s.l.z", "v">>
PartOf(x) == Or(x.s, NoPart)
LeafOf(x) == Or(PartOf(x).l, NoLeaf)
GetPath(x, path) == CASE path = "s.x" -> PartOf(x).x [] path = "s.l" -> PartOf(x).l [] path = "s.l.z" -> LeafOf(x).z [] OTHER -> x[path]
SetPath(x, path, o) == CASE path = "s.x" -> [x EXCEPT !.s = <<[PartOf(x) EXCEPT !.x = o]>>]
                         [] path = "s.l" -> [x EXCEPT !.s = <<[PartOf(x) EXCEPT !.l = o]>>]
                         [] path = "s.l.z" -> [x EXCEPT !.s = <<[PartOf(x) EXCEPT !.l = <<[LeafOf(x) EXCEPT !.z = o]>>]>>]
                         [] OTHER -> [x EXCEPT ![path] = o]
PathVals(path) == CASE path = "p" -> PVals [] path = "k" -> KVals [] path = "s" -> {NoPart} [] path = "s.x" -> XVals
                    [] path = "s.l" -> {NoLeaf} [] path = "s.l.z" -> ZVals [] path = "v" -> VVals
Flat == {"p", "k"}

-----------------------------------------------------------------------------
Out(x) == IF Live(x) THEN [x |-> x] ELSE [skip |-> TRUE]
Now == [a |-> Out(a'), b |-> Out(b')]
On(op) == op \in Ops

Init == /\ a = Blank /\ b = Blank
        /\ act = [cmd |-> [op |-> "Init"], obs |-> [none |-> TRUE]]

Load == \E x \in Whole, y \in (IF On("single") THEN {Blank} ELSE Whole) :
    /\ a = Blank /\ b = Blank
    /\ a' = x /\ b' = y
    /\ act' = [cmd |-> [op |-> "Load", x |-> x, y |-> y], obs |-> Now]

(* destroys everything there is: nothing may remain allocated *)
Drop == /\ On("drop") /\ (a # Blank \/ b # Blank)
        /\ a' = Blank /\ b' = Blank
        /\ act' = [cmd |-> [op |-> "Drop"], obs |-> [leaked |-> 0]]

Binary == \E op \in {"assign", "copy", "merge", "swap", "moveassign"}, m \in Nums :
    /\ On(op) /\ Live(a) /\ Live(b)
    /\ LET inc == SetOf(m) IN
       /\ a' = (CASE op \in {"assign", "moveassign"} -> Assign(a, b, inc) [] op = "merge" -> Merge(a, b, inc) [] OTHER -> Copy(a, b, inc))
       /\ b' = (CASE op = "swap" -> Copy(b, a, inc) [] op = "moveassign" -> Gone [] OTHER -> b)
    /\ act' = [cmd |-> [op |-> op, m |-> m], obs |-> Now]

ClearSome == \E m \in Nums :
    /\ On("clear") /\ Live(a)
    /\ a' = Clear(a, SetOf(m)) /\ b' = b
    /\ act' = [cmd |-> [op |-> "clear", m |-> m], obs |-> Now]

(* the same instance on both sides *)
Self == \E op \in {"assign", "copy", "merge", "swap"}, m \in Nums :
    /\ On("self") /\ Live(a)
    /\ a' = (IF op = "assign" THEN Assign(a, a, SetOf(m)) ELSE a) /\ b' = b
    /\ act' = [cmd |-> [op |-> "self", how |-> op, m |-> m], obs |-> Now]

(* b becomes another instance, or another holder of an instance, made from a *)
Make == \E how \in {"copy", "move", "copyassign", "moveassign", "cross"} :
    /\ On("make") /\ Live(a)
    /\ b' = a
    /\ a' = (IF how \in {"move", "moveassign"} THEN Gone ELSE a)
    /\ act' = [cmd |-> [op |-> "make", how |-> how], obs |-> Now]

(* overwriting a moved from instance *)
Revive ==
    /\ ~Live(a) \/ ~Live(b)
    /\ a' = (IF Live(a) THEN a ELSE b) /\ b' = (IF Live(b) THEN b ELSE a)
    /\ act' = [cmd |-> [op |-> "revive", who |-> IF Live(a) THEN "b" ELSE "a"], obs |-> Now]

Compare ==
    /\ On("compare") /\ Live(a) /\ Live(b)
    /\ UNCHANGED svars
    /\ act' = [cmd |-> [op |-> "compare"],
               obs |-> [cmp |-> [i \in 1..16 |-> <<Cmp(a, b, SetOf(i - 1)), NumOf(Diff(a, b, SetOf(i - 1)))>>],
                        self |-> [i \in 1..16 |-> <<0, 0>>],
                        ops |-> Cmp(a, b, Names), same |-> a.k = b.k]]

Look ==
    /\ On("look") /\ Live(a) /\ Live(b)
    /\ UNCHANGED svars
    /\ act' = [cmd |-> [op |-> "look"],
               obs |-> [all |-> [i \in 1..16 |-> Seqs(SetOf(i - 1))],
                        valid |-> [i \in 1..16 |-> Seqs(SetOf(i - 1) \cap Valid(a))],
                        both |-> [i \in 1..16 |-> Seqs(SetOf(i - 1) \cap Valid(a) \cap Valid(b))],
                        has |-> [i \in 1..16 |-> SetOf(i - 1) \subseteq Valid(a)],
                        exact |-> [i \in 1..16 |-> SetOf(i - 1) = Valid(a)],
                        paths |-> Paths,
                        set |-> [i \in 1..7 |-> GetPath(a, Paths[i]) # <<>>],
                        keys |-> Seqs(Keys)]]

ByPath == \E i \in 1..7, how \in {"set", "again", "reset", "get", "orset", "ordefault"} : LET path == Paths[i] old == GetPath(a, path) IN
    /\ On("path") /\ Live(a)
    /\ \E v \in IF how \in {"reset", "get"} THEN {0} ELSE PathVals(path) :
       /\ how = "ordefault" => path \in Flat
       (* touching a property reached through unset ones sets those, reading or clearing it does not *)
       /\ a' = (CASE how \in {"set", "again"} -> SetPath(a, path, <<v>>)
                  [] how = "orset" -> (IF old = <<>> THEN SetPath(a, path, <<v>>) ELSE a)
                  [] how = "reset" -> (IF old = <<>> THEN a ELSE SetPath(a, path, <<>>))
                  [] OTHER -> a)
       /\ b' = b
       /\ act' = [cmd |-> [op |-> "path", path |-> path, how |-> how, v |-> v],
                  obs |-> [a |-> Out(a'), refused |-> how = "get" /\ old = <<>>,
                           got |-> CASE how = "ordefault" -> (IF old = <<>> THEN <<v>> ELSE old) [] how = "orset" -> GetPath(a', path) [] how = "get" -> old [] OTHER -> <<>>]]

BadPath == \E p \in {"", "x", "s.", ".s", "s..x", "p.x", "s.x.z", "s.l.z.", "z"} :
    /\ On("path") /\ Live(a) /\ UNCHANGED svars
    /\ act' = [cmd |-> [op |-> "badpath", path |-> p], obs |-> [refused |-> TRUE]]

(* property sets themselves: numbers 0..31 *)
Tags == {0, 1, 7, 30, 31}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
SetAlgebra == \E X, Y \in SUBSET Tags :
    /\ On("sets") /\ UNCHANGED svars
    /\ act' = [cmd |-> [op |-> "sets", x |-> X, y |-> Y],
               obs |-> [unionS |-> X \cup Y, interS |-> X \cap Y, minusS |-> X \ Y, symS |-> (X \ Y) \cup (Y \ X), notS |-> (0..31) \ X,
                        sub |-> X \subseteq Y, strict |-> X \subseteq Y /\ X # Y, eq |-> X = Y, empty |-> X = {}, count |-> Cardinality(X),
                        first |-> [i \in 1..32 |-> LET S == {t \in X : t >= i - 1} IN IF S = {} THEN -1 ELSE Min(S)],
                        last |-> [i \in 1..32 |-> LET S == {t \in X : t <= i - 1} IN IF S = {} THEN -1 ELSE Max(S)],
                        text |-> [i \in 1..32 |-> IF 32 - i \in X THEN "1" ELSE "0"]]]

Next == SetAlgebra \/ Load \/ Drop \/ Binary \/ ClearSome \/ Self \/ Make \/ Revive \/ Compare \/ Look \/ ByPath \/ BadPath
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == a \in Whole \cup {Gone} /\ b \in Whole \cup {Gone}

(* laws of the operations themselves *)
All2 == Live(a) /\ Live(b)
DiffIffDifferent == All2 => \A m \in Nums : LET inc == SetOf(m) IN (Diff(a, b, inc) = {}) <=> (Cmp(a, b, inc) = 0)
Antisymmetric == All2 => \A m \in Nums : Cmp(a, b, SetOf(m)) = -Cmp(b, a, SetOf(m))
CopyMakesEqual == All2 => \A m \in Nums : Diff(Copy(a, b, SetOf(m)), b, SetOf(m)) = {} /\ Diff(Copy(a, b, SetOf(m)), a, Names \ SetOf(m)) = {}
MergeKeeps == All2 => Valid(Merge(a, b, Names)) = Valid(a) \cup Valid(b)
MergeTwice == All2 => Merge(Merge(a, b, Names), b, Names) = Merge(a, b, Names)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
=============================================================================
