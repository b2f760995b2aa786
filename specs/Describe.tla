------------------------------ MODULE Describe ------------------------------
(* How types travel: what a transceiver (the hub: a host with several peers,  *)
(* or a guest with its host) tells each peer about types, what it learns from *)
(* the descriptions it gets, and how it answers descriptor requests.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Role,       \* "host" or "guest"
          Peers,      \* names of the connected peers ("h" for a guest)
          Pub,        \* peers that describe types and publish
          Sub,        \* peers that join groups and send requests
          Universe,   \* types that occur
          Static,     \* types that the hub has at compile time and knows initially
          Local,      \* types the hub publishes itself
          Late,       \* types the hub has at compile time and registers at some time
          JoinNames,  \* groups that are joined
          Alts,       \* types that are also described differently
          Whites, Blacks, \* lists of descriptor requests; {"-"} is an absent one
          Echoes,     \* echo requests: "req", "rep", "none"
          Churn,      \* peers leave and return
          Bads,       \* what is wrong with descriptions that are no type
          Early       \* peers that keep on preloading: they are served like others

VARIABLES known,   \* types in the hub's registry
          shared,  \* per peer: types described on its channel, in either direction
          grp,     \* per peer: groups it has joined
          cache,   \* per cached type: who updated its instance last, or "-"
          open,    \* peers with an open connection
          act
svars == <<known, shared, grp, cache, open>>
vars == <<svars, act>>
View == svars

\* ------------------------------------------------------------------- types
P(n, tag, key, ty, dep) == [d |-> <<n, tag, key, ty>>, dep |-> dep]
S(flags, ps) == [kind |-> "struct", flags |-> flags, props |-> ps]
E(es) == [kind |-> "enum", flags |-> {}, props |-> es]
EL(n, tag, v) == [d |-> <<n, tag, v>>, dep |-> ""]

Table == [
    VtColor |-> E(<<EL("red", 2, 7), EL("green", 1, 3), EL("blue", 9, 1000)>>),
    VtTone  |-> E(<<EL("low", 23, 3), EL("mid", 24, 1), EL("high", 300, 70000)>>),
    DyTone  |-> E(<<EL("lo", 5, -1), EL("hi", 2, 40)>>),
    VtSub   |-> S({}, <<P("a", 1, FALSE, "int32", ""), P("b", 2, FALSE, "string", ""), P("c", 5, FALSE, "vector<int32>", "")>>),
    VtOnlySub |-> S({"cached", "substruct_only"}, <<P("a", 1, FALSE, "int32", "")>>),
    VtIntC  |-> S({"cached"}, <<P("k", 1, TRUE, "int32", ""), P("p", 2, FALSE, "int32", ""), P("q", 3, FALSE, "int32", "")>>),
    VtIntK  |-> S({"cached", "cleanup"}, <<P("k", 1, TRUE, "int32", ""), P("p", 2, FALSE, "int32", ""), P("q", 3, FALSE, "int32", "")>>),
    VtStrU  |-> S({}, <<P("k", 4, TRUE, "string", ""), P("p", 2, FALSE, "string", ""), P("q", 31, FALSE, "vector<string>", "")>>),
    VtMixK  |-> S({"cached", "cleanup"}, <<P("p", 7, FALSE, "VtColor", "VtColor"), P("k", 9, TRUE, "VtColor", "VtColor"),
                    P("q", 1, FALSE, "VtSub", "VtSub"), P("k2", 5, TRUE, "uuid", "")>>),
    VtNest  |-> S({}, <<P("s", 1, FALSE, "VtSub", "VtSub"), P("v", 2, FALSE, "vector<VtSub>", "VtSub"), P("t", 30, FALSE, "string", "")>>),
    VtLeaf  |-> S({}, <<P("z", 4, FALSE, "string", "")>>),
    VtPart  |-> S({}, <<P("x", 2, FALSE, "int32", ""), P("l", 1, FALSE, "VtLeaf", "VtLeaf")>>),
    VtWhole |-> S({}, <<P("p", 3, FALSE, "int32", ""), P("k", 9, TRUE, "string", ""), P("s", 1, FALSE, "VtPart", "VtPart"),
                    P("v", 31, FALSE, "vector<VtLeaf>", "VtLeaf")>>),
    VtAll   |-> S({}, <<P("b", 1, FALSE, "bool", ""), P("i8", 2, FALSE, "int8", ""), P("u8", 3, FALSE, "uint8", ""),
                    P("i16", 4, FALSE, "int16", ""), P("u16", 5, FALSE, "uint16", ""), P("i32", 6, FALSE, "int32", ""),
                    P("u32", 7, FALSE, "uint32", ""), P("i64", 8, FALSE, "int64", ""), P("u64", 9, FALSE, "uint64", ""),
                    P("f32", 10, FALSE, "float32", ""), P("f64", 11, FALSE, "float64", ""), P("ps", 12, FALSE, "property_set", ""),
                    P("tp", 13, FALSE, "timepoint", ""), P("st", 14, FALSE, "steady_timepoint", ""), P("du", 15, FALSE, "duration", ""),
                    P("id", 16, FALSE, "uuid", ""), P("s", 17, FALSE, "string", ""), P("e", 18, FALSE, "VtTone", "VtTone"),
                    P("sub", 19, FALSE, "VtSub", "VtSub"), P("vb", 20, FALSE, "vector<bool>", ""), P("vi", 22, FALSE, "vector<int32>", ""),
                    P("vs", 23, FALSE, "vector<string>", ""), P("vsub", 24, FALSE, "vector<VtSub>", "VtSub"),
                    P("ve", 25, FALSE, "vector<VtTone>", "VtTone"), P("vf", 26, FALSE, "vector<float64>", ""), P("n", 31, FALSE, "VtNest", "VtNest")>>),
    DyAll   |-> S({"cached", "persistent", "local"}, <<P("b", 31, FALSE, "bool", ""), P("id", 4, TRUE, "uuid", ""), P("e", 3, TRUE, "DyTone", "DyTone"),
                    P("ve", 1, FALSE, "vector<DyTone>", "DyTone"), P("s", 17, FALSE, "VtSub", "VtSub"), P("i8", 2, FALSE, "int8", ""),
                    P("vsub", 9, FALSE, "vector<VtSub>", "VtSub"), P("f", 30, FALSE, "float64", ""), P("t", 12, FALSE, "string", ""),
                    P("vc", 13, FALSE, "vector<VtColor>", "VtColor")>>),
    DyKeyed |-> S({"cached"}, <<P("k", 3, TRUE, "DyTone", "DyTone"), P("x", 1, FALSE, "int32", "")>>),
    DyKeys  |-> S({"cached", "cleanup"}, <<P("k", 1, TRUE, "DyTone", "DyTone"), P("c", 2, TRUE, "VtColor", "VtColor")>>),
    DyUp    |-> S({"cleanup", "persistent"}, <<P("x", 1, FALSE, "vector<DyAll>", "DyAll"), P("y", 2, FALSE, "DyAll", "DyAll")>>),
    DyKeyless |-> S({"cached", "cleanup"}, <<P("x", 1, FALSE, "float32", "")>>),
    DyInt   |-> S({"internal"}, <<P("x", 2, FALSE, "uint16", "")>>),
    DyOnly  |-> S({"substruct_only", "local"}, <<P("x", 8, FALSE, "duration", "")>>),
    DyEmpty |-> S({}, <<>>)
]

Def(t) == [name |-> t, kind |-> Table[t].kind, flagsS |-> Table[t].flags, props |-> [i \in 1..Len(Table[t].props) |-> Table[t].props[i].d]]
AltDef(t) == IF Table[t].kind = "enum" THEN [name |-> t, kind |-> "enum", flagsS |-> {}, props |-> <<<<"zz", 1, 99>>>>]
             ELSE [name |-> t, kind |-> "struct", flagsS |-> {"persistent", "cached"}, props |-> <<<<"zz", 7, TRUE, "int64">>>>]
Deps(t) == {Table[t].props[i].dep : i \in 1..Len(Table[t].props)} \ {""}
Structs == {t \in Universe : Table[t].kind = "struct"}
Internal(t) == "internal" \in Table[t].flags
Cached(t) == t \in Structs /\ "cached" \in Table[t].flags
Cleanup(t) == "cleanup" \in Table[t].flags
Publishable == {t \in Structs : "substruct_only" \notin Table[t].flags /\ Len(Table[t].props) > 0}
RECURSIVE Closure(_)
Closure(T) == LET D == T \cup UNION {Deps(t) : t \in T} IN IF D = T THEN T ELSE Closure(D)
ASSUME Closure(Universe) = Universe
ASSUME Closure(Static) = Static /\ Local \subseteq Static

\* --------------------------------------------------------- what a peer gets
\* descriptions that precede a use of t on a channel on which sh is described
RECURSIVE Need(_, _)
Need(sh, T) == LET N == {t \in T \ sh : ~Internal(t)}
               IN IF N = {} THEN {} ELSE N \cup Need(sh \cup N, UNION {Deps(t) : t \in N})

\* T: types used, ms: the messages that follow their descriptions
Msg(T, ms) == [roots |-> T, msgs |-> ms]
Nothing == Msg({}, <<>>)
Seen(sh, m) ==
    LET N == Need(sh, m.roots)
    IN [descS |-> {Def(t) : t \in N},
        beforeS |-> {<<a, b>> \in N \X N : a \in Deps(b)}, \* dependencies first
        lateS |-> {},                                      \* and before anything else
        msgs |-> m.msgs]
Observed(out, sh) == [p \in Peers |-> Seen(sh[p], out[p])]
After(out, sh) == [p \in Peers |-> sh[p] \cup Need(sh[p], out[p].roots)]

World(k, c, o) == [typesS |-> {Def(t) : t \in k}, cachedS |-> {t \in DOMAIN c : c[t] # "-"}, openS |-> o, seenS |-> {}]

\* out: what the open peers get beyond descriptions
Step(cmd, out, sh, k, g, c, o) ==
    /\ known' = k
    /\ shared' = After(out, sh)
    /\ grp' = g
    /\ cache' = c
    /\ open' = o
    /\ act' = [cmd |-> cmd, obs |-> [out |-> Observed(out, sh), world |-> World(k, c, o)]]

Init == /\ known = Static
        /\ shared = [p \in Peers |-> {}]
        /\ grp = [p \in Peers |-> {}]
        /\ cache = [t \in {x \in Universe : Cached(x)} |-> "-"]
        /\ open = Peers
        /\ act = [cmd |-> [op |-> "Init"], obs |-> [x |-> 0]]

Members(g) == IF Role = "guest" THEN {} ELSE {p \in open : g \in grp[p]}
ToMembers(g, m) == [p \in Peers |-> IF p \in Members(g) THEN m ELSE Nothing]

\* a peer leaves: its cleanup objects go, the others are told
Owned(p) == {t \in DOMAIN cache : Cleanup(t) /\ cache[t] = p}
ASSUME Cardinality({t \in Universe : Cached(t) /\ Cleanup(t)}) <= 1
Gone(p) == [q \in Peers |-> LET T == {t \in Owned(p) : t \in grp[q] /\ q \in open /\ q # p}
                            IN IF T = {} THEN Nothing ELSE Msg(T, <<[m |-> "rm", t |-> CHOOSE t \in T : TRUE]>>)]
Leaves(cmd, p, what) ==
    LET out == [Gone(p) EXCEPT ![p] = Msg({}, what)]
        c == [t \in DOMAIN cache |-> IF t \in Owned(p) THEN "-" ELSE cache[t]]
    IN Step(cmd, out, [shared EXCEPT ![p] = {}], known, [grp EXCEPT ![p] = {}], IF Role = "host" THEN c ELSE cache, open \ {p})

\* ------------------------------------------------------------------ actions
\* a peer describes a type; what is already known stays as it is
Learn(p, t, alt) ==
    LET cmd == [op |-> "Learn", p |-> p, def |-> IF alt THEN AltDef(t) ELSE Def(t)]
        needs == IF alt THEN {} ELSE Deps(t)
        g == IF Table[t].kind = "enum" THEN "EnumDescriptorData" ELSE "StructDescriptorData"
        k == known \cup {t}
    IN /\ p \in open
       /\ IF t \notin shared[p] /\ t \notin known /\ ~(needs \subseteq known)
          THEN Leaves(cmd, p, IF p \in Early THEN <<>> ELSE <<[m |-> "error"]>>)
          ELSE /\ ~(alt /\ t \notin known)
               /\ Step(cmd, ToMembers(g, Msg({t}, <<[m |-> "desc", d |-> cmd.def]>>)),
                       [shared EXCEPT ![p] = @ \cup {t}], k, grp, cache, open)

\* a peer describes something that cannot be a type: it has to go, and nothing of it stays
Bad(p, b) == p \in open /\ Leaves([op |-> "Bad", p |-> p, what |-> b], p, IF p \in Early THEN <<>> ELSE <<[m |-> "error"]>>)

\* a peer publishes its instance of a type
Publish(p, t) ==
    /\ p \in open /\ t \in known /\ t \in Publishable
    /\ Step([op |-> "Publish", p |-> p, t |-> t, dyn |-> t \notin Static],
            ToMembers(t, Msg({t}, <<[m |-> "inst", t |-> t, v |-> "same"]>>)),
            shared, known, grp, IF Cached(t) THEN [cache EXCEPT ![t] = p] ELSE cache, open)

\* the hub publishes
LocalPublish(t) ==
    /\ t \in Publishable
    /\ Role = "guest" => "h" \in open
    /\ LET m == Msg({t}, <<[m |-> "inst", t |-> t, v |-> "same"]>>)
       IN Step([op |-> "LocalPublish", t |-> t],
               IF Role = "guest" THEN [p \in Peers |-> m] ELSE ToMembers(t, m),
               shared, known, grp, IF Cached(t) /\ Role = "host" THEN [cache EXCEPT ![t] = "me"] ELSE cache, open)

\* the hub starts to use a type it has at compile time and has not heard of; it
\* may have heard of the types that it needs, as they are at compile time
LateUse(t) ==
    /\ t \notin known
    /\ Closure({t}) \cap Alts = {}
    /\ Step([op |-> "LateUse", t |-> t], [p \in Peers |-> Nothing], shared, known \cup Closure({t}), grp, cache, open)

Join(p, g) ==
    LET has == g \in known /\ Cached(g)
        full == has /\ cache[g] # "-"
        ms == (IF full THEN <<[m |-> "inst", t |-> g, v |-> "same"]>> ELSE <<>>) \o (IF has THEN <<[m |-> "end", t |-> g]>> ELSE <<>>)
    IN /\ p \in open
       /\ Step([op |-> "Join", p |-> p, g |-> g], [q \in Peers |-> IF q = p THEN Msg(IF full THEN {g} ELSE {}, ms) ELSE Nothing],
               shared, known, [grp EXCEPT ![p] = @ \cup {g}], cache, open)

Absent == {"-"}
Selected(r) == {t \in known : /\ t \in Structs /\ ~Internal(t)
                              /\ r[1] \in {Absent, {}} \/ t \in r[1]
                              /\ r[2] = Absent \/ t \notin r[2]}
Request(p, r) ==
    /\ p \in open
    /\ Step([op |-> "Request", p |-> p, wl |-> r[1], bl |-> r[2]],
            [q \in Peers |-> IF q = p THEN Msg(Selected(r), <<[m |-> "enddesc"]>>) ELSE Nothing], shared, known, grp, cache, open)

Echo(p, e) ==
    /\ p \in open
    /\ Step([op |-> "Echo", p |-> p, e |-> e],
            [q \in Peers |-> IF q = p /\ e = "req" THEN Msg({}, <<[m |-> "echo", same |-> TRUE, request |-> FALSE]>>) ELSE Nothing],
            shared, known, grp, cache, open)

Leave(p) == p \in open /\ Leaves([op |-> "Leave", p |-> p], p, <<>>)
\* a new connection starts from scratch
Return(p) ==
    /\ p \notin open
    /\ Step([op |-> "Return", p |-> p], [q \in Peers |-> Nothing], [shared EXCEPT ![p] = {}], known, grp, cache, open \cup {p})

Next == \/ \E p \in Pub, t \in Universe \ Local : Learn(p, t, FALSE)
        \/ \E p \in Pub, t \in Alts : Learn(p, t, TRUE)
        \/ \E p \in Pub, b \in Bads : Bad(p, b)
        \/ \E p \in Pub, t \in Universe : Publish(p, t)
        \/ \E t \in Local : LocalPublish(t)
        \/ \E t \in Late : LateUse(t)
        \/ \E p \in Sub, g \in JoinNames : Join(p, g)
        \/ \E p \in Sub, w \in Whites, b \in Blacks : Request(p, <<w, b>>)
        \/ \E p \in Sub, e \in Echoes : Echo(p, e)
        \/ \E p \in Churn : Leave(p)
        \/ \E p \in Peers : Return(p)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ checks
TypeOK == /\ known \subseteq Universe
          /\ \A p \in Peers : shared[p] \subseteq known
          /\ open \subseteq Peers
\* the registry is always closed under dependencies
Resolvable == Closure(known) = known
\* whatever is described has been described with all it needs, by one side or the other knowing it
Obs == act'.obs.out
Names(D) == {d.name : d \in D}
\* never described twice on a channel
OnceOnly == [][\A p \in Peers : act'.cmd.op # "Init" => Names(Obs[p].descS) \cap shared[p] = {}]_vars
\* used only when described
BeforeUse == [][\A p \in Peers : \A i \in 1..Len(Obs[p].msgs) :
                  Obs[p].msgs[i].m = "inst" /\ ~Internal(Obs[p].msgs[i].t) => Obs[p].msgs[i].t \in shared'[p]]_vars
\* a description that is made here comes with what it needs
Complete == [][\A p \in Peers : \A t \in Names(Obs[p].descS) : \A d \in Deps(t) : ~Internal(d) => d \in shared'[p]]_vars
\* nothing known is lost or changed
KnownStays == [][known \subseteq known']_vars
\* requests concern nobody but the requester
OnlyRequester == [][act'.cmd.op \in {"Request", "Echo"} => \A q \in Peers \ {act'.cmd.p} : Obs[q] = Seen({}, Nothing)]_vars
=============================================================================
