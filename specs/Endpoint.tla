------------------------------ MODULE Endpoint ------------------------------
(* Endpoints and URIs are the text the user writes and the parts the library
   acts on. This specification keeps the parts; the text is a function of them.
   Every way of building, copying and changing one has to leave text and parts
   in agreement, and a refused change has to leave them alone.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Schemes, Users, Words, Hosts, Ports, Paths, Ops

VARIABLES uri,   \* slot -> parts, or None
          act

svars == uri
vars == <<svars, act>>
View == svars

(* a host # "" means there is an authority; without one the path follows the
   scheme either directly or behind an empty authority (slashes)                *)
None == [has |-> FALSE, s |-> "", slashes |-> FALSE, u |-> "", w |-> "", h |-> "", p |-> "", path |-> ""]
Parts(s, slashes, u, w, h, p, path) ==
    [has |-> TRUE, s |-> s, slashes |-> slashes, u |-> u, w |-> w, h |-> h, p |-> p, path |-> path]

V6(h) == h \in {"::1", "fe80::2:3"}
Cut(h) == IF V6(h) THEN "[" \o h \o "]" ELSE h
Authority(x) == IF x.h = "" THEN "" ELSE
    (IF x.u = "" THEN "" ELSE x.u \o (IF x.w = "" THEN "" ELSE ":" \o x.w) \o "@") \o Cut(x.h) \o (IF x.p = "" THEN "" ELSE ":" \o x.p)
Text(x) == x.s \o (IF x.h # "" \/ x.slashes THEN "://" ELSE ":") \o Authority(x) \o x.path

Show(x) == IF x.has THEN [has |-> TRUE, text |-> Text(x), scheme |-> x.s, authority |-> Authority(x), user |-> x.u, word |-> x.w,
                          host |-> x.h, port |-> x.p, path |-> x.path]
           ELSE [has |-> FALSE]
Result(cmd, u, ok) == uri' = u /\ act' = [cmd |-> cmd, obs |-> [ok |-> ok, uris |-> [i \in Slots |-> Show(u[i])]]]
Set(cmd, i, x) == Result(cmd, [uri EXCEPT ![i] = x], TRUE)
Refuse(cmd) == Result(cmd, uri, FALSE)

Bare == {Parts(s, sl, "", "", "", "", path) : s \in Schemes, sl \in BOOLEAN, path \in Paths}
Full == {Parts(s, TRUE, u, w, h, p, path) : s \in Schemes, u \in Users, w \in Words, h \in Hosts, p \in Ports, path \in Paths}
All == Bare \cup {x \in Full : x.u # "" \/ x.w = ""}
Auths == {x \in All : x.h # "" /\ x.path = "" /\ x.s = CHOOSE s \in Schemes : TRUE}

Build(i, x) == ~uri[i].has /\ Set([op |-> "Build", i |-> i, text |-> Text(x)], i, x)
BuildPort(i, s, h, p, n) == /\ ~uri[i].has /\ (n => p # "")
                            /\ Set([op |-> "BuildPort", i |-> i, s |-> s, h |-> h, p |-> p, n |-> n], i, Parts(s, TRUE, "", "", h, p, ""))
BuildPath(i, s, path) == ~uri[i].has /\ Set([op |-> "BuildPath", i |-> i, s |-> s, path |-> path], i, Parts(s, FALSE, "", "", "", "", path))
Socket(i, h, p) == ~uri[i].has /\ p # "" /\ Set([op |-> "Socket", i |-> i, h |-> h, p |-> p], i, Parts("tcp", TRUE, "", "", h, p, ""))
Copy(i, j) == i # j /\ ~uri[i].has /\ uri[j].has /\ Set([op |-> "Copy", i |-> i, j |-> j], i, uri[j])
Move(i, j) == i # j /\ ~uri[i].has /\ uri[j].has /\ Result([op |-> "Move", i |-> i, j |-> j], [uri EXCEPT ![i] = uri[j], ![j] = None], TRUE)
Assign(i, j) == uri[i].has /\ uri[j].has /\ Set([op |-> "Assign", i |-> i, j |-> j], i, uri[j])
MoveAssign(i, j) == i # j /\ uri[i].has /\ uri[j].has /\ Result([op |-> "MoveAssign", i |-> i, j |-> j], [uri EXCEPT ![i] = uri[j], ![j] = None], TRUE)
Drop(i) == uri[i].has /\ Set([op |-> "Drop", i |-> i], i, None)

SetScheme(i, s) == LET cmd == [op |-> "SetScheme", i |-> i, v |-> s] IN uri[i].has /\ (IF s = "" THEN Refuse(cmd) ELSE Set(cmd, i, [uri[i] EXCEPT !.s = s]))
SetAuthority(i, a) == uri[i].has /\ Set([op |-> "SetAuthority", i |-> i, v |-> Authority(a)], i,
                                        [uri[i] EXCEPT !.slashes = TRUE, !.u = a.u, !.w = a.w, !.h = a.h, !.p = a.p])
SetUser(i, u) == LET cmd == [op |-> "SetUser", i |-> i, v |-> u] IN uri[i].has /\ u # "" /\ (IF uri[i].h = "" THEN Refuse(cmd) ELSE Set(cmd, i, [uri[i] EXCEPT !.u = u]))
SetWord(i, w) == LET cmd == [op |-> "SetWord", i |-> i, v |-> w] IN uri[i].has /\ (IF uri[i].u = "" THEN Refuse(cmd) ELSE Set(cmd, i, [uri[i] EXCEPT !.w = w]))
SetHost(i, h) == uri[i].has /\ Set([op |-> "SetHost", i |-> i, v |-> h], i, [uri[i] EXCEPT !.h = h, !.slashes = TRUE])
SetPort(i, p) == LET cmd == [op |-> "SetPort", i |-> i, v |-> p] IN uri[i].has /\ (IF uri[i].h = "" THEN Refuse(cmd) ELSE Set(cmd, i, [uri[i] EXCEPT !.p = p]))
SetPath(i, path) == uri[i].has /\ Set([op |-> "SetPath", i |-> i, v |-> path], i, [uri[i] EXCEPT !.path = path])
BadPath(i) == uri[i].has /\ Refuse([op |-> "SetPath", i |-> i, v |-> "x/y"])

Lists == {<<>>, <<"tcp://h">>, <<"tcp://h", "uds:/p">>, <<"ws://u@[::1]:1/", "uds:/p", "tcp-v2://u:w@h:22/q">>}
(* a list of endpoints is separated by any number of blanks                     *)
RECURSIVE Blanks(_), Joined(_, _, _)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)
Joined(l, k, n) == IF k > Len(l) THEN "" ELSE (IF k = 1 THEN "" ELSE Blanks(n)) \o l[k] \o Joined(l, k + 1, n)
List(l, n, lead, trail) == /\ uri' = uri
                           /\ act' = [cmd |-> [op |-> "List", text |-> Blanks(lead) \o Joined(l, 1, n) \o Blanks(trail)], obs |-> [texts |-> l]]
Odd == {"", ":", "://", "a", "a:", ":b", "a://", "a://@", "a://:@:", "a://[", "a://]", "a://[]", "a://[]:1", "a://[::1", "a://::1]:2", "a://u@[", "a://u:@h", "a://@h:", "a://h:1:2", "a://u:w:x@h", "a://u@v@h", "//h/p", "/p", "a:b://c", "a//:b", " ", "a b", "[::1]:1", "a://[x]y", "a:///", "a:////b", "?#%", "a://h?q"}
(* any other text only has to be answered                                       *)
Try(t) == uri' = uri /\ act' = [cmd |-> [op |-> "Try", text |-> t], obs |-> [answered |-> TRUE]]

Init == uri = [i \in Slots |-> None] /\ act = [cmd |-> [op |-> "Init"], obs |-> [ok |-> TRUE]]
Next == \/ \E i \in Slots :
              \/ "build" \in Ops /\ \E x \in All : Build(i, x)
              \/ "build" \in Ops /\ \E s \in Schemes, h \in Hosts, p \in Ports, n \in BOOLEAN : BuildPort(i, s, h, p, n)
              \/ "build" \in Ops /\ \E s \in Schemes, path \in Paths : BuildPath(i, s, path)
              \/ "build" \in Ops /\ \E h \in {"::1", "127.0.0.1"}, p \in Ports : Socket(i, h, p)
              \/ Drop(i)
              \/ \E j \in Slots : Copy(i, j) \/ Move(i, j) \/ Assign(i, j) \/ MoveAssign(i, j)
              \/ "set" \in Ops /\ \/ \E s \in Schemes \cup {""} : SetScheme(i, s)
                                  \/ \E a \in Auths : SetAuthority(i, a)
                                  \/ \E u \in Users : SetUser(i, u)
                                  \/ \E w \in Words : SetWord(i, w)
                                  \/ \E h \in Hosts : SetHost(i, h)
                                  \/ \E p \in Ports : SetPort(i, p)
                                  \/ \E path \in Paths : SetPath(i, path)
                                  \/ BadPath(i)
        \/ "list" \in Ops /\ \E l \in Lists, n \in 1..3, lead \in 0..2, trail \in 0..3 : List(l, n, lead, trail)
        \/ "try" \in Ops /\ \E t \in Odd : Try(t)
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

TypeOK == \A i \in Slots : uri[i].has => (uri[i].w # "" => uri[i].u # "") /\ ((uri[i].u # "" \/ uri[i].p # "") => uri[i].h # "")
(* different parts never share a text                                           *)
Readable == \A i, j \in Slots : uri[i].has /\ uri[j].has /\ Text(uri[i]) = Text(uri[j]) => uri[i] = uri[j]
RefusedChangesNothing == [][~("ok" \in DOMAIN act'.obs /\ act'.obs.ok) => uri' = uri]_vars
OnlyThatPart == [][act'.cmd.op \in {"SetScheme", "SetUser", "SetWord", "SetPort", "SetPath"} =>
                      Cardinality({f \in DOMAIN None : uri'[act'.cmd.i][f] # uri[act'.cmd.i][f]}) <= 1]_vars
=============================================================================
