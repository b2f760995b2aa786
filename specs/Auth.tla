------------------------------- MODULE Auth -------------------------------
(* Which clients the host admits, given the authentication rules and the policy
   in force.  Rules are identified by network, client name and priority; their
   secret and verdict can change.  A client is judged in one transition: the
   host greets it (with or without a challenge), the client answers, the host
   accepts or refuses.

   Addresses are byte sequences; a network is such a sequence and a prefix.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rules,    \* name of the rule table
          Addrs,    \* names of the client addresses
          Names, Secrets, Schemes, Responses, Policies

VARIABLES rules, policy, act

svars == <<rules, policy>>
vars == <<svars, act>>
View == svars

Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
(* the first n bits agree *)
Agree(a, b, n) == LET full == n \div 8 rest == n % 8 IN
    /\ \A i \in 1..full : a[i] = b[i]
    /\ rest > 0 => a[full + 1] \div Pow[9 - rest] = b[full + 1] \div Pow[9 - rest]
Matches(net, addr) == /\ Len(net.a) = Len(addr)
                      /\ net.n <= 8 * Len(net.a)
                      /\ Agree(net.a, addr, net.n)

V6(x, y) == <<32, 1, 13, 184, x, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, y>>
AddrOf == [a |-> <<10, 1, 2, 3>>, b |-> <<10, 1, 2, 200>>, c |-> <<10, 1, 3, 3>>, d |-> <<138, 1, 2, 3>>, e |-> V6(0, 1), f |-> V6(128, 1), g |-> <<10, 1, 2, 2>>]

Net(a, n) == [a |-> a, n |-> n]
R(net, name, prio) == [net |-> net, name |-> name, prio |-> prio]
All4 == Net(<<0, 0, 0, 0>>, 0)
Table == CASE Rules = "order" -> << R(All4, "", 3), R(Net(<<10, 1, 2, 3>>, 32), "alice", 2), R(Net(<<10, 0, 0, 0>>, 8), "", 1) >>
           [] Rules = "names" -> << R(All4, "alice", 1), R(All4, "", 2), R(All4, "bob", 2) >>
           [] Rules = "two" -> << R(All4, "alice", 1), R(Net(<<10, 1, 0, 0>>, 16), "", 2) >>
           [] Rules = "ties" -> << R(All4, "alice", 5), R(All4, "", 5), R(Net(<<10, 1, 2, 0>>, 24), "", 5) >>
           [] Rules = "nets4" -> << R(Net(<<10, 1, 2, 3>>, 32), "", 1), R(Net(<<10, 1, 2, 3>>, 31), "", 2), R(Net(<<10, 1, 2, 77>>, 25), "", 3), R(Net(<<10, 1, 2, 200>>, 24), "", 4), R(Net(<<10, 1, 2, 0>>, 23), "", 5) >>
           [] Rules = "nets6" -> << R(Net(V6(0, 1), 128), "", 1), R(Net(V6(128, 0), 33), "", 2), R(Net(V6(0, 0), 32), "", 3), R(Net(V6(0, 0), 0), "", 4), R(Net(<<10, 1, 2, 3>>, 40), "", 5) >>
Ids == 1..Len(Table)
Absent == [sec |-> -1, acc |-> "-"]

-----------------------------------------------------------------------------
(* The answer of a client proves secret s, or nothing (0). *)
Proves(resp) == CASE resp \in {"s1", "bare"} -> 1 [] resp = "s2" -> 2 [] OTHER -> 0

Applicable(addr, name) == {i \in Ids : rules[i] # Absent /\ Matches(Table[i].net, AddrOf[addr]) /\ (Table[i].name = "" \/ Table[i].name = name)}
Decides(i, proved) == rules[i].acc # "-" /\ (rules[i].sec = 0 \/ rules[i].sec = proved)

First(S) == {i \in S : \A j \in S : Table[i].prio <= Table[j].prio}
(* "-": no policy, "N": one that says nothing *)
Fallback == IF policy \in {"-", "N"} THEN "T" ELSE policy
(* what may come out; more than one possibility if rules of equal priority disagree *)
Judge(addr, name, proved) == LET S == {i \in Applicable(addr, name) : Decides(i, proved)} IN
    IF S = {} THEN {Fallback} ELSE {rules[i].acc : i \in First(S)}
Challenge(addr) == LET S == {i \in Applicable(addr, "") : rules[i].acc = "T"} IN
    IF S = {} THEN {FALSE} ELSE {rules[i].sec # 0 : i \in First(S)}

Ip(s) == s \in {"tcp", "ws"}
(* "long": not a digest at all *)
Verdicts(s, addr, name, resp) == CASE resp = "long" -> {FALSE}
                                   [] Ip(s) -> {x = "T" : x \in Judge(addr, name, Proves(resp))}
                                   [] s = "uds" -> {TRUE}
                                   [] OTHER -> {policy = "T"}
Asks(s, addr) == CASE Ip(s) -> Challenge(addr) [] s = "uds" -> {FALSE} [] OTHER -> {policy # "T"}

Client(s, addr, name, resp) ==
    /\ ~Ip(s) => addr = "a"
    \* which of several rules of equal priority comes first is nobody's business
    /\ Cardinality(Verdicts(s, addr, name, resp)) = 1 /\ Cardinality(Asks(s, addr)) = 1
    /\ UNCHANGED svars
    /\ act' = [cmd |-> [op |-> "Client", scheme |-> s, addr |-> AddrOf[addr], name |-> name, resp |-> resp],
               obs |-> [asked |-> TRUE \in Asks(s, addr), acc |-> TRUE \in Verdicts(s, addr, name, resp)]]

Rule(i) == Table[i] @@ [i |-> i]
(* what: the properties of the rule that are published *)
Publish(i, sec, acc, what) ==
    /\ rules' = [rules EXCEPT ![i] = [sec |-> IF "secret" \in what THEN sec ELSE IF @ = Absent THEN 0 ELSE @.sec,
                                      acc |-> IF "accept" \in what THEN acc ELSE IF @ = Absent THEN "-" ELSE @.acc]]
    /\ UNCHANGED policy
    /\ act' = [cmd |-> [op |-> "Rule", rule |-> Rule(i), sec |-> sec, acc |-> acc, what |-> what], obs |-> [n |-> 0]]
Remove(i) ==
    /\ rules' = [rules EXCEPT ![i] = Absent] /\ UNCHANGED policy
    /\ act' = [cmd |-> [op |-> "RemoveRule", rule |-> Rule(i)], obs |-> [n |-> 0]]
Policy(p) ==
    /\ policy' = p /\ UNCHANGED rules
    /\ act' = [cmd |-> [op |-> "Policy", p |-> p], obs |-> [n |-> 0]]
Renew == UNCHANGED svars /\ act' = [cmd |-> [op |-> "Renew"], obs |-> [n |-> 0]]

Init == rules = [i \in Ids |-> Absent] /\ policy = "-" /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E i \in Ids, sec \in Secrets, acc \in {"-", "T", "F"} : Publish(i, sec, acc, {"secret", "accept"})
        \/ \E i \in Ids : rules[i] # Absent /\ \E acc \in {"-", "T", "F"} : Publish(i, 0, acc, {"accept"})
        \/ \E i \in Ids : rules[i] # Absent /\ \E sec \in Secrets : Publish(i, sec, "-", {"secret"})
        \/ \E i \in Ids : Remove(i)
        \/ \E p \in Policies : Policy(p)
        \/ Renew
        \/ \E s \in Schemes, a \in Addrs, n \in Names, r \in Responses : Client(s, a, n, r)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == \A i \in Ids : rules[i] = Absent \/ (rules[i].sec \in Secrets /\ rules[i].acc \in {"-", "T", "F"})
(* C08: without applicable rules the policy decides, without a policy everybody is accepted *)
DefaultDecides == [][(act'.cmd.op = "Client" /\ act'.cmd.resp # "long" /\ Ip(act'.cmd.scheme) /\ \A i \in Ids : rules[i] = Absent) => act'.obs.acc = (policy # "F") /\ ~act'.obs.asked]_vars
(* a secret rule never admits a client that does not prove its secret *)
SecretsGuard == [][(act'.cmd.op = "Client" /\ Ip(act'.cmd.scheme) /\ Proves(act'.cmd.resp) = 0 /\ policy = "F" /\ \A i \in Ids : rules[i].sec # 0) => ~act'.obs.acc]_vars
LocalSocketsPass == [][(act'.cmd.op = "Client" /\ act'.cmd.resp # "long" /\ act'.cmd.scheme = "uds") => act'.obs.acc]_vars
=============================================================================
