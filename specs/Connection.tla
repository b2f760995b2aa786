----------------------------- MODULE Connection -----------------------------
(* One logical DOTS connection (lib/src/Connection.cpp) in either role, with   *)
(* an adversarial peer: any message may arrive in any state.  Every action     *)
(* carries the observation the implementation has to make (act.obs): what is   *)
(* transmitted, which transitions are reported, what is handed to the receive  *)
(* handler and whether the channel is told to go on receiving.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roles,        \* subset of {"host","guest"}
          HostAuth,     \* subset of {"none","open","challenge"}
          GuestAuth,    \* subset of {"nosecret","secret"}
          AppMsgs,      \* "few" or "all": variety of application messages
          HModes,       \* behaviours of the receive handler
          TModes        \* states in which the transition handler fails

VARIABLES role, auth,
          phase,      \* "none" (no object yet), "live", "gone"
          st,         \* connection state
          expect,     \* the system message expected next
          self,       \* own id: none/host/mine
          pn,         \* peer name
          broken,     \* the channel cannot transmit
          greeted, accepted, preloaded,   \* ghosts for the invariants below
          reports,    \* ghost: how often "closed" was reported
          act

svars == <<role, auth, phase, st, expect, self, pn, broken, greeted, accepted, preloaded, reports>>
vars == <<svars, act>>
View == svars

Tri == {"-", "F", "T"}

Hello(sn, ch, ar) == [t |-> "DotsMsgHello", sn |-> sn, ch |-> ch, ar |-> ar]
Hellos == {Hello(sn, ch, ar) : sn \in BOOLEAN, ch \in BOOLEAN, ar \in Tri}
Connects == {[t |-> "DotsMsgConnect", cn |-> cn, pc |-> pc, pf |-> pf, resp |-> r] :
               cn \in {"-", "cli", "refused"}, pc \in Tri, pf \in Tri, r \in {"-", "good", "bad"}}
Responses == {[t |-> "DotsMsgConnectResponse", id |-> i, acc |-> a, pre |-> p, fin |-> f] :
               i \in BOOLEAN, a \in Tri, p \in Tri, f \in Tri}
Errors == {[t |-> "DotsMsgError", code |-> c, text |-> x] : c \in {"-", "zero", "nonzero"}, x \in BOOLEAN}

App(t, v, key, s, sent, sst, rm, mine) ==
    [t |-> t, v |-> v, key |-> key, sender |-> s, sent |-> sent, sst |-> sst, rm |-> rm, mine |-> mine]
NoRec == [x \in {} |-> 0]
AppsAll ==
    {App("VtIntC", [k |-> 1, p |-> 2], TRUE, s, sent, sst, rm, mine) :
        s \in {"absent", "host", "mine", "other"}, sent \in {"unset", "past", "future"}, sst \in BOOLEAN, rm \in BOOLEAN, mine \in Tri}
    \cup {App("VtIntC", [p |-> 2], FALSE, s, "unset", FALSE, rm, "-") : s \in {"absent", "other"}, rm \in BOOLEAN}
    \cup {App("VtMixC", [k |-> "red", p |-> "blue"], FALSE, "absent", "unset", FALSE, FALSE, "-")}
    \cup {App("DotsMember", [groupName |-> "VtIntC", event |-> "join"], TRUE, s, "unset", FALSE, FALSE, "-") : s \in {"absent", "other"}}
    \cup {App("DotsEcho", NoRec, TRUE, "absent", "unset", FALSE, FALSE, "-")}
AppsFew ==
    {App("VtIntC", [k |-> 1, p |-> 2], TRUE, s, "unset", FALSE, FALSE, "-") : s \in {"absent", "other"}}
    \cup {App("VtIntC", [p |-> 2], FALSE, "absent", "unset", FALSE, FALSE, "-")}
    \cup {App("DotsMember", [groupName |-> "VtIntC", event |-> "join"], TRUE, "absent", "unset", FALSE, FALSE, "-")}
Apps == IF AppMsgs = "all" THEN AppsAll ELSE AppsFew

-----------------------------------------------------------------------------
(* Pieces of an observation *)
TxHello == [t |-> "DotsMsgHello", sn |-> TRUE, ch |-> IF auth = "challenge" THEN "nonce" ELSE "zero", ar |-> auth = "challenge"]
TxConnect(resp) == [t |-> "DotsMsgConnect", cn |-> TRUE, pc |-> TRUE, pf |-> FALSE, resp |-> resp]
TxPreloaded == [t |-> "DotsMsgConnect", cn |-> FALSE, pc |-> FALSE, pf |-> TRUE, resp |-> "-"]
TxResponse(acc, pre) == [t |-> "DotsMsgConnectResponse", id |-> "peer", acc |-> acc, pre |-> IF pre THEN "T" ELSE "F", fin |-> FALSE]
TxFinished == [t |-> "DotsMsgConnectResponse", id |-> "none", acc |-> "-", pre |-> "-", fin |-> TRUE]
TxError == [t |-> "DotsMsgError", code |-> "nonzero", text |-> TRUE]
TxBye == [t |-> "DotsMsgError", code |-> "zero", text |-> FALSE]
Trans(s, err) == [s |-> s, err |-> err]

(* An outcome: next values of the state plus what was observed on the way. *)
O0 == [st |-> st, expect |-> expect, self |-> self, pn |-> pn, tx |-> <<>>, trans |-> <<>>, rx |-> <<>>,
       exc |-> FALSE, armed |-> FALSE, fail |-> FALSE]

Closed(o, err, say) ==
    (* handleError/handleClose *)
    IF o.st = "closed" THEN o
    ELSE [o EXCEPT !.tx = IF say /\ o.st = "connected" /\ ~broken THEN o.tx \o <<TxError>> ELSE o.tx,
                   !.trans = o.trans \o <<Trans("closed", err)>>,
                   !.st = "closed", !.expect = "error", !.armed = FALSE]

Send(o, m) == IF o.fail THEN o ELSE IF broken THEN [o EXCEPT !.fail = TRUE] ELSE [o EXCEPT !.tx = o.tx \o <<m>>]
Enter(o, s, tm) == IF o.fail THEN o
                   ELSE [o EXCEPT !.st = s, !.trans = o.trans \o <<Trans(s, FALSE)>>, !.fail = (tm = s)]
Then(o, x) == IF o.fail THEN o ELSE [o EXCEPT !.expect = x]

(* The end of processing an incoming message: a failure closes the connection. *)
Finish(o) == IF o.fail THEN Closed(o, TRUE, TRUE) ELSE [o EXCEPT !.armed = TRUE]

-----------------------------------------------------------------------------
Complete(m) ==
    CASE expect = "hello" -> m.t = "DotsMsgHello" /\ m.sn /\ m.ch
      [] expect = "connect" -> m.t = "DotsMsgConnect" /\ m.cn # "-" /\ m.pc # "-"
      [] expect = "preloadDone" -> m.t = "DotsMsgConnect" /\ m.pf # "-"
      [] expect = "response" -> m.t = "DotsMsgConnectResponse" /\ m.id /\ m.acc # "-" /\ m.pre # "-"
      [] expect = "finished" -> m.t = "DotsMsgConnectResponse" /\ m.fin # "-"
      [] OTHER -> FALSE

Admitted(m) ==
    CASE auth = "none" -> TRUE
      [] auth = "open" -> m.cn # "refused"
      [] auth = "challenge" -> m.resp = "good"
      [] OTHER -> FALSE

HostConnect(m, tm) ==
    IF ~Admitted(m)
    THEN [Send(O0, TxResponse("F", m.pc = "T")) EXCEPT !.fail = TRUE]
    ELSE LET o1 == [Send([O0 EXCEPT !.pn = m.cn], TxResponse("T", m.pc = "T")) EXCEPT !.pn = m.cn]
         IN IF m.pc = "T" THEN Then(Enter(o1, "early_subscribe", tm), "preloadDone")
                          ELSE Then(Enter(o1, "connected", tm), "error")

HostPreloadDone(m, tm) ==
    IF m.pf = "F" THEN [O0 EXCEPT !.fail = TRUE]
    ELSE Then(Send(Enter(O0, "connected", tm), TxFinished), "error")

GuestHello(m) ==
    LET o == [O0 EXCEPT !.pn = "srv"] IN
    IF m.ar = "T" /\ auth # "secret" THEN [o EXCEPT !.fail = TRUE]
    ELSE Then(Send(o, TxConnect(IF m.ar = "T" THEN "good" ELSE "-")), "response")

GuestResponse(m, tm) ==
    (* a host that refuses the guest never makes it connected *)
    IF m.acc = "F" THEN [O0 EXCEPT !.fail = TRUE]
    ELSE LET o == [O0 EXCEPT !.self = "mine"] IN
         IF m.pre = "T" THEN Then(Send(Enter(o, "early_subscribe", tm), TxPreloaded), "finished")
                        ELSE Then(Enter(o, "connected", tm), "error")

GuestFinished(tm) == Then(Enter(O0, "connected", tm), "error")

SystemMsg(m, tm) ==
    IF ~Complete(m) THEN [O0 EXCEPT !.fail = TRUE]
    ELSE CASE expect = "connect" -> HostConnect(m, tm)
           [] expect = "preloadDone" -> HostPreloadDone(m, tm)
           [] expect = "hello" -> GuestHello(m)
           [] expect = "response" -> GuestResponse(m, tm)
           [] expect = "finished" -> GuestFinished(tm)

(* what the receive handler sees: sender and times are stamped (C13) *)
Delivered(m) ==
    LET snd == IF role = "host" THEN "peer" ELSE IF m.sender = "absent" THEN "host" ELSE m.sender IN
    [t |-> m.t, v |-> m.v, sender |-> snd, mine |-> (role = "guest" /\ m.sender = "mine"),
     sent |-> IF m.sent # "unset" THEN "kept" ELSE "now",
     stamped |-> role = "host", rm |-> m.rm]

AppMsg(m, h) ==
    IF st \notin {"early_subscribe", "connected"} \/ ~m.key THEN [O0 EXCEPT !.fail = TRUE]
    ELSE [O0 EXCEPT !.rx = <<Delivered(m)>>, !.fail = (h = "throw")]

Obs(o) == [tx |-> o.tx, trans |-> o.trans, rx |-> o.rx, exc |-> o.exc, armed |-> o.armed,
           st |-> o.st, self |-> o.self, pn |-> o.pn, conn |-> o.st = "connected", closed |-> o.st = "closed"]

Apply(o, cmd) ==
    /\ st' = o.st /\ expect' = o.expect /\ self' = o.self /\ pn' = o.pn
    /\ reports' = reports + Cardinality({i \in 1..Len(o.trans) : o.trans[i].s = "closed"})
    /\ act' = [cmd |-> cmd, obs |-> Obs(o)]
    /\ UNCHANGED <<role, auth, phase>>

-----------------------------------------------------------------------------
Init == /\ role = "-" /\ auth = "-" /\ phase = "none" /\ st = "suspended" /\ expect = "error"
        /\ self = "none" /\ pn = "<not_set>" /\ broken = FALSE
        /\ greeted = FALSE /\ accepted = FALSE /\ preloaded = FALSE /\ reports = 0
        /\ act = [cmd |-> [op |-> "init"], obs |-> NoRec]

New == /\ phase = "none"
       /\ \E r \in Roles : \E a \in (IF r = "host" THEN HostAuth ELSE GuestAuth) :
            /\ role' = r /\ auth' = a /\ phase' = "live"
            /\ self' = IF r = "host" THEN "host" ELSE "none"
            /\ act' = [cmd |-> [op |-> "New", role |-> r, auth |-> a],
                       obs |-> [tx |-> <<>>, trans |-> <<>>, rx |-> <<>>, exc |-> FALSE, st |-> "suspended",
                                self |-> IF r = "host" THEN "host" ELSE "none", pn |-> "<not_set>", conn |-> FALSE, closed |-> FALSE]]
       /\ UNCHANGED <<st, expect, pn, broken, greeted, accepted, preloaded, reports>>

Start(tm) ==
    /\ phase = "live" /\ st = "suspended" /\ (broken => tm = "ok")
    /\ LET a == Enter(O0, "connecting", tm)
           b == IF role = "host" THEN Send([a EXCEPT !.armed = ~a.fail], TxHello) ELSE [a EXCEPT !.armed = ~a.fail]
           o == [Then(b, IF role = "host" THEN "connect" ELSE "hello") EXCEPT !.exc = b.fail]
       IN Apply(o, [op |-> "Start", tm |-> tm])
    /\ tm # "connecting"    \* a transition handler that fails here leaves a connection that never started
    /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

StartAgain ==
    /\ phase = "live" /\ st \notin {"suspended"}
    /\ Apply([O0 EXCEPT !.exc = TRUE], [op |-> "Start", tm |-> "ok"])
    /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

Break == /\ phase = "live" /\ ~broken /\ broken' = TRUE
         /\ Apply(O0, [op |-> "Break"])
         /\ UNCHANGED <<greeted, accepted, preloaded>>

Started == phase = "live" /\ st # "suspended"

RxClosed(m) ==
    /\ Started /\ st = "closed"
    /\ Apply(O0, [op |-> "Rx", m |-> m, h |-> "ok", tm |-> "ok"])
    /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

RxError(m) ==
    /\ Started /\ st # "closed"
    /\ Apply(IF m.code = "zero" THEN Closed(O0, FALSE, FALSE) ELSE Closed(O0, TRUE, TRUE),
             [op |-> "Rx", m |-> m, h |-> "ok", tm |-> "ok"])
    /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

RxSystem(m, tm) ==
    /\ Started /\ st # "closed"
    /\ ~(expect = "finished" /\ Complete(m) /\ m.fin = "F")   \* no meaning given to this message
    /\ (tm # "ok" => Complete(m))
    /\ Apply(Finish(SystemMsg(m, tm)), [op |-> "Rx", m |-> m, h |-> "ok", tm |-> tm])
    /\ greeted' = (greeted \/ (expect = "hello" /\ Complete(m)))
    /\ accepted' = (accepted \/ (expect = "connect" /\ Complete(m) /\ Admitted(m)) \/ (expect = "response" /\ Complete(m) /\ m.acc = "T"))
    /\ preloaded' = (preloaded \/ (expect = "preloadDone" /\ Complete(m) /\ m.pf = "T") \/ (expect = "finished" /\ Complete(m))
                       \/ (expect = "connect" /\ Complete(m) /\ m.pc = "F") \/ (expect = "response" /\ Complete(m) /\ m.pre = "F"))
    /\ UNCHANGED broken

RxApp(m, h) ==
    /\ Started /\ st # "closed"
    /\ LET o == AppMsg(m, h) IN
       Apply(IF o.fail THEN Closed(o, TRUE, TRUE) ELSE [o EXCEPT !.armed = (h # "stop")],
             [op |-> "Rx", m |-> m, h |-> h, tm |-> "ok"])
    /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

LocalError == /\ Started
              /\ Apply(Closed(O0, TRUE, TRUE), [op |-> "LocalError"])
              /\ UNCHANGED <<broken, greeted, accepted, preloaded>>
ChannelError == /\ Started
                /\ Apply(Closed(O0, TRUE, TRUE), [op |-> "ChannelError"])
                /\ UNCHANGED <<broken, greeted, accepted, preloaded>>

Destroy ==
    /\ phase = "live"
    /\ LET bye == st = "connected"
           tr == IF st = "closed" \/ st = "suspended" THEN <<>> ELSE <<Trans("closed", bye /\ broken)>>
       IN /\ act' = [cmd |-> [op |-> "Destroy"],
                     obs |-> [tx |-> IF bye /\ ~broken THEN <<TxBye>> ELSE <<>>, trans |-> tr, rx |-> <<>>, exc |-> FALSE, released |-> TRUE]]
          /\ reports' = reports + Len(tr)
    /\ phase' = "gone" /\ st' = IF st = "suspended" THEN st ELSE "closed"
    /\ UNCHANGED <<role, auth, expect, self, pn, broken, greeted, accepted, preloaded>>

Next ==
    \/ New
    \/ \E tm \in TModes : Start(tm)
    \/ StartAgain
    \/ Break
    \/ \E m \in Hellos \cup Connects \cup Responses : RxClosed(m)
    \/ \E m \in Errors \cup Apps : RxClosed(m)
    \/ \E m \in Errors : RxError(m)
    \/ \E m \in Hellos \cup Connects \cup Responses, tm \in TModes : RxSystem(m, tm)
    \/ \E m \in Apps, h \in HModes : RxApp(m, h)
    \/ LocalError \/ ChannelError \/ Destroy

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

-----------------------------------------------------------------------------
(* Properties of the specification itself *)
TypeOK == /\ st \in {"suspended", "connecting", "early_subscribe", "connected", "closed"}
          /\ expect \in {"error", "hello", "connect", "preloadDone", "response", "finished"}

Rank == [suspended |-> 0, connecting |-> 1, early_subscribe |-> 2, connected |-> 3, closed |-> 4]
ForwardOnly == [][Rank[st'] >= Rank[st]]_st
ConnectedMeansAccepted == st \in {"early_subscribe", "connected"} => accepted
ConnectedMeansPreloaded == st = "connected" => preloaded
GuestKnowsHost == (role = "guest" /\ st \in {"early_subscribe", "connected"}) => greeted /\ self = "mine" /\ pn = "srv"
ClosedOnce == reports <= 1 /\ (phase # "gone" => (reports = 1 <=> st = "closed"))
ServedOnlyWhenAdmitted == [][(act'.cmd.op = "Rx" /\ act'.obs.rx # <<>>) => st \in {"early_subscribe", "connected"}]_vars
SilentWhenClosed == [][(act'.cmd.op = "Rx" /\ st = "closed") => (act'.obs.tx = <<>> /\ act'.obs.rx = <<>> /\ act'.obs.trans = <<>>)]_vars
GraceNeverAnswered == [][(act'.cmd.op = "Rx" /\ act'.cmd.m.t = "DotsMsgError" /\ act'.cmd.m.code = "zero") => act'.obs.tx = <<>>]_vars
SenderNeverForged == [][(role = "host" /\ act'.cmd.op = "Rx") => \A i \in 1..Len(act'.obs.rx) : act'.obs.rx[i].sender = "peer"]_vars
=============================================================================
