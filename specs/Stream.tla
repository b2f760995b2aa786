------------------------------- MODULE Stream -------------------------------
(* A byte stream between a sending and a receiving channel, for several links
   whose senders share one listener (and so one payload cache).  A message is
   a run of PN pieces of bytes; the stream takes and gives whatever pieces it
   likes, so pieces of neighbouring messages are split and coalesced freely.
   The promise: a message is received when its last piece has arrived, never
   before, once, unaltered and in order; after an error, or after the receiver
   asked for no more, nothing further.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Links, Tos, Kinds, Garbage, PN, MaxMsgs, Arms, Cuts, Modes

VARIABLES tx,    \* link -> messages handed to the sender (garbage is slipped onto the wire behind them)
          fl,    \* link -> messages that have left the buffer for the stream (a write takes all there are)
          w,     \* link -> pieces the stream has taken from the sender
          r,     \* link -> pieces that have arrived at the receiver
          d,     \* link -> messages received
          ss,    \* link -> sender: "on", "released" (dropped by its owner), "over"
          rs,    \* link -> receiver: "on", "over"
          arm,   \* link -> what the receive handler does with the next message
          n, act

svars == <<tx, fl, w, r, d, ss, rs, arm, n>>
vars == <<svars, act>>
View == svars

Total(l) == PN * Len(tx[l])
IsGarbage(m) == m.k \in Garbage
Show(ms) == [i \in 1..Len(ms) |-> [n |-> ms[i].n, k |-> ms[i].k]]
Min(a, b) == IF a < b THEN a ELSE b

\* what arrives when pieces up to nr have come in
Got(l, nr) ==
    LET new == SubSeq(tx[l], d[l] + 1, nr \div PN)
        gs == {i \in 1..Len(new) : IsGarbage(new[i])}
        g == CHOOSE i \in gs : \A j \in gs : i <= j
        upto == IF gs = {} THEN Len(new) ELSE g - 1
        last == IF arm[l] = "drop2" THEN 2 ELSE 1
        stop == arm[l] # "no" /\ upto >= last
    IN  IF rs[l] # "on" THEN [ms |-> <<>>, err |-> 0, over |-> TRUE]
        ELSE IF stop THEN [ms |-> SubSeq(new, 1, last), err |-> IF arm[l] = "throw" THEN 1 ELSE 0, over |-> TRUE]
        ELSE [ms |-> SubSeq(new, 1, upto), err |-> IF gs = {} THEN 0 ELSE 1, over |-> gs # {}]
ArmAfter(l, g) == IF g.over THEN "no" ELSE IF arm[l] = "drop2" /\ Len(g.ms) = 1 THEN "drop" ELSE arm[l]

None == [l \in Links |-> <<>>]
Zero == [l \in Links |-> 0]
\* messages that have left completely, as somebody reading the wire sees them
Left(l, nw) == LET ms == SubSeq(tx[l], w[l] \div PN + 1, nw \div PN) IN Show(SelectSeq(ms, LAMBDA m : ~IsGarbage(m)))

Obs(got, rerr, serr, wire, pend) == [got |-> got, rerr |-> rerr, serr |-> serr, wire |-> wire, pend |-> pend]
Pend(txx, ww, sss) == [l \in Links |-> sss[l] # "over" /\ ww[l] < PN * Len(txx[l])]

\* messages are buffered while a write is under way, but not more than 10 MB: kind "G" has 6 MB, the others do not count
Buffered(l) == Cardinality({i \in (fl[l] + 1)..Len(tx[l]) : tx[l][i].k = "G"})
Full(l) == Buffered(l) >= 2
Taken(f, ww, txx) == [l \in Links |-> IF ww[l] >= PN * f[l] THEN Len(txx[l]) ELSE f[l]]

Send(to, k, how) ==
    /\ n < MaxMsgs /\ \A l \in to : ss[l] = "on"
    /\ n' = n + 1
    /\ tx' = [l \in Links |-> IF l \in to /\ ~Full(l) THEN Append(tx[l], [n |-> n + 1, k |-> k]) ELSE tx[l]]
    /\ fl' = Taken(fl, w, tx')
    /\ UNCHANGED <<w, r, d, ss, rs, arm>>
    /\ act' = [cmd |-> [op |-> "Send", toS |-> to, k |-> k, how |-> how],
               obs |-> Obs(None, Zero, Zero, None, Pend(tx', w, ss)) @@ [refusedS |-> {l \in to : Full(l)}]]

Write(l, m) ==
    /\ ss[l] # "over" /\ w[l] + m <= Total(l)
    /\ w' = [w EXCEPT ![l] = @ + m]
    /\ fl' = Taken(fl, w', tx)
    /\ UNCHANGED <<tx, r, d, ss, rs, arm, n>>
    /\ act' = [cmd |-> [op |-> "Write", l |-> l, n |-> m, pn |-> PN], obs |-> Obs(None, Zero, Zero, [None EXCEPT ![l] = Left(l, w'[l])], Pend(tx, w', ss))]

\* never stop inside garbage: when it is noticed is up to the receiver
Read(l, m) ==
    LET nr == r[l] + m
        g == Got(l, nr)
    IN  /\ nr <= w[l]
        /\ (IF nr % PN = 0 THEN TRUE ELSE ~IsGarbage(tx[l][(nr \div PN) + 1]))
        /\ r' = [r EXCEPT ![l] = nr]
        /\ d' = [d EXCEPT ![l] = @ + Len(g.ms)]
        /\ rs' = [rs EXCEPT ![l] = IF g.over THEN "over" ELSE @]
        /\ arm' = [arm EXCEPT ![l] = ArmAfter(l, g)]
        /\ UNCHANGED <<tx, fl, w, ss, n>>
        /\ act' = [cmd |-> [op |-> "Read", l |-> l, n |-> m, pn |-> PN],
                   obs |-> Obs([None EXCEPT ![l] = Show(g.ms)], [Zero EXCEPT ![l] = g.err], Zero, None, Pend(tx, w, ss))]

Inject(l, g) ==
    /\ ss[l] = "on" /\ rs[l] = "on" /\ w[l] = Total(l) /\ ~\E i \in 1..Len(tx[l]) : IsGarbage(tx[l][i])
    /\ n < MaxMsgs
    /\ tx' = [tx EXCEPT ![l] = Append(@, [n |-> 0, k |-> g])]
    /\ w' = [w EXCEPT ![l] = @ + PN]
    /\ fl' = [fl EXCEPT ![l] = @ + 1]
    /\ n' = n + 1
    /\ UNCHANGED <<r, d, ss, rs, arm>>
    /\ act' = [cmd |-> [op |-> "Inject", l |-> l, g |-> g, pn |-> PN], obs |-> Obs(None, Zero, Zero, None, Pend(tx, w, ss))]

Arm(l, a) ==
    /\ rs[l] = "on" /\ arm[l] = "no"
    /\ arm' = [arm EXCEPT ![l] = a]
    /\ UNCHANGED <<tx, fl, w, r, d, ss, rs, n>>
    /\ act' = [cmd |-> [op |-> "Arm", l |-> l, a |-> a], obs |-> Obs(None, Zero, Zero, None, Pend(tx, w, ss))]

\* the receiver's peer disappears
CutR(l, how) ==
    /\ rs[l] = "on"
    /\ rs' = [rs EXCEPT ![l] = "over"]
    /\ arm' = [arm EXCEPT ![l] = "no"]
    /\ UNCHANGED <<tx, fl, w, r, d, ss, n>>
    /\ act' = [cmd |-> [op |-> "CutR", l |-> l, how |-> how], obs |-> Obs(None, [Zero EXCEPT ![l] = 1], Zero, None, Pend(tx, w, ss))]

\* the sender's peer disappears
CutS(l, how) ==
    /\ ss[l] # "over"
    /\ ss' = [ss EXCEPT ![l] = "over"]
    /\ UNCHANGED <<tx, fl, w, r, d, rs, arm, n>>
    /\ act' = [cmd |-> [op |-> "CutS", l |-> l, how |-> how], obs |-> Obs(None, Zero, [Zero EXCEPT ![l] = IF ss[l] = "on" THEN 1 ELSE 0], None, Pend(tx, w, ss'))]

\* the sender's owner lets go of it: what it was given is still sent
Release(l) ==
    /\ ss[l] = "on"
    /\ ss' = [ss EXCEPT ![l] = "released"]
    /\ UNCHANGED <<tx, fl, w, r, d, rs, arm, n>>
    /\ act' = [cmd |-> [op |-> "Release", l |-> l], obs |-> Obs(None, Zero, Zero, None, Pend(tx, w, ss))]

Init ==
    /\ tx = None /\ fl = Zero /\ w = Zero /\ r = Zero /\ d = Zero /\ n = 0
    /\ ss = [l \in Links |-> "on"] /\ rs = [l \in Links |-> "on"] /\ arm = [l \in Links |-> "no"]
    /\ act = [cmd |-> [op |-> "Init"], obs |-> Obs(None, Zero, Zero, None, [l \in Links |-> FALSE])]

Next ==
    \/ \E to \in Tos, k \in Kinds, how \in Modes : (how = "plain" => Cardinality(to) = 1) /\ Send(to, k, how)
    \/ \E l \in Links :
        \/ \E m \in 1..(PN * MaxMsgs) : Write(l, m) \/ Read(l, m)
        \/ \E g \in Garbage : Inject(l, g)
        \/ \E a \in Arms : Arm(l, a)
        \/ \E c \in Cuts \ {"release"} : CutR(l, c) \/ CutS(l, c)
        \/ ("release" \in Cuts /\ Release(l))

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))

TypeOK == \A l \in Links : d[l] <= r[l] \div PN /\ r[l] <= w[l] /\ w[l] <= Total(l) /\ w[l] <= PN * fl[l] /\ fl[l] <= Len(tx[l])
Bounded == \A l \in Links : Buffered(l) <= 2
Unread == \A l \in Links : r[l] = 0
\* a receiver that is still on has had everything that has arrived completely
Prompt == \A l \in Links : rs[l] = "on" => d[l] = r[l] \div PN
Clean == \A l \in Links : \A i \in 1..Len(tx[l]) : i <= d[l] => ~IsGarbage(tx[l][i])
NothingAfterTheEnd == [][\A l \in Links : rs[l] = "over" => d'[l] = d[l] /\ act'.obs.rerr[l] = 0]_vars
InOrder == [][\A l \in Links : LET g == act'.obs.got[l] IN Len(g) = d'[l] - d[l] /\ \A i \in 1..Len(g) : g[i].n = tx[l][d[l] + i].n]_vars
=============================================================================
