------------------------------ MODULE SysTime ------------------------------
(* Times as the system has them: seconds and a part of a second, and calendar
   fields in UTC or in the zone that the environment names. Converting there
   and back loses nothing, what the system is given is always well-formed, and
   the environment is afterwards as it was before.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ops
VARIABLES tz,   \* the zone in the environment, "-" if there is none
          tm,   \* the calendar fields that are held, or none
          act
svars == <<tz, tm>>
vars == <<svars, act>>
View == svars
Is(cmd, obs) == act' = [cmd |-> cmd, obs |-> obs]

\* ------------------------------------------------ seconds and parts of them
(* a duration: seconds, eighths of a second, and whether it is a bit less than that *)
Durs == [s : {0, 1, 2, -1, -2, 59, 86400, 1700000000, -86401}, e : {0, 1, 3, 4, 5, 7}, less : {FALSE}] \cup [s : {0, 1, 2, -1, 10}, e : {0}, less : {TRUE}]
Parts(d) == [sec |-> d.s, eighths |-> d.e]
Leq(a, b) == a.s < b.s \/ (a.s = b.s /\ a.e <= b.e)
Sum(a, b) == LET e == a.e + b.e IN [sec |-> a.s + b.s + e \div 8, eighths |-> e % 8]
Diff(a, b) == LET e == a.e - b.e IN [sec |-> a.s - b.s + e \div 8, eighths |-> e % 8]
Few == {d \in Durs : ~d.less /\ d.s \in {0, 1, -1, 59, -86401} /\ d.e \in {0, 3, 4, 5, 7}}
Convert(kind, d) == UNCHANGED svars /\ Is([op |-> "Convert", kind |-> kind, d |-> d], [parts |-> Parts(d), back |-> TRUE, formed |-> TRUE])
Combine(kind, a, b) == UNCHANGED svars /\ Is([op |-> "Combine", kind |-> kind, a |-> a, b |-> b],
     [sum |-> Sum(a, b), diff |-> Diff(a, b), less |-> ~Leq(b, a), more |-> ~Leq(a, b), formed |-> TRUE])

\* ------------------------------------------------------------------ calendar
Zones == [UTC |-> 0, EST5 |-> -5, IST9 |-> -9, XXX11 |-> -11] @@ ("JST-9" :> 9) @@ ("-" :> 0) @@ ("" :> 0)
(* days since 1970 to year, month, day; the weeks begin with day 1, a Sunday *)
Date(d) == LET z == d + 719468
               era == z \div 146097
               doe == z - era * 146097
               yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
               doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
               mp == (5 * doy + 2) \div 153
               m == IF mp < 10 THEN mp + 3 ELSE mp - 9
           IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1, wd |-> ((d + 4) % 7) + 1]
Fields(d, s) == Date(d) @@ [h |-> s \div 3600, mi |-> (s \div 60) % 60, s |-> s % 60]
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Written(f) == ToString(f.y) \o "-" \o P2(f.m) \o "-" \o P2(f.d) \o " " \o P2(f.h) \o ":" \o P2(f.mi) \o ":" \o P2(f.s)
(* the same moment in a zone *)
Shifted(d, s, h) == LET t == s + h * 3600 IN [d |-> d + t \div 86400, s |-> t % 86400]
Show(x) == LET z == Shifted(x.d, x.s, IF x.utc THEN 0 ELSE Zones[tz]) f == Fields(z.d, z.s) IN [fields |-> f, text |-> Written(f)]
Days == {0, -1, 58, 59, 365, 789, 11016, 11017, 19722, 19723, 24855, -25509, 40000}
Clocks == {0, 1, 3599, 46800, 86399}
None == [held |-> FALSE, d |-> 0, s |-> 0, utc |-> TRUE]

Zone(z) == tz # z /\ tz' = z /\ tm' = None /\ Is([op |-> "Zone", z |-> z], [zone |-> z])
Take(d, s, utc) == /\ ~tm.held
                   /\ utc \/ tz # "-"   \* the zone of the machine is its own
                   /\ tm' = [held |-> TRUE, d |-> d, s |-> s, utc |-> utc] /\ UNCHANGED tz
                   /\ Is([op |-> "Take", d |-> d, s |-> s, utc |-> utc], Show(tm'))
Drop == tm.held /\ tm' = None /\ UNCHANGED tz /\ Is([op |-> "Drop"], [zone |-> tz])
(* the moment the fields stand for; that changes neither them nor the environment *)
Make == tm.held /\ UNCHANGED svars /\ Is([op |-> "Make", utc |-> tm.utc], [d |-> tm.d, s |-> tm.s, zone |-> tz] @@ Show(tm))
(* fields beyond their range carry over *)
Later(n, unit) == /\ tm.held
                  /\ LET t == tm.s + (CASE unit = "day" -> 0 [] unit = "hour" -> n * 3600 [] unit = "minute" -> n * 60 [] unit = "second" -> n)
                         d == tm.d + (IF unit = "day" THEN n ELSE 0) + t \div 86400 IN
                     /\ d \in -25600..40100
                     /\ tm' = [tm EXCEPT !.d = d, !.s = t % 86400] /\ UNCHANGED tz
                     /\ tm'.d \in Days \cup {x + 1 : x \in Days} \cup {x - 1 : x \in Days} \cup {x + 45 : x \in Days} /\ tm'.s \in Clocks \cup {c + 100 : c \in {0, 3599}}
                     /\ Is([op |-> "Later", n |-> n, unit |-> unit, utc |-> tm.utc], [d |-> tm'.d, s |-> tm'.s, zone |-> tz] @@ Show(tm'))
Read == tm.held /\ UNCHANGED svars /\ Is([op |-> "Read", text |-> Show(tm).text, utc |-> tm.utc], [d |-> tm.d, s |-> tm.s, zone |-> tz])

Init == tz = "-" /\ tm = None /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ "parts" \in Ops /\ \E k \in {"timespec", "timeval", "point", "steady"} : \E d \in Durs : Convert(k, d)
        \/ "parts" \in Ops /\ \E k \in {"timespec", "timeval"} : \E a, b \in Few : Combine(k, a, b)
        \/ "calendar" \in Ops /\ \E z \in DOMAIN Zones : Zone(z)
        \/ "calendar" \in Ops /\ \E d \in Days, s \in Clocks, u \in BOOLEAN : Take(d, s, u)
        \/ Drop
        \/ Make
        \/ Read
        \/ \E n \in {1, -1, 45} : Later(n, "day")
        \/ \E n \in {1, -1, 24} : Later(n, "hour")
        \/ Later(1440, "minute") \/ Later(100, "second") \/ Later(-1, "second")
Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == tz \in DOMAIN Zones /\ tm.s \in 0..86399
(* converting leaves the environment alone *)
ZoneStays == [][act'.cmd.op # "Zone" => tz' = tz]_vars
SameMoment == [][act'.cmd.op \in {"Make", "Read"} => tm' = tm /\ act'.obs.d = tm.d /\ act'.obs.s = tm.s]_vars
=============================================================================
