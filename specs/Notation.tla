------------------------------ MODULE Notation ------------------------------
(* What values look like as text, and what text means as a value: durations,
   time points in any zone, identifiers and networks. Every value has one text,
   reading that text gives the value back, and text that is no value is refused.
   Amounts are kept as whole days, seconds of the day and parts of a second.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ops, Dense

VARIABLES zone,   \* the zone time points are shown in
          last,   \* the network most recently given
          act

svars == <<zone, last>>
vars == <<svars, act>>
View == svars

Pad(n, w) == LET s == ToString(n) IN IF w = 2 /\ n < 10 THEN "0" \o s ELSE IF w = 3 /\ n < 10 THEN "00" \o s ELSE IF w = 3 /\ n < 100 THEN "0" \o s
             ELSE IF w = 4 /\ n < 1000 THEN "0" \o s ELSE s
Is(cmd, obs) == act' = [cmd |-> cmd, obs |-> obs]
Quiet == UNCHANGED svars

-----------------------------------------------------------------------------
(* Durations                                                                    *)
(* parts of a second: nanoseconds and how they are written *)
Fracs == {[n |-> 0, t |-> ""], [n |-> 500000000, t |-> ".5"], [n |-> 100000000, t |-> ".1"], [n |-> 999999000, t |-> ".999999"], [n |-> 1000, t |-> ".000001"],
          [n |-> 10000, t |-> ".00001"], [n |-> 123456000, t |-> ".123456"], [n |-> 20300000, t |-> ".0203"]}
          \cup (IF Dense THEN {[n |-> 999000000, t |-> ".999"], [n |-> 1000000, t |-> ".001"], [n |-> 100000, t |-> ".0001"], [n |-> 333333000, t |-> ".333333"]} ELSE {})
Tiny == {[n |-> 3, t |-> ".000000003"], [n |-> 999999999, t |-> ".999999999"], [n |-> 880, t |-> ".00000088"]}
DayNs == {0, 1, 42, 3650} \cup (IF Dense THEN {7, 36525, 100000} ELSE {})
HourNs == {0, 1, 23}
MinNs == {0, 1, 59}
SecNs == {0, 1, 42, 59}

Unit(n, u) == IF n = 0 THEN "" ELSE ToString(n) \o u
Clock(h, m, s, f) == IF h = 0 /\ m = 0 /\ s = 0 /\ f.n = 0 THEN ""
                     ELSE "T" \o Unit(h, "H") \o Unit(m, "M") \o (IF s = 0 /\ f.n = 0 THEN "" ELSE ToString(s) \o f.t \o "S")
Text(neg, d, h, m, s, f) == IF d = 0 /\ h = 0 /\ m = 0 /\ s = 0 /\ f.n = 0 THEN "PT0S"
                            ELSE (IF neg THEN "-" ELSE "") \o "P" \o Unit(d, "D") \o Clock(h, m, s, f)
Amount(neg, d, s, n) == [neg |-> neg /\ (d > 0 \/ s > 0 \/ n > 0), d |-> d, s |-> s, n |-> n]

(* nanoseconds only where a double still has them *)
Duration(neg, d, h, m, s, f) ==
    /\ f \in Tiny => d < 2
    /\ LET sod == 3600 * h + 60 * m + s IN
       Is([op |-> "Duration", neg |-> neg, d |-> d, s |-> sod, n |-> f.n], [text |-> Text(neg, d, h, m, s, f), back |-> Amount(neg, d, sod, f.n)])
    /\ Quiet

(* units may exceed the next bigger one, and all but the seconds may be missing *)
Year == 31556952
Month == 2629746
Week == 604800
Read(neg, y, mo, w, d, tt, h, m, s, f) ==
    /\ tt = "" => h = "" /\ m = "" /\ s = ""
    /\ y # "" \/ mo # "" \/ w # "" \/ d # "" \/ tt # ""
    /\ LET N(x_) == IF x_ = "" THEN 0 ELSE IF x_ = "1" THEN 1 ELSE IF x_ = "3" THEN 3 ELSE IF x_ = "0" THEN 0 ELSE IF x_ = "75" THEN 75 ELSE 2
           days == N(y) * (Year \div 86400) + N(mo) * (Month \div 86400) + 7 * N(w) + N(d)
           secs == N(y) * (Year % 86400) + N(mo) * (Month % 86400) + 3600 * N(h) + 60 * N(m) + N(s)
           u(x, c) == IF x = "" THEN "" ELSE x \o c
           fr == IF s = "" THEN [n |-> 0, t |-> ""] ELSE f
       IN Is([op |-> "ReadDuration", text |-> (IF neg THEN "-" ELSE "") \o "P" \o u(y, "Y") \o u(mo, "M") \o u(w, "W") \o u(d, "D") \o tt \o u(h, "H") \o u(m, "M")
                                              \o (IF s = "" THEN "" ELSE s \o fr.t \o "S")],
             [back |-> Amount(neg, days + (secs \div 86400), secs % 86400, fr.n)])
    /\ Quiet

(* a fraction is allowed in any unit *)
Halves == {[t |-> "PT1.5H", d |-> 0, s |-> 5400], [t |-> "P0.5D", d |-> 0, s |-> 43200], [t |-> "PT2.5M", d |-> 0, s |-> 150], [t |-> "P1.5W", d |-> 10, s |-> 43200],
           [t |-> "P1.5DT0.5H", d |-> 1, s |-> 45000], [t |-> "PT.5M", d |-> 0, s |-> 30]}
ReadHalf(x) == Is([op |-> "ReadDuration", text |-> x.t], [back |-> Amount(FALSE, x.d, x.s, 0)]) /\ Quiet

NoDurations == {"", "P", "-P", "5S", "PT5", "P5S", "PT5D", "P1H", "1D", "PT1S2M", "PTS", "PT1.2.3S", "PT.S", "P1DT1H ", " PT1S", "PT1s", "PT-1S", "P1X", "P1Y1Y", "PT1H1H", "--PT1S", "PT1,5S", "+PT1S"}
BadDuration(t) == Is([op |-> "BadDuration", text |-> t], [refused |-> TRUE]) /\ Quiet

-----------------------------------------------------------------------------
(* Time points                                                                  *)
Civil(day) == LET z == day + 719468
                  era == z \div 146097
                  doe == z - era * 146097
                  yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
                  doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
                  mp == (5 * doy + 2) \div 153
                  m == IF mp < 10 THEN mp + 3 ELSE mp - 9
              IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - ((153 * mp + 2) \div 5) + 1]
DateText(day) == LET c == Civil(day) IN Pad(c.y, 4) \o "-" \o Pad(c.m, 2) \o "-" \o Pad(c.d, 2)
TimeText(sod, ms) == Pad(sod \div 3600, 2) \o ":" \o Pad((sod % 3600) \div 60, 2) \o ":" \o Pad(sod % 60, 2) \o "." \o Pad(ms, 3)
Shift(day, sod, off) == LET t == sod + 60 * off IN [d |-> day + (t \div 86400), s |-> t % 86400]
OffText(off) == LET a == IF off < 0 THEN -off ELSE off IN (IF off < 0 THEN "-" ELSE "+") \o Pad(a \div 60, 2) \o ":" \o Pad(a % 60, 2)
Stamp(day, sod, ms, off) == LET l == Shift(day, sod, off) IN DateText(l.d) \o "T" \o TimeText(l.s, ms)

Days == {-25567, -1, 0, 11016, 12620, 18262, 24855, 47540} \cup (IF Dense THEN {1, 59, 10957, 11322, 19675, 24837, 25933, 47541, 73049, -365} ELSE {})
Sods == {0, 1, 35992, 86399} \cup (IF Dense THEN {43199, 46800, 3599} ELSE {})
Mss == {0, 1, 304, 500, 999} \cup (IF Dense THEN {2, 67, 101, 499, 998} ELSE {})

Offset == [utc |-> 0, east |-> 300, west |-> -660, odd |-> 345]
Zone(z) == zone' = z /\ UNCHANGED last /\ Is([op |-> "Zone", zone |-> z], [ok |-> TRUE])
Point(day, sod, ms, utc) ==
    /\ LET off == IF utc THEN 0 ELSE Offset[zone] IN
       Is([op |-> "Point", d |-> day, s |-> sod, ms |-> ms, utc |-> utc],
          [text |-> Stamp(day, sod, ms, off) \o OffText(off), back |-> [d |-> day, s |-> sod, ms |-> ms]])
    /\ Quiet
ReadPoint(day, sod, ms, how) ==
    /\ LET off == CASE how = "Z" -> 0 [] how = "+" -> 690 [] OTHER -> -90 IN
       Is([op |-> "ReadPoint", text |-> Stamp(day, sod, ms, off) \o (IF how = "Z" THEN "Z" ELSE OffText(off))], [back |-> [d |-> day, s |-> sod, ms |-> ms]])
    /\ Quiet
NoPoints == {"", "Z", "2020-03-11", "2020-03-11T21:07:57.500", "2020-13-11T21:07:57.500Z", "2020-02-30T21:07:57.500Z", "2020-03-11T25:07:57.500Z", "2020-03-11 21:07:57.500Z", "now", "2020-03-11T21:07:57.500Zx", "2020-03-11T21:07:57.500+00:00 ",
             "2020-03-11T21:07:57.500+0a:00", "2020-03-11T21:61:57.500+00:00"}
BadPoint(t) == Is([op |-> "BadPoint", text |-> t], [refused |-> TRUE]) /\ Quiet

-----------------------------------------------------------------------------
(* Identifiers                                                                  *)
Ids == << <<"00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00">>,
          <<"00", "11", "22", "33", "44", "55", "66", "77", "88", "99", "aa", "bb", "cc", "dd", "ee", "fe">>,
          <<"00", "11", "22", "33", "44", "55", "66", "77", "88", "99", "aa", "bb", "cc", "dd", "ee", "ff">>,
          <<"00", "11", "22", "33", "44", "55", "66", "77", "88", "99", "aa", "bb", "cc", "dd", "ef", "00">>,
          <<"7f", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00">>,
          <<"80", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00", "00">>,
          <<"ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff", "ff">> >>
RECURSIVE Glue(_, _, _)
Glue(b, i, sep) == IF i > 16 THEN "" ELSE (IF i \in {5, 7, 9, 11} THEN sep ELSE "") \o b[i] \o Glue(b, i + 1, sep)
(* the identifiers above are in ascending order *)
Id(i, j) == /\ Is([op |-> "Id", a |-> Glue(Ids[i], 1, ""), b |-> Glue(Ids[j], 1, "")],
                  [text |-> Glue(Ids[i], 1, "-"), eq |-> i = j, ne |-> i # j, lt |-> i < j, back |-> Glue(Ids[i], 1, "")])
            /\ Quiet
ReadId(i, how) == /\ Is([op |-> "ReadId", text |-> CASE how = "plain" -> Glue(Ids[i], 1, "") [] how = "braces" -> "{" \o Glue(Ids[i], 1, "-") \o "}" [] OTHER -> Glue(Ids[i], 1, "-")],
                        [back |-> Glue(Ids[i], 1, "")])
                  /\ Quiet
NoIds == {"", "00112233-4455-6677-8899-aabbccddeef", "00112233-4455-6677-8899-aabbccddeegg", "00112233-4455-6677-8899_aabbccddeeff", "{00112233-4455-6677-8899-aabbccddeeff", "00112233-4455-6677-8899-aabbccddeeff00"}
BadId(t) == Is([op |-> "BadId", text |-> t], [refused |-> TRUE]) /\ Quiet
IdData(n) == Is([op |-> "IdData", n |-> n], [refused |-> n # 16]) /\ Quiet
Fresh == Is([op |-> "Fresh"], [differ |-> TRUE, back |-> TRUE]) /\ Quiet

-----------------------------------------------------------------------------
(* Networks                                                                     *)
Net4(a, b, c, d, len, t) == [six |-> FALSE, g |-> <<a, b, c, d>>, len |-> len, t |-> t]
Net6(g, len, t) == [six |-> TRUE, g |-> g, len |-> len, t |-> t]
Nets == {Net4(10, 1, 2, 3, 32, "10.1.2.3"), Net4(10, 1, 2, 2, 32, "10.1.2.2"), Net4(10, 1, 2, 2, 31, "10.1.2.2"), Net4(10, 1, 2, 3, 16, "10.1.2.3"), Net4(10, 1, 0, 0, 16, "10.1.0.0"),
         Net4(10, 0, 0, 0, 15, "10.0.0.0"), Net4(10, 2, 0, 0, 15, "10.2.0.0"), Net4(0, 0, 0, 0, 0, "0.0.0.0"), Net4(127, 0, 0, 1, 8, "127.0.0.1"), Net4(128, 0, 0, 0, 1, "128.0.0.0"),
         Net6(<<0, 0, 0, 0, 0, 0, 0, 1>>, 128, "::1"), Net6(<<0, 0, 0, 0, 0, 0, 0, 0>>, 0, "::"), Net6(<<0, 0, 0, 0, 0, 0, 0, 0>>, 127, "::"),
         Net6(<<65152, 0, 0, 0, 0, 0, 2, 3>>, 64, "fe80::2:3"), Net6(<<65152, 0, 0, 0, 0, 0, 0, 0>>, 10, "fe80::"), Net6(<<65216, 0, 0, 0, 0, 0, 0, 0>>, 10, "fec0::"),
         Net6(<<8193, 3512, 0, 1, 0, 0, 0, 0>>, 63, "2001:db8:0:1::"), Net6(<<8193, 3512, 0, 0, 0, 0, 0, 0>>, 63, "2001:db8::")}
None == [six |-> FALSE, g |-> <<>>, len |-> 0, t |-> ""]

Wide(x) == IF x.six THEN 16 ELSE 8
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
SameStart(a, b, len) == \A i \in 1..Len(a.g) :
    LET w == Wide(a)
        r == len - w * (i - 1)
    IN IF r <= 0 THEN TRUE ELSE IF r >= w THEN a.g[i] = b.g[i] ELSE (a.g[i] \div 2^(w - r)) = (b.g[i] \div 2^(w - r))
Inside(a, b) == a.six = b.six /\ a.len >= b.len /\ SameStart(a, b, b.len)
Default(x) == x.len = (IF x.six THEN 128 ELSE 32)
Net(x, how) ==
    /\ how \in {"host", "address"} => Default(x)
    /\ last' = x /\ zone' = zone
    /\ Is([op |-> "Net", how |-> how, text |-> x.t, len |-> x.len],
          [four |-> ~x.six, text |-> x.t \o "/" \o ToString(x.len), address |-> x.t, len |-> x.len]
          @@ (IF last = None THEN [z \in {} |-> 0] ELSE [sub |-> Inside(x, last), over |-> Inside(last, x), strict |-> Inside(x, last) /\ x.len # last.len]))
NoNets == {"", "/", "10.0.0.0/", "10.0.0.0/33", "10.0.0.0/-1", "10.0.0/8", "10.0.0.300", "10.0.0.0/8/8", "::1/129", "x", ":::/1", "10.0.0.0/8x", "/8"}
BadNet(t) == Is([op |-> "BadNet", text |-> t], [refused |-> TRUE]) /\ Quiet
BadLen(t, n) == Is([op |-> "BadLen", text |-> t, len |-> n], [refused |-> TRUE]) /\ Quiet

-----------------------------------------------------------------------------
Opt == {"", "1", "75"}
Next ==
    \/ /\ "duration" \in Ops
       /\ \/ \E neg \in BOOLEAN, d \in DayNs, h \in HourNs, m \in MinNs, s \in SecNs, f \in Fracs \cup Tiny : Duration(neg, d, h, m, s, f)
          \/ \E neg \in BOOLEAN, y \in {"", "3"}, mo \in {"", "1"}, w \in {"", "1"}, d \in {"", "2"}, tt \in {"", "T"}, h \in Opt, m \in Opt, s \in {"", "0", "75"}, f \in {x \in Fracs : x.n \in {0, 100000000, 1000}} :
                Read(neg, y, mo, w, d, tt, h, m, s, f)
          \/ \E x \in Halves : ReadHalf(x)
          \/ \E t \in NoDurations : BadDuration(t)
    \/ /\ "point" \in Ops
       /\ \/ \E z \in DOMAIN Offset : Zone(z)
          \/ \E d \in Days, s \in Sods, ms \in Mss, utc \in BOOLEAN : Point(d, s, ms, utc)
          \/ \E d \in Days, s \in Sods, ms \in Mss, how \in {"Z", "+", "-"} : ReadPoint(d, s, ms, how)
          \/ \E t \in NoPoints : BadPoint(t)
    \/ /\ "id" \in Ops
       /\ \/ \E i, j \in 1..Len(Ids) : Id(i, j)
          \/ \E i \in 1..Len(Ids), how \in {"plain", "braces", "dashed"} : ReadId(i, how)
          \/ \E t \in NoIds : BadId(t)
          \/ \E n \in {0, 15, 16, 17} : IdData(n)
          \/ Fresh
    \/ /\ "net" \in Ops
       /\ \/ \E x \in Nets, how \in {"text", "pair", "host", "address"} : Net(x, how)
          \/ \E t \in NoNets : BadNet(t)
          \/ \E t \in {"10.0.0.0", "10.0.0.0/8", "x"}, n \in {33, 200} : BadLen(t, n)
          \/ BadLen("::1", 129)

Init == zone = "utc" /\ last = None /\ act = [cmd |-> [op |-> "Init"], obs |-> [ok |-> TRUE]]
Spec == Init /\ [][Next]_vars

TypeOK == zone \in DOMAIN Offset /\ last \in Nets \cup {None}

(* properties of the specified notation itself *)
(* calendar days follow each other: the next day is the next date *)
After(c) == LET leap == c.y % 4 = 0 /\ (c.y % 100 # 0 \/ c.y % 400 = 0)
                n == CASE c.m \in {4, 6, 9, 11} -> 30 [] c.m = 2 -> (IF leap THEN 29 ELSE 28) [] OTHER -> 31
            IN IF c.d < n THEN [c EXCEPT !.d = @ + 1] ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
ASSUME Civil(0) = [y |-> 1970, m |-> 1, d |-> 1]
ASSUME \A d \in (-30000)..80000 : Civil(d + 1) = After(Civil(d))
(* being inside is an order, and two networks overlap only if one is inside the other *)
ASSUME \A a, b, c \in Nets : Inside(a, a) /\ (Inside(a, b) /\ Inside(b, c) => Inside(a, c))


Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
=============================================================================
