-------------------------------- MODULE Wire --------------------------------
(* The wire format of instances.  An instance is a partial map from properties
   to values; encoding it with a set of included properties yields a CBOR map
   of the tags and values of the properties that are both set and included;
   decoding is the inverse and tolerates whatever CBOR allows (other order,
   longer heads, unknown tags with any item), while input that ends early or
   has items of another kind is refused.

   Byte strings are hexadecimal text; (hh*n) stands for n repetitions.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Props,     \* properties of the type in use, a set of names
          MaxSet,    \* number of properties set at once
          Depth,     \* "all" or "few" values per property
          Ops, Versions, Unknowns,
          Fmt        \* "map": as sent by every channel; "compact": the positional format of ExperimentalCborSerializer

VARIABLES inst, act
svars == inst
vars == <<svars, act>>
View == svars

-----------------------------------------------------------------------------
(* CBOR *)
D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
H2(b) == D[(b \div 16) + 1] \o D[(b % 16) + 1]
H4(n) == H2(n \div 256) \o H2(n % 256)
H8(n) == H4(n \div 65536) \o H4(n % 65536)
Hd(m, n) == IF n <= 23 THEN H2(32 * m + n)
              ELSE IF n <= 255 THEN H2(32 * m + 24) \o H2(n)
              ELSE IF n <= 65535 THEN H2(32 * m + 25) \o H4(n)
              ELSE H2(32 * m + 26) \o H8(n)
(* the same number with w following bytes *)
Wide(m, n, w) == CASE w = 1 -> H2(32 * m + 24) \o H2(n)
                   [] w = 2 -> H2(32 * m + 25) \o H4(n)
                   [] w = 4 -> H2(32 * m + 26) \o H8(n)
                   [] w = 8 -> H2(32 * m + 27) \o "00000000" \o H8(n)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* values: x text, h bytes, o text for a receiver with the old version of the type *)
V3(x, h, o) == [x |-> x, h |-> h, o |-> o]
V(x, h) == V3(x, h, x)
IntBytes(n) == IF n >= 0 THEN Hd(0, n) ELSE Hd(1, -1 - n)
I(n) == V(ToString(n), IntBytes(n))
Rep(c, h, n) == IF n <= 40 THEN "(" \o h \o "*" \o ToString(n) \o ")" ELSE "(" \o h \o "*" \o ToString(n) \o ")"
S(t, h, n) == V("\"" \o t \o "\"", Hd(3, n) \o h)                  \* short string of n bytes
SR(n) == V("a*" \o ToString(n), Hd(3, n) \o Rep("a", "61", n))      \* n times a
Vec(s) == LET x(e) == e.x h(e) == e.h o(e) == e.o IN
    V3("[" \o Join(Map(x, s)) \o "]", Hd(4, Len(s)) \o Cat(Map(h, s)), "[" \o Join(Map(o, s)) \o "]")
VecR(v, n) == V("[" \o v.x \o "]*" \o ToString(n), Hd(4, n) \o "(" \o v.h \o "*" \o ToString(n) \o ")")
(* the compact format writes a struct as an array size, the set of its
   properties as a number, and the values without tags *)
RECURSIVE Bits(_)
Bits(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN 2 ^ (t % 8) + Bits(T \ {t})
SetHex(T) == LET b(k) == Bits({t \in T : t \div 8 = k}) IN
    IF b(3) + b(2) > 0 THEN "1a" \o H2(b(3)) \o H2(b(2)) \o H2(b(1)) \o H2(b(0))
      ELSE IF b(1) > 0 THEN "19" \o H2(b(1)) \o H2(b(0))
      ELSE Hd(0, b(0))
Compact == Fmt = "compact"
(* frame of a struct with these tags and encoded values, in order *)
Frame(tags, hs) == IF Compact
    THEN Hd(4, Len(tags)) \o SetHex({tags[i] : i \in 1..Len(tags)}) \o Cat(hs)
    ELSE Hd(5, Len(tags)) \o Cat([i \in 1..Len(tags) |-> Hd(0, tags[i]) \o hs[i]])
(* a zero is a half float there, of either sign *)
Zero(h) == V("0", IF Compact THEN "f90000" ELSE h)
NegZero(h) == IF Compact THEN V("0", "f90000") ELSE V("-0", h)
(* a struct: sequence of <<tag, name, value, known to the old version>> *)
Struct(s) == LET x(e) == "\"" \o e[2] \o "\":" \o e[3].x
                 h(e) == e[3].h
                 tag(e) == e[1]
                 o(e) == "\"" \o e[2] \o "\":" \o e[3].o
                 known(e) == e[4] IN
    V3("{" \o Join(Map(x, s)) \o "}", Frame(Map(tag, s), Map(h, s)), "{" \o Join(Map(o, SelectSeq(s, known))) \o "}")

Str == <<S("", "", 0), S("a b", "612062", 3), S("x\\u0000y", "780079", 3), S("\\u00e9", "c3a9", 2), SR(23), SR(24), SR(255), SR(256), SR(65535), SR(65536)>>
SubA == Struct(<< <<1, "a", I(-1), FALSE>>, <<2, "b", S("s", "73", 1), TRUE>> >>)
SubB == Struct(<< <<2, "b", S("", "", 0), TRUE>>, <<5, "c", Vec(<<I(1), I(-500)>>), FALSE>> >>)
SubC == Struct(<< <<1, "a", I(70000), FALSE>>, <<2, "b", S("012345678901234567890123", "303132333435363738393031323334353637383930313233", 24), TRUE>>, <<5, "c", Vec(<<>>), FALSE>> >>)
Sub0 == Struct(<<>>)
Low == V("\"low\"", "17")
Mid == V("\"mid\"", "1818")
High == V("\"high\"", "19012c")
F64 == <<Zero("fb0000000000000000"), NegZero("fb8000000000000000"), V("1.5", "fb3ff8000000000000"), V("0.10000000000000001", "fb3fb999999999999a"),
         V("-1.0000000000000001e+300", "fbfe37e43c8800759c"), V("\"inf\"", "fb7ff0000000000000"), V("\"nan\"", "fb7ff8000000000000"), V("4.9406564584124654e-324", "fb0000000000000001")>>
Time == <<Zero("fb0000000000000000"), V("1700000000.25", "fb41d954fc40100000"), V("-1.5", "fbbff8000000000000"), V("0.10000000000000001", "fb3fb999999999999a")>>

(* tag and values of every property *)
Type == [
  b |-> [tag |-> 1, v |-> <<V("true", "f5"), V("false", "f4")>>],
  i8 |-> [tag |-> 2, v |-> Map(I, <<0, 23, 24, 127, -1, -24, -25, -128>>)],
  u8 |-> [tag |-> 3, v |-> Map(I, <<0, 23, 24, 127, 128, 255>>)],
  i16 |-> [tag |-> 4, v |-> Map(I, <<0, 255, 256, 32767, -1, -256, -257, -32768>>)],
  u16 |-> [tag |-> 5, v |-> Map(I, <<0, 24, 255, 256, 32768, 65535>>)],
  i32 |-> [tag |-> 6, v |-> Map(I, <<0, 65535, 65536, 2147483647, -65536, -65537>>) \o <<V("-2147483648", "3a7fffffff")>>],
  u32 |-> [tag |-> 7, v |-> Map(I, <<0, 23, 256, 65535, 65536>>) \o <<V("2147483648", "1a80000000"), V("4294967295", "1affffffff")>>],
  i64 |-> [tag |-> 8, v |-> Map(I, <<0, 65536, -24, -25>>) \o <<V("4294967295", "1affffffff"), V("4294967296", "1b0000000100000000"), V("9223372036854775807", "1b7fffffffffffffff"),
                                     V("-4294967296", "3affffffff"), V("-4294967297", "3b0000000100000000"), V("-9223372036854775808", "3b7fffffffffffffff")>>],
  u64 |-> [tag |-> 9, v |-> Map(I, <<0, 255, 256>>) \o <<V("4294967295", "1affffffff"), V("4294967296", "1b0000000100000000"), V("9223372036854775808", "1b8000000000000000"), V("18446744073709551615", "1bffffffffffffffff")>>],
  f32 |-> [tag |-> 10, v |-> <<Zero("fa00000000"), NegZero("fa80000000"), V("1.5", "fa3fc00000"), V("3.4028234663852886e+38", "fa7f7fffff"), V("\"-inf\"", "faff800000"), V("\"nan\"", "fa7fc00000"), V("16777216", "fa4b800000")>>],
  f64 |-> [tag |-> 11, v |-> F64],
  ps |-> [tag |-> 12, v |-> Map(I, <<0, 1, 24, 65536>>) \o <<V("4294967295", "1affffffff")>>],
  tp |-> [tag |-> 13, v |-> Time], st |-> [tag |-> 14, v |-> Time], du |-> [tag |-> 15, v |-> Time],
  id |-> [tag |-> 16, v |-> <<V("\"00000000000000000000000000000000\"", "5000000000000000000000000000000000"), V("\"00112233445566778899aabbccddeeff\"", "5000112233445566778899aabbccddeeff")>>],
  s |-> [tag |-> 17, v |-> Str],
  e |-> [tag |-> 18, v |-> <<Low, Mid, High>>],
  sub |-> [tag |-> 19, v |-> <<SubA, Sub0, SubB, SubC>>],
  vb |-> [tag |-> 20, v |-> <<Vec(<<V("true", "f5"), V("false", "f4")>>), Vec(<<>>), VecR(V("true", "f5"), 300)>>],
  vi |-> [tag |-> 22, v |-> <<Vec(<<I(0), I(-25), I(65536)>>), Vec(<<>>), VecR(I(7), 23), VecR(I(-7), 24), VecR(I(1), 256), VecR(I(300), 65536)>>],
  vs |-> [tag |-> 23, v |-> <<Vec(<<Str[1], Str[2], Str[4]>>), Vec(<<>>), VecR(Str[2], 30)>>],
  vsub |-> [tag |-> 24, v |-> <<Vec(<<SubA, Sub0, SubB>>), Vec(<<>>), Vec(<<SubC>>), Vec(<<Sub0, Sub0>>)>>],
  ve |-> [tag |-> 25, v |-> <<Vec(<<High, Low, Mid>>), Vec(<<>>)>>],
  vf |-> [tag |-> 26, v |-> <<Vec(<<F64[3], F64[2]>>), Vec(<<>>)>>],
  n |-> [tag |-> 31, v |-> <<Struct(<< <<1, "s", SubA, TRUE>>, <<2, "v", Vec(<<SubB, Sub0>>), FALSE>>, <<30, "t", S("t", "74", 1), TRUE>> >>), Sub0, Struct(<< <<1, "s", Sub0, TRUE>> >>), Struct(<< <<2, "v", Vec(<<>>), FALSE>> >>)>>]
]
Order == << "b", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ps", "tp", "st", "du", "id", "s", "e", "sub", "vb", "vi", "vs", "vsub", "ve", "vf", "n" >>
OldKnows == {"u8", "s", "sub", "vsub", "n"}

(* other encodings of the same kind that a decoder has to understand *)
Alt(p) == CASE p \in {"u8", "i8"} -> <<V("5", Wide(0, 5, 1))>>
            [] p \in {"u16", "i16"} -> <<V("5", Wide(0, 5, 1)), V("200", Wide(0, 200, 2))>>
            [] p \in {"u32", "i32", "ps"} -> <<V("0", Wide(0, 0, 4)), V("300", Wide(0, 300, 4))>>
            [] p \in {"u64"} -> <<V("1", Wide(0, 1, 8)), V("70000", Wide(0, 70000, 8))>>
            [] p \in {"i64"} -> <<V("-2", Wide(1, 1, 8)), V("-2", Wide(1, 1, 4)), V("-2", Wide(1, 1, 2)), V("-2", Wide(1, 1, 1))>>
            [] p \in {"f32", "f64", "tp", "st", "du"} -> <<V("0", "f90000"), V("1", "f93c00"), V("-2.5", "f9c100"), V("\"inf\"", "f97c00"), V("\"-inf\"", "f9fc00"), V("5.9604644775390625e-08", "f90001"), V("65504", "f97bff"), V("\"nan\"", "f97e00")>>
                 \o (IF p = "f32" THEN <<>> ELSE <<V("1.5", "fa3fc00000"), V("0.10000000149011612", "fa3dcccccd")>>)
            [] p = "s" -> <<V("\"a\"", Wide(3, 1, 1) \o "61"), V("\"ab\"", Wide(3, 2, 8) \o "6162")>>
            [] p = "e" -> <<V("\"low\"", Wide(0, 23, 2)), V("\"mid\"", Wide(0, 24, 4))>>
            [] p = "vi" -> <<V("[1,2]", Wide(4, 2, 1) \o Wide(0, 1, 4) \o "02"), V("[]", Wide(4, 0, 8))>>
            [] p = "sub" /\ ~Compact -> <<V3("{\"b\":\"s\"}", Wide(5, 1, 2) \o Wide(0, 2, 1) \o "6173", "{\"b\":\"s\"}"),
                              V3("{\"a\":-1,\"b\":\"s\"}", Hd(5, 3) \o "02" \o "6173" \o "1903e8" \o "a1616182f5f6" \o "01" \o "20", "{\"b\":\"s\"}")>>
            [] OTHER -> <<>>

(* items of another kind, of the wrong size or of no kind at all *)
Reserved == {"1c", "1d", "1e", "1f", "5f", "7f", "9f", "bf", "ff", "fc"}
Ints == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ps", "e"}
Wrong(p) == Reserved \cup
    (CASE p = "b" -> {"00", "01", "6161", "80", "a0", "40", "fa3fc00000", "f6", "f7", "e0", "20"}
       [] p \in Ints -> {"6161", "f5", "80", "a0", "40", "fa3fc00000", "f6"}
              \cup (IF p \in {"u8", "u16", "u32", "u64", "ps", "e"} THEN {"20", "3903e7"} ELSE {})
              \cup (IF p \in {"i8", "u8"} THEN {"190100", "390100"} ELSE {})
              \cup (IF p \in {"i8", "u8", "i16", "u16"} THEN {"1a00010000", "3a00010000"} ELSE {})
              \cup (IF p \in {"i8", "u8", "i16", "u16", "i32", "u32", "ps", "e"} THEN {"1b0000000100000000", "3b0000000100000000"} ELSE {})
              \cup (IF p = "e" THEN {"00", "18ff", "1a00011170"} ELSE {})
              \* numbers beyond the range of the type
              \cup (IF p = "i8" THEN {"1880", "18ff", "3880", "38ff"} ELSE {})
              \cup (IF p = "i16" THEN {"198000", "19ffff", "398000"} ELSE {})
              \cup (IF p = "i32" THEN {"1a80000000", "3a80000000", "3affffffff"} ELSE {})
              \cup (IF p = "i64" THEN {"1b8000000000000000", "3b8000000000000000", "3bffffffffffffffff"} ELSE {})
       [] p \in {"f32", "f64", "tp", "st", "du"} -> {"00", "20", "6161", "80", "a0", "40", "f4", "f5", "f6", "f800", "f8ff"} \cup (IF p = "f32" THEN {"fb3ff8000000000000"} ELSE {})
       [] p = "id" -> {"00", "6161", "80", "40", "4f000102030405060708090a0b0c0d0e", "51000102030405060708090a0b0c0d0e0f10", "f5"}
       [] p = "s" -> {"00", "20", "4161", "80", "a0", "f5", "fa3fc00000"}
       [] p \in {"vb", "vi", "vs", "vsub", "ve", "vf"} -> {"00", "20", "6161", "40", "a0", "f5", "81" \o (IF p \in {"vs"} THEN "00" ELSE "6161")}
       \* no array, or a set whose size is not the announced one
       [] p \in {"sub", "n"} /\ Compact -> {"00", "20", "6161", "40", "a0", "f5", "8100", "8002", "82022000", "8306206173", "810620", "80f5", "8020"}
       [] p \in {"sub", "n"} -> {"00", "20", "6161", "40", "80", "f5", "a1616100"})

(* items that are skipped *)
Items == [null |-> "f6", int |-> "1b0102030405060708", neg |-> "3903e7", bool |-> "f5", simple |-> "f8ff", half |-> "f93c00", float |-> "fb3fb999999999999a",
          str |-> "6161", str24 |-> Hd(3, 24) \o "(61*24)", str300 |-> Hd(3, 300) \o "(61*300)", str70000 |-> Hd(3, 70000) \o "(61*70000)", strwide |-> Wide(3, 2, 8) \o "6162",
          bytes |-> "43010203", bytes24 |-> Hd(2, 24) \o "(00*24)",
          arr |-> "83016161f6", arr0 |-> "80", arr24 |-> Hd(4, 24) \o "(01*24)", arr300 |-> Hd(4, 300) \o "(6161*300)", deep |-> "8281820180a10180", verydeep |-> "(81*200000)00", verydeepmap |-> "(a100*200000)00", tags |-> "(c1*200000)00",
          map |-> "a2016161028101", map0 |-> "a0", map24 |-> Hd(5, 24) \o "(00f6*24)", mapstr |-> "a1" \o Hd(3, 30) \o "(6b*30)" \o Hd(4, 25) \o "(00*25)",
          tagged |-> "c11a514b67b0", tagged2 |-> "d82076" \o "(61*22)"]

-----------------------------------------------------------------------------
Vals(p) == LET n == Len(Type[p].v) IN IF Depth = "all" THEN 1..n ELSE 1..(IF n < 3 THEN n ELSE 3)
Dom == {p \in Props : inst[p] # 0}
Listed(P) == LET in(p) == p \in P IN SelectSeq(Order, in)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Text(ver, p) == IF ver = "old" THEN Type[p].v[inst[p]].o ELSE Type[p].v[inst[p]].x
Knows(ver, P) == IF ver = "old" THEN P \cap OldKnows ELSE P
Values(ver, P) == [p \in Knows(ver, P) \cap Dom |-> Text(ver, p)]
Item(p) == Hd(0, Type[p].tag) \o Type[p].v[inst[p]].h
Tag(p) == Type[p].tag
(* the instance with the properties P, where hex gives the bytes of each value *)
Whole(P, hex(_)) == LET s == Listed(P \cap Dom) IN Frame(Map(Tag, s), Map(hex, s))
Bytes(P) == LET h(p) == Type[p].v[inst[p]].h IN Whole(P, h)
Concrete == Values("new", Dom)

Do(cmd, obs) == UNCHANGED svars /\ act' = [cmd |-> cmd, obs |-> obs]
Decode(ver, hex, only, expect) == Do([op |-> "Decode", ver |-> ver, hex |-> hex, only |-> only], [err |-> FALSE, vals |-> expect, used |-> TRUE])

Put(p, i) == /\ inst[p] # i /\ (i # 0 => (inst[p] # 0 \/ Cardinality(Dom) < MaxSet))
             /\ inst' = [inst EXCEPT ![p] = i]
             /\ act' = [cmd |-> IF i = 0 THEN [op |-> "Put", p |-> p, x |-> "-"] ELSE [op |-> "Put", p |-> p, x |-> Type[p].v[i].x], obs |-> [vals |-> [q \in {r \in Props : inst'[r] # 0} |-> Type[q].v[inst'[q]].x]]]

(* the sets of properties an instance may be encoded with *)
Sets == SUBSET Dom \cup {Props}
Encode(P) == Do([op |-> "Encode", inc |-> P], [hex |-> Bytes(P), size |-> TRUE])
(* from one implementation to another, which may know an older version only *)
Transfer(from, to, P) == Do([op |-> "Transfer", from |-> from, to |-> to, inc |-> P], [err |-> FALSE, vals |-> Values(to, P)])
Reordered(ver) == Decode(ver, Hd(5, Cardinality(Dom)) \o Cat(Map(Item, Reverse(Listed(Dom)))), "all", Values(ver, Dom))
WideMap(ver, w) == LET tagged(p) == (IF w <= 4 THEN Wide(0, Type[p].tag, w) ELSE Hd(0, Type[p].tag)) \o Type[p].v[inst[p]].h IN
    Decode(ver, Wide(5, Cardinality(Dom), w) \o Cat(Map(tagged, Listed(Dom))), "all", Values(ver, Dom))
(* unknown property between the others, after the first i of them *)
Unknown(ver, tag, u, i) == LET s == Listed(Dom) IN
    Decode(ver, Hd(5, Len(s) + 1) \o Cat(Map(Item, SubSeq(s, 1, i))) \o Hd(0, tag) \o Items[u] \o Cat(Map(Item, SubSeq(s, i + 1, Len(s)))), "all", Values(ver, Dom))
Only(ver, P) == Decode(ver, Bytes(Props), P, Values(ver, P))
Other(p, a) == inst[p] = 1 /\ Decode("new", LET h(q) == IF q = p THEN a.h ELSE Type[q].v[inst[q]].h IN Whole(Dom, h), "all",
                              [q \in Dom |-> IF q = p THEN a.x ELSE Text("new", q)])
Refused(p, h) == inst[p] = 1 /\ Do([op |-> "Decode", ver |-> "new", hex |-> LET x(q) == IF q = p THEN h ELSE Type[q].v[inst[q]].h IN Whole(Dom, x), only |-> "all"], [err |-> TRUE])
(* every proper prefix is refused; the answer lists the lengths that were not *)
Cut(ver) == Do([op |-> "Cut", ver |-> ver, hex |-> Bytes(Props)], [acceptedS |-> {}])
CutUnknown(u) == Do([op |-> "Cut", ver |-> "new", hex |-> Hd(5, Cardinality(Dom) + 1) \o Hd(0, 77) \o Items[u] \o Cat(Map(Item, Listed(Dom)))], [acceptedS |-> {}])
Garbage(h) == Dom = {} /\ Do([op |-> "Decode", ver |-> "new", hex |-> h, only |-> "all"], [err |-> TRUE])

Init == inst = [p \in Props |-> 0] /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E p \in Props : \E i \in Vals(p) \cup {0} : Put(p, i)
        \/ "encode" \in Ops /\ \E P \in Sets : Encode(P)
        \/ "transfer" \in Ops /\ \E f, t \in Versions : f # "old" /\ \E P \in Sets : Transfer(f, t, P)
        \/ "order" \in Ops /\ Cardinality(Dom) > 1 /\ \E v \in Versions : Reordered(v)
        \/ "wide" \in Ops /\ \E v \in Versions, w \in {1, 2, 4, 8} : WideMap(v, w)
        \/ "unknown" \in Ops /\ \E v \in Versions, u \in Unknowns, t \in {0, 21, 32, 1000}, i \in 0..Cardinality(Dom) : Unknown(v, t, u, i)
        \/ "only" \in Ops /\ \E v \in Versions, P \in Sets : Only(v, P)
        \/ "alt" \in Ops /\ \E p \in Dom : \E a \in {Alt(p)[k] : k \in 1..Len(Alt(p))} : Other(p, a)
        \/ "wrong" \in Ops /\ \E p \in Dom : \E h \in Wrong(p) : Refused(p, h)
        \/ "wrong" \in Ops /\ ~Compact /\ \E h \in Reserved \cup {"00", "80", "6161", "f5", "f6", "40", "fa00000000", "a1", "a101"} : Garbage(h)
        \/ "wrong" \in Ops /\ Compact /\ \E h \in Reserved \cup {"00", "80", "6161", "f5", "f6", "40", "fa00000000", "a0", "a10105", "8100", "8002", "820205"} : Garbage(h)
        \/ "cut" \in Ops /\ \E v \in Versions : Cut(v)
        \/ "cut" \in Ops /\ \E u \in Unknowns : CutUnknown(u)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == Cardinality(Dom) <= MaxSet /\ \A p \in Props : inst[p] \in 0..Len(Type[p].v)
(* C21: exactly the properties that were valid and included arrive *)
ExactlyIncluded == [][(act'.cmd.op = "Transfer" /\ act'.cmd.to # "old") => DOMAIN act'.obs.vals = act'.cmd.inc \cap Dom]_vars
OldKeepsRest == [][(act'.cmd.op = "Transfer") => \A p \in DOMAIN act'.obs.vals : p \in Dom]_vars
=============================================================================
