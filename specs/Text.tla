-------------------------------- MODULE Text --------------------------------
(* The text forms of instances: JSON (as spoken over WebSockets, by two
   implementations) and the string form used for logging and configuration.

   An instance is a partial map from properties to values.  Writing it with a
   set of included properties yields an object with one member per included
   property, null for those that are not set, whatever the style.  Reading is
   the inverse and tolerates what the notation allows (whitespace between any
   two tokens, any order, escapes, other notations of numbers, members that
   are not known), while text that ends early or has values of another kind is
   refused.  Texts are sequences of tokens.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Props,     \* properties of the type in use, a set of names
          MaxSet,    \* number of properties set at once
          Depth,     \* "all" or "few" values per property
          Ops, Formats, Styles, Versions, Unknowns

VARIABLES inst, act
svars == inst
vars == <<svars, act>>
View == svars

-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<",">> \o Commas(Tail(s))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Quote(s) == "\"" \o s \o "\""

(* values: x canonical text, o the same for a receiver with the old version of
   the type, j JSON tokens, s tokens of the string form                        *)
V(x, j, s) == [x |-> x, o |-> x, j |-> <<j>>, s |-> <<s>>]
Same(t) == V(t, t, t)
I(n) == Same(ToString(n))
U(t) == V(t, t, t \o "u")
UI(n) == U(ToString(n))
F(x, t) == V(x, t, t)
Str(x) == V(Quote(x), Quote(x), Quote(x))
Esc(x, t) == V(Quote(x), Quote(t), Quote(t))
Vec(s) == LET x(e) == e.x o(e) == e.o j(e) == e.j t(e) == e.s IN
    [x |-> "[" \o Join(Map(x, s)) \o "]", o |-> "[" \o Join(Map(o, s)) \o "]",
     j |-> <<"[">> \o Commas(Map(j, s)) \o <<"]">>, s |-> <<"{">> \o Commas(Map(t, s)) \o <<"}">>]
(* a struct: name and sequence of <<name, value, known to the old version>> *)
Struct(n, s) == LET x(e) == Quote(e[1]) \o ":" \o e[2].x
                    o(e) == Quote(e[1]) \o ":" \o e[2].o
                    j(e) == <<Quote(e[1]), ":">> \o e[2].j
                    t(e) == <<"." \o e[1], "=">> \o e[2].s
                    known(e) == e[3] IN
    [x |-> "{" \o Join(Map(x, s)) \o "}", o |-> "{" \o Join(Map(o, SelectSeq(s, known))) \o "}",
     j |-> <<"{">> \o Commas(Map(j, s)) \o <<"}">>, s |-> <<n, "{">> \o Commas(Map(t, s)) \o <<"}">>]

Strings == <<Str(""), Str("a b"), Esc("x\\u0000y", "x\\u0000y"), Esc("\\u00e9", "\\u00e9"), Str("},]: 'null.a=1"), Esc("\\u0022\\u005c/\\u0008\\u000c\\u000a\\u000d\\u0009", "\\\"\\\\\\/\\b\\f\\n\\r\\t"),
             Esc("\\u0001\\u001f\\u007f", "\\u0001\\u001f\\u007f"), Str(" a"), Str("{}"), Str("012345678901234567890123")>>
SubA == Struct("VtSub", << <<"a", I(-1), FALSE>>, <<"b", Str("s"), TRUE>> >>)
SubB == Struct("VtSub", << <<"b", Str(""), TRUE>>, <<"c", Vec(<<I(1), I(-500)>>), FALSE>> >>)
SubC == Struct("VtSub", << <<"a", I(70000), FALSE>>, <<"b", Esc("\\u0022}", "\\\"}"), TRUE>>, <<"c", Vec(<<>>), FALSE>> >>)
Sub0 == Struct("VtSub", <<>>)
Low == V("\"low\"", "23", "VtTone::low")
Mid == V("\"mid\"", "24", "VtTone::mid")
High == V("\"high\"", "300", "VtTone::high")
F64 == <<F("0", "0.0"), F("1.5", "1.5"), F("0.10000000000000001", "0.1"), F("0.33333333333333331", "0.33333333333333331"), F("-1.0000000000000001e+300", "-1e300"),
         F("1.7976931348623157e+308", "1.7976931348623157e+308"), F("123456789.12345679", "123456789.12345679"), F("2251799813685249.5", "2251799813685249.5"),
         F("9007199254740992", "9007199254740992.0"), F("2.2250738585072014e-308", "2.2250738585072014e-308")>>
Seconds == <<F("0", "0.0"), F("1700000000.25", "1700000000.25"), F("-1.5", "-1.5"), F("1700000000.1234567", "1700000000.1234567"), F("0.10000000000000001", "0.1")>>
Iso(t) == Quote(t \o "+00:00")
Time == <<V("0", "0.0", Iso("1970-01-01T00:00:00.000")), V("1090403992.3039999", "1090403992.304", Iso("2004-07-21T09:59:52.304")), V("1700000000.25", "1700000000.25", Iso("2023-11-14T22:13:20.250")), V("-1.5", "-1.5", Iso("1969-12-31T23:59:58.500"))>>

Type == [
  b |-> <<Same("true"), Same("false")>>,
  i8 |-> Map(I, <<0, 23, 127, -1, -128>>),
  u8 |-> Map(UI, <<0, 127, 128, 255>>),
  i16 |-> Map(I, <<0, 256, 32767, -257, -32768>>),
  u16 |-> Map(UI, <<0, 255, 32768, 65535>>),
  i32 |-> Map(I, <<0, 65536, 2147483647, -65537>>) \o <<Same("-2147483648")>>,
  u32 |-> <<UI(0), UI(65536), U("2147483648"), U("4294967295")>>,
  i64 |-> <<I(0), I(-24), Same("4294967296"), Same("9007199254740993"), Same("9223372036854775807"), Same("-9223372036854775808")>>,
  u64 |-> <<UI(0), U("4294967296"), U("9007199254740993"), U("9223372036854775808"), U("18446744073709551615")>>,
  f32 |-> <<V("0", "0.0", "0.0f"), V("1.5", "1.5", "1.5f"), V("0.10000000149011612", "0.1", "0.1f"), V("16777216", "16777216.0", "16777216.0f"), V("3.4028234663852886e+38", "3.4028235e+38", "3.4028235e+38f"),
            V("0.3333333432674408", "0.333333343", "0.333333343f"), V("4194305.5", "4194305.5", "4194305.5f"), V("1.1920930376163597e-07", "1.19209304e-07", "1.19209304e-07f")>>,
  f64 |-> F64,
  ps |-> <<V("0", "0", "0b0u"), V("1", "1", "0b1u"), V("65536", "65536", "0b10000000000000000u"), V("4294967295", "4294967295", "0b11111111111111111111111111111111u")>>,
  tp |-> Time, st |-> Seconds, du |-> Seconds,
  id |-> <<V("\"00000000000000000000000000000000\"", "\"00000000-0000-0000-0000-000000000000\"", "\"00000000-0000-0000-0000-000000000000\""),
           V("\"00112233445566778899aabbccddeeff\"", "\"00112233-4455-6677-8899-aabbccddeeff\"", "\"00112233-4455-6677-8899-aabbccddeeff\"")>>,
  s |-> Strings,
  e |-> <<Low, Mid, High>>,
  sub |-> <<SubA, Sub0, SubB, SubC>>,
  vb |-> <<Vec(<<Same("true"), Same("false")>>), Vec(<<>>), Vec(<<Same("false")>>)>>,
  vi |-> <<Vec(<<I(0), I(-25), I(65536)>>), Vec(<<>>), Vec(<<I(7)>>)>>,
  vs |-> <<Vec(<<Strings[1], Strings[5], Strings[6], Strings[9]>>), Vec(<<>>), Vec(<<Strings[2]>>)>>,
  vsub |-> <<Vec(<<SubA, Sub0, SubB>>), Vec(<<>>), Vec(<<SubC>>), Vec(<<Sub0, Sub0>>)>>,
  ve |-> <<Vec(<<High, Low, Mid>>), Vec(<<>>)>>,
  vf |-> <<Vec(<<F64[2], F64[4], F64[5]>>), Vec(<<>>)>>,
  n |-> <<Struct("VtNest", << <<"s", SubA, TRUE>>, <<"v", Vec(<<SubB, Sub0>>), FALSE>>, <<"t", Str("t"), TRUE>> >>), Struct("VtNest", <<>>), Struct("VtNest", << <<"s", Sub0, TRUE>> >>), Struct("VtNest", << <<"v", Vec(<<>>), FALSE>> >>)>>
]
Order == << "b", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ps", "tp", "st", "du", "id", "s", "e", "sub", "vb", "vi", "vs", "vsub", "ve", "vf", "n" >>
OldKnows == {"u8", "s", "sub", "vsub", "n"}
Structs == {"sub", "n"}
TypeNames == {"VtAll", "VtSub", "VtNest"}

(* other notations of values in JSON *)
Floats == {"f32", "f64", "tp", "st", "du"}
Alt(p) == CASE p \in Floats -> <<F("15", "15"), F("1.5", "1.50"), F("-250", "-2.5e+2"), F("0.0625", "6.25E-2"), F("1500", "15e2"), F("0", "0"), F("0", "0e5")>>
            [] p \in {"i8", "i16", "i32", "i64"} -> <<F("0", "-0")>>
            [] p = "s" -> <<Esc("aZ", "\\u0061\\u005A"), Esc("\\u00e9", "\\u00E9"), Esc("\\u007f\\u0080\\u07ffa1f", "\\u007f\\u0080\\u07ffa1f"), Esc("\\u00e0\\u00a0\\u0080\\u00ef\\u00bf\\u00bf\\u00ed\\u009f\\u00bf", "\\u0800\\uffff\\ud7ff"), Esc("\\u00f0\\u0090\\u0080\\u0080\\u00ee\\u0080\\u0080", "\\ud800\\udc00\\ue000"), Esc("\\u00f4\\u008f\\u00bf\\u00bf\\u00f4\\u008f\\u00b0\\u0080", "\\udbff\\udfff\\udbff\\udc00"), Esc("\\u00e2\\u0082\\u00ac", "\\u20ac"), Esc("\\u00f0\\u009f\\u0098\\u0080", "\\ud83d\\uDE00"), Str("a/b"), Esc("a/b\\u000a", "\\u0061\\/b\\n")>>
            [] p = "id" -> <<V("\"00112233445566778899aabbccddeeff\"", "\"00112233-4455-6677-8899-AABBCCDDEEFF\"", "")>>
            [] p = "vs" -> <<[x |-> "[\"A\",\"\"]", o |-> "", j |-> <<"[", "\"\\u0041\"", ",", "\"\"", "]">>, s |-> <<>>]>>
            [] p = "sub" -> <<[x |-> "{\"b\":\"s\"}", o |-> "", j |-> <<"{", "\"b\"", ":", "\"s\"", ",", "\"a\"", ":", "null", "}">>, s |-> <<>>],
                              [x |-> "{\"a\":1,\"b\":\"s\"}", o |-> "", j |-> <<"{", "\"b\"", ":", "\"s\"", ",", "\"zz\"", ":", "[", "{", "\"a\"", ":", "2", "}", "]", ",", "\"a\"", ":", "1", "}">>, s |-> <<>>]>>
            [] OTHER -> <<>>

(* halves of a pair of surrogates; RapidJSON itself takes these *)
Lone == {"\"\\udc00\"", "\"\\udc00\\udc00\"", "\"\\udfff\\ud800\""}
(* values of another kind or out of range *)
Wrong(p) ==
    CASE p = "b" -> {"1", "\"a\"", "\"true\"", "[]", "{}", "tru", "True"}
      [] p \in {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ps", "e"} -> {"\"1\"", "true", "[]", "{}", "1.5", "1e1", "[1]", "-", "18446744073709551616", "-9223372036854775809"}
            \cup (IF p \in {"u8", "u16", "u32", "u64", "ps", "e"} THEN {"-1"} ELSE {})
            \cup (IF p = "i8" THEN {"128", "-129", "256", "4294967296"} ELSE {}) \cup (IF p = "u8" THEN {"256", "4294967296"} ELSE {})
            \cup (IF p = "i16" THEN {"32768", "-32769", "65536"} ELSE {}) \cup (IF p = "u16" THEN {"65536", "4294967296"} ELSE {})
            \cup (IF p = "i32" THEN {"2147483648", "-2147483649", "4294967296"} ELSE {}) \cup (IF p \in {"u32", "ps"} THEN {"4294967296"} ELSE {})
            \cup (IF p = "i64" THEN {"9223372036854775808"} ELSE {}) \cup (IF p = "e" THEN {"0", "5", "25"} ELSE {})
      [] p \in Floats -> {"true", "\"a\"", "\"1\"", "[]", "{}", "-", "1.5.5", "--1"}
      [] p = "id" -> {"1", "\"xyz\"", "\"\"", "[]", "{}", "\"00112233-4455-6677-8899-aabbccddee\"", "true"}
      [] p = "s" -> {"1", "true", "[]", "{}", "a", "\"\\x\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\ud800\"", "\"\\ud800\\u0041\"", "\"\\ud800\\ue000\"", "\"\\ud83dx\"", "\"a\"b\"", "\"\\\""}
      [] p \in {"vb", "vi", "vs", "vsub", "ve", "vf"} -> {"1", "\"a\"", "{}", "[", "]", "[[]]", "[1", "[}", "true"} \cup (IF p = "vs" THEN {"[1]"} ELSE {"[\"a\"]"})
      [] p \in {"sub", "n"} -> {"1", "\"a\"", "[]", "true", "{]", "[}", IF p = "n" THEN "{\"t\":1}" ELSE "{\"b\":1}", "{"}

(* members that are skipped *)
Items == [null |-> <<"null">>, true |-> <<"true">>, int |-> <<"12">>, neg |-> <<"-1.5e3">>, str |-> <<"\"str\"">>, empty |-> <<"\"\"">>, tricky |-> <<"\"\\\"]},\\\\\"">>, uni |-> <<"\"\\u00e9\\n\"">>,
          arr0 |-> <<"[", "]">>, obj0 |-> <<"{", "}">>, arr |-> <<"[", "1", ",", "[", "2", ",", "{", "\"a\"", ":", "[", "]", "}", "]", ",", "\"x\"", ",", "null", "]">>,
          obj |-> <<"{", "\"a\"", ":", "{", "\"b\"", ":", "[", "{", "}", "]", "}", ",", "\"u8\"", ":", "7", "}">>, objs |-> <<"[", "{", "\"u8\"", ":", "7", "}", ",", "{", "\"u8\"", ":", "8", "}", "]">>,
          deeparr |-> <<"([*100000)", "1", "(]*100000)">>, deepobj |-> <<"({\"a\":*100000)", "1", "(}*100000)">>]

-----------------------------------------------------------------------------
Vals(p) == LET n == Len(Type[p]) IN IF Depth = "all" THEN 1..n ELSE 1..(IF n < 3 THEN n ELSE 3)
Dom == {p \in Props : inst[p] # 0}
Listed(P) == LET in(p) == p \in P IN SelectSeq(Order, in)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Val(p) == Type[p][inst[p]]
Txt(ver, p) == IF ver = "old" THEN Val(p).o ELSE Val(p).x
Knows(ver, P) == IF ver = "old" THEN P \cap OldKnows ELSE P
Values(ver, P) == [p \in Knows(ver, P) \cap Dom |-> Txt(ver, p)]

(* members of an object, and the object *)
Json1(p) == <<Quote(p), ":">> \o (IF inst[p] = 0 THEN <<"null">> ELSE Val(p).j)
Str1(p) == <<"." \o p, "=">> \o (IF inst[p] = 0 THEN <<"<invalid>">> ELSE Val(p).s)
Object(ms) == <<"{">> \o Commas(ms) \o <<"}">>
Tokens(fmt, s) == IF fmt \in {"json", "rapid"} THEN Object(Map(Json1, s)) ELSE <<"VtAll">> \o Object(Map(Str1, s))
Bare(ts) == LET other(t) == t \notin TypeNames IN SelectSeq(ts, other)
Spread(ts, w) == LET one(t) == <<w, t>> IN Cat(Flat(Map(one, ts)))

Do(cmd, obs) == UNCHANGED svars /\ act' = [cmd |-> cmd, obs |-> obs]
Read(fmt, ver, text, only, expect) == Do([op |-> "Read", fmt |-> fmt, ver |-> ver, text |-> text, only |-> only], [err |-> FALSE, vals |-> expect, used |-> TRUE])
Refuse(fmt, text) == Do([op |-> "Read", fmt |-> fmt, ver |-> "new", text |-> text, only |-> "all"], [err |-> TRUE])

Put(p, i) == /\ inst[p] # i /\ (i # 0 => (inst[p] # 0 \/ Cardinality(Dom) < MaxSet))
             /\ inst' = [inst EXCEPT ![p] = i]
             /\ act' = [cmd |-> IF i = 0 THEN [op |-> "Put", p |-> p, x |-> "-"] ELSE [op |-> "Put", p |-> p, x |-> Type[p][i].x], obs |-> [vals |-> [q \in {r \in Props : inst'[r] # 0} |-> Type[q][inst'[q]].x]]]

Sets == SUBSET Dom \cup {Props}
(* written text, and what readers make of it: a new instance, one that has
   values already, one of another version                                      *)
Write(fmt, style, ver, P) == Do([op |-> "Write", fmt |-> fmt, style |-> style, ver |-> ver, inc |-> P, prev |-> [p \in P \ Structs |-> Type[p][1].x]],
    [vals |-> Values(ver, P), over |-> Values("new", P), same |-> TRUE, dom |-> IF fmt \in {"json", "rapid"} THEN Cat(Tokens(fmt, Listed(P))) ELSE "-"])
Scalar(fmt, style, p) == inst[p] # 0 /\ Val(p).x # "\"\"" /\ Val(p).x # "\" a\"" /\ (p = "s" => ~ (inst[p] \in {6, 7}))
    /\ Do([op |-> "Scalar", fmt |-> fmt, style |-> style, p |-> p], [x |-> Val(p).x])

Spaced(fmt, ver, w) == Read(fmt, ver, Spread(IF fmt = "string" THEN Bare(Tokens(fmt, Listed(Dom))) ELSE Tokens(fmt, Listed(Dom)), w) \o w, "all", Values(ver, Dom))
Reordered(fmt, ver) == Read(fmt, ver, Cat(IF fmt = "string" THEN Bare(Tokens(fmt, Reverse(Listed(Dom)))) ELSE Tokens(fmt, Reverse(Listed(Dom)))), "all", Values(ver, Dom))
Insert(s, i, m) == SubSeq(s, 1, i) \o <<m>> \o SubSeq(s, i + 1, Len(s))
Unknown(fmt, ver, name, u, i, w) == Read(fmt, ver, Spread(Object(Insert(Map(Json1, Listed(Dom)), i, <<Quote(name), ":">> \o Items[u])), w), "all", Values(ver, Dom))
UnknownString(ver, p, i) == Read("string", ver, Cat(Bare(Object(Insert(Map(Str1, Listed(Dom)), i, <<".zz", "=">> \o Type[p][1].s)))), "all", Values(ver, Dom))
Only(fmt, ver, P) == Read(fmt, ver, Cat(IF fmt = "string" THEN Bare(Tokens(fmt, Listed(Props))) ELSE Tokens(fmt, Listed(Props))), P, Values(ver, P))
Member(p, ts) == LET m(q) == IF q = p THEN <<Quote(q), ":">> \o ts ELSE Json1(q) IN Cat(Object(Map(m, Listed(Dom))))
Other(fmt, p, a) == inst[p] = 1 /\ Read(fmt, "new", Member(p, a.j), "all", [q \in Dom |-> IF q = p THEN a.x ELSE Txt("new", q)])
Twice(fmt, p, i) == inst[p] # 0 /\ p \notin Structs
    /\ Read(fmt, "new", Cat(IF fmt = "string" THEN Object(<<<<"." \o p, "=">> \o Type[p][i].s>> \o Map(Str1, Listed(Dom))) ELSE Object(<<<<Quote(p), ":">> \o Type[p][i].j>> \o Map(Json1, Listed(Dom)))), "all", Values("new", Dom))
Nulled(fmt, p) == inst[p] # 0 /\ Read(fmt, "new", Cat(IF fmt = "string" THEN Object(Map(Str1, Listed(Dom)) \o <<<<"." \o p, "=", "<invalid>">>>>) ELSE Object(Map(Json1, Listed(Dom)) \o <<<<Quote(p), ":", "null">>>>)), "all", Values("new", Dom \ {p}))
WrongValue(fmt, p, t) == inst[p] = 1 /\ Refuse(fmt, Member(p, <<t>>))
Cut(fmt, ver) == Do([op |-> "Cut", fmt |-> fmt, ver |-> ver, text |-> Cat(IF fmt = "string" THEN Bare(Tokens(fmt, Listed(Props))) ELSE Tokens(fmt, Listed(Props)))], [acceptedS |-> {}])
CutUnknown(u) == Do([op |-> "Cut", fmt |-> "json", ver |-> "new", text |-> Cat(Object(<<<<Quote("zz"), ":">> \o Items[u]>> \o Map(Json1, Listed(Dom))))], [acceptedS |-> {}])
Garbage == {"", "[]", "1", "null", "{", "{\"u8\"}", "{\"u8\":}", "{\"u8\":1]", "{\"u8\" 1}", "nul", "{u8:1}", "{\"u8\":1", "\"u8\":1}", "{\"zz\":[1}", "{\"zz\":{]", "{\"zz\":[}", "{\"zz\":[1,2", "{\"zz\":{\"a\":1]}", "{\"zz\":}", "{\"zz\":\"a", "{\"zz\":\"a\\", "{\"zz\"", "{\"", "{\"zz\":tru",
            "([*100000)", "{\"zz\":([*100000)", "{\"zz\":({\"a\":*100000)", "{\"zz\":([{\"a\":*50000)"}
(* texts for which it only matters that they are answered *)
Hostile == {"{\"\\u00ff\":1}", "{\"a-b\":1}", "{\"\":1}", "{\"\\u0080\\u00fe\":{\"\\u00e9\":[]}}", "{\"zz\":[,]}", "{\"zz\":,}", "{,}", "{\"u8\":nan}", "{\"f64\":0x1p3}", "{\"zz\":[\"\\ud800\",]}",
            "{\"s\":\"\\udc00\"}", "{\"u8\":\\u00ff}", "{\"\\u00ff", "\\u00ff", "{\"f64\":-", "{\"f64\":1e", "{\"tp\":\"\"}", "{\"id\":\"", "{.u8=1}", "VtAll{.\\u00ff=1}", "VtAll{.tp=\"\"}", "VtAll{.tp=\"x\"}", "VtAll{.tp=\"1970-01-01T00:00:00", "VtAll{.e=\\u00e9}", "VtAll{.e=VtTone::}", "VtAll{.e=VtTone", "VtAll", "V"}

Json2 == Formats \cap {"json", "rapid"}
Init == inst = [p \in Props |-> 0] /\ act = [cmd |-> [op |-> "init"], obs |-> 0]
Next == \/ \E p \in Props : \E i \in Vals(p) \cup {0} : Put(p, i)
        \/ "write" \in Ops /\ \E f \in Formats, y \in Styles, v \in Versions : (f = "string" => v # "old") /\ (f = "rapid" => y = "Minified") /\ \E P \in Sets : Write(f, y, v, P)
        \/ "scalar" \in Ops /\ \E f \in Formats, y \in Styles, p \in Dom : (f = "rapid" => y = "Minified") /\ Scalar(f, y, p)
        \/ "space" \in Ops /\ \E f \in Formats, v \in Versions, w \in {"", " ", "\n", "\t", "\r\n  "} : Spaced(f, v, w)
        \/ "space" \in Ops /\ "string" \in Formats /\ \E v \in Versions, w \in {"", " "} : v # "old" /\ Read("strict", v, Spread(Tokens("string", Listed(Dom)), w), "all", Values(v, Dom))
        \/ "order" \in Ops /\ Cardinality(Dom) > 1 /\ \E f \in Formats, v \in Versions : Reordered(f, v)
        \/ "unknown" \in Ops /\ \E f \in Json2, v \in Versions, u \in Unknowns, nm \in {"zz", "U8", "_1"} : \E w \in (IF nm = "zz" THEN {"", " "} ELSE {""}) : \E i \in 0..Cardinality(Dom) : (f = "rapid" => u \notin {"deeparr", "deepobj"}) /\ Unknown(f, v, nm, u, i, w)
        \/ "unknown" \in Ops /\ "string" \in Formats /\ \E v \in Versions, p \in {"b", "u8", "s", "vs", "sub", "vsub", "n"} : \E i \in 0..Cardinality(Dom) : UnknownString(v, p, i)
        \/ "only" \in Ops /\ \E f \in Formats, v \in Versions, P \in Sets : Only(f, v, P)
        \/ "alt" \in Ops /\ \E f \in Json2, p \in Dom : \E a \in {Alt(p)[k] : k \in 1..Len(Alt(p))} : Other(f, p, a)
        \/ "twice" \in Ops /\ \E f \in Formats, p \in Dom : \E i \in Vals(p) : Twice(f, p, i)
        \/ "twice" \in Ops /\ \E f \in Formats, p \in Dom : Nulled(f, p)
        \/ "wrong" \in Ops /\ \E f \in Json2, p \in Dom : \E t \in Wrong(p) \cup (IF p = "s" /\ f = "json" THEN Lone ELSE {}) : WrongValue(f, p, t)
        \/ "wrong" \in Ops /\ Dom = {} /\ \E g \in Garbage : Refuse("json", g)
        \/ "wrong" \in Ops /\ Dom = {} /\ \E g \in Hostile, f \in {"json", "string", "strict"} : Do([op |-> "Hostile", fmt |-> f, text |-> g], [answered |-> TRUE])
        \/ "cut" \in Ops /\ \E f \in Formats, v \in Versions : Cut(f, v)
        \/ "cut" \in Ops /\ \E u \in Unknowns \ {"deeparr", "deepobj"} : CutUnknown(u)

Emit == PrintT(ToJson([f |-> ToString(svars), a |-> act', t |-> ToString(svars')]))
-----------------------------------------------------------------------------
TypeOK == Cardinality(Dom) <= MaxSet /\ \A p \in Props : inst[p] \in 0..Len(Type[p])
ExactlyIncluded == [][(act'.cmd.op = "Write" /\ act'.cmd.ver # "old") => DOMAIN act'.obs.vals = act'.cmd.inc \cap Dom]_vars
=============================================================================
