------------------------------ MODULE MC_Parse ------------------------------
(* Every short text over the characters that matter, against the grammar of  *)
(* environment values stated as what texts denote, by splitting them in all  *)
(* possible ways: no positions, no order of alternatives. Each is parsed by  *)
(* the code. Also: every small value has a text that denotes exactly it.     *)
EXTENDS Ops
CONSTANTS Kind
VARIABLES pre, val
vars == <<pre, val>>

Dq == "\""
Sq == "'"
Bs == "\\"
All == {"a", "1", ",", "=", Dq, Sq, "[", "]", "{", "}", Bs, " ", ".", "-"}
Abc == CASE Kind = "all" -> All
         [] Kind = "array" -> {"a", ",", "[", "]", Dq}
         [] Kind = "dict" -> {"a", "=", ",", "{", "}"}
         [] Kind = "mixed" -> {"a", "=", ",", "{", "}", "[", "]"}
         [] Kind = "string" -> {Dq, Bs, "n", "u", "0"}
         [] Kind = "space" -> {"1", "[", "]", ",", Tab.ws[8], Tab.ws[13]}     \* no ASCII spaces
         [] Kind = "number" -> {"0", "2", "5", "-", "+", ".", "e"}
         [] OTHER -> {}
\* Lengths of the prefix a state stands for and of what follows
PreLen == CASE Kind = "all" -> IF Thorough THEN 3 ELSE 2 [] Kind = "number" -> 3 [] OTHER -> IF Thorough THEN 4 ELSE 3
SufLen == CASE Kind \in {"all", "mixed"} -> 2 [] Kind = "number" -> IF Thorough THEN 3 ELSE 2 [] OTHER -> 3
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(n - 1), c \in Abc}
Upto(n) == UNION {Words(i) : i \in 0..n}
\* A short prefix stands for itself, a full one for all texts it starts.
Texts == IF Len(pre) < PreLen THEN {pre} ELSE {pre \o w : w \in Upto(SufLen)}

(* ------------------------- what texts denote ----------------------------- *)
UT == ("0000" :> "@") @@ ("n00u" :> "-")      \* characters by hex digits, for the model
FT == [x \in {"0.", ".0", "0.0", "2.5", "-2.5", "5.", "-.0", "1.", ".1", "1.1", "0e.", "0.e0"} |-> x]
Mid(s) == SubSeq(s, 2, Len(s) - 1)
Open(s, a, b) == Len(s) >= 2 /\ At(s, 1) = a /\ At(s, Len(s)) = b
\* The texts of a quoted string's inside
Escaped == [e \in DOMAIN Esc |-> Esc[e]]
RECURSIVE InQuotes(_)
InQuotes(s) ==
  IF s = "" THEN {""}
  ELSE (IF At(s, 1) \notin {Dq, Bs} THEN {At(s, 1) \o r : r \in InQuotes(Drop(s, 1))} ELSE {})
       \cup (IF Len(s) >= 2 /\ At(s, 1) = Bs /\ At(s, 2) \in DOMAIN Escaped
             THEN {Escaped[At(s, 2)] \o r : r \in InQuotes(Drop(s, 2))} ELSE {})
       \cup (IF Len(s) >= 6 /\ At(s, 1) = Bs /\ At(s, 2) = "u" /\ SubSeq(s, 3, 6) \in DOMAIN UT
                /\ \A i \in 3..6 : At(s, i) \in Hex
             THEN {UT[SubSeq(s, 3, 6)] \o r : r \in InQuotes(Drop(s, 6))} ELSE {})
Quoted(s) == IF Open(s, Dq, Dq) THEN InQuotes(Mid(s)) ELSE {}
Commas(s) == {i \in 1..Len(s) : At(s, i) = ","}
Equals(s) == {i \in 1..Len(s) : At(s, i) = "="}
Plain1(s) == \A i \in 1..Len(s) : At(s, i) \notin NoSep
Scalar(w) ==     \* an unquoted word
  IF w \in {"true", "false"} THEN Bool("", w)
  ELSE IF w \in DOMAIN FT THEN Num("", "f64", FT[w])
  ELSE IF ParseUInt(w) # "" THEN Num("", "usize", ParseUInt(w))
  ELSE IF ParseInt(w) # "" THEN Num("", "isize", ParseInt(w))
  ELSE Str("", w)
RECURSIVE Den(_, _), Items(_), Entries(_)
\* The values trimmed text s denotes; an element left out is an empty string.
Den(s, elem) ==
  (IF s = "" THEN {IF elem THEN Str("", "") ELSE Unit("")} ELSE {})
  \cup {Str("", x) : x \in Quoted(s)}
  \cup (IF Len(s) = 3 /\ Open(s, Sq, Sq) THEN {[k |-> "c", t |-> "", v |-> Mid(s)]} ELSE {})
  \cup (IF Open(s, "[", "]") THEN {Arr("", x) : x \in Items(Mid(s))} ELSE {})
  \cup (IF Open(s, "{", "}") THEN {Dict("", m) : m \in Entries(Mid(s))} ELSE {})
  \cup (IF s # "" /\ At(s, 1) \notin {Dq, Sq, "[", "{"} /\ Plain1(s) THEN {Scalar(s)} ELSE {})
\* Nothing, an element, or an element, a comma and further elements
Items(s) ==
  IF Trim(s) = "" THEN {<<>>}
  ELSE {<<v>> : v \in Den(Trim(s), TRUE)}
       \cup UNION {{<<v>> \o r : v \in Den(Trim(SubSeq(s, 1, i - 1)), TRUE), r \in Items(Drop(s, i))} : i \in Commas(s)}
KeyOf(s) == Quoted(s) \cup (IF \A i \in 1..Len(s) : At(s, i) \in IdentCh THEN {s} ELSE {})
Entry(s) == UNION {{<<k, v>> : k \in KeyOf(Trim(SubSeq(s, 1, i - 1))), v \in Den(Trim(Drop(s, i)), TRUE)} : i \in Equals(s)}
Entries(s) ==
  IF Trim(s) = "" THEN {Empty}
  ELSE {e[1] :> e[2] : e \in Entry(s)}
       \cup UNION {{m @@ (e[1] :> e[2]) : e \in Entry(SubSeq(s, 1, i - 1)), m \in Entries(Drop(s, i))} : i \in Commas(s)}
Denotes(s) == LET d == Den(Trim(s), FALSE) IN IF d = {} THEN {Str("", Trim(s))} ELSE d

(* ------------------------------ small values ----------------------------- *)
Sc == {Str("", "a"), Str("", ""), Str("", " a,]"), Str("", "1"), Str("", "true"), Str("", "a\"\\\n"), Bool("", "true"),
       Num("", "usize", "1"), Num("", "isize", "-2"), [k |-> "c", t |-> "", v |-> "'"]}
L1 == Sc \cup {Arr("", q) : q \in {<<>>} \cup {<<x>> : x \in Sc} \cup {<<x, y>> : x \in Sc, y \in Sc}}
         \cup Dicts({"a", "k-1", " =,"}, {Str("", "a"), Num("", "usize", "1"), Str("", "1")})
SomeL1 == {Arr("", <<>>), Arr("", <<Str("", "")>>), Arr("", <<Str("", "a"), Num("", "usize", "1")>>), Dict("", Empty),
           Dict("", "a" :> Str("", ",}")), Str("", "x y"), Unit("")} \ {Unit("")}
L2 == {Arr("", <<x, y>>) : x \in SomeL1, y \in SomeL1} \cup {Dict("", [k \in {"a", "b"} |-> IF k = "a" THEN x ELSE y]) : x \in SomeL1, y \in SomeL1}
Vals == IF Kind = "values" THEN L1 \cup L2 ELSE {}
EscOf(c) == CASE c = Dq -> Bs \o Dq [] c = Bs -> Bs \o Bs [] c = "\n" -> Bs \o "n" [] OTHER -> c
Quote(s) == Dq \o Flat([i \in 1..Len(s) |-> EscOf(At(s, i))]) \o Dq
\* A text of a value, loosely or densely set
RECURSIVE Text(_, _)
Text(v, sp) ==
  CASE v.k = "s" -> Quote(v.v) [] v.k = "c" -> Sq \o v.v \o Sq [] v.k \in {"b", "n"} -> v.v
    [] v.k = "a" -> "[" \o sp \o Join([i \in 1..Len(v.x) |-> Text(v.x[i], sp)], sp \o "," \o sp) \o sp \o "]"
    [] v.k = "d" -> LET ks == SortKeys(DOMAIN v.m)
                    IN "{" \o sp \o Join([i \in 1..Len(ks) |-> Quote(ks[i]) \o sp \o "=" \o sp \o Text(v.m[ks[i]], sp)], "," \o sp) \o sp \o "}"

Init == pre = "" /\ val \in (IF Kind = "values" THEN Vals ELSE {NoVal})
Next == Len(pre) < PreLen /\ (\E c \in Abc : pre' = pre \o c) /\ UNCHANGED val
Spec == Init /\ [][Next]_vars

Laws ==
  IF Kind = "values" THEN \A sp \in {"", " ", "\t\n"} : ParseEnv(sp \o Text(val, sp), FT, UT) = val
  ELSE \A s \in Texts : Denotes(s) = {ParseEnv(s, FT, UT)}     \* exactly one: unambiguous, total
P(s) == [op |-> "parse", s |-> s]
Generated ==
  IF Kind = "values" THEN Emit(<<P(Text(val, "")), P(Text(val, " "))>>)
  ELSE LET q == SetSeq(Texts) IN Emit([i \in 1..Len(q) |-> P(q[i])])
=============================================================================
