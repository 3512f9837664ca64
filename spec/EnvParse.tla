------------------------------ MODULE EnvParse ------------------------------
(* The syntax of environment variable values, as a recursive-descent parser  *)
(* over positions. A result is [ok, v, p]: whether it parsed, the value (or  *)
(* text) and the next position. Two tables come from outside because they    *)
(* are the standard library's business: `ft` maps texts that are floats to   *)
(* their canonical form, `ut` maps hex digits to the character they denote.  *)
EXTENDS Values

MaxDepth == 128

R(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Bad == [ok |-> FALSE, v |-> "", p |-> 0]

NoSep == {",", "{", "}", "[", "]"}
IdentCh == UpSet \cup LoSet \cup Digits \cup {"_", "-"}

Peek(s, p) == IF p <= Len(s) THEN At(s, p) ELSE ""

RECURSIVE WhileIn(_, _, _), WhileNotIn(_, _, _)
WhileIn(s, p, set) == IF p <= Len(s) /\ At(s, p) \in set THEN WhileIn(s, p + 1, set) ELSE p
WhileNotIn(s, p, set) == IF p <= Len(s) /\ At(s, p) \notin set THEN WhileNotIn(s, p + 1, set) ELSE p

\* A quoted string; p is just past the opening quote. `acc` is what it denotes.
Esc == [c \in {"\"", "\\", "b", "f", "n", "r", "t"} |->
          CASE c = "\"" -> "\"" [] c = "\\" -> "\\" [] c = "b" -> Tab.bs
            [] c = "f" -> "\f" [] c = "n" -> "\n" [] c = "r" -> "\r" [] c = "t" -> "\t"]
RECURSIVE QStr(_, _, _, _)
QStr(s, p, acc, ut) ==
  LET c == Peek(s, p) IN
  IF c = "" THEN Bad
  ELSE IF c = "\"" THEN R(acc, p + 1)
  ELSE IF c = "\\" THEN
    LET e == Peek(s, p + 1) IN
    IF e \in DOMAIN Esc THEN QStr(s, p + 2, acc \o Esc[e], ut)
    ELSE IF e \in {"u", "U"} THEN
      LET n == IF e = "u" THEN 4 ELSE 8
          h == IF p + 1 + n <= Len(s) THEN SubSeq(s, p + 2, p + 1 + n) ELSE "-"
      IN IF (\A i \in 1..Len(h) : At(h, i) \in Hex) /\ h \in DOMAIN ut
         THEN QStr(s, p + 2 + n, acc \o ut[h], ut)
         ELSE Bad
    ELSE Bad
  ELSE IF c \in Ctl THEN Bad
  ELSE QStr(s, p + 1, acc \o c, ut)

\* An unquoted word, trimmed.
Bare(w, ft) ==
  IF w = "true" \/ w = "false" THEN Bool("", w)
  ELSE IF Contains(w, ".")
    THEN IF w \in DOMAIN ft THEN Num("", "f64", ft[w]) ELSE Str("", w)
  ELSE LET u == ParseUInt(w)
           i == ParseInt(w)
       IN IF u # "" /\ FitsU(u, "usize") THEN Num("", "usize", u)
          ELSE IF i # "" /\ FitsI(i, "isize") THEN Num("", "isize", i)
          ELSE Str("", w)

\* The characters of one code point starting at p: TLC's strings are UTF-16.
CpLen(s, p) == IF Peek(s, p) \in SeqSet(Tab.hs) THEN 2 ELSE 1

RECURSIVE PVal(_, _, _, _, _), PArr(_, _, _, _, _, _), PDict(_, _, _, _, _, _)
PVal(s, p0, d, ft, ut) ==
  LET p == SkipWs(s, p0)
      c == Peek(s, p)
      r == IF c = "" THEN R(Unit(""), p)
           ELSE IF c = "\"" THEN
             LET q == QStr(s, p + 1, "", ut) IN IF q.ok THEN R(Str("", q.v), q.p) ELSE Bad
           ELSE IF c = "'" THEN
             LET n == CpLen(s, p + 1) IN
             IF p + 1 + n <= Len(s) /\ At(s, p + 1 + n) = "'"
             THEN R([k |-> "c", t |-> "", v |-> SubSeq(s, p + 1, p + n)], p + 2 + n) ELSE Bad
           ELSE IF c = "[" THEN
             IF d = MaxDepth THEN Bad ELSE PArr(s, SkipWs(s, p + 1), d + 1, <<>>, ft, ut)
           ELSE IF c = "{" THEN
             IF d = MaxDepth THEN Bad ELSE PDict(s, SkipWs(s, p + 1), d + 1, Empty, ft, ut)
           ELSE LET e == WhileNotIn(s, p, NoSep)
                IN R(Bare(Trim(SubSeq(s, p, e - 1)), ft), e)
  IN IF r.ok THEN R(r.v, SkipWs(s, r.p)) ELSE Bad

PArr(s, p, d, acc, ft, ut) ==
  IF Peek(s, p) = "]" THEN R(Arr("", acc), p + 1)
  ELSE LET r == PVal(s, p, d, ft, ut) IN
       IF ~r.ok THEN Bad
       ELSE LET q == SkipWs(s, r.p) IN
            IF Peek(s, q) = "," THEN PArr(s, SkipWs(s, q + 1), d, Append(acc, r.v), ft, ut)
            ELSE IF Peek(s, q) = "]" THEN R(Arr("", Append(acc, r.v)), q + 1)
            ELSE Bad

PDict(s, p, d, acc, ft, ut) ==
  IF Peek(s, p) = "}" THEN R(Dict("", acc), p + 1)
  ELSE LET kq == Peek(s, p) = "\""
           kr == IF kq THEN QStr(s, p + 1, "", ut)
                 ELSE LET e == WhileIn(s, p, IdentCh) IN R(SubSeq(s, p, e - 1), e)
       IN IF ~kr.ok THEN Bad
          ELSE LET e == SkipWs(s, kr.p) IN
               IF Peek(s, e) # "=" THEN Bad
               ELSE LET r == PVal(s, SkipWs(s, e + 1), d, ft, ut) IN
                    IF ~r.ok THEN Bad
                    ELSE LET q == SkipWs(s, r.p)
                             acc2 == (kr.v :> r.v) @@ acc
                         IN IF Peek(s, q) = "," THEN PDict(s, SkipWs(s, q + 1), d, acc2, ft, ut)
                            ELSE IF Peek(s, q) = "}" THEN R(Dict("", acc2), q + 1)
                            ELSE Bad

\* Total: what does not parse as a whole is the literal, trimmed string.
ParseEnv(raw, ft, ut) ==
  LET s == Trim(raw)
      r == PVal(s, 1, 0, ft, ut)
  IN IF r.ok /\ r.p > Len(s) THEN r.v ELSE Str("", s)
=============================================================================
