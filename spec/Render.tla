------------------------------- MODULE Render -------------------------------
(* The text of errors. An error is [kind, path, t]: a sequence of strings    *)
(* describing the mismatch, a sequence of keys and the tag of the source.    *)
EXTENDS Values

\* "source name:profile kind" -> its two halves
RECURSIVE LastColon(_, _)
LastColon(s, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = ":" THEN i ELSE LastColon(s, i - 1)
TagName(t) == IF t = "" THEN "" ELSE SubSeq(t, 1, LastColon(t, Len(t)) - 1)
TagKind(t) == IF t = "" THEN "default" ELSE Drop(t, LastColon(t, Len(t)))
KindOfProfile(p) == IF p \in {"default", "global"} THEN p ELSE "custom"

Msg(m) == <<"Message", m>>
Err(kind, path, t) == [kind |-> kind, path |-> path, t |-> t]

\* Rust's debug format; what does not print is in a table.
DbgTab == Tab.dbg
DbgCh(c) == IF c \in DOMAIN DbgTab THEN DbgTab[c] ELSE c
Dbg(s) == "\"" \o Flat([i \in 1..Len(s) |-> DbgCh(At(s, i))]) \o "\""
DbgChar(c) == "'" \o (IF c = "'" THEN "\\'" ELSE IF c = "\"" THEN c ELSE DbgCh(c)) \o "'"

\* Floats print without a fraction if they have none.
FloatText(v) == IF Len(v) > 2 /\ SubSeq(v, Len(v) - 1, Len(v)) = ".0"
                THEN SubSeq(v, 1, Len(v) - 2) ELSE v

ActualText(n, v) ==
  CASE n = "bool" -> "bool " \o v
    [] n = "unsigned" -> "unsigned int `" \o v \o "`"
    [] n = "signed" -> "signed int `" \o v \o "`"
    [] n = "float" -> "float `" \o FloatText(v) \o "`"
    [] n = "char" -> "char " \o DbgChar(v)
    [] n = "str" -> "string " \o Dbg(v)
    [] n = "unit" -> "unit"
    [] n = "option" -> "option"
    [] n = "seq" -> "sequence"
    [] n = "map" -> "map"
    [] n = "unitvariant" -> "unit variant"
    [] n = "bytes" -> "bytes " \o v
    [] n = "newtype" -> "new-type struct"
    [] n = "enum" -> "enum"
    [] n = "newtypevariant" -> "new-type variant"
    [] n = "tuplevariant" -> "tuple variant"
    [] n = "structvariant" -> "struct variant"
    [] n = "other" -> v

\* Alternatives; the list arrives joined by commas.
OneOf(list) ==
  LET q == IF list = "" THEN <<>> ELSE Split(list, ",")
      tick(s) == "`" \o s \o "`"
  IN IF Len(q) = 0 THEN "none" ELSE IF Len(q) = 1 THEN tick(q[1])
     ELSE IF Len(q) = 2 THEN tick(q[1]) \o " or " \o tick(q[2])
     ELSE "one of " \o Join([i \in 1..Len(q) |-> tick(q[i])], ", ")

KindText(k) ==
  CASE k[1] = "Message" -> k[2]
    [] k[1] = "InvalidType" ->
         "invalid type: found " \o ActualText(k[2], k[3]) \o ", expected " \o k[4]
    [] k[1] = "InvalidValue" ->
         "invalid value " \o ActualText(k[2], k[3]) \o ", expected " \o k[4]
    [] k[1] = "InvalidLength" -> "invalid length " \o k[2] \o ", expected " \o k[3]
    [] k[1] = "UnknownVariant" ->
         "unknown variant: found `" \o k[2] \o "`, expected `" \o OneOf(k[3]) \o "`"
    [] k[1] = "UnknownField" ->
         "unknown field: found `" \o k[2] \o "`, expected `" \o OneOf(k[3]) \o "`"
    [] k[1] = "MissingField" -> "missing field `" \o k[2] \o "`"
    [] k[1] = "DuplicateField" -> "duplicate field `" \o k[2] \o "`"
    [] k[1] = "ISizeOutOfRange" -> "signed integer `" \o k[2] \o "` is out of range"
    [] k[1] = "USizeOutOfRange" -> "unsigned integer `" \o k[2] \o "` is out of range"
    [] k[1] = "Unsupported" -> "unsupported type `" \o ActualText(k[2], k[3]) \o "`"
    [] k[1] = "UnsupportedKey" ->
         "unsupported type `" \o ActualText(k[2], k[3]) \o "` for key: must be `" \o k[4] \o "`"
    [] OTHER -> "?"

\* How a source spells a key.
Interp(how, prof, keys) ==
  CASE how = "env" -> Upper(Join(keys, "."))
    [] how = "upper" -> Upper(Join(keys, "."))
    [] how = "slash" -> prof \o "/" \o Join(keys, "/")
    [] how = "count" -> "#" \o ToString(Len(keys))
    [] OTHER -> prof \o "." \o Join(keys, ".")
=============================================================================
