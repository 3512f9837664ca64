------------------------------- MODULE Values -------------------------------
(* Configuration values and the operations on them.                          *)
(*   [k |-> "s"|"c"|"b"|"e", t |-> tag, v |-> text]      scalars             *)
(*   [k |-> "n", t |-> tag, y |-> number type, v |-> text]                   *)
(*   [k |-> "d", t |-> tag, m |-> function from keys]    dictionaries        *)
(*   [k |-> "a", t |-> tag, x |-> sequence]              arrays              *)
(* A tag is "" (none) or "source:profile-kind".                              *)
EXTENDS Strs, TLC

IsD(v) == v.k = "d"
IsA(v) == v.k = "a"
NoVal == [k |-> "none"]
Dict(t, m) == [k |-> "d", t |-> t, m |-> m]
Arr(t, x) == [k |-> "a", t |-> t, x |-> x]
Str(t, s) == [k |-> "s", t |-> t, v |-> s]
Num(t, y, v) == [k |-> "n", t |-> t, y |-> y, v |-> v]
Bool(t, b) == [k |-> "b", t |-> t, v |-> b]
Unit(t) == [k |-> "e", t |-> t, v |-> "unit"]
NoneV(t) == [k |-> "e", t |-> t, v |-> "none"]
Empty == [x \in {} |-> ""]

(* ------------------------- conflict resolution -------------------------- *)
Orders == {"merge", "join", "adjoin", "admerge"}
KeepsOld(o) == o \in {"join", "adjoin"}
Concats(o) == o \in {"adjoin", "admerge"}

RECURSIVE CoVal(_, _, _)
CoMap(m, n, o) ==
  [k \in DOMAIN m \cup DOMAIN n |->
     IF k \notin DOMAIN n THEN m[k]
     ELSE IF k \notin DOMAIN m THEN n[k]
     ELSE CoVal(m[k], n[k], o)]
CoVal(old, new, o) ==
  IF IsD(old) /\ IsD(new)
  THEN Dict(IF KeepsOld(o) THEN old.t ELSE new.t, CoMap(old.m, new.m, o))
  ELSE IF IsA(old) /\ IsA(new) /\ Concats(o) THEN Arr(old.t, old.x \o new.x)
  ELSE IF KeepsOld(o) THEN old ELSE new

\* Profiles -> dictionaries
CoMaps(ms, ns, o) ==
  [p \in DOMAIN ms \cup DOMAIN ns |->
     IF p \notin DOMAIN ns THEN ms[p]
     ELSE IF p \notin DOMAIN ms THEN ns[p]
     ELSE CoMap(ms[p], ns[p], o)]

(* ------------------------------- lookup --------------------------------- *)
RECURSIVE FindP(_, _)
FindP(v, path) ==
  IF path = <<>> THEN v
  ELSE IF IsD(v) /\ path[1] \in DOMAIN v.m THEN FindP(v.m[path[1]], Tail(path))
  ELSE NoVal
Find(v, key) == FindP(v, KeyPath(key))

RECURSIVE NestP(_, _)
NestP(path, v) == IF path = <<>> THEN v
                  ELSE Dict("", [k \in {path[1]} |-> NestP(Tail(path), v)])
Nest(key, v) == NestP(KeyPath(key), v)

(* -------------------------------- tags ---------------------------------- *)
RECURSIVE Tagged(_, _)
Tagged(v, t) ==
  LET tt == IF v.t = "" THEN t ELSE v.t IN
  IF IsD(v) THEN Dict(tt, [k \in DOMAIN v.m |-> Tagged(v.m[k], t)])
  ELSE IF IsA(v) THEN Arr(tt, [i \in 1..Len(v.x) |-> Tagged(v.x[i], t)])
  ELSE [v EXCEPT !.t = tt]
TaggedMap(m, t) == [k \in DOMAIN m |-> Tagged(m[k], t)]

RECURSIVE Strip(_)
Strip(v) ==
  IF v.k = "none" THEN v
  ELSE IF IsD(v) THEN Dict("", [k \in DOMAIN v.m |-> Strip(v.m[k])])
  ELSE IF IsA(v) THEN Arr("", [i \in 1..Len(v.x) |-> Strip(v.x[i])])
  ELSE [v EXCEPT !.t = ""]
StripMap(m) == [k \in DOMAIN m |-> Strip(m[k])]
StripMaps(ms) == [p \in DOMAIN ms |-> StripMap(ms[p])]

RECURSIVE TagsOf(_)
TagsOf(v) ==
  {v.t} \cup (IF IsD(v) THEN UNION {TagsOf(v.m[k]) : k \in DOMAIN v.m}
              ELSE IF IsA(v) THEN UNION {TagsOf(v.x[i]) : i \in 1..Len(v.x)}
              ELSE {})

\* Machine-word integers are handed to visitors as the narrowest type that
\* holds them, so an untyped extraction sees them as such.
NarrowU(n) == IF FitsU(n, "u8") THEN "u8" ELSE IF FitsU(n, "u16") THEN "u16"
              ELSE IF FitsU(n, "u32") THEN "u32" ELSE "u64"
NarrowI(n) == IF FitsI(n, "i8") THEN "i8" ELSE IF FitsI(n, "i16") THEN "i16"
              ELSE IF FitsI(n, "i32") THEN "i32" ELSE "i64"
VisitTy(y, n) == IF y = "usize" THEN NarrowU(n) ELSE IF y = "isize" THEN NarrowI(n) ELSE y
RECURSIVE Visited(_)
Visited(v) ==
  IF IsD(v) THEN Dict(v.t, [k \in DOMAIN v.m |-> Visited(v.m[k])])
  ELSE IF IsA(v) THEN Arr(v.t, [i \in 1..Len(v.x) |-> Visited(v.x[i])])
  ELSE IF v.k = "n" THEN Num(v.t, VisitTy(v.y, v.v), v.v)
  ELSE v

\* What serializing a value as a value does to it: tags go, machine words get
\* their width.
SerTy(y) == IF y = "usize" THEN "u64" ELSE IF y = "isize" THEN "i64" ELSE y
RECURSIVE SerVal(_)
SerVal(v) ==
  IF IsD(v) THEN Dict("", [k \in DOMAIN v.m |-> SerVal(v.m[k])])
  ELSE IF IsA(v) THEN Arr("", [i \in 1..Len(v.x) |-> SerVal(v.x[i])])
  ELSE IF v.k = "n" THEN Num("", SerTy(v.y), v.v)
  ELSE [v EXCEPT !.t = ""]

\* What a value is called in errors: <<name, text>>
NumActual(y, v) == IF y \in UTypes THEN <<"unsigned", v>>
                   ELSE IF y \in ITypes THEN <<"signed", v>> ELSE <<"float", v>>
Actual(v) ==
  IF v.k = "s" THEN <<"str", v.v>> ELSE IF v.k = "c" THEN <<"char", v.v>>
  ELSE IF v.k = "b" THEN <<"bool", v.v>> ELSE IF v.k = "n" THEN NumActual(v.y, v.v)
  ELSE IF v.k = "e" THEN (IF v.v = "none" THEN <<"option", "">> ELSE <<"unit", "">>)
  ELSE IF v.k = "d" THEN <<"map", "">> ELSE <<"seq", "">>
=============================================================================
