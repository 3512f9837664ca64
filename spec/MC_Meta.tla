------------------------------- MODULE MC_Meta -------------------------------
(* Every kind of source, alone and over another: how it describes itself,    *)
(* and how the errors its values cause read.                                 *)
EXTENDS Ops
CONSTANT Kind
VARIABLES fst, snd, on
vars == <<fst, snd, on>>

(* -------------------------------- sources -------------------------------- *)
D == ("a" :> FigS("x")) @@ ("d" :> Dict("", ("b_c" :> FigS("y")) @@ ("n" :> Arr("", <<FigS("1"), Bool("", "true")>>))))
Doc == Dict("", D)
Profs == {"default", "global", "Debug"}
DataIn(p) == p :> D
Srcs == {<<"", "">>, <<"file", "f1.toml">>, <<"file", "sub/f2.toml">>, <<"absfile", "/no/such/f3">>, <<"custom", "vault">>}
Customs == {MapP(n, DataIn(p), "Debug") @@ [interp |-> i, src |-> s] : n \in {"my source"}, p \in Profs, i \in {"default", "upper", "slash", "count"}, s \in Srcs}
           \cup {ErrP("bad source", <<<<"went wrong", "a.b">>, <<"and this", "">>>>, "") @@ [interp |-> i, src |-> s] : i \in {"default", "upper"}, s \in Srcs}
Texts == {TextP("", f, IF o = <<<<"nested", "">>>> THEN Dict("", "Debug" :> Doc) ELSE Doc, o) : f \in {"toml", "json", "yaml", "yamlx", "cust"}, o \in {<<>>, <<<<"profile", "Debug">>>>, <<<<"nested", "">>>>}}
Files == {FileP("", f, p, a, o) : f \in {"toml", "json"}, p \in {"w/f.toml", "w/x/g.json", "missing.toml"}, a \in BOOLEAN,
                                  o \in {<<>>, <<<<"search", "false">>>>, <<<<"profile", "Debug">>>>, <<<<"required", "true">>>>}}
There(p) == (p.fmt = "toml" /\ p.path \in {"w/f.toml", "missing.toml"}) \/ (p.fmt = "json" /\ p.path = "w/x/g.json")
Strung(p) == [p EXCEPT !.abs = IF @ THEN "true" ELSE "false"]
Envs == {[kind |-> "env", steps |-> s, name |-> ""] : s \in {<<>>, <<<<"prefixed", "app_">>>>, <<<<"prefixed", "APP_">>, <<"split", "__">>>>,
           <<<<"prefixed", "App_">>, <<"split", "__">>, <<"profile", "Debug">>>>, <<<<"only", <<"app_a", "a">>>>, <<"global">>>>, <<<<"prefixed", "">>, <<"lowercase", "false">>>>}}
Sers == {SerP("", c, p, k, IF k = "" THEN Doc ELSE FigS("x")) : c \in {"from", "defaults", "globals", "default", "global", "defaultprof", "fromkey"}, p \in {"Debug", "default"}, k \in {"", "a", "d.b_c"}}
SerOk(p) == (p.key = "" /\ ~SerHasKey(p)) \/ (p.key # "" /\ SerHasKey(p))
Tups == {TupP("", k, FigS("x")) : k \in {"a", "d.b_c", ""}}
All == Customs \cup Texts \cup {Strung(p) : p \in {p \in Files : There(p)}} \cup Envs \cup {p \in Sers : SerOk(p)} \cup Tups
Second == {MapP("my source", DataIn("Debug"), "") @@ [interp |-> "upper", src |-> <<"custom", "vault">>],
           Strung(FileP("", "toml", "w/f.toml", FALSE, <<<<"profile", "Debug">>>>)), [kind |-> "env", steps |-> <<<<"prefixed", "app_">>, <<"split", "__">>>>, name |-> ""],
           TupP("", "a", FigS("x")), SerP("", "global", "", "d.b_c", FigS("x")), TextP("", "json", Doc, <<>>)}
Cwds == {"", "w", "w/x", "o/p"}
Set(k, v) == [op |-> "setenv", k |-> k, v |-> v]
Setup == << [op |-> "mkdir", path |-> "o/p"], [op |-> "wfile", path |-> "w/f.toml", text |-> "", fmt |-> "toml", doc |-> Doc, bad |-> "false"],
            [op |-> "wfile", path |-> "w/x/g.json", text |-> "", fmt |-> "json", doc |-> Doc, bad |-> "false"],
            Set("APP_A", "x"), Set("APP_D__B_C", "y"), Set("A", "z") >>
S0(c) == RunFrom(Setup \o <<[op |-> "cd", path |-> c]>>, 1, InitS)
None == [kind |-> "none"]

Init == fst = None /\ snd = None /\ on = FALSE
\* Sources are told apart by their names.
Next == ~on /\ on' = TRUE /\ \E a \in All, b \in (IF Kind = "single" THEN {None} ELSE {b \in Second : TRUE}) :
          (IF b.kind = "none" THEN TRUE ELSE NameOf(a) # NameOf(b)) /\ fst' = a /\ snd' = b
Spec == Init /\ [][Next]_vars

(* ---------------------------------- laws --------------------------------- *)
\* What every built-in source is called, where it is and how it spells keys
Called(p) ==
  CASE p.kind \in {"map", "err"} -> p.name
    [] p.kind \in {"text", "file"} ->
         (CASE p.fmt = "toml" -> "TOML" [] p.fmt = "json" -> "JSON" [] p.fmt = "yaml" -> "YAML" [] p.fmt = "yamlx" -> "YAML Extended" [] p.fmt = "cust" -> "Own")
         \o (IF p.kind = "text" THEN " source string" ELSE " file")
    [] p.kind = "env" ->
         LET pre == {i \in 1..Len(p.steps) : p.steps[i][1] = "prefixed"}
         IN (IF pre = {} THEN "" ELSE "`" \o Upper(p.steps[CHOOSE i \in pre : TRUE][2]) \o "` ") \o "environment variable(s)"
    [] OTHER -> "*"
Spelled(p, prof, keys) ==
  LET up == Upper(Join(keys, ".")) IN
  IF p.kind = "env" THEN up
  ELSE IF p.kind \in {"map", "err"} THEN
    (CASE p.interp = "upper" -> up [] p.interp = "count" -> "#" \o ToString(Len(keys)) [] p.interp = "slash" -> prof \o "/" \o Join(keys, "/")
       [] OTHER -> prof \o "." \o Join(keys, "."))
  ELSE prof \o "." \o Join(keys, ".")
Obs1(i) == [NoObs EXCEPT !.line = 100 + i, !.cline = 200 + i]
F1(S) == Provide(NewFig, fst, "merge", S, Obs1(1), 1)
F2(S) == IF snd.kind = "none" THEN F1(S) ELSE Provide(F1(S), snd, "merge", S, Obs1(2), 2)
Describes(p, e, i) ==
  /\ Called(p) \in {"*", e.name} /\ e.line = 100 + i
  /\ Interp(e.how, "Pr", <<"k", "l">>) = Spelled(p, "Pr", <<"k", "l">>)
  /\ (e.src = <<"", "">>) = (p.kind \in {"env", "text", "tuple"} \/ (p.kind \in {"map", "err"} /\ p.src = <<"", "">>))
  /\ p.kind = "ser" => e.src = <<"code", ToString(200 + i)>>
Listed(S) ==
  LET q == MdSeq(F2(S)) IN
  /\ Len(q) = (IF snd.kind = "none" THEN 1 ELSE 2)
  /\ Describes(fst, q[1], 1) /\ (snd.kind # "none" => Describes(snd, q[2], 2))
\* An error about a value names the key and the source, as they spell them.
At1x(f, key) == Extract(f, [t |-> "u8"], key, TRUE, FALSE, Empty, [files |-> Empty, dirs |-> {}])
Keys1 == {"a", "d.b_c", "d"}
Where1(e, c) == IF e.src[1] = "" THEN "" ELSE IF e.src[1] = "code" THEN "src/prov.rs:" \o e.src[2] \o " " ELSE IF e.src[1] = "custom" THEN e.src[2] \o " "
             ELSE IF e.src[1] = "relfile" THEN e.src[2] \o " " ELSE "?"
Reads(S, c) ==
  LET f == F2(S) q == MdSeq(f) IN
  f.ok => \A k \in Keys1 :
    LET x == At1x(f, k) IN
    x.st = "err" /\ x.raw # <<>> =>
      LET e == x.errs[1]
          w == CHOOSE w \in 1..Len(q) : q[w].name = e.md
          p == IF w = 1 /\ Called(fst) \in {"*", e.md} THEN fst ELSE snd
          text == ErrText(x.raw, f, c, 3)
          v == Find(Merged(f), k)
          prof == IF TagKind(v.t) = "custom" THEN f.prof ELSE TagKind(v.t)
          beg == "invalid type: found " \o (IF IsD(v) THEN "map" ELSE "string " \o Dbg(v.v)) \o ", expected u8 for key " \o Dbg(Spelled(p, prof, KeyPath(k))) \o " in "
      IN /\ e.md = TagName(v.t) /\ HasPrefix(text, beg)
         /\ LET loc == Drop(text, Len(beg)) IN
            /\ Where1(q[w], c) \in {"?", SubSeq(loc, 1, Len(loc) - Len(e.md))}
            /\ SubSeq(loc, Len(loc) - Len(e.md) + 1, Len(loc)) = e.md
\* Files show relative to the working directory where that is shorter.
Shown1 == /\ ShowFile(<<"file", "w/f.toml">>, "w", 3) = "f.toml" /\ ShowFile(<<"file", "w/f.toml">>, "w/x", 3) = "../f.toml"
          /\ ShowFile(<<"file", "w/f.toml">>, "", 3) = "w/f.toml" /\ ShowFile(<<"file", "w/f.toml">>, "o/p", 3) = "../../w/f.toml"
Laws == on => \A c \in Cwds : LET S == S0(c) IN (Listed(S) /\ Reads(S, c) /\ Shown1) \/ (PrintT(<<"LAW", fst, snd, c, Listed(S), Reads(S, c), Shown1, MdSeq(F2(S))>>) /\ FALSE)

CwdSeq == IF Kind = "single" THEN <<"", "w", "w/x", "o/p">> ELSE <<"w">>
Generated == on =>
  LET each(i) ==
        LET h == IF snd.kind = "none" THEN i ELSE 2 * i IN
        <<[op |-> "cd", path |-> CwdSeq[i]], From(fst)>> \o (IF snd.kind = "none" THEN <<>> ELSE <<Prov(h - 1, "merge", snd, "true")>>)
        \o <<[op |-> "meta", h |-> h], [op |-> "errdisp", h |-> h]>>
        \o Flat2([j \in 1..3 |-> <<X(h, <<"a", "d.b_c", "d">>[j], "true", IF j = 1 THEN "false" ELSE "true", [t |-> "u8"])>>])
        \o <<X(h, "", "false", "false", [t |-> "map", e |-> [t |-> "string"]]), X(h, "", "false", "true", [t |-> "u8"])>>
  IN Emit(Setup \o Flat2([i \in 1..Len(CwdSeq) |-> each(i)]))
=============================================================================
