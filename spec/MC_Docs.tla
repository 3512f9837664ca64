------------------------------- MODULE MC_Docs ------------------------------
(* Every small document, in every format, under every short list of options. *)
EXTENDS Ops
VARIABLES doc, kind, on
vars == <<doc, kind, on>>

I(n) == [k |-> "n", t |-> "", y |-> "int", v |-> n]
Fl(n) == [k |-> "n", t |-> "", y |-> "float", v |-> n]
S1(x) == Str("", x)
Leaf == {I("1"), I("-70000"), Fl("1.5"), S1("x"), S1(""), Bool("", "true"), Arr("", <<I("1"), S1("true")>>), Arr("", <<>>)}
Inner == Leaf \cup {Dict("", Empty), Dict("", "a" :> I("1")), Dict("", ("b" :> S1("y")) @@ ("a" :> Dict("", "c" :> Bool("", "false"))))}
Tables == {x \in Inner : IsD(x)}
Some1 == IF Thorough THEN Inner ELSE {I("1"), S1("x"), Arr("", <<I("1"), S1("true")>>), Dict("", "a" :> I("1"))}
Docs == {Dict("", Empty)} \cup {Dict("", "Debug" :> x) : x \in Inner} \cup {Dict("", ("Debug" :> x) @@ ("global" :> y)) : x \in Some1, y \in Tables}
        \cup {Dict("", ("a" :> x) @@ ("default" :> y)) : x \in Inner, y \in Some1}
\* With merge keys, for the format that has them
Mg(m, ms) == [k |-> "d", t |-> "", m |-> m, merge |-> ms]
Src == {Dict("", Empty), Dict("", "a" :> I("1")), Dict("", ("a" :> S1("s")) @@ ("b" :> I("2"))), Dict("", "b" :> Dict("", "c" :> I("3"))),
        Mg("c" :> I("4"), <<Dict("", ("b" :> I("5")) @@ ("c" :> I("6")))>>)}
Own == {Empty, "a" :> S1("own"), ("b" :> Dict("", "d" :> I("7"))) @@ ("z" :> I("8"))}
MDocs == {Mg(o, <<x>>) : o \in Own, x \in Src} \cup {Mg(o, <<x, y>>) : o \in Own, x \in Src, y \in Src}
         \cup {Dict("", "in" :> Mg(o, <<x>>)) : o \in Own, x \in Src} \cup {Mg("in" :> Mg(o, <<x>>), <<y>>) : o \in Own, x \in Src, y \in Src}
Tops == {Arr("", <<I("1")>>), S1("x"), I("1"), Arr("", <<>>)}     \* no tables at all

Init == kind \in {"plain", "merge", "top"} /\ doc = NoVal /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED kind /\
        doc' \in (CASE kind = "plain" -> Docs [] kind = "merge" -> MDocs [] kind = "top" -> Tops)
Spec == Init /\ [][Next]_vars

Opts1 == {<<"nested", "">>, <<"profile", "Debug">>, <<"profile", "GLOBAL">>}
Optss == {<<>>} \cup {<<x>> : x \in Opts1} \cup {<<x, y>> : x \in Opts1, y \in Opts1} \cup (IF Thorough THEN {<<x, y, z>> : x \in Opts1, y \in Opts1, z \in Opts1} ELSE {})
Formats == CASE kind = "plain" -> {"toml", "json", "yaml", "yamlx", "cust"} [] kind = "merge" -> {"yamlx"} [] kind = "top" -> {"json", "yaml", "yamlx"}

(* ---------------------------------- laws --------------------------------- *)
\* What a document says, without formats: numbers are integers or floats.
RECURSIVE Said(_)
Said(d) ==
  IF IsD(d) THEN
    LET ms == IF "merge" \in DOMAIN d THEN [i \in 1..Len(d.merge) |-> Said(d.merge[i])] ELSE <<>>
        keys == DOMAIN d.m \cup UNION {DOMAIN ms[i].m : i \in 1..Len(ms)}
    IN Dict("", [k \in keys |-> IF k \in DOMAIN d.m THEN Said(d.m[k])
                                ELSE ms[CHOOSE i \in 1..Len(ms) : k \in DOMAIN ms[i].m /\ \A j \in 1..(i - 1) : k \notin DOMAIN ms[j].m].m[k]])
  ELSE IF IsA(d) THEN Arr("", [i \in 1..Len(d.x) |-> Said(d.x[i])])
  ELSE d
RECURSIVE Plainly(_)
Plainly(v) == IF IsD(v) THEN Dict("", [k \in DOMAIN v.m |-> Plainly(v.m[k])])
              ELSE IF IsA(v) THEN Arr("", [i \in 1..Len(v.x) |-> Plainly(v.x[i])])
              ELSE IF v.k = "n" THEN [v EXCEPT !.y = IF v.y \in FTypes THEN "float" ELSE "int"] ELSE v
Expect(o) ==
  LET said == Said(doc) last == IF o = <<>> THEN <<"profile", "default">> ELSE o[Len(o)]
  IN IF ~IsD(said) THEN [ok |-> FALSE, maps |-> Empty]
     ELSE IF last[1] = "profile" THEN [ok |-> TRUE, maps |-> Lower(last[2]) :> said.m]
     ELSE IF \E k \in DOMAIN said.m : ~IsD(said.m[k]) THEN [ok |-> FALSE, maps |-> Empty]
     ELSE [ok |-> TRUE, maps |-> [q \in {Lower(k) : k \in DOMAIN said.m} |-> LET k == CHOOSE k \in DOMAIN said.m : Lower(k) = q IN said.m[k].m]]
Got(fmt, o) == LET c == FromDoc(fmt, doc, "false", o)
               IN [ok |-> c.ok, maps |-> [q \in DOMAIN c.maps |-> [k \in DOMAIN c.maps[q] |-> Plainly(c.maps[q][k])]]]
Laws == on => \A o \in Optss : LET e == Expect(o) IN \A f \in Formats : Got(f, o) = e

OptSeq == SetSeq(Optss)
FmtSeq == SetSeq(Formats)
File(i, fmt) == "d" \o ToString(i) \o "." \o fmt
Generated == on =>
  LET texts == Flat2([i \in 1..Len(FmtSeq) |-> [j \in 1..Len(OptSeq) |-> From(TextP("T", FmtSeq[i], doc, OptSeq[j]))]])
      files == Flat2([i \in 1..Len(FmtSeq) |-> <<[op |-> "wfile", path |-> File(i, FmtSeq[i]), text |-> "", fmt |-> FmtSeq[i], doc |-> doc, bad |-> "false"],
                 From(FileP("F", FmtSeq[i], File(i, FmtSeq[i]), IF i % 2 = 0 THEN "true" ELSE "false", OptSeq[1 + (i % Len(OptSeq))]))>>])
  IN Emit(texts \o files)
=============================================================================
