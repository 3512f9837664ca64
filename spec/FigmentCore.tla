----------------------------- MODULE FigmentCore ----------------------------
(* Figments and providers: the state of a session and its transitions.       *)
(* A figment is [prof, md, ok, maps, errs]: the selected profile as spelled, *)
(* the metadata received (by identity, i.e. by order), whether all providers *)
(* succeeded, the dictionaries by (lower case) profile and the failures in   *)
(* order. Values carry tags "source name:profile kind".                      *)
EXTENDS Inspect, EnvKeys

NoMd == [x \in {} |-> ""]
NewFig == [prof |-> "default", md |-> NoMd, ok |-> TRUE, maps |-> Empty, errs |-> <<>>]
InitS == [figs |-> <<>>, held |-> <<>>, env |-> Empty, n |-> 0, cwd |-> "",
          fs |-> [files |-> Empty, dirs |-> {}]]

RECURSIVE SortNats(_)
SortNats(N) == IF N = {} THEN <<>>
               ELSE LET m == CHOOSE i \in N : \A j \in N : i <= j IN <<m>> \o SortNats(N \ {m})
MdSeq(f) == LET q == SortNats(DOMAIN f.md) IN [i \in 1..Len(q) |-> f.md[q[i]]]
MdOf(f, name) == LET q == MdSeq(f) ix == {i \in 1..Len(q) : q[i].name = name}
                 IN IF ix = {} THEN [name |-> "", src |-> <<"", "">>, how |-> "default"]
                    ELSE q[CHOOSE i \in ix : TRUE]

(* ------------------------- what providers provide ------------------------ *)
Data(ms) == [ok |-> TRUE, maps |-> ms, errs |-> <<>>]
Fails(errs) == [ok |-> FALSE, maps |-> Empty, errs |-> errs]
InProfile(p, m) == Data([q \in {Lower(p)} |-> m])
AnyMsg == <<"Message", "*">>

NotADict(v) == Fails(<<Err(<<"InvalidType", Actual(v)[1], Actual(v)[2], "map">>, <<>>, "")>>)
\* A value under a key in a profile
Keyed(p, key, v) ==
  LET w == Nest(key, v) IN IF IsD(w) THEN InProfile(p, w.m) ELSE NotADict(v)
SerProfile(p) ==
  CASE p.ctor \in {"from", "defaultprof", "fromkey"} -> p.prof
    [] p.ctor \in {"defaults", "default"} -> "default"
    [] p.ctor \in {"globals", "global"} -> "global"
SerKey(p) == IF p.ctor \in {"default", "global", "defaultprof", "fromkey"} THEN p.key ELSE ""
SerHasKey(p) == p.ctor \in {"default", "global", "defaultprof", "fromkey"}

\* Documents: what the formats make of a neutral document.
IntTy(fmt, n) == IF fmt = "toml" THEN "i64" ELSE IF IsNeg(n) THEN "i64" ELSE "u64"
RECURSIVE DocVal(_, _), MergeAll(_, _, _)
DocDict(fmt, d) ==
  LET own == [k \in DOMAIN d.m |-> DocVal(fmt, d.m[k])]
      ms == IF "merge" \in DOMAIN d THEN d.merge ELSE <<>>
  IN MergeAll(fmt, ms, own)
\* Merge keys: what is there already stays, earlier ones before later ones.
MergeAll(fmt, ms, acc) ==
  IF ms = <<>> THEN acc
  ELSE LET n == DocDict(fmt, ms[1]) IN MergeAll(fmt, Tail(ms), acc @@ n)
DocVal(fmt, d) ==
  IF d.k = "d" THEN Dict("", DocDict(fmt, d))
  ELSE IF d.k = "a" THEN Arr("", [i \in 1..Len(d.x) |-> DocVal(fmt, d.x[i])])
  ELSE IF d.k = "n" THEN (IF d.y = "int" THEN Num("", IntTy(fmt, d.v), d.v) ELSE Num("", "f64", d.v))
  ELSE IF d.k = "e" THEN Unit("")
  ELSE [k |-> d.k, t |-> "", v |-> d.v]

\* Options of text sources, in order: the last of nested/profile counts.
RECURSIVE LastOpt(_, _, _, _)
LastOpt(opts, i, names, dflt) ==
  IF i = 0 THEN dflt ELSE IF opts[i][1] \in names THEN opts[i] ELSE LastOpt(opts, i - 1, names, dflt)
TextProfile(opts) == LastOpt(opts, Len(opts), {"nested", "profile"}, <<"profile", "default">>)
OptTrue(opts, name, dflt) == LastOpt(opts, Len(opts), {name}, <<name, dflt>>)[2] = "true"
FromDoc(fmt, doc, bad, opts) ==
  LET pr == TextProfile(opts)
      v == DocVal(fmt, doc)
  IN IF bad = "true" \/ ~IsD(v) THEN Fails(<<Err(AnyMsg, <<>>, "")>>)
     ELSE IF pr[1] = "profile" THEN InProfile(pr[2], v.m)
     ELSE IF \E k \in DOMAIN v.m : ~IsD(v.m[k]) THEN Fails(<<Err(AnyMsg, <<>>, "")>>)
     ELSE LET ps == {Lower(k) : k \in DOMAIN v.m}
          IN Data([q \in ps |-> v.m[CHOOSE k \in DOMAIN v.m : Lower(k) = q].m])
FmtName(fmt) == CASE fmt = "toml" -> "TOML" [] fmt = "json" -> "JSON" [] fmt = "yaml" -> "YAML"
                  [] fmt = "yamlx" -> "YAML Extended" [] fmt = "cust" -> "Own"

FileOf(p, S) == Resolve(S.fs, S.cwd, p.path, p.abs = "true", OptTrue(p.opts, "search", "true"))
FromFile(p, S) ==
  LET r == FileOf(p, S) IN
  IF r.found THEN LET c == S.fs.files[r.key] IN FromDoc(p.fmt, c.doc, c.bad, p.opts)
  ELSE IF OptTrue(p.opts, "required", "false")
    THEN Fails(<<Err(Msg("required file `" \o (IF p.abs = "true" THEN Cat("ROOT", p.path) ELSE p.path)
                         \o "` not found"), <<>>, "")>>)
  ELSE Data(Empty)

(* ---------------------------- what figments give ------------------------- *)
Layer(f, q) == IF q \in DOMAIN f.maps THEN f.maps[q] ELSE Empty
Merged(f) ==
  LET sel == Lower(f.prof)
      base == IF sel \in {"default", "global"} THEN Layer(f, "default")
              ELSE CoMap(Layer(f, "default"), Layer(f, sel), "merge")
  IN Dict("", CoMap(base, Layer(f, "global"), "merge"))

\* Errors as reported: attributed through their tags.
ProfOfTag(t, f) == IF TagKind(t) = "custom" THEN f.prof ELSE TagKind(t)
\* An error of a source that f does not know keeps what another figment
\* said about it: its fields `md` and `prof`.
Knows(e, f) == "md" \notin DOMAIN e \/ \E i \in DOMAIN f.md : f.md[i].name = TagName(e.t)
ProfOf(e, f) == IF Knows(e, f) THEN ProfOfTag(e.t, f) ELSE e.prof
Shown(e, f) == [kind |-> e.kind, path |-> e.path, md |-> TagName(e.t), prof |-> Lower(ProfOf(e, f))]
\* What f says about an error of its own
Stated(e, f) == IF e.t = "" \/ ~Knows(e, f) THEN e
              ELSE [kind |-> e.kind, path |-> e.path, t |-> e.t, md |-> MdOf(f, TagName(e.t)), prof |-> ProfOfTag(e.t, f)]
ShownAll(es, f) == [i \in 1..Len(es) |-> Shown(es[i], f)]
Missing(path) == [kind |-> <<"MissingField", path>>, path |-> <<>>, md |-> "", prof |-> ""]

\* Context of a typed extraction from f
Ctx(f, fc, fs) ==
  LET q == MdSeq(f)
  IN [fc |-> fc,
      src |-> [nm \in {q[i].name : i \in 1..Len(q)} |-> MdOf(f, nm).src],
      dirs |-> {Cat("ROOT", d) : d \in fs.dirs} \cup {"ROOT"}]

\* Result of extraction at a type, from the root or from an inner key
Extract(f, T, path, inner, lossy, fc, fs) ==
  IF ~f.ok THEN [st |-> "err", errs |-> ShownAll(f.errs, f), raw |-> f.errs]
  ELSE LET v == TLCEval(IF inner THEN Find(Merged(f), path) ELSE Merged(f)) IN
    IF v = NoVal THEN [st |-> "err", errs |-> <<Missing(path)>>, raw |-> <<>>]
    ELSE LET r == TLCEval(De(v, T, lossy, Ctx(f, fc, fs))) IN
      IF r.ok THEN [st |-> "ok", r |-> r.r, errs |-> <<>>, raw |-> <<>>]
      ELSE LET e == [r.e EXCEPT !.path = (IF inner THEN KeyPath(path) ELSE <<>>) \o @]
           IN [st |-> "err", errs |-> <<Shown(e, f)>>, raw |-> <<e>>]

\* Providers made of another figment: one that takes a value out of it and
\* adds one of its own, and one that reads it as a type and fails if that does.
Grafted(p, S) ==
  LET g == S.figs[p.h]
      v == IF g.ok THEN Find(Merged(g), p.path) ELSE NoVal
      w == IF v = NoVal THEN p.fresh ELSE IF IsD(v) THEN [v EXCEPT !.m = ("fresh" :> p.fresh) @@ @] ELSE v
  IN InProfile(p.layer, Nest(p.key, w).m)
Within(p, S, obs) ==
  LET g == S.figs[p.h]
      x == TLCEval(Extract(g, p.ty, p.path, p.root # "true", FALSE, obs.fc, S.fs))
      es == IF x.raw # <<>> THEN x.raw ELSE [i \in 1..Len(x.errs) |-> Err(x.errs[i].kind, <<>>, "")]
  IN IF x.st = "ok" THEN InProfile("default", [k \in {"inner"} |-> Bool("", "true")])
     ELSE Fails([i \in 1..Len(es) |-> Stated(es[i], g)])

\* What a provider gives when provided in state S; obs has the float tables.
Content(p, S, obs) ==
  CASE p.kind = "map" ->
         Data([q \in {Lower(k) : k \in DOMAIN p.data} |->
                 p.data[CHOOSE k \in DOMAIN p.data : Lower(k) = q]])
    [] p.kind = "err" ->
         Fails(IF "tree" \in DOMAIN p THEN Causes(p.tree) ELSE [i \in 1..Len(p.msgs) |->
                  Err(Msg(p.msgs[i][1]), NonEmpty(Split(p.msgs[i][2], ".")), "")])
    [] p.kind = "graft" -> Grafted(p, S)
    [] p.kind = "inner" -> Within(p, S, obs)
    [] p.kind = "fig" -> LET g == S.figs[p.h] IN [ok |-> g.ok, maps |-> g.maps, errs |-> g.errs]
    [] p.kind = "tuple" -> Keyed("global", p.key, SerVal(p.val))
    [] p.kind = "ser" -> Keyed(SerProfile(p), SerKey(p), SerVal(p.val))
    [] p.kind = "sert" -> Keyed(SerProfile(p), SerKey(p), Ser(p.ty, p.typed))
    [] p.kind = "env" ->
         LET ds == EnvDicts(p.steps, S.env, obs.ft, obs.ut)
         IN InProfile(EnvProfile(p.steps), CHOOSE d \in ds : TRUE)
    [] p.kind = "text" -> FromDoc(p.fmt, p.doc, p.bad, p.opts)
    [] p.kind = "file" -> FromFile(p, S)

\* The selection a provider makes, "" if none.
OwnKinds == {"map", "err", "graft", "inner"}
Selects(p, S) == CASE p.kind = "fig" -> S.figs[p.h].prof
                   [] p.kind \in OwnKinds -> p.prof
                   [] OTHER -> ""

OwnName(p) ==
  CASE p.kind = "fig" -> "Default"
    [] p.kind = "tuple" -> "(alloc::string::String, figment::value::value::Value)"
    [] p.kind = "ser" -> "figment::value::value::Value"
    [] p.kind = "sert" -> "figconf::ty::Ser"
    [] p.kind = "env" -> EnvName(p.steps)
    [] p.kind = "text" -> FmtName(p.fmt) \o " source string"
    [] p.kind = "file" -> FmtName(p.fmt) \o " file"
    [] OTHER -> "custom"
NameOf(p) == IF p.kind # "fig" /\ p.name # "" THEN p.name ELSE OwnName(p)
SourceOf(p, S, obs) ==
  CASE p.kind \in {"ser", "sert"} -> <<"code", ToString(obs.cline)>>
    [] p.kind = "file" -> FileOf(p, S).src
    [] p.kind \in OwnKinds /\ "src" \in DOMAIN p ->
         IF p.src[1] = "absfile" THEN <<"relfile", p.src[2]>>
         ELSE IF p.src[1] = "code" THEN <<"code", "*">> ELSE p.src
    [] OTHER -> <<"", "">>
HowOf(p) == IF p.kind = "env" THEN "env"
            ELSE IF p.kind \in OwnKinds /\ "interp" \in DOMAIN p THEN p.interp ELSE "default"

(* ------------------------------ combination ------------------------------ *)
TagMaps(ms, name) == [q \in DOMAIN ms |-> TaggedMap(ms[q], name \o ":" \o KindOfProfile(q))]
TagErrs(es, name) == [i \in 1..Len(es) |->
                        IF es[i].t = "" THEN [es[i] EXCEPT !.t = name \o ":default"] ELSE es[i]]

\* Provides p to figment f with strategy ord as the n-th source overall.
Provide(f, p, ord, S, obs, n) ==
  LET c == TLCEval(Content(p, S, obs))
      sel == Selects(p, S)
      name == NameOf(p)
      entry == [name |-> name, src |-> SourceOf(p, S, obs), line |-> obs.line, how |-> HowOf(p)]
      got == IF p.kind = "fig" THEN S.figs[p.h].md ELSE NoMd
      errs == IF c.ok THEN <<>> ELSE TagErrs(c.errs, name)
  IN [prof |-> IF sel # "" /\ ord \in {"merge", "admerge"} THEN sel ELSE f.prof,
      md |-> (n :> entry) @@ got @@ f.md,
      ok |-> f.ok /\ c.ok,
      maps |-> IF f.ok /\ c.ok THEN CoMaps(f.maps, TagMaps(c.maps, name), ord) ELSE Empty,
      errs |-> f.errs \o errs]

Focus(f, key) ==
  LET at(q) == Find(Dict("", f.maps[q]), key)
      keep == {q \in DOMAIN f.maps : at(q).k = "d"}
  IN [f EXCEPT !.maps = [q \in keep |-> at(q).m]]

(* ------------------------------ observations ----------------------------- *)
\* The text of the errors of f
ErrLine(e, f, cwd, depth) ==
  LET nm == TagName(e.t)
      md == IF Knows(e, f) THEN MdOf(f, nm) ELSE e.md
      key == IF e.path # <<>> /\ nm # "" THEN
               " for key " \o Dbg(Interp(md.how, ProfOf(e, f), e.path)) ELSE ""
      src == IF md.src[1] = "" THEN ""
             ELSE IF md.src[1] = "code" THEN "src/prov.rs:" \o md.src[2] \o " "
             ELSE IF md.src[1] = "custom" THEN md.src[2] \o " "
             ELSE ShowFile(md.src, cwd, depth) \o " "
  IN KindText(e.kind) \o key \o (IF nm = "" THEN "" ELSE " in " \o src \o nm)
ErrText(es, f, cwd, depth) == Join([i \in 1..Len(es) |-> ErrLine(es[i], f, cwd, depth)], "\n")

(* ------------------------------ transitions ------------------------------ *)
\* A provider made earlier on reads what it names when it is provided.
AsGiven(p, S) == IF p.kind = "held" THEN [S.held[p.i] EXCEPT !.name = p.name] ELSE p
AddFig(S, f) == [S EXCEPT !.figs = Append(@, f)]
Parents(p) == {d \in Prefixes(p) : d # ""}
Apply(S, ev) ==
  CASE ev.op = "setenv" -> [S EXCEPT !.env = (ev.k :> ev.v) @@ @]
    [] ev.op = "unsetenv" -> [S EXCEPT !.env = [k \in (DOMAIN @) \ {ev.k} |-> @[k]]]
    [] ev.op = "mkdir" -> [S EXCEPT !.fs.dirs = @ \cup Parents(ev.path)]
    [] ev.op = "mkodd" ->      \* there, but neither a file nor a directory
         [S EXCEPT !.fs.dirs = @ \cup (Parents(ev.path) \ {Slashed(Plain(ev.path))})]
    [] ev.op = "wfile" ->
         [S EXCEPT !.fs.files = (Slashed(PComps(ev.path)) :> [doc |-> ev.doc, bad |-> ev.bad]) @@ @,
                   !.fs.dirs = @ \cup (Parents(ev.path) \ {Slashed(PComps(ev.path))})]
    [] ev.op = "rm" ->
         [S EXCEPT !.fs.files = [p \in (DOMAIN @) \ {Slashed(PComps(ev.path))} |-> @[p]]]
    [] ev.op = "cd" -> [S EXCEPT !.cwd = Slashed(Plain(ev.path))]
    [] ev.op = "hold" -> [S EXCEPT !.held = Append(@, ev.p)]
    [] ev.op \in {"new", "default"} -> AddFig(S, NewFig)
    [] ev.op = "from" ->
         AddFig([S EXCEPT !.n = @ + 1], Provide(NewFig, AsGiven(ev.p, S), "merge", S, ev.obs, S.n + 1))
    [] ev.op = "prov" ->
         AddFig([S EXCEPT !.n = @ + 1], Provide(S.figs[ev.h], AsGiven(ev.p, S), ev.ord, S, ev.obs, S.n + 1))
    [] ev.op = "select" -> AddFig(S, [S.figs[ev.h] EXCEPT !.prof = ev.prof])
    [] ev.op = "focus" -> AddFig(S, Focus(S.figs[ev.h], ev.key))
    [] OTHER -> S
NewsFig(op) == op \in {"new", "default", "from", "prov", "select", "focus"}
=============================================================================
