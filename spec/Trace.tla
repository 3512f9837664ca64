-------------------------------- MODULE Trace -------------------------------
(* Checks recorded sessions of the real library against the specification:   *)
(* every event must have exactly the outcome the specification gives it.     *)
(* TRACE names the recorded sessions, VIEW the outcomes to compare.          *)
EXTENDS FigmentCore, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
View == SeqSet(Split(IOEnv.VIEW, ","))

VARIABLES sid, l, S, bad
vars == <<sid, l, S, bad>>

(* Every comparison is <<name, expected, observed>>. *)
KindEq(e, g) == e = g \/ (e[1] = "Message" /\ e[2] = "*" /\ g[1] = "Message")
Kinds(es, gs) ==     \* expected kinds, with what is unspecified filled in
  IF Len(es) # Len(gs) THEN [i \in 1..Len(es) |-> es[i].kind]
  ELSE [i \in 1..Len(es) |-> IF KindEq(es[i].kind, gs[i].kind) THEN gs[i].kind ELSE es[i].kind]
\* The same with the unspecified texts of errors taken from the observation
Filled(es, gs) == LET ks == Kinds(es, gs) IN [i \in 1..Len(es) |-> [es[i] EXCEPT !.kind = ks[i]]]
Col(es, f) == [i \in 1..Len(es) |-> es[i][f]]
Attrs(es) == [i \in 1..Len(es) |-> <<es[i].md, es[i].prof>>]
Errs(pre, es, gs) ==
  << <<pre \o "kinds", Kinds(es, gs), Col(gs, "kind")>>,
     <<pre \o "paths", Col(es, "path"), Col(gs, "path")>>,
     <<pre \o "attrs", Attrs(es), Attrs(gs)>> >>

Bare2(v) == IF v = NoVal THEN v ELSE Strip(v)
NamesOf(f) == Col(MdSeq(f), "name")
ExtOf(f) == IF f.ok THEN Visited(Merged(f)) ELSE NoVal
MergedOf(f) == IF f.ok THEN Merged(f) ELSE NoVal

FigCmp(f, o) ==
  LET es == ShownAll(f.errs, f)
      profs == IF f.ok THEN DOMAIN f.maps ELSE {}
  IN << <<"prof", Lower(f.prof), o.prof>>, <<"rawprof", f.prof, o.rawprof>>,
        <<"profs", profs, SeqSet(o.profs)>>, <<"nprofs", Cardinality(profs), Len(o.profs)>>,
        <<"mds", NamesOf(f), o.mds>>,
        <<"st", IF f.ok THEN "ok" ELSE "err", o.st>>,
        <<"data", f.maps, o.data>>, <<"datav", StripMaps(f.maps), StripMaps(o.data)>>,
        <<"merged", MergedOf(f), o.merged>>, <<"mergedv", Strip(MergedOf(f)), Strip(o.merged)>>,
        <<"ext", ExtOf(f), o.ext>>, <<"extv", Strip(ExtOf(f)), Strip(o.ext)>>,
        <<"count", Len(es), o.count>> >> \o Errs("err", es, o.errs)

\* A projection as one value, for comparing several figments at once
FigRec(f) == [prof |-> Lower(f.prof), rawprof |-> f.prof, mds |-> NamesOf(f),
              st |-> IF f.ok THEN "ok" ELSE "err", data |-> f.maps, merged |-> MergedOf(f),
              ext |-> ExtOf(f), attrs |-> Attrs(ShownAll(f.errs, f))]
ObsRec(o) == [prof |-> o.prof, rawprof |-> o.rawprof, mds |-> o.mds, st |-> o.st, data |-> o.data,
              merged |-> o.merged, ext |-> o.ext, attrs |-> Attrs(o.errs)]

Found(v) == [st |-> IF v = NoVal THEN "none" ELSE "ok", v |-> v]
ObsFound(o) == [st |-> o.st, v |-> o.v]
Again(v) == Visited(SerVal(v))      \* a value given to a figment and read again
QueryCmp(f, path, o) ==
  LET v == IF f.ok THEN Find(Merged(f), path) ELSE NoVal
      root == IF f.ok THEN Merged(f) ELSE Bool("", "false")
      r == Find(root, path)
      es == IF ~f.ok THEN ShownAll(f.errs, f) ELSE IF v = NoVal THEN <<Missing(path)>> ELSE <<>>
      w == IF v = NoVal THEN v ELSE Visited(v)
      st == IF v = NoVal THEN "err" ELSE "ok"
      tag == IF v = NoVal THEN "" ELSE v.t
  IN << <<"q.st", st, o.find.st>>,
        <<"q.find", v, o.find.v>>, <<"q.findv", Bare2(v), Bare2(o.find.v)>>,
        <<"q.contains", v # NoVal, o.contains>>,
        <<"q.md", TagName(tag), o.md>>,
        <<"q.innerst", st, o.inner.st>>, <<"q.inner", w, o.inner.v>>,
        <<"q.innerv", Bare2(w), Bare2(o.inner.v)>>,
        <<"q.lossy", [st |-> st, v |-> w], ObsFound(o.innerlossy)>>,
        <<"q.tagged", [st |-> st, v |-> w, tag |-> tag], o.tagged>>,
        <<"q.again", IF v = NoVal THEN <<>>
                     ELSE <<IF tag = "" THEN "here" ELSE tag, Bare2(Again(w)), "here", Bare2(Again(w))>>,
                     IF Len(o.again) < 4 THEN o.again ELSE <<o.again[1], Bare2(o.again[2]), o.again[3], Bare2(o.again[4])>>>>,
        <<"q.vref", Found(r), ObsFound(o.vref)>>, <<"q.vfind", Found(r), ObsFound(o.vfind)>> >>
     \o Errs("q.find", es, o.find.errs) \o Errs("q.inner", es, o.inner.errs)

ExtractCmp(f, ev, o, cwd, depth, fs) ==
  LET x == Extract(f, ev.ty, ev.path, ev.inner = "true", ev.lossy = "true", o.fc, fs)
      text == IF x.st = "ok" THEN ""
              ELSE IF x.raw # <<>> THEN ErrText(Filled(x.raw, o.errs), f, cwd, depth) ELSE KindText(x.errs[1].kind)
  IN << <<"x.st", x.st, o.st>>,
        <<"x.r", IF x.st = "ok" THEN x.r ELSE [r |-> "-"], o.r>>,
        <<"x.disp", text, o.disp>> >> \o Errs("x.", x.errs, o.errs)

Settled(src) == IF src[1] = "file" THEN <<"file", Slashed(Plain(src[2]))>> ELSE src
MetaOf(m) == [name |-> m.name, src |-> Settled(m.src), line |-> m.line, here |-> TRUE,
              key |-> Interp(m.how, "Dev", <<"a", "b_c">>)]
\* Sources are the same if their names are and what they refer to is; the text
\* of a path may differ.
SameSrc(a, b) == IF a = b THEN {TRUE}
                 ELSE IF a[1] = b[1] /\ a[1] \in {"file", "relfile"} /\ PComps(a[2]) = PComps(b[2]) THEN {TRUE, FALSE}
                 ELSE {FALSE}
SameMeta(a, b) == IF a.name = b.name THEN SameSrc(a.src, b.src) ELSE {FALSE}
OneOfSet(got, set) == IF got \in set THEN got ELSE CHOOSE x \in set : TRUE
SrcFill(e, g) == IF e = <<"code", "*">> /\ g[1] = "code" THEN g ELSE e
MetaCmp(f, o) ==
  LET q == MdSeq(f)
      exp == [i \in 1..Len(q) |-> LET m == MetaOf(q[i]) IN
                IF Len(q) = Len(o.metas) THEN [m EXCEPT !.src = SrcFill(@, o.metas[i].src)] ELSE m]
      got == [i \in 1..Len(o.metas) |-> [k \in (DOMAIN o.metas[i]) \ {"eq"} |->
                IF k = "src" THEN Settled(o.metas[i].src) ELSE o.metas[i][k]]]
      eqs == [i \in 1..Len(o.metas) |-> [j \in 1..Len(o.metas[i].eq) |->
                OneOfSet(o.metas[i].eq[j], SameMeta(o.metas[i], o.metas[j]))]]
  IN << <<"metas", exp, got>>, <<"metas", eqs, [i \in 1..Len(o.metas) |-> o.metas[i].eq]>> >>

EnvCmp(St, ev, o) ==
  LET ds == EnvDicts(ev.p.steps, St.env, o.ft, o.ut)
      exp == {[q \in {EnvProfile(ev.p.steps)} |-> d] : d \in ds}
      es == EnvEntries(ev.p.steps, St.env)
  IN << <<"env.data", OneOfSet(o.data, exp), o.data>>,
        <<"env.iter", {es[i] : i \in 1..Len(es)}, SeqSet(o.iter)>>,
        <<"env.len", Len(es), Len(o.iter)>>,
        <<"env.name", EnvName(ev.p.steps), o.name>> >>
VarCmp(St, ev, o) ==
  LET vs == EnvVars(St.env, ev.name)
      some(set, got) == OneOfSet(got, IF set = {} THEN {<<"none", "">>} ELSE {<<"some", v>> : v \in set})
      or(set, got) == OneOfSet(got, IF set = {} THEN {"DFLT"} ELSE set)
      tv == {Trim(v) : v \in vs}
  IN << <<"var", some(tv, o.var), o.var>>, <<"varor", or(tv, o.varor), o.varor>>,
        <<"varprof", some(vs, o.prof), o.prof>>, <<"varprofor", or(vs, o.profor), o.profor>> >>

BadKey == [u8 |-> <<"unsigned", "1">>, bool |-> <<"bool", "true">>, char |-> <<"char", "c">>,
           unit |-> <<"unit", "">>, none |-> <<"option", "">>, f64 |-> <<"float", "1.5">>,
           seq |-> <<"seq", "">>, map |-> <<"map", "">>]
UnErr(k) == <<[kind |-> k, path |-> <<>>, md |-> "", prof |-> ""]>>
SerCmp(ev, o) ==
  LET v == Ser(ev.ty, ev.val)
      r == De(v, ev.ty, FALSE, [fc |-> o.fc, src |-> Empty, dirs |-> {}])
      faithful == Faithful(ev.ty)
      res == IF r.ok THEN [st |-> "ok", r |-> r.r] ELSE [st |-> "err", r |-> [r |-> "-"]]
      readable == ev.ty.t # "bytes"
  IN << <<"ser.v", v, o.v>>, <<"ser.again", SerVal(v), o.again>> >>
     \o (IF readable
         THEN << <<"ser.back", res, [st |-> o.back.st, r |-> o.back.r]>>,
                 <<"ser.same", IF faithful THEN ev.val ELSE o.back.r, o.back.r>> >>
         ELSE <<>>)
\* A value by itself, of no source
VdeCmp(ev, o) ==
  LET r == De(Strip(ev.val), ev.ty, FALSE, [fc |-> o.fc, src |-> Empty, dirs |-> {}])
      es == IF r.ok THEN <<>> ELSE <<[kind |-> r.e.kind, path |-> r.e.path, md |-> "", prof |-> ""]>>
  IN << <<"vde.st", IF r.ok THEN "ok" ELSE "err", o.st>>,
        <<"vde.r", IF r.ok THEN r.r ELSE [r |-> "-"], o.r>> >> \o Errs("vde.", es, o.errs)
BadMapCmp(ev, o) ==
  LET ok == ev.key \notin DOMAIN BadKey
      es == IF ok THEN <<>> ELSE UnErr(<<"UnsupportedKey">> \o BadKey[ev.key] \o <<"string">>)
  IN << <<"badmap.st", IF ok THEN "ok" ELSE "err", o.st>>,
        <<"badmap.v", IF ok THEN Only("k", Str("", "x")) ELSE NoVal, o.v>> >>
     \o Errs("badmap.", es, o.errs)

Opt2(x) == IF x = "" THEN <<"none", "">> ELSE <<"some", x>>
LossyCmp(ev, o) ==
  LET v == ev.val n == LossyNum(v, o.fc)
      of(tys) == IF v.k = "n" /\ v.y \in tys THEN v.v ELSE ""
  IN << <<"lossy.b", Opt2(LossyBool(v)), o.b>>,
        <<"lossy.n", IF n = NoNum THEN <<"none", "", "">> ELSE <<"some", n[1], n[2]>>, o.n>>,
        <<"lossy.u", of(UTypes), o.u>>, <<"lossy.i", of(ITypes), o.i>>, <<"lossy.f", of(FTypes), o.f>>,
        <<"lossy.act", Actual(v), o.act>> >>

ProfCmp(ev, o) ==
  LET eq == EqCI(ev.a, ev.b) IN
  << <<"pe.eq", eq, o.eq>>, <<"pe.eqstr", eq, o.eqstr>>, <<"pe.hash", eq \/ o.hash, o.hash>>,
     <<"pe.ord", eq, o.ord = "0">>, <<"pe.custom", Lower(ev.a) \notin {"default", "global"}, o.custom>>,
     <<"pe.disp", ev.a, o.disp>>, <<"pe.str", ev.a, o.str>>, <<"pe.starts", HasPrefixCI(ev.a, ev.b), o.starts>>,
     <<"pe.ser", Str("", ev.a), o.ser>>, <<"pe.de", ev.a, o.de>> >>

Steps(p) == <<IsAbs(p), PComps(p)>>     \* equal paths have the same
RelCmp(f, ev, o, fs) ==
  LET read(k, ty) == Extract(f, [t |-> ty], k, TRUE, FALSE, Empty, fs)
      x == read(ev.path, "relpath") y == read(ev.other, "relpath") z == read(ev.other, "string") w == read(ev.path, "string")
      eq(a) == [i \in 1..Len(a) |-> IF i = 3 THEN ~a[i] ELSE a[i]]
      e1 == Steps(x.r.rel) = Steps(y.r.rel)
      e2 == x.r.v = z.r.v
  IN
  << <<"rs.st", x.st, o.st>> >> \o
  (IF x.st = "ok" /\ o.st = "ok"
   THEN << <<"rs.a", x.r, o.a>>, <<"rs.b", x.r, o.b>>,
           <<"rs.orig", Str("", x.r.v), o.orig>>, <<"rs.rel", Str("", x.r.rel), o.rel>>,
           <<"rs.from", [x.r EXCEPT !.md = "", !.rel = x.r.v], o.from>>, <<"rs.fromeq", TRUE, o.fromeq>>,
           <<"rs.eq", IF y.st = "ok" THEN eq(<<e1, e1, e1>>) ELSE <<"-">>, o.eq>>,
           <<"rs.teq", IF z.st = "ok" /\ w.st = "ok" THEN eq(<<e2, e2, e2, e2>>) ELSE <<"-">>, o.teq>> >>
   ELSE Errs("rs.", x.errs, o.errs))

ShowCmp(St, ev, o, depth) ==
  << <<"sd.abs", ShowFile(<<IF IsAbs(ev.path) THEN "relfile" ELSE "file", ev.path>>, St.cwd, depth), o.abs>>,
     <<"sd.rel", IF IsAbs(ev.path) THEN o.rel ELSE ev.path, o.rel>>,
     <<"sd.custom", ev.path, o.custom>> >>

\* Values nested too deep to be recorded as such are recorded as text.
RECURSIVE Written(_)
Written(v) ==
  IF v.k = "a" THEN "[" \o Join([i \in 1..Len(v.x) |-> Written(v.x[i])], ";") \o "]"
  ELSE IF v.k = "d" THEN
    LET ks == SortKeys(DOMAIN v.m)
    IN "{" \o Join([i \in 1..Len(ks) |-> ks[i] \o "=" \o Written(v.m[ks[i]])], ";") \o "}"
  ELSE v.k \o ":" \o v.v

ValCmp(ev, o) ==
  LET w == ValueView(ev.a, ev.path) eq == IF EqV(ev.a, ev.b) THEN "true" ELSE "false"
      self == IF EqV(ev.a, ev.a) THEN "true" ELSE "false"
      acc == <<"str", "istr", "char", "bool", "num", "empty", "dict", "idict", "arr", "iarr", "u32", "u128", "i128", "ul", "f64", "act", "find">>
  IN [i \in 1..Len(acc) |-> <<"val." \o acc[i], w[acc[i]], o[acc[i]]>>] \o
     << <<"val.findref", w.find, o.findref>>, <<"val.eq", eq, o.eq>>, <<"val.eqr", eq, o.eqr>>,
        <<"val.ne", IF eq = "true" THEN "false" ELSE "true", o.ne>>, <<"val.self", self, o.self>>,
        <<"val.vec", Arr("", <<ev.a, ev.b>>), o.vec>>, <<"val.slice", Arr("", <<ev.a, ev.b, ev.a>>), o.slice>>,
        <<"val.fixed", Arr("", <<ev.b, ev.a>>), o.fixed>>,
        <<"val.map", Dict("", ("k" :> ev.a) @@ ("" :> ev.b)), o.map>>,
        <<"val.ser", SerVal(ev.a), o.ser>>, <<"val.none", NoneV(""), o.none>> >>
Compare(St, T, ev, o, depth) ==     \* T: the state after the event
  CASE NewsFig(ev.op) -> FigCmp(T.figs[Len(T.figs)], o)
    [] ev.op = "proj" -> << <<"all", [i \in 1..Len(T.figs) |-> FigRec(T.figs[i])],
                               [i \in 1..Len(o.all) |-> ObsRec(o.all[i])]>> >>
    [] ev.op = "q" -> QueryCmp(T.figs[ev.h], ev.path, o)
    [] ev.op = "x" -> ExtractCmp(T.figs[ev.h], ev, o, T.cwd, depth, T.fs)
    [] ev.op = "meta" -> MetaCmp(T.figs[ev.h], o)
    [] ev.op = "parse" ->
         LET v == ParseEnv(ev.s, o.ft, o.ut)
         IN << <<"parse", IF o.v.k = "deep" THEN [k |-> "deep", v |-> Written(v)] ELSE v, o.v>> >>
    [] ev.op = "envdata" -> EnvCmp(T, ev, o)
    [] ev.op = "envvar" -> VarCmp(T, ev, o)
    [] ev.op = "diff" -> << <<"diff", Diff(ev.p, ev.b), o>> >>
    [] ev.op = "srcdisp" -> ShowCmp(T, ev, o, depth)
    [] ev.op = "ser" -> SerCmp(ev, o)
    [] ev.op = "vde" -> VdeCmp(ev, o)
    [] ev.op = "badmap" -> BadMapCmp(ev, o)
    [] ev.op = "lossy" -> LossyCmp(ev, o)
    [] ev.op = "nest" -> << <<"nest.v", Nest(ev.key, ev.val), o.v>>,
                            <<"nest.found", [st |-> "ok", v |-> ev.val], ObsFound(o.found)>> >>
    [] ev.op = "profeq" -> ProfCmp(ev, o)
    [] ev.op = "relser" -> RelCmp(T.figs[ev.h], ev, o, T.fs)
    [] ev.op = "errdisp" ->
         LET f == T.figs[ev.h] IN
         << <<"ed.disp", IF f.ok THEN "" ELSE ErrText(Filled(f.errs, o.errs), f, T.cwd, depth), o.disp>> >>
         \o Errs("ed.", ShownAll(f.errs, f), o.errs)
    [] ev.op = "val" -> ValCmp(ev, o)
    [] ev.op = "err" -> LET v == TreeView(ev.tree) IN
         << <<"err.count", v.count, o.count>>, <<"err.disp", v.disp, o.disp>>, <<"err.same", v.same, o.same>>,
            <<"err.items", v.items, o.items>> >>
    [] OTHER -> <<>>

Wrong(q) == SelectSeq(q, LAMBDA c : c[1] \in View /\ c[2] # c[3])
Report(s, i, q) == PrintT("MISMATCH " \o ToJson([sid |-> s, l |-> i, comp |-> q[1][1], exp |-> q[1][2], got |-> q[1][3]]))

Evs == Sessions[sid].ev
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ S = InitS /\ bad = FALSE
Next ==
  /\ l <= Len(Evs) /\ ~bad
  /\ LET ev == Evs[l] IN
     IF ~ev.ok THEN
       /\ PrintT("MISMATCH " \o ToJson([sid |-> sid, l |-> l, comp |-> "panic", exp |-> "", got |-> ev.obs]))
       /\ bad' = TRUE /\ UNCHANGED <<S>>
     ELSE
       LET T == TLCEval(Apply(S, ev))
           w == Wrong(Compare(S, T, ev, ev.obs, Sessions[sid].depth))
       IN /\ S' = T
          /\ IF w = <<>> THEN bad' = FALSE ELSE Report(sid, l, w) /\ bad' = TRUE
  /\ l' = l + 1
  /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
\* Sessions do not interact and each has one behaviour: identify states by position.
Where == <<sid, l>>
=============================================================================
