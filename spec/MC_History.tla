----------------------------- MODULE MC_History ------------------------------
(* All short histories of providing, combining, selecting and focusing over a *)
(* small universe, against the guarantees stated without the mechanism. Every *)
(* leaf carries the name of its provider and the kind of profile it was given *)
(* for. Histories of full length are printed for replay in the code.          *)
EXTENDS Ops
CONSTANTS Depth, Kind
VARIABLES ops, S, recv     \* recv: the provider calls each figment received
vars == <<ops, S, recv>>

Names == [n \in 1..9 |-> "P" \o ToString(n)]
L(n, q) == Str("", Names[n] \o ":" \o KindOfProfile(Lower(q)))
D1(k, v) == Dict("", k :> v)
One(k, v) == k :> v
Tm(i, n) ==     \* templates of data
  CASE i = "da" -> One("default", One("a", L(n, "default")))
    [] i = "dab" -> One("default", One("a", D1("b", L(n, "default"))))
    [] i = "dac" -> One("default", ("a" :> D1("c", L(n, "default"))) @@ ("b" :> L(n, "default")))
    [] i = "xab" -> One("Debug", One("a", D1("b", L(n, "Debug"))))
    [] i = "xac" -> One("debug", One("a", D1("c", L(n, "debug"))))
    [] i = "xa" -> One("DEBUG", One("a", L(n, "DEBUG")))
    [] i = "ya" -> One("other", One("a", D1("b", L(n, "other"))))
    [] i = "gab" -> One("GLOBAL", One("a", D1("b", L(n, "GLOBAL"))))
    [] i = "ga" -> One("global", One("a", L(n, "global")))
    [] i = "arr" -> One("default", One("a", Arr("", <<L(n, "default"), D1("b", L(n, "default"))>>)))
    [] i = "xarr" -> One("debug", One("a", Arr("", <<L(n, "debug")>>)))
    [] i = "deep" -> One("default", One("a", D1("b", D1("c", L(n, "default")))))
    [] i = "xdeep" -> One("debug", One("a", D1("b", D1("a", L(n, "debug")))))
    [] i = "two" -> ("default" :> One("a", D1("b", L(n, "default")))) @@ ("debug" :> One("a", D1("b", L(n, "debug"))))
                    @@ ("global" :> One("b", L(n, "global")))
    [] i = "none" -> Empty
    [] i = "dx" -> One("Default", One("a", D1("a", L(n, "Default"))))

\* A provider: template and selection, or a failure of so many errors
M(i, sel) == [i |-> i, sel |-> sel, e |-> 0]
Faulty(e) == [i |-> "", sel |-> "", e |-> e]
Deep == Depth > 3      \* deeper histories over less
Alpha ==
  CASE Kind = "layers" /\ Deep -> {M("dab", ""), M("xac", ""), M("xa", "Debug"), M("gab", "")}
    [] Kind = "tags" /\ Deep -> {M("dab", ""), M("arr", ""), M("xac", "debug")}
    [] Kind = "focus" /\ Deep -> {M("dab", ""), M("xa", "debug"), M("ga", ""), M("deep", "")}
    [] Kind = "compose" /\ Deep -> {M("two", ""), M("none", "DEBUG"), M("xarr", "debug"), M("arr", "")}
    [] Kind = "case" /\ Deep -> {M("xab", ""), M("xa", "dEBug"), M("gab", "")}
    [] Kind = "layers" -> {M("dab", ""), M("xac", ""), M("xa", "Debug"), M("gab", ""), M("ya", ""), M("arr", "")}
    [] Kind = "tags" -> {M("dab", ""), M("arr", ""), M("xac", "debug"), M("gab", ""), M("deep", "")}
    [] Kind = "errors" -> {M("dab", ""), M("xa", "debug"), Faulty(1), Faulty(2)}
    [] Kind = "focus" -> {M("dab", ""), M("xab", ""), M("xa", "debug"), M("ga", ""), M("deep", ""), M("xdeep", "")}
    [] Kind = "compose" -> {M("dab", ""), M("two", ""), M("none", "DEBUG"), M("xarr", "debug"), M("arr", "")}
    [] Kind = "case" -> {M("xab", ""), M("xa", "dEBug"), M("dx", "GloBal"), M("gab", ""), M("none", "Debug")}
Ords == IF Deep THEN {"merge", "adjoin"} ELSE IF Kind = "errors" THEN {"merge", "adjoin"} ELSE IF Kind = "focus" THEN {"merge", "join"} ELSE Orders
Sels == CASE Kind = "layers" /\ Deep -> {"debug", "nope"} [] Kind = "layers" -> {"debug", "OTHER", "default", "global", "nope"}
          [] Kind = "case" -> {"DEBUG", "debug", "Default", "GLOBAL"}
          [] Kind = "focus" -> {"debug"} [] Kind = "tags" -> {"debug"}
          [] Kind = "compose" -> {"other", "debug"} [] OTHER -> {}
Foci == CASE Kind = "focus" /\ Deep -> {"a", "zz"} [] Kind = "focus" -> {"a", "a.b", "", "zz"} [] Kind \in {"tags", "errors", "compose"} -> {"a"} [] OTHER -> {}

Prov1(m, n) ==
  IF m.e > 0 THEN ErrP(Names[n], [j \in 1..m.e |-> <<Names[n] \o "." \o ToString(j), IF j = 2 THEN "k.l" ELSE "">>], "")
  ELSE MapP(Names[n], Tm(m.i, n), m.sel)
ByRef(n) == IF n % 2 = 0 THEN "true" ELSE "false"
Figs == 1..Len(S.figs)
Recent == IF Len(S.figs) <= 2 THEN Figs ELSE {Len(S.figs) - 1, Len(S.figs)} \cup (IF Deep THEN {} ELSE {1})
Choices ==
  LET n == S.n + 1 IN
  (IF Deep /\ Len(ops) > 1 THEN {} ELSE {From(Prov1(m, n)) : m \in Alpha}) \cup
  (IF ops = <<>> THEN {[op |-> "new"]} ELSE {}) \cup
  {Prov(h, o, Prov1(m, n), ByRef(n)) : h \in Recent, o \in Ords, m \in Alpha} \cup
  {Prov(h, o, FigP(g), ByRef(n)) : h \in Recent, g \in Recent, o \in Ords} \cup
  {Select(h, p) : h \in Recent, p \in Sels} \cup {FocusOn(h, k) : h \in Recent, k \in Foci}

\* The provider calls an operation's result has received, in the order of
\* identities, and the selection, from the history alone.
RecvOf(op) ==
  LET own == {S.n + 1}
      of(p) == IF p.kind = "fig" THEN recv[p.h] ELSE {}
  IN CASE op.op = "new" -> {} [] op.op = "from" -> own \cup of(op.p)
       [] op.op = "prov" -> recv[op.h] \cup own \cup of(op.p) [] OTHER -> recv[op.h]

Init == ops = <<>> /\ S = InitS /\ recv = <<>>
Next ==
  /\ Len(ops) < Depth
  /\ \E op \in Choices :
       /\ ops' = Append(ops, op) /\ S' = Apply(S, With(op)) /\ recv' = Append(recv, RecvOf(op))
Spec == Init /\ [][Next]_vars

(* ------------------------------- guarantees ------------------------------ *)
Keys == {"a", "b", "c"}
AllPaths == {<<>>} \cup {<<x>> : x \in Keys} \cup {<<x, y>> : x \in Keys, y \in Keys}
            \cup {<<x, y, z>> : x \in Keys, y \in Keys, z \in {"a", "c"}}
\* Layers from the strongest down
Layers(f) ==
  LET s == Lower(f.prof)
  IN <<Layer(f, "global")>> \o (IF s \in {"default", "global"} THEN <<>> ELSE <<Layer(f, s)>>) \o <<Layer(f, "default")>>
InL(ls, i, p) == FindP(Dict("", ls[i]), p)
\* A layer shows at a path unless a stronger one has something else in the way.
Shows(ls, p) ==
  {i \in 1..Len(ls) :
     /\ InL(ls, i, p) # NoVal
     /\ \A j \in 1..(i - 1), n \in 0..Len(p) :
          LET v == InL(ls, j, SubSeq(p, 1, n)) IN v = NoVal \/ IsD(v)}
C02(f) ==
  f.ok => LET m == Merged(f) ls == Layers(f) IN \A p \in AllPaths :
    LET v == FindP(m, p) sh == Shows(ls, p) IN
    /\ (v # NoVal) <=> (sh # {})
    /\ sh # {} => LET w == InL(ls, CHOOSE i \in sh : \A j \in sh : i <= j, p)
                  IN IF IsD(w) THEN IsD(v) ELSE v = w
OkFigs == {i \in Figs : S.figs[i].ok}

\* Every leaf names its provider and the kind of profile it was given for.
RECURSIVE Leaves(_)
Leaves(v) == IF IsD(v) THEN UNION {Leaves(v.m[k]) : k \in DOMAIN v.m}
             ELSE IF IsA(v) THEN UNION {Leaves(v.x[i]) : i \in 1..Len(v.x)} ELSE {v}
C03(i) ==
  LET f == S.figs[i] IN
  f.ok => /\ \A v \in Leaves(Merged(f)) : v.t = v.v
          /\ \A q \in DOMAIN f.maps : \A v \in Leaves(Dict("", f.maps[q])) : v.t = v.v
          /\ \A t \in TagsOf(Merged(f)) : t = "" \/ \E n \in DOMAIN f.md : TagName(t) = f.md[n].name
Mds(i) == DOMAIN S.figs[i].md = recv[i]
\* A figment fails exactly if a provider it received failed, and every failure
\* of a provider that was received once is there once, with its name.
CallOf(n) == {k \in 1..Len(ops) : ops[k].op \in {"from", "prov"} /\ ops[k].p.kind # "fig" /\ ops[k].p.name = Names[n]}
IsBad(n) == \E k \in CallOf(n) : ops[k].p.kind = "err"
ErrsOf(n) == Len(ops[CHOOSE k \in CallOf(n) : TRUE].p.msgs)
C04(i) ==
  LET f == S.figs[i] bad == {n \in recv[i] : IsBad(n)} IN
  /\ f.ok <=> bad = {}
  /\ ~f.ok => f.maps = Empty /\ Find(Merged([f EXCEPT !.maps = Empty]), "a") = NoVal
  /\ \A n \in bad : \A j \in 1..ErrsOf(n) :
       \E e \in 1..Len(f.errs) : f.errs[e].kind[2] = Names[n] \o "." \o ToString(j) /\ TagName(f.errs[e].t) = Names[n]
  /\ \A e \in 1..Len(f.errs) : \E n \in bad : TagName(f.errs[e].t) = Names[n]
\* Without figments as providers the order is that of the calls.
NoFigs == \A k \in 1..Len(ops) : ops[k].op \in {"from", "prov"} => ops[k].p.kind # "fig"
C04order(i) ==
  LET f == S.figs[i] IN NoFigs =>
    Len(f.errs) = Cardinality(UNION {{<<n, j>> : j \in 1..ErrsOf(n)} : n \in {n \in recv[i] : IsBad(n)}})
    /\ \A x, y \in 1..Len(f.errs) : x < y => StrLess(f.errs[x].kind[2], f.errs[y].kind[2])

\* Looking things up
C06(f) == f.ok => LET m == Merged(f) vm == Visited(m) IN \A p \in AllPaths :
            LET v == FindP(m, p) w == FindP(vm, p)
            IN IF v = NoVal THEN w = NoVal ELSE w = Visited(v)

\* Focusing. Where a profile of higher precedence has something else than a
\* dictionary at the key the focused figment shows what is below it instead.
Deviates(ls, key) ==
  \E i, j \in 1..Len(ls) : i < j /\
    LET v == InL(ls, i, key) w == InL(ls, j, key) IN v # NoVal /\ ~IsD(v) /\ w # NoVal /\ IsD(w)
\* also where something above the key is in the way
DeviatesAt(f, key) == LET ls == Layers(f) IN \E n \in 0..Len(key) : Deviates(ls, SubSeq(key, 1, n))
FocusKeys == {<<"a">>, <<"a", "b">>, <<"b">>, <<>>}
C07(f) == LET m == Merged(f) IN \A k \in FocusKeys :
            LET g == Focus(f, Dotted(k)) mg == Merged(g) IN
            /\ g.prof = f.prof /\ g.md = f.md /\ g.ok = f.ok /\ g.errs = f.errs
            /\ DeviatesAt(f, k) \/ \A s \in AllPaths : s # <<>> => FindP(mg, s) = FindP(m, k \o s)
            /\ \A s \in FocusKeys : LET h == Focus(g, Dotted(s)) h2 == Focus(f, Dotted(k \o s)) IN h.maps = h2.maps
            /\ DOMAIN g.maps \subseteq DOMAIN f.maps
            /\ \A q \in DOMAIN f.maps : q \in DOMAIN g.maps <=> (LET v == FindP(Dict("", f.maps[q]), k) IN v # NoVal /\ IsD(v))

\* Composition: as combining the configuration, with sources intact.
C19 == \A f \in Figs, g \in Figs, o \in Orders :
         LET F == S.figs[f] G == S.figs[g]
             r == Provide(F, FigP(g), o, S, NoObs, S.n + 1)
         IN /\ r.ok = (F.ok /\ G.ok)
            /\ r.ok => r.maps = CoMaps(F.maps, G.maps, o)
            /\ r.prof = (IF o \in {"merge", "admerge"} THEN G.prof ELSE F.prof)
            /\ DOMAIN r.md = DOMAIN F.md \cup DOMAIN G.md \cup {S.n + 1}
\* Sources join nothing with the empty figment.
C19new == \A g \in Figs : LET r == Provide(NewFig, FigP(g), "merge", S, NoObs, S.n + 1) IN
            S.figs[g].ok => r.maps = S.figs[g].maps

\* Casing: the same history in lower case gives the same configuration.
LowP(p) == CASE p.kind = "map" -> [p EXCEPT !.data = [q \in {Lower(k) : k \in DOMAIN @} |-> p.data[CHOOSE k \in DOMAIN p.data : Lower(k) = q]],
                                            !.prof = Lower(@)]
             [] p.kind = "err" -> [p EXCEPT !.prof = Lower(@)] [] OTHER -> p
LowOp(op) == CASE op.op = "select" -> [op EXCEPT !.prof = Lower(@)]
               [] op.op \in {"from", "prov"} -> [op EXCEPT !.p = LowP(@)] [] OTHER -> op
C21 == LET T == Run([i \in 1..Len(ops) |-> LowOp(ops[i])]) IN
       \A i \in Figs : /\ T.figs[i].prof = Lower(S.figs[i].prof)
                       /\ T.figs[i].maps = S.figs[i].maps
                       /\ Merged(T.figs[i]) = Merged(S.figs[i])

Newest == Len(S.figs)
Laws ==
  Newest > 0 =>
  LET f == S.figs[Newest] IN
  /\ C02(f) /\ C03(Newest) /\ Mds(Newest) /\ C04(Newest) /\ C04order(Newest) /\ C06(f)
  /\ Kind = "focus" => C07(f)
  /\ Kind \in {"compose", "errors"} => C19 /\ C19new
  /\ Kind \in {"case", "layers"} => C21
\* What was derived never changes what it was derived from.
Snapshot == [][\A i \in 1..Len(S.figs) : S'.figs[i] = S.figs[i] /\ recv'[i] = recv[i]]_vars

Probes ==
  LET h == Newest qs == [i \in 1..4 |-> Q(h, <<"a", "a.b", "b", "a.b.c">>[i])]
  IN CASE Kind = "focus" -> qs \o <<[op |-> "meta", h |-> h]>>
       [] OTHER -> qs \o <<[op |-> "meta", h |-> h], [op |-> "proj"]>>
\* Histories whose last operation used what came before
Generated == Len(ops) = Depth => Emit(ops \o Probes)
=============================================================================
