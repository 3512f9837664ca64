----------------------------- MODULE MC_Extract ------------------------------
(* Small values at small types, all with all, plainly and lossily: a result  *)
(* is the value read at the type and nothing else; there is one whenever the *)
(* value can be read so; an error names a place where the value cannot be    *)
(* read, the source of what is there, and what it is.                        *)
EXTENDS Ops
CONSTANT Kind
VARIABLES val, on
vars == <<val, on>>

T0(t) == [t |-> t]
T1(t, e) == [t |-> t, e |-> e]
Ts(t, q) == [t |-> t, es |-> q]
St(fn, q, df, deny) == [t |-> "struct", n |-> "S", fn |-> fn, es |-> q, df |-> df, deny |-> deny]
Va(k, q, fn) == [k |-> k, es |-> q, fn |-> fn]
En(vs) == [t |-> "enum", n |-> "E", vn |-> <<"A", "a", "x">>, vs |-> vs]
Ei(a, b) == [t |-> "either", e |-> a, e2 |-> b]

\* Leaves carry the source P2, containers the source P1.
t1 == "P1:default"
t2 == "P2:custom"
S2(x) == Str(t2, x)
N2(y, x) == Num(t2, y, x)
Ch(x) == [k |-> "c", t |-> t2, v |-> x]
Words == {"", "x", "1", "0", " 1 ", "-1", "+1", "300", "1.5", "true", "YES", "off", "on ", "A", "é", "127.0.0.1", "1.2.3", "01.2.3.4", "1.2.3.256", "1..2.3"}
Scal == {S2(x) : x \in Words} \cup {Ch("x"), Ch("1"), Bool(t2, "true"), Bool(t2, "false"), Unit(t2), NoneV(t2)}
Nums == {N2("u8", "0"), N2("u8", "1"), N2("u8", "255"), N2("i8", "-1"), N2("i8", "1"), N2("u16", "256"), N2("u32", "2"), N2("usize", "1"), N2("isize", "-129"),
         N2("i64", "-9223372036854775808"), N2("u64", "18446744073709551615"), N2("u128", "18446744073709551616"), N2("u128", "1"),
         N2("i128", "-9223372036854775809"), N2("f64", "1.5"), N2("f64", "1.0"), N2("f32", "0.5")}
Few == {S2("x"), S2("1"), N2("u8", "1"), N2("i64", "-1"), Bool(t2, "true"), Unit(t2)}
Few2 == {S2("x"), N2("u8", "1"), Bool(t2, "true")}
Arrs == {Arr(t1, <<>>)} \cup {Arr(t1, <<x>>) : x \in Few} \cup {Arr(t1, <<x, y>>) : x \in Few, y \in Few2}
        \cup {Arr(t1, <<x, y, z>>) : x \in Few2, y \in Few2, z \in {S2("1")}}
Dics == {Dict(t1, Empty)} \cup {Dict(t1, "a" :> x) : x \in Few} \cup {Dict(t1, ("a" :> x) @@ ("b" :> y)) : x \in Few, y \in Few2}
        \cup {Dict(t1, "A" :> x) : x \in Few} \cup {Dict(t1, ("b" :> x) @@ ("zz" :> S2("1"))) : x \in Few2}
        \cup {Dict(t1, "x" :> Dict(t1, ("a" :> x) @@ ("b" :> y))) : x \in Few2, y \in Few2}
        \cup {Dict(t1, ("kind" :> S2(n)) @@ ("x" :> x)) : n \in {"A", "B", "C", "D"}, x \in Few} \cup {Dict(t1, "kind" :> S2("B"))}
        \cup {Arr(t1, <<S2(n), x>>) : n \in {"A", "B", "C"}, x \in Few2} \cup {Arr(t1, <<S2(n)>>) : n \in {"A", "B"}}
        \cup {Dict(t1, ("a" :> N2("u8", "1")) @@ ("1" :> N2("u128", "1"))), Dict(t1, ("a" :> N2("u8", "1")) @@ ("b" :> Unit(t2)) @@ ("true" :> S2("x")))}
Deep == {Dict(t1, "a" :> x) : x \in {Arr(t1, <<y>>) : y \in Few2} \cup {Dict(t1, "b" :> y) : y \in Few2} \cup {Arr(t1, <<Dict(t1, "a" :> y), S2("x")>>) : y \in Few2}}
        \cup {Arr(t1, <<x, Dict(t1, "b" :> y)>>) : x \in Few2, y \in Few2} \cup {Arr(t1, <<Arr(t1, <<x>>), Arr(t1, <<y, x>>)>>) : x \in Few2, y \in Few2}
Vals == CASE Kind = "scalars" -> Scal \cup Nums [] Kind = "shapes" -> Few \cup Arrs \cup Dics [] Kind = "deep" -> Deep \cup Dics

Ints == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"}
Prims == {T0(x) : x \in Ints \cup {"bool", "f32", "f64", "char", "string", "unit", "ignored"}}
Base == {T0(x) : x \in {"u8", "i64", "bool", "string"}}
B2 == {T0("u8"), T0("string")}
NoV == <<>>
Enums(E) == {En(<<Va("unit", NoV, NoV), Va("new", <<e>>, NoV), Va("tup", <<e, T0("u8")>>, NoV)>>) : e \in E}
            \cup {En(<<Va("struct", <<e>>, <<"a">>), Va("unit", NoV, NoV), Va("struct", <<e, T0("string")>>, <<"a", "b">>)>>) : e \in E}
            \cup {En(<<Va("tup", NoV, NoV), Va("struct", NoV, NoV), Va("new", <<e>>, NoV)>>) : e \in E}
Shapes(E) ==
  {T1(c, e) : c \in {"seq", "map", "pairs", "opt"}, e \in E} \cup {Ts("tup", <<e>>) : e \in E} \cup {Ts("tup", <<T0("u8"), e>>) : e \in E}
  \cup {Ts("tup", <<>>), T0("unitstruct")} \cup {Ts("tupstruct", <<e, T0("string")>>) : e \in E}
  \cup {St(<<"a", "b">>, <<e, T0("u8")>>, <<FALSE, df>>, deny) : e \in E, df \in BOOLEAN, deny \in BOOLEAN}
  \cup {St(<<"a", "c">>, <<e, T1("opt", T0("u8"))>>, <<FALSE, FALSE>>, FALSE) : e \in E} \cup {St(<<>>, <<>>, <<>>, d) : d \in BOOLEAN} \cup Enums(E)
Magic(E) == {T1("tagged", e) : e \in E} \cup {T0("value"), T0("boolh")} \cup {Ei(a, b) : a \in E, b \in E \cup {T1("seq", T0("u8"))}}
            \cup {T1("newtype", e) : e \in E}
KTypes == {T0("char"), T0("u8"), T0("bool"), T0("string"), En(<<Va("unit", NoV, NoV), Va("unit", NoV, NoV), Va("new", <<T0("u8")>>, NoV)>>)}
Buffered(E) == {T0("untag"), T0("itag")} \cup {T1("flat", e) : e \in E \cup {T0("untag")}}
KMaps(E) == {[t |-> "kmap", kt |-> k, e |-> e] : k \in KTypes, e \in E}
Types == CASE Kind = "scalars" -> Prims \cup {T0("ip4"), T0("path"), T0("untag"), T0("itag")} \cup {T0("unitstruct"), T1("opt", T0("u8")), T1("opt", T0("bool")), T1("opt", T0("unit")), T1("newtype", T0("char"))}
                                  \cup Magic(Base) \cup Enums({T0("u8")})
           [] Kind = "shapes" -> Shapes(Base) \cup Magic(Base) \cup Buffered(Base) \cup KMaps({T0("u8"), T0("string")})
           [] Kind = "deep" -> Shapes({T1("seq", T0("u8")), T1("map", T0("string")), T1("opt", T0("bool")), St(<<"b">>, <<T0("u8")>>, <<FALSE>>, FALSE)})
                               \cup Buffered({T1("seq", T0("u8")), T1("map", T0("string")), T1("opt", T0("untag"))}) \cup KMaps({T0("untag"), T1("seq", T0("u8"))})
                               \cup Magic({T1("seq", St(<<"a">>, <<T0("string")>>, <<FALSE>>, TRUE)), T1("map", T1("seq", T0("u8")))})

Init == val = NoVal /\ on = FALSE
Next == ~on /\ on' = TRUE /\ val' \in Vals
Spec == Init /\ [][Next]_vars

(* ----------------------- reading values at types ------------------------- *)
\* The spellings lossy extraction takes
Yes == {"true", "1", "yes", "on"}
No == {"false", "0", "no", "off"}
AsBool(v, lossy) ==
  IF v.k = "b" THEN v.v ELSE IF ~lossy THEN "" ELSE
  IF v.k = "s" THEN (IF Lower(v.v) \in Yes THEN "true" ELSE IF Lower(v.v) \in No THEN "false" ELSE "")
  ELSE IF v.k = "n" /\ v.y \notin FTypes THEN (IF v.v = "1" THEN "true" ELSE IF v.v = "0" THEN "false" ELSE "") ELSE ""
\* 128-bit integers are not read as smaller types, other integers wherever they fit.
Wide(y) == y \in {"u128", "i128"}
IntText(v, ty, lossy) ==
  IF v.k = "n" /\ v.y \notin FTypes THEN (IF Fits(v.v, ty) /\ (~Wide(v.y) \/ Wide(ty)) THEN v.v ELSE "")
  ELSE IF v.k = "s" /\ lossy THEN
    LET n == ParseInt(Trim(v.v)) IN
    IF n = "" \/ ~Fits(n, ty) \/ (IsNeg(Trim(v.v)) /\ Mag(Trim(v.v)) = "") THEN "" ELSE n
  ELSE ""
\* What serde's buffer holds, and what is read from it: no lossiness, no
\* characters as strings.
Nat0(s) == CHOOSE i \in 0..9 : ToString(i) = s
RECURSIVE Fit(_), BCan(_, _), BIs(_, _, _)
Fit(v) == IF IsD(v) THEN \A k \in DOMAIN v.m : Fit(v.m[k]) ELSE IF IsA(v) THEN \A i \in 1..Len(v.x) : Fit(v.x[i])
          ELSE v.k # "n" \/ ~Wide(v.y)
OptStr == T1("opt", T0("string"))
IsPair(v) == IsD(v) /\ "a" \in DOMAIN v.m /\ BCan(v.m["a"], T0("u8")) /\ ("b" \in DOMAIN v.m => BCan(v.m["b"], OptStr))
BCan(v, T) ==
  CASE T.t = "bool" -> v.k = "b" [] T.t \in Ints -> IntText(v, T.t, FALSE) # "" [] T.t \in FTypes -> v.k = "n"
    [] T.t = "string" -> v.k = "s" [] T.t = "opt" -> v.k = "e" \/ BCan(v, T.e)
    [] T.t = "seq" -> IsA(v) /\ \A i \in 1..Len(v.x) : BCan(v.x[i], T.e)
    [] T.t = "map" -> IsD(v) /\ \A k \in DOMAIN v.m : BCan(v.m[k], T.e)
    [] T.t = "untag" -> v.k \in {"b", "n", "s"} \/ BCan(v, T1("seq", T0("u8"))) \/ IsPair(v)
BIs(v, T, r) ==
  CASE T.t \in {"bool", "string"} -> r.r = T.t /\ r.v = v.v [] T.t \in Ints -> r.r = T.t /\ r.v = v.v [] T.t \in FTypes -> r.r = T.t
    [] T.t = "opt" -> IF v.k = "e" THEN r.r = "none" ELSE r.r = "some" /\ BIs(v, T.e, r.x)
    [] T.t = "seq" -> r.r = "seq" /\ Len(r.xs) = Len(v.x) /\ \A i \in 1..Len(v.x) : BIs(v.x[i], T.e, r.xs[i])
    [] T.t = "map" -> r.r = "map" /\ DOMAIN r.m = DOMAIN v.m /\ \A k \in DOMAIN v.m : BIs(v.m[k], T.e, r.m[k])
    [] T.t = "untag" ->
         /\ r.r = "untag"
         /\ CASE v.k = "b" -> r.v = "Flag" /\ BIs(v, T0("bool"), r.x)
              [] v.k = "n" -> IF BCan(v, T0("i64")) THEN r.v = "Int" /\ BIs(v, T0("i64"), r.x) ELSE r.v = "Real"
              [] v.k = "s" -> r.v = "Text" /\ BIs(v, T0("string"), r.x)
              [] v.k = "a" -> r.v = "List" /\ BIs(v, T1("seq", T0("u8")), r.x)
              [] v.k = "d" -> /\ r.v = "Pair" /\ BIs(v.m["a"], T0("u8"), r.x.m["a"])
                              /\ IF "b" \in DOMAIN v.m THEN BIs(v.m["b"], OptStr, r.x.m["b"]) ELSE r.x.m["b"].r = "none"
\* The variant named under "kind" or first, and what the rest holds of it
Kind1(v) == IF IsD(v) THEN v.m["kind"] ELSE v.x[1]
KindName(w) == IF w.k \in {"s", "c"} /\ w.v \in {"A", "B", "C"} THEN w.v
               ELSE IF w.k = "n" /\ w.y \in UTypes /\ ~Wide(w.y) /\ w.v \in {"0", "1", "2"} THEN <<"A", "B", "C">>[Nat0(w.v) + 1] ELSE ""
CanKind(v) ==
  IF IsD(v) /\ "kind" \in DOMAIN v.m THEN
    LET n == KindName(Kind1(v)) Rs == [k \in DOMAIN v.m \ {"kind"} |-> v.m[k]] IN
    /\ Fit(Dict("", Rs)) /\ n # ""
    /\ n = "B" => "x" \in DOMAIN Rs /\ BCan(Rs["x"], T0("u8"))
    /\ n = "C" => BCan(Dict("", Rs), T1("map", T0("i64")))
  ELSE IsA(v) /\ v.x # <<>> /\ Fit(v) /\ LET n == KindName(v.x[1]) IN
         (n = "A" /\ Len(v.x) = 1) \/ (n = "B" /\ Len(v.x) = 2 /\ BCan(v.x[2], T0("u8")))
IsKind(v, r) ==
  /\ r.r = "itag" /\ r.v = KindName(Kind1(v))
  /\ CASE r.v = "A" -> r.x.r = "none" [] r.v = "B" -> BIs(IF IsD(v) THEN v.m["x"] ELSE v.x[2], T0("u8"), r.x)
       [] r.v = "C" -> BIs(Dict("", [k \in DOMAIN v.m \ {"kind"} |-> v.m[k]]), T1("map", T0("i64")), r.x)
RECURSIVE Can(_, _, _)
CanAll(xs, es, lossy) == Len(xs) >= Len(es) /\ \A i \in 1..Len(es) : Can(xs[i], es[i], lossy)
CanFields(v, F, lossy) ==
  IF IsD(v) THEN
    /\ \A i \in 1..Len(F.fn) : IF F.fn[i] \in DOMAIN v.m THEN Can(v.m[F.fn[i]], F.es[i], lossy) ELSE F.df[i] \/ F.es[i].t = "opt"
    /\ F.deny => DOMAIN v.m \subseteq SeqSet(F.fn)
  ELSE IsA(v) /\ \A i \in 1..Len(F.fn) : IF i <= Len(v.x) THEN Can(v.x[i], F.es[i], lossy) ELSE F.df[i]
NoDf(n) == [i \in 1..n |-> FALSE]
VarFields(V) == [fn |-> V.fn, es |-> V.es, df |-> NoDf(Len(V.fn)), deny |-> FALSE]
CanVariant(V, v, lossy) ==
  CASE V.k = "unit" -> v.k = "e" /\ v.v = "unit" [] V.k = "new" -> Can(v, V.es[1], lossy)
    [] V.k = "tup" -> IsA(v) /\ CanAll(v.x, V.es, lossy) [] V.k = "struct" -> CanFields(v, VarFields(V), lossy)
First1(m) == SortKeys(DOMAIN m)[1]
Can(v, T, lossy) ==
  CASE T.t \in Ints -> IntText(v, T.t, lossy) # ""
    [] T.t \in FTypes -> (v.k = "n" /\ ~Wide(v.y)) \/ (lossy /\ v.k = "s" /\ IntText(v, "i64", TRUE) # "") \/ (lossy /\ v.k = "s" /\ v.v = "1.5")
    [] T.t = "bool" -> AsBool(v, lossy) # ""
    [] T.t = "boolh" -> AsBool(v, FALSE) # "" \/ (v.k \in {"s", "c"} /\ Lower(v.v) \in {"true", "false"}) \/
                        (v.k = "n" /\ v.v \in {"0", "1"} /\ ~Wide(v.y))
    [] T.t = "char" -> v.k = "c" \/ (v.k = "s" /\ Len(v.v) = 1)
    [] T.t = "string" -> v.k \in {"s", "c"}
    [] T.t \in {"unit", "unitstruct"} -> v.k = "e" /\ v.v = "unit"
    [] T.t \in {"ignored", "value"} -> TRUE
    [] T.t = "opt" -> v.k = "e" \/ Can(v, T.e, lossy)
    [] T.t \in {"newtype", "tagged"} -> Can(v, T.e, lossy)
    [] T.t = "seq" -> IsA(v) /\ \A i \in 1..Len(v.x) : Can(v.x[i], T.e, lossy)
    [] T.t \in {"map", "pairs"} -> IsD(v) /\ \A k \in DOMAIN v.m : Can(v.m[k], T.e, lossy)
    [] T.t \in {"tup", "tupstruct"} -> IsA(v) /\ CanAll(v.x, T.es, lossy)
    [] T.t = "struct" -> CanFields(v, T, lossy)
    [] T.t = "enum" ->
         IF v.k = "s" THEN \E i \in 1..Len(T.vn) : T.vn[i] = v.v /\ T.vs[i].k = "unit"
         ELSE IF v.k = "n" THEN v.y \in {"u8", "u16", "u32"} /\ \E i \in 1..Len(T.vn) : ToString(i - 1) = v.v /\ T.vs[i].k = "unit"
         ELSE IsD(v) /\ DOMAIN v.m # {} /\ \E i \in 1..Len(T.vn) : T.vn[i] = First1(v.m) /\ CanVariant(T.vs[i], v.m[First1(v.m)], lossy)
    [] T.t = "ip4" -> v.k = "s" /\ v.v = "127.0.0.1" \* the only one there is here
    [] T.t = "path" -> v.k \in {"s", "c"}
    [] T.t = "kmap" -> IsD(v) /\ \A k \in DOMAIN v.m : Can(Str("", k), T.kt, FALSE) /\ Can(v.m[k], T.e, lossy)
    [] T.t = "untag" -> Fit(v) /\ BCan(v, T)
    [] T.t = "itag" -> CanKind(v)
    [] T.t = "flat" -> /\ IsD(v) /\ "a" \in DOMAIN v.m /\ Can(v.m["a"], T0("u8"), lossy)
                       /\ "b" \in DOMAIN v.m => Can(v.m["b"], OptStr, lossy)
                       /\ \A k \in DOMAIN v.m \ {"a", "b"} : Fit(v.m[k]) /\ BCan(v.m[k], T.e)
    [] T.t = "either" -> Can(v, T.e, FALSE) \/ Can(v, T.e2, FALSE)
\* r says of v exactly what it is at T.
RECURSIVE Is(_, _, _, _)
IsAll(xs, es, rs, lossy) == Len(rs) = Len(es) /\ \A i \in 1..Len(es) : Is(xs[i], es[i], rs[i], lossy)
IsFields(v, F, r, lossy) ==
  /\ DOMAIN r.m = SeqSet(F.fn)
  /\ \A i \in 1..Len(F.fn) :
       LET n == F.fn[i] IN
       IF IsD(v) THEN IF n \in DOMAIN v.m THEN Is(v.m[n], F.es[i], r.m[n], lossy) ELSE r.m[n].r = (IF F.df[i] THEN "default" ELSE "none")
       ELSE IF i <= Len(v.x) THEN Is(v.x[i], F.es[i], r.m[n], lossy) ELSE r.m[n].r = "default"
Is(v, T, r, lossy) ==
  CASE T.t \in Ints -> r.r = T.t /\ r.v = IntText(v, T.t, lossy)
    [] T.t \in FTypes \cup {"ignored"} -> r.r = T.t
    [] T.t = "bool" -> r.r = "bool" /\ r.v = AsBool(v, lossy)
    [] T.t = "boolh" -> r.r = "bool" /\ r.v = (IF v.k \in {"s", "c"} THEN Lower(v.v) ELSE AsBool(v, TRUE))
    [] T.t \in {"char", "string"} -> r.r = T.t /\ r.v = v.v
    [] T.t \in {"unit", "unitstruct"} -> r.r = T.t
    [] T.t = "value" -> r.r = "value" /\ r.y = Visited(v)
    [] T.t = "opt" -> IF v.k = "e" THEN r.r = "none" ELSE r.r = "some" /\ Is(v, T.e, r.x, lossy)
    [] T.t = "newtype" -> r.r = "newtype" /\ Is(v, T.e, r.x, lossy)
    [] T.t = "tagged" -> r.r = "tagged" /\ r.t = v.t /\ Is(v, T.e, r.x, lossy)
    [] T.t = "seq" -> r.r = "seq" /\ Len(r.xs) = Len(v.x) /\ \A i \in 1..Len(v.x) : Is(v.x[i], T.e, r.xs[i], lossy)
    [] T.t \in {"tup", "tupstruct"} -> r.r = "seq" /\ IsAll(v.x, T.es, r.xs, lossy)
    [] T.t = "map" -> r.r = "map" /\ DOMAIN r.m = DOMAIN v.m /\ \A k \in DOMAIN v.m : Is(v.m[k], T.e, r.m[k], lossy)
    [] T.t = "pairs" -> r.r = "pairs" /\ r.ks = SortKeys(DOMAIN v.m) /\ Len(r.xs) = Len(r.ks) /\ \A i \in 1..Len(r.ks) : Is(v.m[r.ks[i]], T.e, r.xs[i], lossy)
    [] T.t = "struct" -> r.r = "struct" /\ IsFields(v, T, r, lossy)
    [] T.t = "enum" ->
         LET i == CHOOSE i \in 1..Len(T.vn) : T.vn[i] = r.v
             V == T.vs[i]
         IN /\ r.r = "enum" /\ r.v \in SeqSet(T.vn) /\ r.kind = V.k
            /\ IF v.k = "s" THEN r.v = v.v /\ r.x.r = "none" ELSE IF v.k = "n" THEN ToString(i - 1) = v.v /\ r.x.r = "none"
               ELSE LET w == v.m[r.v] IN r.v = First1(v.m) /\
                    (CASE V.k = "unit" -> r.x.r = "none" [] V.k = "new" -> Is(w, V.es[1], r.x, lossy)
                       [] V.k = "tup" -> IsAll(w.x, V.es, r.x.xs, lossy) [] V.k = "struct" -> IsFields(w, VarFields(V), r.x, lossy))
    [] T.t = "either" ->
         LET w == Strip(Visited(v)) IN
         IF Can(v, T.e, FALSE) THEN r.r = "left" /\ r.x.t = v.t /\ Is(w, T.e, r.x.x, FALSE) ELSE r.r = "right" /\ Is(w, T.e2, r.x, FALSE)

    [] T.t \in {"ip4", "path"} -> r.r = T.t /\ r.v = v.v
    [] T.t = "kmap" -> LET ks == SortKeys(DOMAIN v.m) IN
                       r.r = "kmap" /\ Len(r.ks) = Len(ks) /\ Len(r.xs) = Len(ks) /\ \A i \in 1..Len(ks) :
                         Is(Str("", ks[i]), T.kt, r.ks[i], FALSE) /\ Is(v.m[ks[i]], T.e, r.xs[i], lossy)
    [] T.t = "untag" -> BIs(v, T, r)
    [] T.t = "itag" -> IsKind(v, r)
    [] T.t = "flat" -> /\ r.r = "flat" /\ Is(v.m["a"], T0("u8"), r.a, lossy)
                       /\ IF "b" \in DOMAIN v.m THEN Is(v.m["b"], OptStr, r.b, lossy) ELSE r.b.r = "none"
                       /\ DOMAIN r.m = DOMAIN v.m \ {"a", "b"} /\ \A k \in DOMAIN r.m : BIs(v.m[k], T.e, r.m[k])

(* --------------------------------- errors -------------------------------- *)
\* What is at a path through dictionaries and arrays, and the type there
RECURSIVE AnyAt(_, _), TypeAt(_, _, _)
Nat1(s) == Nat0(s)
AnyAt(v, p) == IF p = <<>> THEN v ELSE IF IsD(v) THEN AnyAt(v.m[p[1]], Tail(p)) ELSE AnyAt(v.x[Nat1(p[1]) + 1], Tail(p))
Field(F, v, k) == IF IsD(v) THEN (IF k \in SeqSet(F.fn) THEN F.es[Position(F.fn, k)] ELSE T0("unknown")) ELSE F.es[Nat1(k) + 1]
TypeAt(T, v, p) ==
  IF p = <<>> THEN IF T.t \in {"newtype", "tagged"} \/ (T.t = "opt" /\ v.k # "e") THEN TypeAt(T.e, v, p) ELSE T
  ELSE LET w == AnyAt(v, <<p[1]>>) IN
    CASE T.t \in {"opt", "newtype", "tagged"} -> TypeAt(T.e, v, p)
      [] T.t \in {"seq", "map", "pairs"} -> TypeAt(T.e, w, Tail(p))
      [] T.t \in {"tup", "tupstruct"} -> TypeAt(T.es[Nat1(p[1]) + 1], w, Tail(p))
      [] T.t = "struct" -> TypeAt(Field(T, v, p[1]), w, Tail(p))
      [] T.t = "flat" /\ p[1] = "a" -> TypeAt(T0("u8"), w, Tail(p))
      [] T.t = "flat" /\ p[1] = "b" -> TypeAt(OptStr, w, Tail(p))
      [] T.t = "enum" ->
           IF p[1] \notin SeqSet(T.vn) THEN T0("unknown")
           ELSE LET V == T.vs[Position(T.vn, p[1])] IN
            (CASE V.k = "unit" -> T0("unit") [] V.k = "new" -> TypeAt(V.es[1], w, Tail(p))
               [] V.k = "tup" -> TypeAt(Ts("tup", V.es), w, Tail(p))
               [] V.k = "struct" -> TypeAt(St(V.fn, V.es, NoDf(Len(V.fn)), FALSE), w, Tail(p)))
      [] OTHER -> T0("unknown")
\* The error is of what is at its path, from there, and nothing can be read there.
AtFault(v, T, e, lossy) ==
  LET w == AnyAt(v, e.path) A == TypeAt(T, v, e.path) k == e.kind IN
  /\ e.t = w.t
  /\ A.t = "unknown" \/ ~Can(w, A, lossy)
  /\ CASE A.t \in {"flat", "itag"} \/ (A.t = "unknown" /\ k[1] \in {"InvalidType", "InvalidValue", "UnknownVariant", "Message"}) -> TRUE
       [] k[1] = "MissingField" -> IsD(w) /\ k[2] \notin DOMAIN w.m
       [] k[1] \in {"UnknownField", "UnknownVariant"} ->
            (e.path # <<>> /\ k[2] = e.path[Len(e.path)] /\ A.t = "unknown") \/ (k[1] = "UnknownVariant" /\ w.k = "s" /\ w.v = k[2])
       [] k[1] = "InvalidLength" -> IsA(w)
       [] k[1] \in {"InvalidType", "InvalidValue"} -> k[2] \in {Actual(w)[1], VisActual(w)[1], "unitvariant"} \/ (lossy /\ w.k = "s")
       [] k[1] = "Message" -> A.t \in {"either", "ip4", "untag"}

(* ---------------------------------- laws --------------------------------- *)
C0 == [fc |-> Empty, src |-> Empty, dirs |-> {}]
Plain2(T) == T.t \notin {"either", "value", "boolh", "ignored"}
NoFloat(v) == v.k # "n" \/ v.y \notin FTypes
Ok1(v, T, lossy) ==
  LET d == De(v, T, lossy, [C0 EXCEPT !.fc = "f64:1.5" :> "1.5"]) IN
  /\ d.ok <=> Can(v, T, lossy)
  /\ d.ok => Is(v, T, d.r, lossy)
  /\ ~d.ok => AtFault(v, T, d.e, lossy)
\* What reads plainly reads the same lossily.
Lossier(v, T) == LET a == De(v, T, FALSE, C0) IN a.ok => De(v, T, TRUE, C0) = a
\* A result serialized and read again is the result.
RECURSIVE Serial(_)
Serial(T) == CASE T.t \in {"opt", "seq", "map", "newtype", "pairs"} -> Serial(T.e)
               [] T.t \in {"tup", "tupstruct"} -> \A i \in 1..Len(T.es) : Serial(T.es[i])
               [] T.t = "struct" -> (\A i \in 1..Len(T.es) : Serial(T.es[i]) /\ ~T.df[i]) /\ ~T.deny
               [] T.t = "enum" -> \A i \in 1..Len(T.vs) : \A j \in 1..Len(T.vs[i].es) : Serial(T.vs[i].es[j])
               [] T.t \in {"f32", "f64", "ignored", "tagged", "value", "boolh", "either", "relpath", "eitherpath", "unknown", "kmap", "untag", "itag", "flat"} -> FALSE
               [] OTHER -> TRUE
Back(T, r) == LET s == De(Ser(T, r), T, FALSE, C0) IN s.ok /\ s.r = r
Law1(v, T) == /\ Ok1(v, T, FALSE) /\ Ok1(v, T, TRUE) /\ Lossier(v, T)
              /\ (Serial(T) /\ Faithful(T)) => LET d == De(v, T, FALSE, C0) IN d.ok => Back(T, d.r)
Laws == on => \A T \in Types : Law1(val, T) \/ (PrintT(<<"LAW", val, T, De(val, T, FALSE, C0), De(val, T, TRUE, C0)>>) /\ FALSE)

(* -------------------------------- sessions ------------------------------- *)
\* Containers from one source, leaves from another, in the places they have
Loose(v) == Strip(v)
RECURSIVE Frame(_)
Frame(v) == IF IsD(v) THEN Dict("", [k \in {k \in DOMAIN v.m : IsD(v.m[k])} |-> Frame(v.m[k])]) ELSE v
RECURSIVE Magicless(_)
Magicless(T) == CASE T.t \in {"opt", "seq", "map", "pairs", "newtype"} -> Magicless(T.e)
                  [] T.t \in {"tup", "tupstruct", "struct"} -> \A i \in 1..Len(T.es) : Magicless(T.es[i])
                  [] T.t = "enum" -> \A i \in 1..Len(T.vs) : \A j \in 1..Len(T.vs[i].es) : Magicless(T.vs[i].es[j])
                  [] OTHER -> T.t \notin {"tagged", "relpath", "either", "eitherpath", "unknown"}
TypeSeq == SetSeq(Types)
Generated == on =>
  LET v == Loose(val)
      base == IF IsD(v)
        THEN <<From(MapP("P1", "default" :> ("k" :> Frame(v)), "")), Prov(1, "join", MapP("P2", "debug" :> ("k" :> v), ""), "true"), Select(2, "debug")>>
        ELSE <<From(MapP("P2", "debug" :> ("k" :> v), "debug"))>>
      h == IF IsD(v) THEN 3 ELSE 1
      xs(i) == LET T == TypeSeq[i] d == De(val, T, FALSE, C0) IN
        <<X(h, "k", "true", "false", T), X(h, "k", "true", "true", T)>>
        \o (IF d.ok /\ Serial(T) /\ Faithful(T) /\ Kind # "deep" THEN <<[op |-> "ser", ty |-> T, val |-> d.r]>> ELSE <<>>)
        \o (IF i % 3 = 0 /\ Magicless(T) THEN <<[op |-> "vde", ty |-> T, val |-> v]>> ELSE <<>>)
        \o (IF i % 7 = 0 THEN <<X(h, "", "false", "false", T1("map", T)), [op |-> "lossy", val |-> v]>> ELSE <<>>)
  IN Emit(base \o Flat2([i \in 1..Len(TypeSeq) |-> xs(i)]))
=============================================================================
