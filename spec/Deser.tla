-------------------------------- MODULE Deser -------------------------------
(* Typed extraction: what extracting a value at a type gives, or the one     *)
(* error it gives. Types are the run-time type descriptions of the harness.  *)
(* Conversions between float representations come from a table `fc`, as they *)
(* are the processor's business. `ctx` is [fc, src, isdir]: src gives the    *)
(* source <<kind, text>> of a source name, isdir the known directories.      *)
EXTENDS Render, Paths

Ok(r) == [ok |-> TRUE, r |-> r]
Fail(kind, t) == [ok |-> FALSE, e |-> Err(kind, <<>>, t)]
P1(r, v) == [r |-> r, v |-> v]

\* Order of keys, in which dictionaries are visited (beyond ASCII: a table)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiSet == {At(Ascii, i) : i \in 1..Len(Ascii)}
AscIx == [c \in AsciiSet |-> CHOOSE i \in 1..Len(Ascii) : At(Ascii, i) = c]
Ord1(c) == IF c \in AsciiSet THEN AscIx[c]
           ELSE 1000 + (CHOOSE i \in 1..Len(Tab.ord) : Tab.ord[i] = c)
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF At(a, 1) = At(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
                 ELSE Ord1(At(a, 1)) < Ord1(At(b, 1))
RECURSIVE SortKeys(_)
SortKeys(K) == IF K = {} THEN <<>>
               ELSE LET m == CHOOSE k \in K : \A j \in K : j = k \/ StrLess(k, j)
                    IN <<m>> \o SortKeys(K \ {m})

\* Visitors are handed machine words narrowed and 128-bit integers as such;
\* what accepts neither reports them differently.
VisActual(v) ==
  IF v.k = "c" THEN <<"str", v.v>>
  ELSE IF v.k = "n" /\ v.y \in {"u128", "i128"}
    THEN <<"other", "integer `" \o v.v \o "` as " \o v.y>>
  ELSE Actual(v)
BadType(v, exp) == LET a == VisActual(v) IN Fail(<<"InvalidType", a[1], a[2], exp>>, v.t)

(* ------------------------------- lossiness ------------------------------- *)
LossyBool(v) ==
  IF v.k = "b" THEN v.v
  ELSE IF v.k = "n" /\ v.y \notin FTypes /\ v.v \in {"0", "1"} THEN (IF v.v = "1" THEN "true" ELSE "false")
  ELSE IF v.k = "s" THEN
    (IF Lower(v.v) \in {"true", "yes", "1", "on"} THEN "true"
     ELSE IF Lower(v.v) \in {"false", "no", "0", "off"} THEN "false" ELSE "")
  ELSE ""

NoNum == <<"", "">>
LossyNum(v, fc) ==
  IF v.k = "n" THEN <<v.y, v.v>>
  ELSE IF v.k # "s" THEN NoNum
  ELSE LET s == Trim(v.v) IN
    IF Contains(s, ".") THEN
      IF ("f64:" \o s) \in DOMAIN fc THEN <<"f64", fc["f64:" \o s]>> ELSE NoNum
    ELSE IF IsNeg(s) THEN
      LET i == ParseInt(s) IN IF i # "" /\ FitsI(i, "i128") THEN
        <<IF FitsI(i, "i64") THEN NarrowI(i) ELSE "i128", i>> ELSE NoNum
    ELSE LET u == ParseUInt(s) IN IF u # "" /\ FitsU(u, "u128") THEN
        <<IF FitsU(u, "u64") THEN NarrowU(u) ELSE "u128", u>> ELSE NoNum

(* ------------------------------ primitives ------------------------------- *)
Small == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"}
DeInt(v, ty) ==
  IF v.k # "n" \/ v.y \in FTypes THEN BadType(v, ty)
  ELSE IF v.y \in {"u128", "i128"} /\ ty \in Small THEN BadType(v, ty)
  ELSE IF Fits(v.v, ty) THEN Ok(P1(ty, v.v))
  ELSE IF v.y \in {"u128", "i128"} THEN Fail(<<"InvalidValue", "other", v.y, ty>>, v.t)
  ELSE Fail(<<"InvalidValue", Actual(v)[1], v.v, ty>>, v.t)
At2(fc, k) == IF k \in DOMAIN fc THEN fc[k] ELSE "?"
DeFloat(v, ty, fc) ==
  IF v.k # "n" \/ v.y \in {"u128", "i128"} THEN BadType(v, ty)
  ELSE Ok(P1(ty, At2(fc, ty \o ":" \o v.v)))

\* A string of one character, which may take two UTF-16 units.
OneChar(s) == Len(s) = 1 \/ (Len(s) = 2 /\ At(s, 1) \in SeqSet(Tab.hs))

DePrim(v, p, lossy, fc) ==
  IF p = "bool" THEN
    LET b == IF v.k = "b" THEN v.v ELSE IF lossy THEN LossyBool(v) ELSE ""
    IN IF b # "" THEN Ok(P1(p, b)) ELSE BadType(v, "a boolean")
  ELSE IF p \in UTypes \cup ITypes \cup FTypes THEN
    LET n == IF lossy THEN LossyNum(v, fc) ELSE NoNum
        w == IF n = NoNum THEN v ELSE Num(v.t, n[1], n[2])
    IN IF p \in FTypes THEN DeFloat(w, p, fc) ELSE DeInt(w, p)
  ELSE IF p = "char" THEN
    IF v.k = "c" THEN Ok(P1(p, v.v))
    ELSE IF v.k = "s" THEN
      IF OneChar(v.v) THEN Ok(P1(p, v.v))
      ELSE Fail(<<"InvalidValue", "str", v.v, "a character">>, v.t)
    ELSE BadType(v, "a character")
  ELSE IF p = "string" THEN
    IF v.k \in {"s", "c"} THEN Ok(P1(p, v.v)) ELSE BadType(v, "a string")
  ELSE IF p = "unit" THEN
    IF v.k = "e" /\ v.v = "unit" THEN Ok(P1(p, "")) ELSE BadType(v, "unit")
  ELSE Ok(P1(p, ""))      \* ignored

DeBoolH(v) ==
  IF v.k = "b" THEN Ok(P1("bool", v.v))
  ELSE IF v.k \in {"s", "c"} THEN
    IF Lower(v.v) \in {"true", "false"} THEN Ok(P1("bool", Lower(v.v)))
    ELSE Fail(<<"InvalidValue", "str", v.v, "true or false">>, v.t)
  ELSE IF v.k = "n" /\ v.y \notin FTypes \cup {"u128", "i128"} THEN
    IF v.v = "0" THEN Ok(P1("bool", "false")) ELSE IF v.v = "1" THEN Ok(P1("bool", "true"))
    ELSE Fail(<<"InvalidValue", Actual(v)[1], v.v, "0 or 1">>, v.t)
  ELSE BadType(v, "a boolean")

(* ------------------------------ relative paths --------------------------- *)
\* `mp` is the text of the metadata path, "" if there is none.
RelOf(v, mp, ctx) ==
  IF IsAbs(v) \/ mp = "" THEN v
  ELSE JoinPath(IF mp \in ctx.dirs THEN mp ELSE ParentText(mp), v)
MdPath(t, ctx) ==
  LET n == TagName(t) IN
  IF n \notin DOMAIN ctx.src THEN ""
  ELSE LET s == ctx.src[n] IN
    IF s[1] = "file" THEN Cat("ROOT", s[2]) ELSE IF s[1] = "relfile" THEN s[2] ELSE ""
RelRes(v, mp, ctx) == [r |-> "relpath", v |-> v, md |-> mp, rel |-> RelOf(v, mp, ctx)]
\* A path that was serialized names the file it was declared in; one that names
\* none belongs to the file it is read from, like plain text.
RelMdKey == "___figment_relative_metadata_path"
RelKey == "___figment_relative_path"
DeRelPath(v, ctx) ==
  LET has(k) == IF v.k = "d" THEN k \in DOMAIN v.m ELSE FALSE
      own == IF has(RelMdKey) THEN v.m[RelMdKey].k # "e" ELSE FALSE
      w == IF has(RelKey) THEN v.m[RelKey] ELSE v
      md == v.m[RelMdKey]
      in(x, k) == [x EXCEPT !.e.path = <<k>> \o @]
      text(x) == x.k \in {"s", "c"}
  IN IF own
     THEN IF ~text(md) THEN in(BadType(md, "path string"), RelMdKey)
          ELSE IF ~has(RelKey) THEN Fail(<<"MissingField", RelKey>>, v.t)
          ELSE IF ~text(w) THEN in(BadType(w, "path string"), RelKey)
          ELSE Ok(RelRes(w.v, md.v, ctx))
     ELSE IF text(w) THEN Ok(RelRes(w.v, MdPath(v.t, ctx), ctx))
     ELSE BadType(w, "path string")

(* ------------------------------ composite types -------------------------- *)
At1(r, key) == IF r.ok THEN r ELSE [r EXCEPT !.e.path = <<key>> \o @]
Retag(r, t) == IF r.ok \/ r.e.t # "" THEN r ELSE [r EXCEPT !.e.t = t]
Position2(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
RECURSIVE FirstBad(_, _)
FirstBad(rs, i) == IF i > Len(rs) THEN 0 ELSE IF ~rs[i].ok THEN i ELSE FirstBad(rs, i + 1)
Oks(rs) == [i \in 1..Len(rs) |-> rs[i].r]

UnitOnly(kind) == CASE kind = "new" -> "newtype variant" [] kind = "tup" -> "tuple variant"
                    [] kind = "struct" -> "struct variant"

(* ---------------------------- buffered values ---------------------------- *)
\* Untagged and internally tagged enums and flattened maps read a value into
\* a buffer without places, sources and lossiness first, and then from there.
\* The buffer has no room for 128-bit integers.
RECURSIVE Buffer(_)
Buffer(v) ==
  IF IsD(v) THEN
    LET ks == SortKeys(DOMAIN v.m)
        rs == TLCEval([i \in 1..Len(ks) |-> At1(Buffer(v.m[ks[i]]), ks[i])])
        b == FirstBad(rs, 1)
    IN IF b = 0 THEN Ok("") ELSE rs[b]
  ELSE IF IsA(v) THEN
    LET rs == TLCEval([i \in 1..Len(v.x) |-> At1(Buffer(v.x[i]), ToString(i - 1))])
        b == FirstBad(rs, 1)
    IN IF b = 0 THEN Ok("") ELSE rs[b]
  ELSE IF v.k = "n" /\ v.y \in {"u128", "i128"} THEN BadType(v, "any value") ELSE Ok("")

\* Reading from the buffer; errors are the source's, `t`, of the whole.
RECURSIVE FromBuf(_, _, _, _), Untag(_, _, _)
FromBuf(v, T, t, fc) ==
  LET bad(exp) == LET a == Actual(v) IN Fail(<<"InvalidType", a[1], a[2], exp>>, t) IN
  CASE T.t = "bool" -> IF v.k = "b" THEN Ok(P1("bool", v.v)) ELSE bad("a boolean")
    [] T.t \in UTypes \cup ITypes ->
         IF v.k # "n" \/ v.y \in FTypes THEN bad(T.t)
         ELSE IF Fits(v.v, T.t) THEN Ok(P1(T.t, v.v))
         ELSE Fail(<<"InvalidValue", Actual(v)[1], v.v, T.t>>, t)
    [] T.t \in FTypes -> IF v.k = "n" THEN Ok(P1(T.t, At2(fc, T.t \o ":" \o v.v))) ELSE bad(T.t)
    [] T.t = "string" -> IF v.k = "s" THEN Ok(P1("string", v.v)) ELSE bad("a string")
    [] T.t = "opt" -> IF v.k = "e" THEN Ok([r |-> "none"])
                      ELSE LET r == FromBuf(v, T.e, t, fc)
                           IN IF r.ok THEN Ok([r |-> "some", x |-> r.r]) ELSE r
    [] T.t = "seq" ->
         IF ~IsA(v) THEN bad("a sequence")
         ELSE LET rs == TLCEval([i \in 1..Len(v.x) |-> FromBuf(v.x[i], T.e, t, fc)])
                  b == FirstBad(rs, 1)
              IN IF b = 0 THEN Ok([r |-> "seq", xs |-> Oks(rs)]) ELSE rs[b]
    [] T.t = "map" ->
         IF ~IsD(v) THEN bad("a map")
         ELSE LET ks == SortKeys(DOMAIN v.m)
                  rs == TLCEval([i \in 1..Len(ks) |-> FromBuf(v.m[ks[i]], T.e, t, fc)])
                  b == FirstBad(rs, 1)
              IN IF b = 0 THEN Ok([r |-> "map", m |-> [k \in DOMAIN v.m |-> rs[Position2(ks, k)].r]]) ELSE rs[b]
    [] T.t = "untag" -> Untag(v, t, fc)
BufTy(t) == [t |-> t]
\* The alternatives of the harness's untagged enum, in turn
Pair(v, fc) ==
  IF ~IsD(v) \/ "a" \notin DOMAIN v.m THEN Fail(Msg(""), "")
  ELSE LET a == FromBuf(v.m["a"], BufTy("u8"), "", fc)
           b == IF "b" \in DOMAIN v.m THEN FromBuf(v.m["b"], [t |-> "opt", e |-> BufTy("string")], "", fc)
                ELSE Ok([r |-> "none"])
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b
          ELSE Ok([r |-> "struct", m |-> ("a" :> a.r) @@ ("b" :> b.r)])
Untag(v, t, fc) ==
  LET alts == <<<<"Flag", FromBuf(v, BufTy("bool"), t, fc)>>, <<"Int", FromBuf(v, BufTy("i64"), t, fc)>>,
                <<"Real", FromBuf(v, BufTy("f64"), t, fc)>>, <<"Text", FromBuf(v, BufTy("string"), t, fc)>>,
                <<"List", FromBuf(v, [t |-> "seq", e |-> BufTy("u8")], t, fc)>>, <<"Pair", Pair(v, fc)>>>>
      hit == {i \in 1..6 : alts[i][2].ok}
  IN IF hit = {} THEN Fail(Msg("data did not match any variant of untagged enum UMix"), t)
     ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j
          IN Ok([r |-> "untag", v |-> alts[i][1], x |-> alts[i][2].r])
DeUntag(v, fc) == LET b == Buffer(v) IN IF ~b.ok THEN b ELSE Untag(v, v.t, fc)

(* ------------------------------- addresses ------------------------------- *)
Digits1 == SeqSet(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>)
Octet(s) == /\ Len(s) \in 1..3 /\ \A i \in 1..Len(s) : At(s, i) \in Digits1
            /\ Len(s) > 1 => At(s, 1) # "0"
            /\ Fits(s, "u8")
IsIp4(s) == s # "" /\ LET q == Split(s, ".") IN Len(q) = 4 /\ \A i \in 1..4 : Octet(q[i])
DeIp4(v) ==
  IF v.k \notin {"s", "c"} THEN BadType(v, "IPv4 address")
  ELSE IF IsIp4(v.v) THEN Ok(P1("ip4", v.v)) ELSE Fail(Msg("invalid IPv4 address syntax"), v.t)

RECURSIVE De(_, _, _, _), DeTup(_, _, _, _, _), DeFields(_, _, _, _, _), DeEnum(_, _, _, _)


DeSeq(v, T, lossy, ctx) ==
  IF ~IsA(v) THEN BadType(v, "a sequence")
  ELSE LET rs == TLCEval([i \in 1..Len(v.x) |-> At1(De(v.x[i], T, lossy, ctx), ToString(i - 1))])
           b == FirstBad(rs, 1)
       IN IF b = 0 THEN Ok([r |-> "seq", xs |-> Oks(rs)]) ELSE rs[b]

DeTup(v, Ts, what, lossy, ctx) ==
  LET exp == what \o " " \o ToString(Len(Ts)) IN
  IF ~IsA(v) THEN BadType(v, exp)
  ELSE LET n == IF Len(v.x) < Len(Ts) THEN Len(v.x) ELSE Len(Ts)
           rs == TLCEval([i \in 1..n |-> At1(De(v.x[i], Ts[i], lossy, ctx), ToString(i - 1))])
           b == FirstBad(rs, 1)
       IN IF b # 0 THEN rs[b]
          ELSE IF n < Len(Ts) THEN Fail(<<"InvalidLength", ToString(n), exp>>, v.t)
          ELSE Ok([r |-> "seq", xs |-> Oks(rs)])

DeMap(v, T, lossy, ctx) ==
  IF ~IsD(v) THEN BadType(v, "a map")
  ELSE LET ks == SortKeys(DOMAIN v.m)
           rs == TLCEval([i \in 1..Len(ks) |-> At1(De(v.m[ks[i]], T, lossy, ctx), ks[i])])
           b == FirstBad(rs, 1)
       IN IF b # 0 THEN rs[b]
          ELSE Ok([r |-> "map", m |-> [k \in DOMAIN v.m |-> (De(v.m[k], T, lossy, ctx)).r]])

DePairs(v, T, lossy, ctx) ==
  LET r == DeMap(v, T, lossy, ctx) IN
  IF ~r.ok THEN r
  ELSE LET ks == SortKeys(DOMAIN v.m)
       IN Ok([r |-> "pairs", ks |-> ks, xs |-> [i \in 1..Len(ks) |-> r.r.m[ks[i]]]])

\* Keys are read as text, each before its value.
DeKeyMap(v, K, T, lossy, ctx) ==
  IF ~IsD(v) THEN BadType(v, "a map")
  ELSE LET ks == SortKeys(DOMAIN v.m)
           key(i) == At1(De(Str(v.m[ks[i]].t, ks[i]), K, FALSE, ctx), ks[i])
           rs == TLCEval([i \in 1..2 * Len(ks) |->
                    LET j == (i + 1) \div 2 IN
                    IF i % 2 = 1 THEN key(j) ELSE At1(De(v.m[ks[j]], T, lossy, ctx), ks[j])])
           b == FirstBad(rs, 1)
       IN IF b # 0 THEN rs[b]
          ELSE Ok([r |-> "kmap", ks |-> [i \in 1..Len(ks) |-> rs[2 * i - 1].r],
                   xs |-> [i \in 1..Len(ks) |-> rs[2 * i].r]])

\* The struct of `a`, `b` and all else, flattened
DeFlat(v, T, lossy, ctx) ==
  IF ~IsD(v) THEN BadType(v, "struct FlatS")
  ELSE LET ks == SortKeys(DOMAIN v.m)
           one(k) == At1(IF k = "a" THEN DePrim(v.m[k], "u8", lossy, ctx.fc)
                         ELSE IF k = "b" THEN De(v.m[k], [t |-> "opt", e |-> BufTy("string")], lossy, ctx)
                         ELSE Buffer(v.m[k]), k)
           rs == TLCEval([i \in 1..Len(ks) |-> one(ks[i])])
           b == FirstBad(rs, 1)
           rest == DOMAIN v.m \ {"a", "b"}
           r == FromBuf(Dict("", [k \in rest |-> v.m[k]]), [t |-> "map", e |-> T.e], v.t, ctx.fc)
       IN IF b # 0 THEN rs[b]
          ELSE IF "a" \notin DOMAIN v.m THEN Fail(<<"MissingField", "a">>, v.t)
          ELSE IF ~r.ok THEN r
          ELSE Ok([r |-> "flat", a |-> one("a").r, m |-> r.r.m,
                   b |-> IF "b" \in DOMAIN v.m THEN one("b").r ELSE [r |-> "none"]])

\* An enum whose variant is told by the key "kind"
DeITag(v, ctx) ==
  LET names == <<"A", "B", "C">>
      id(w) == IF w.k = "n" /\ w.y \notin FTypes \cup {"u128", "i128"} /\ ~IsNeg(w.v) /\ w.y \notin ITypes THEN
                 (IF w.v \in {"0", "1", "2"} THEN Ok(CASE w.v = "0" -> "A" [] w.v = "1" -> "B" [] OTHER -> "C")
                  ELSE Fail(<<"InvalidValue", "unsigned", w.v, "variant index 0 <= i < 3">>, w.t))
               ELSE IF w.k \in {"s", "c"} THEN
                 (IF w.v \in SeqSet(names) THEN Ok(w.v) ELSE Fail(<<"UnknownVariant", w.v, "A,B,C">>, w.t))
               ELSE BadType(w, "variant identifier")
      res(n, x) == Ok([r |-> "itag", v |-> n, x |-> x])
      \* The rest of an array, the first of which tells
      over(n, len) == Fail(<<"InvalidLength", ToString(len),
                             ToString(n) \o (IF n = 1 THEN " element" ELSE " elements") \o " in sequence">>, v.t)
      ofs(xs, n) ==
        IF n = "A" THEN IF xs = <<>> THEN res(n, [r |-> "none"]) ELSE over(0, Len(xs))
        ELSE IF n = "B" THEN
          IF xs = <<>> THEN Fail(<<"InvalidLength", "0", "struct variant ITag::B with 1 element">>, v.t)
          ELSE LET r == FromBuf(xs[1], BufTy("u8"), v.t, ctx.fc)
               IN IF ~r.ok THEN r ELSE IF Len(xs) > 1 THEN over(1, Len(xs)) ELSE res(n, r.r)
        ELSE FromBuf(Arr("", xs), [t |-> "map", e |-> BufTy("i64")], v.t, ctx.fc)
      ofm(m, n) ==
        IF n = "A" THEN res(n, [r |-> "none"])
        ELSE IF n = "B" THEN
          IF "x" \notin DOMAIN m THEN Fail(<<"MissingField", "x">>, v.t)
          ELSE LET r == FromBuf(m["x"], BufTy("u8"), v.t, ctx.fc) IN IF r.ok THEN res(n, r.r) ELSE r
        ELSE LET r == FromBuf(Dict("", m), [t |-> "map", e |-> BufTy("i64")], v.t, ctx.fc) IN IF r.ok THEN res(n, r.r) ELSE r
  IN IF IsA(v) THEN
       LET rs == TLCEval([i \in 1..Len(v.x) |-> At1(IF i = 1 THEN id(v.x[1]) ELSE Buffer(v.x[i]), ToString(i - 1))])
           b == FirstBad(rs, 1)
       IN IF v.x = <<>> THEN Fail(<<"MissingField", "kind">>, v.t)
          ELSE IF b # 0 THEN rs[b] ELSE ofs(Tail(v.x), rs[1].r)
     ELSE IF ~IsD(v) THEN BadType(v, "internally tagged enum ITag")
     ELSE LET ks == SortKeys(DOMAIN v.m)
              rs == TLCEval([i \in 1..Len(ks) |-> At1(IF ks[i] = "kind" THEN id(v.m["kind"]) ELSE Buffer(v.m[ks[i]]), ks[i])])
              b == FirstBad(rs, 1)
          IN IF b # 0 THEN rs[b]
             ELSE IF "kind" \notin DOMAIN v.m THEN Fail(<<"MissingField", "kind">>, v.t)
             ELSE ofm([k \in DOMAIN v.m \ {"kind"} |-> v.m[k]], id(v.m["kind"]).r)

\* F is [fn, es, df, deny]: fields, types, whether there is a default.
Position(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
DeFields(v, F, what, lossy, ctx) ==
  IF IsD(v) THEN
    LET ks == SortKeys(DOMAIN v.m)
        one(k) == LET p == Position(F.fn, k) IN
                  IF p # 0 THEN At1(De(v.m[k], F.es[p], lossy, ctx), k)
                  ELSE IF F.deny
                    THEN At1(Fail(<<"UnknownField", k, Join(F.fn, ",")>>, v.m[k].t), k)
                  ELSE Ok("")
        rs == TLCEval([i \in 1..Len(ks) |-> one(ks[i])])
        b == FirstBad(rs, 1)
        lack == {i \in 1..Len(F.fn) : F.fn[i] \notin DOMAIN v.m /\ ~F.df[i] /\ F.es[i].t # "opt"}
        res(i) == IF F.fn[i] \in DOMAIN v.m THEN De(v.m[F.fn[i]], F.es[i], lossy, ctx).r
                  ELSE IF F.df[i] THEN [r |-> "default"] ELSE [r |-> "none"]
    IN IF b # 0 THEN rs[b]
       ELSE IF lack # {} THEN
         LET m == CHOOSE i \in lack : \A j \in lack : i <= j
         IN Fail(<<"MissingField", F.fn[m]>>, v.t)
       ELSE Ok([r |-> "struct", m |-> [k \in SeqSet(F.fn) |-> res(Position(F.fn, k))]])
  ELSE IF IsA(v) THEN
    LET n == IF Len(v.x) < Len(F.fn) THEN Len(v.x) ELSE Len(F.fn)
        rs == TLCEval([i \in 1..n |-> At1(De(v.x[i], F.es[i], lossy, ctx), ToString(i - 1))])
        b == FirstBad(rs, 1)
        lack == {i \in (n + 1)..Len(F.fn) : ~F.df[i]}
    IN IF b # 0 THEN rs[b]
       ELSE IF lack # {} THEN
         LET m == CHOOSE i \in lack : \A j \in lack : i <= j
         IN Fail(<<"InvalidLength", ToString(m - 1),
                   what \o " with " \o ToString(Len(F.fn)) \o " elements">>, v.t)
       ELSE Ok([r |-> "struct", m |-> [k \in SeqSet(F.fn) |->
                  LET i == Position(F.fn, k) IN IF i <= n THEN rs[i].r ELSE [r |-> "default"]]])
  ELSE BadType(v, what)

Payload(T, i, v, lossy, ctx) ==
  LET V == T.vs[i] IN
  IF V.k = "unit" THEN LET r == DePrim(v, "unit", FALSE, ctx.fc)
                       IN IF r.ok THEN Ok([r |-> "none"]) ELSE r
  ELSE IF V.k = "new" THEN De(v, V.es[1], lossy, ctx)
  ELSE IF V.k = "tup" THEN DeTup(v, V.es, "a tuple variant of size", lossy, ctx)
  ELSE DeFields(v, [fn |-> V.fn, es |-> V.es, df |-> [j \in 1..Len(V.fn) |-> FALSE], deny |-> FALSE],
                "struct variant " \o T.n \o "::" \o T.vn[i], lossy, ctx)
EnumRes(T, i, x) == [r |-> "enum", v |-> T.vn[i], kind |-> T.vs[i].k, x |-> x]
Named(T, i, t) == IF T.vs[i].k = "unit" THEN Ok(EnumRes(T, i, [r |-> "none"]))
                  ELSE Fail(<<"InvalidType", "unitvariant", "", UnitOnly(T.vs[i].k)>>, t)
DeEnum(v, T, lossy, ctx) ==
  IF v.k = "s" THEN
    LET i == Position(T.vn, v.v) IN
    IF i = 0 THEN Fail(<<"UnknownVariant", v.v, Join(T.vn, ",")>>, v.t) ELSE Named(T, i, v.t)
  ELSE IF IsD(v) THEN
    IF DOMAIN v.m = {} THEN Fail(<<"InvalidType", "map", "", "enum">>, v.t)
    ELSE LET k == SortKeys(DOMAIN v.m)[1]
             i == Position(T.vn, k)
         IN IF i = 0 THEN At1(Fail(<<"UnknownVariant", k, Join(T.vn, ",")>>, v.m[k].t), k)
            ELSE LET r == At1(Payload(T, i, v.m[k], lossy, ctx), k)
                 IN IF r.ok THEN Ok(EnumRes(T, i, r.r)) ELSE r
  ELSE IF v.k = "n" /\ v.y \in {"u8", "u16", "u32"} THEN
    LET hit == {i \in 1..Len(T.vn) : ToString(i - 1) = v.v} IN
    IF hit = {} THEN Fail(<<"InvalidValue", "unsigned", v.v,
                            "variant index 0 <= i < " \o ToString(Len(T.vn))>>, v.t)
    ELSE Named(T, CHOOSE i \in hit : TRUE, v.t)
  ELSE BadType(v, "enum " \o T.n)

Both(a, b, t) == Fail(Msg(KindText(a.e.kind) \o "; " \o KindText(b.e.kind)), t)

De(v, T, lossy, ctx) ==
  CASE T.t = "opt" -> IF v.k = "e" THEN Ok([r |-> "none"])
                      ELSE LET r == De(v, T.e, lossy, ctx)
                           IN IF r.ok THEN Ok([r |-> "some", x |-> r.r]) ELSE r
    [] T.t = "seq" -> DeSeq(v, T.e, lossy, ctx)
    [] T.t = "tup" -> DeTup(v, T.es, "a tuple of size", lossy, ctx)
    [] T.t = "tupstruct" -> DeTup(v, T.es, "tuple struct of size", lossy, ctx)
    [] T.t = "map" -> DeMap(v, T.e, lossy, ctx)
    [] T.t = "pairs" -> DePairs(v, T.e, lossy, ctx)
    [] T.t = "struct" -> DeFields(v, T, "struct " \o T.n, lossy, ctx)
    [] T.t = "enum" -> DeEnum(v, T, lossy, ctx)
    [] T.t = "newtype" -> LET r == De(v, T.e, lossy, ctx)
                          IN IF r.ok THEN Ok([r |-> "newtype", x |-> r.r]) ELSE r
    [] T.t = "unitstruct" -> IF v.k = "e" /\ v.v = "unit" THEN Ok(P1("unitstruct", ""))
                             ELSE BadType(v, "unit struct U")
    [] T.t = "tagged" -> LET r == De(v, T.e, lossy, ctx)
                         IN IF r.ok THEN Ok([r |-> "tagged", t |-> v.t, x |-> r.r]) ELSE r
    [] T.t = "relpath" -> DeRelPath(v, ctx)
    [] T.t = "value" -> Ok([r |-> "value", y |-> Visited(v)])
    [] T.t = "boolh" -> DeBoolH(v)
    [] T.t = "either" ->
         LET w == Strip(Visited(v))   \* alternatives see values without sources
             a == De(w, T.e, FALSE, ctx)
             b == De(w, T.e2, FALSE, ctx)
         IN IF a.ok THEN Ok([r |-> "left", x |-> [r |-> "tagged", t |-> v.t, x |-> a.r]])
            ELSE IF b.ok THEN Ok([r |-> "right", x |-> b.r]) ELSE Both(a, b, v.t)
    [] T.t = "eitherpath" ->
         LET w == Visited(v)
             a == DeRelPath(w, ctx)
             b == De(Strip(w), T.e, FALSE, ctx)
         IN IF a.ok THEN Ok([r |-> "left", x |-> a.r])
            ELSE IF b.ok THEN Ok([r |-> "right", x |-> b.r]) ELSE Both(a, b, v.t)
    [] T.t = "ip4" -> DeIp4(v)
    [] T.t = "path" -> IF v.k \in {"s", "c"} THEN Ok(P1("path", v.v)) ELSE BadType(v, "path string")
    [] T.t = "kmap" -> DeKeyMap(v, T.kt, T.e, lossy, ctx)
    [] T.t = "untag" -> DeUntag(v, ctx.fc)
    [] T.t = "flat" -> DeFlat(v, T, lossy, ctx)
    [] T.t = "itag" -> DeITag(v, ctx)
    [] OTHER -> DePrim(v, T.t, lossy, ctx.fc)

(* ------------------------------ serialization ---------------------------- *)
\* The value a typed value (in result form) becomes.
RECURSIVE Ser(_, _)
SerSeq(Ts, xs) == Arr("", [i \in 1..Len(xs) |-> Ser(Ts[i], xs[i])])
Only(key, v) == Dict("", [k \in {key} |-> v])
WordTy(p) == IF p = "usize" THEN "u64" ELSE IF p = "isize" THEN "i64" ELSE p
\* The bytes of an ASCII string
Byte(c) == 31 + AscIx[c]
Ser(T, j) ==
  CASE T.t = "bool" -> Bool("", j.v)
    [] T.t \in UTypes \cup ITypes \cup FTypes -> Num("", WordTy(T.t), j.v)
    [] T.t = "char" -> [k |-> "c", t |-> "", v |-> j.v]
    [] T.t \in {"string", "ip4", "path"} -> Str("", j.v)
    [] T.t = "bytes" -> Arr("", [i \in 1..Len(j.v) |-> Num("", "u8", ToString(Byte(At(j.v, i))))])
    [] T.t \in {"unit", "unitstruct"} -> Unit("")
    [] T.t = "opt" -> IF j.r = "none" THEN NoneV("") ELSE Ser(T.e, j.x)
    [] T.t = "seq" -> Arr("", [i \in 1..Len(j.xs) |-> Ser(T.e, j.xs[i])])
    [] T.t \in {"tup", "tupstruct"} -> SerSeq(T.es, j.xs)
    [] T.t = "map" -> Dict("", [k \in DOMAIN j.m |-> Ser(T.e, j.m[k])])
    [] T.t = "struct" -> Dict("", [k \in SeqSet(T.fn) |-> Ser(T.es[Position(T.fn, k)], j.m[k])])
    [] T.t = "newtype" -> Ser(T.e, j.x)
    [] T.t = "pairs" -> Dict("", [k \in SeqSet(j.ks) |->
                          LET ix == {i \in 1..Len(j.ks) : j.ks[i] = k}
                          IN Ser(T.e, j.xs[CHOOSE i \in ix : \A n \in ix : n <= i])])
    [] T.t = "value" -> SerVal(j.y)
    [] T.t = "enum" ->
         LET i == Position(T.vn, j.v) V == T.vs[i] IN
         IF V.k = "unit" THEN Str("", j.v)
         ELSE Only(j.v, IF V.k = "new" THEN Ser(V.es[1], j.x)
                        ELSE IF V.k = "tup" THEN SerSeq(V.es, j.x.xs)
                        ELSE Dict("", [k \in SeqSet(V.fn) |->
                                         Ser(V.es[Position(V.fn, k)], j.x.m[k])]))

\* Types whose values come back equal: there the option of an option or of a
\* unit is not representable, nor a unit struct told from its absence.
RECURSIVE Faithful(_)
Faithful(T) ==
  CASE T.t = "opt" -> T.e.t \notin {"opt", "unit", "unitstruct", "value"} /\ Faithful(T.e)
                      /\ ~(T.e.t = "newtype" /\ T.e.e.t \in {"opt", "unit", "unitstruct", "newtype"})
    [] T.t \in {"seq", "map", "newtype", "pairs"} -> Faithful(T.e)
    [] T.t \in {"tup", "tupstruct", "struct"} -> \A i \in 1..Len(T.es) : Faithful(T.es[i])
    [] T.t = "enum" -> \A i \in 1..Len(T.vs) :
                         T.vs[i].k = "unit" \/ \A n \in 1..Len(T.vs[i].es) : Faithful(T.vs[i].es[n])
    [] T.t \in {"bytes", "value", "u128", "i128"} -> T.t # "bytes"
    [] OTHER -> TRUE
=============================================================================
