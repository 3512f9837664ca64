------------------------------ MODULE Inspect -------------------------------
(* Values and errors looked at by themselves: what accessors give, which     *)
(* values are equal, what chained errors consist of.                         *)
EXTENDS Deser

(* --------------------------------- values -------------------------------- *)
\* What a conversion gives: a sequence of at most one element
If(b, x) == IF b THEN <<x>> ELSE <<>>
NumIn(v, tys) == IF v.k = "n" /\ v.y \in tys THEN <<v.v>> ELSE <<>>
Signless(v) == ~IsNeg(v)
ValueView(v, path) ==
  [str |-> If(v.k = "s", v.v), istr |-> If(v.k = "s", v.v), char |-> If(v.k = "c", v.v),
   bool |-> If(v.k = "b", v.v), num |-> IF v.k = "n" THEN << <<v.y, v.v>> >> ELSE <<>>,
   empty |-> If(v.k = "e", v.v),
   dict |-> If(IsD(v), v), idict |-> If(IsD(v), v), arr |-> If(IsA(v), v), iarr |-> If(IsA(v), v),
   u32 |-> NumIn(v, {"u8", "u16", "u32"}), u128 |-> NumIn(v, UTypes), i128 |-> NumIn(v, ITypes),
   ul |-> IF v.k = "n" /\ v.y \notin FTypes /\ Signless(v.v) THEN <<v.v>> ELSE <<>>,
   f64 |-> NumIn(v, FTypes), act |-> Actual(v),
   find |-> LET w == Find(v, path) IN If(w # NoVal, w)]

\* Numbers are equal if they are of one class (unsigned, signed, float) and
\* denote the same number, whatever their widths; sources do not matter.
NumClass(y) == IF y \in UTypes THEN "u" ELSE IF y \in ITypes THEN "i" ELSE "f"
SameFloat(a, b) == (a = b /\ a # "NaN") \/ {a, b} \subseteq {"0.0", "-0.0"}
RECURSIVE EqV(_, _)
EqV(a, b) ==
  a.k = b.k /\
  CASE a.k = "n" -> NumClass(a.y) = NumClass(b.y) /\
                    (IF NumClass(a.y) = "f" THEN SameFloat(a.v, b.v) ELSE a.v = b.v)
    [] a.k = "d" -> DOMAIN a.m = DOMAIN b.m /\ \A k \in DOMAIN a.m : EqV(a.m[k], b.m[k])
    [] a.k = "a" -> Len(a.x) = Len(b.x) /\ \A i \in 1..Len(a.x) : EqV(a.x[i], b.x[i])
    [] OTHER -> a.v = b.v

(* --------------------------------- errors -------------------------------- *)
\* Alternatives by number, joined as recorded
AltList == <<"", "a", "a,b", "x,y,z">>
ActualOf(a) == IF a[1] = "bytes"
               THEN <<"bytes", "[" \o Join([i \in 1..Len(a[2]) |-> ToString(Byte(At(a[2], i)))], ", ") \o "]">>
               ELSE a
LeafKind(l) ==
  CASE l.how \in {"msg", "string", "custom", "sercustom", "kind"} -> Msg(l.x)
    [] l.how = "missing" -> <<"MissingField", "gone">>
    [] l.how = "kindmissing" -> <<"MissingField", l.x>>
    [] l.how = "dup" -> <<"DuplicateField", "twice">>
    [] l.how \in {"type", "kindtype"} -> <<"InvalidType">> \o ActualOf(l.a) \o <<l.x>>
    [] l.how = "typeone" -> <<"InvalidType">> \o ActualOf(l.a) \o <<OneOf(AltList[l.list + 1])>>
    [] l.how = "value" -> <<"InvalidValue">> \o ActualOf(l.a) \o <<l.x>>
    [] l.how = "len" -> <<"InvalidLength", ToString(Len(l.x)), l.x>>
    [] l.how = "variant" -> <<"UnknownVariant", l.x, AltList[l.list + 1]>>
    [] l.how = "field" -> <<"UnknownField", l.x, AltList[l.list + 1]>>
    [] l.how = "isize" -> <<"ISizeOutOfRange", "-7">>
    [] l.how = "usize" -> <<"USizeOutOfRange", "7">>
    [] l.how = "unsup" -> <<"Unsupported">> \o ActualOf(l.a)
    [] l.how = "unsupkey" -> <<"UnsupportedKey">> \o ActualOf(l.a) \o <<l.x>>
KeyParts(key) == NonEmpty(Split(key, "."))
RECURSIVE CompsOf(_)
CompsOf(keys) == IF keys = <<>> THEN <<>> ELSE KeyParts(keys[1]) \o CompsOf(Tail(keys))
\* l.chain(r): the causes of r, then those of l. A path given to it is the first's.
RECURSIVE Causes(_)
Causes(t) ==
  IF t.n = "leaf" THEN <<Err(LeafKind(t), CompsOf(t.paths), "")>>
  ELSE LET q == Causes(t.r) \o Causes(t.l)
       IN [q EXCEPT ![1].path = @ \o KeyParts(t.path)]
TreeText(es) == Join([i \in 1..Len(es) |-> KindText(es[i].kind)], "\n")
TreeView(t) ==
  LET es == Causes(t) IN
  [count |-> Len(es), disp |-> TreeText(es), same |-> "true",
   items |-> [i \in 1..Len(es) |->
     [kind |-> es[i].kind, path |-> es[i].path, missing |-> IF es[i].kind[1] = "MissingField" THEN "true" ELSE "false",
      count |-> 1, text |-> KindText(es[i].kind), ktext |-> KindText(es[i].kind), bare |-> "true"]]]
=============================================================================
