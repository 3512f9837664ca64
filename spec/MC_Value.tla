------------------------------- MODULE MC_Value ------------------------------
(* All pairs of small values: accessors, equality, lookup.                   *)
EXTENDS Ops
VARIABLES a, on
Nums == {Num("", "u8", "1"), Num("", "u64", "1"), Num("", "usize", "0"), Num("", "u128", "4294967296"), Num("", "i8", "1"),
         Num("", "i64", "-1"), Num("", "isize", "0"), Num("", "i128", "-170141183460469231731687303715884105728"),
         Num("", "f32", "1.0"), Num("", "f64", "1.0"), Num("", "f64", "0.0"), Num("", "f32", "-0.0"), Num("", "u32", "4294967295"),
         Num("", "u16", "65535"), Num("", "i16", "-1"), Num("", "i32", "7"), Num("", "u128", "340282366920938463463374607431768211455")}
        \cup {Num("", y, "0") : y \in {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}}
Flats == Nums \cup {Str("", s) : s \in {"", "1", "a", "true", "A"}} \cup {[k |-> "c", t |-> "", v |-> c] : c \in {"a", "1"}}
         \cup {Bool("", "true"), Bool("", "false"), Unit(""), NoneV("")}
Few == {Num("", "u8", "1"), Num("", "u64", "1"), Num("", "i8", "1"), Str("", "1"), Unit(""), NoneV("")}
Inner == Few \cup {Dict("", m) : m \in Partial({"a"}, Few)} \cup {Arr("", <<>>)} \cup {Arr("", <<x>>) : x \in Few}
Deeps == {Dict("", m) : m \in Partial({"a", ""}, Inner)} \cup {Arr("", <<x, y>>) : x \in Few, y \in Few} \cup {Arr("", <<x>>) : x \in Inner}
Vals == Flats \cup (IF Thorough THEN Deeps ELSE {d \in Deeps : IsA(d) \/ Cardinality(DOMAIN d.m) < 2 \/ d.m["a"] \in Few})
Keys == {"", "a", "a.a", ".a", "a..a", "b", "a.a.a", "a."}

Init == a = NoVal /\ on = FALSE
Next == ~on /\ on' = TRUE /\ a' \in Vals
Spec == Init /\ [][Next]_<<a, on>>

(* ---------------------------------- laws --------------------------------- *)
Kinds7 == {"str", "char", "bool", "num", "empty", "dict", "arr"}
View1 == ValueView(a, "")
OneKind == Cardinality({k \in Kinds7 : View1[k] # <<>>}) = 1
OneClass == Len(View1.num) = Len(View1.u128) + Len(View1.i128) + Len(View1.f64)
NotNegative == View1.ul # <<>> <=> View1.num # <<>> /\ View1.f64 = <<>> /\ (View1.i128 # <<>> => ~HasPrefix(View1.i128[1], "-"))
Narrow == View1.u32 # <<>> => View1.u32 = View1.u128
\* Lookup goes through dictionaries only, one component after the other.
RECURSIVE WalkIn(_, _)
WalkIn(v, q) == IF q = <<>> \/ q[1] = "" THEN <<v>>
              ELSE LET d == ValueView(v, "").dict IN
                   IF d = <<>> THEN <<>> ELSE IF q[1] \notin DOMAIN d[1].m THEN <<>> ELSE WalkIn(d[1].m[q[1]], Tail(q))
Lookup == \A k \in Keys : ValueView(a, k).find = WalkIn(a, Split(k, "."))
\* Equality: what tells values apart are their kinds and contents.
Equality ==
  /\ EqV(a, a)
  /\ \A b \in Vals : EqV(a, b) = EqV(b, a)
  /\ \A b \in Vals : EqV(a, b) =>
       LET w == ValueView(b, "") IN
       /\ \A k \in {"str", "char", "bool", "empty", "u128", "i128", "ul"} : View1[k] = w[k]
       /\ \A c \in Vals : EqV(b, c) => EqV(a, c)
       /\ \A k \in Keys : Len(ValueView(a, k).find) = Len(ValueView(b, k).find)
  /\ \A b \in Vals : ~EqV(a, b) => a # b
  /\ \A b \in Few : EqV(Arr("", <<a>>), Arr("", <<b>>)) = EqV(a, b) /\ ~EqV(Arr("", <<a>>), b)
Laws == on => OneKind /\ OneClass /\ NotNegative /\ Narrow /\ Lookup /\ Equality

Op(b, k) == [op |-> "val", a |-> a, b |-> b, path |-> k]
RECURSIVE SetToSeq1(_)
SetToSeq1(W) == IF W = {} THEN <<>> ELSE LET w == CHOOSE w \in W : TRUE IN <<w>> \o SetToSeq1(W \ {w})
Generated == on => LET bs == SetToSeq1(Vals) ks == SetToSeq1(Keys) IN
  Emit([i \in 1..Len(bs) |-> Op(bs[i], ks[1 + (i % Len(ks))])] \o [i \in 1..Len(ks) |-> Op(a, ks[i])])
=============================================================================
