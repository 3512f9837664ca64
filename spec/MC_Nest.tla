------------------------------- MODULE MC_Nest ------------------------------
(* Every short key, dots anywhere: a value lands exactly there, by whatever  *)
(* provider, and is found there.                                             *)
EXTENDS Ops
VARIABLES key, on
vars == <<key, on>>

Abc == {"a", "b", "."} \cup (IF Thorough THEN {" ", "A"} ELSE {})
Max == 5
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(n - 1), c \in Abc}
Heads == IF Thorough THEN 2 ELSE 1
Init == key = "" /\ on = FALSE
Next == Len(key) < Max - 1 /\ (\E c \in Abc : key' = key \o c) /\ on' = TRUE
Spec == Init /\ [][Next]_vars
Keys1 == {key} \cup (IF Len(key) = Max - 1 THEN {key \o c : c \in Abc} ELSE {})

V1 == FigS("v")
V2 == Dict("", "a" :> FigS("w"))
V3 == Arr("", <<V2>>)
V4 == Dict("", Empty)
Vs == <<V1, V2, V3, V4>>
\* The components before the first empty one
Comps(k) == LET q == Split(k, ".") e == {i \in 1..Len(q) : q[i] = ""}
            IN IF e = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in e : \A j \in e : i <= j) - 1)
Lands(w, k, v) ==
  LET c == Comps(k) IN
  /\ FindP(w, c) = v
  /\ \A i \in 0..(Len(c) - 1) : LET x == FindP(w, SubSeq(c, 1, i)) IN IsD(x) /\ DOMAIN x.m = {c[i + 1]}
Law1(k, v) ==
  LET t == Provide(NewFig, TupP("T", k, v), "merge", InitS, NoObs, 1)
      s == Provide(NewFig, SerP("S", "defaultprof", "Other", k, v), "merge", InitS, NoObs, 1)
      fits == Comps(k) # <<>> \/ IsD(v)
      W == [s EXCEPT !.prof = "OTHER"]
  IN /\ Lands(Nest(k, v), k, v)
     /\ t.ok = fits /\ s.ok = fits
     /\ fits => /\ DOMAIN t.maps = {"global"} /\ DOMAIN s.maps = {"other"}
                /\ Lands(Strip(Merged(t)), k, v) /\ Lands(Strip(Merged(W)), k, v)
                /\ Strip(Find(Merged(t), k)) = v
     /\ ~fits => Len(t.errs) = 1 /\ t.maps = Empty
Laws == \A k \in Keys1, i \in 1..4 : Law1(k, Vs[i])
KeySeq == SetSeq(Keys1)
Generated ==
  Emit(Flat2([i \in 1..Len(KeySeq) |->
    LET k == KeySeq[i] h == 5 * (i - 1) v == Vs[1 + (i % 4)] IN
    [j \in 1..4 |-> [op |-> "nest", key |-> k, val |-> Vs[j]]]
    \o <<From(TupP("T", k, V1)), From(TupP("T", k, V2)), From(SerP("S", "defaultprof", "Other", k, v)), Select(h + 3, "oTHER"),
         Prov(h + 2, "merge", SerP("S", "global", "", k, V3), "false"), Q(h + 1, k), Q(h + 4, k), Q(h + 5, k)>>]))
=============================================================================
