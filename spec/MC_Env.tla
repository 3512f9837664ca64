------------------------------- MODULE MC_Env -------------------------------
(* Every short pipeline over a fixed environment, against what the steps are *)
(* documented to do, stated as relations and as laws between pipelines, and  *)
(* against where values land. All are run in the code.                       *)
EXTENDS Ops
VARIABLES pipe, ev

E1 == ("A" :> "1") @@ ("APP_A" :> "x") @@ ("app_B_c" :> "[1]") @@ ("Name" :> "true") @@ ("X_" :> "0")
E2 == ("a_b" :> "{x=1}") @@ ("App_a__C" :> " pad ") @@ ("APP" :> "2") @@ ("B" :> "'c'") @@ ("A.b" :> "z")
Envs == {E1, E2}
Steps == {<<"prefixed", "app_">>, <<"split", "_">>, <<"split", "__">>, <<"split", "A">>, <<"only", <<"a", "B.C">>>>, <<"only", <<"NAME">>>>,
          <<"ignore", <<"app_a", "A">>>>, <<"map", "dots">>, <<"map", "upper">>, <<"map", "suf">>, <<"map", "tail">>, <<"filter", "a">>,
          <<"filternot", "APP">>, <<"filtermap", "app_", "pre">>, <<"lowercase", "false">>, <<"lowercase", "true">>,
          <<"profile", "Debug">>, <<"global">>}
First(q) == \A i \in 2..Len(q) : q[i][1] # "prefixed"
MaxHead == IF Thorough THEN 3 ELSE 2
\* A state stands for a pipeline and, at full length, its extensions by a step.
More == IF Len(pipe) < MaxHead THEN {pipe} ELSE {q \in {Append(pipe, s) : s \in Steps} : First(q)} \cup {pipe}

Init == pipe = <<>> /\ ev \in Envs
Next == Len(pipe) < MaxHead /\ (\E s \in Steps : pipe' = Append(pipe, s) /\ First(pipe')) /\ UNCHANGED ev
Spec == Init /\ [][Next]_<<pipe, ev>>

(* ----------------------------- what steps do ----------------------------- *)
\* The text between the places where a pattern occurs, leftmost first
Cuts(k, pat) == {i \in 1..(Len(k) - Len(pat) + 1) : SubSeq(k, i, i + Len(pat) - 1) = pat}
Joined(k, pat) ==    \* b is k with the disjoint, leftmost occurrences turned into dots
  LET taken == CHOOSE T \in SUBSET Cuts(k, pat) :
                 /\ \A i, j \in T : i < j => j >= i + Len(pat)
                 /\ \A c \in Cuts(k, pat) : c \in T \/ \E t \in T : t < c /\ c < t + Len(pat)
                 /\ \A c \in Cuts(k, pat) \ T : \E t \in T : t < c /\ c < t + Len(pat)
      part(i) == IF i \in taken THEN "."
                 ELSE IF \E t \in taken : t < i /\ i < t + Len(pat) THEN "" ELSE At(k, i)
  IN Flat([i \in 1..Len(k) |-> part(i)])
InCI(q, k) == \E i \in 1..Len(q) : Lower(q[i]) = Lower(k)
Starts(k, p) == Len(p) <= Len(k) /\ Lower(SubSeq(k, 1, Len(p))) = Lower(p)
\* Step st lets key a through as key b
Lets(st, a, b) ==
  CASE st[1] = "prefixed" -> Starts(a, st[2]) /\ a = SubSeq(a, 1, Len(st[2])) \o b
    [] st[1] = "split" -> b = Joined(a, st[2])
    [] st[1] = "only" -> InCI(st[2], a) /\ b = a
    [] st[1] = "ignore" -> ~InCI(st[2], a) /\ b = a
    [] st[1] = "filter" -> Starts(a, st[2]) /\ b = a
    [] st[1] = "filternot" -> ~Starts(a, st[2]) /\ b = a
    [] st[1] = "filtermap" -> Starts(a, st[2]) /\ b = MapFn(st[3], a)
    [] st[1] = "map" -> b = MapFn(st[2], a)
    [] OTHER -> b = a
Stays(st) == st[1] \in {"only", "ignore", "filter", "filternot", "lowercase", "profile", "global"}

(* ---------------------------------- laws --------------------------------- *)
Through(q) == {n \in DOMAIN ev : Pipe(q, 1, Trim(n)).some}
Key(q, n) == Pipe(q, 1, Trim(n)).k
\* A pipeline does what its steps do, one after the other.
InOrder(q) ==
  \/ q = <<>>
  \/ LET p == Front(q) st == q[Len(q)] IN
     \A n \in DOMAIN ev :
       /\ n \in Through(q) => (n \in Through(p) /\ Lets(st, Key(p, n), Key(q, n)))
       /\ n \in Through(p) \ Through(q) =>
            (IF Stays(st) THEN ~Lets(st, Key(p, n), Key(p, n)) ELSE st[1] \in {"prefixed", "filtermap"} /\ ~Starts(Key(p, n), st[2]))
Rest(st) == CASE st[1] = "only" -> <<"ignore", st[2]>> [] st[1] = "ignore" -> <<"only", st[2]>>
              [] st[1] = "filter" -> <<"filternot", st[2]>> [] st[1] = "filternot" -> <<"filter", st[2]>>
Partition(q) ==
  \/ q = <<>> \/ q[Len(q)][1] \notin {"only", "ignore", "filter", "filternot"}
  \/ LET p == Front(q) r == Append(p, Rest(q[Len(q)])) IN
     Through(q) \cap Through(r) = {} /\ Through(q) \cup Through(r) = Through(p)
\* Options stay wherever they are declared; the last of a kind counts.
Drop1(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Option(st) == st[1] \in {"lowercase", "profile", "global"}
Options(q) == \A i \in 1..Len(q) : Option(q[i]) =>
  LET r == Append(Drop1(q, i), q[i]) later == {j \in (i + 1)..Len(q) : Option(q[j]) /\ (q[j][1] = "lowercase") = (q[i][1] = "lowercase")} IN
  /\ Through(q) = Through(r) /\ \A n \in Through(q) : Key(q, n) = Key(r, n)
  /\ IF later = {} THEN EnvLower(q) = EnvLower(r) /\ EnvProfile(q) = EnvProfile(r)
     ELSE EnvLower(q) = EnvLower(Drop1(q, i)) /\ EnvProfile(q) = EnvProfile(Drop1(q, i))
\* Where values land: each at its key, nothing anywhere else, unless keys collide.
Comps(k) == Split(k, ".")
Landed(q) ==
  LET ns == {n \in DOMAIN ev : EnvKey(q, n).some}
      k(n) == EnvKey(q, n).k
      free == {n \in ns : \A m \in ns \ {n} : ~Collide(k(n), k(m))}
  IN /\ \A n \in ns : /\ n \in Through(q) /\ \A i \in 1..Len(Comps(k(n))) : Comps(k(n))[i] # ""
                      /\ k(n) = (IF EnvLower(q) THEN Lower(Trim(Key(q, n))) ELSE Trim(Key(q, n)))
     /\ \A n \in Through(q) \ ns : \E i \in 1..Len(Comps(Trim(Key(q, n)))) : Comps(Trim(Key(q, n)))[i] = ""
     /\ \A d \in EnvDicts(q, ev, Empty, Empty) :
          /\ \A n \in free : FindP(Dict("", d), Comps(k(n))) = ParseEnv(ev[n], Empty, Empty)
          /\ ns = free => \A p \in PathsIn(Dict("", d)) : p = <<>> \/ \E n \in ns : IsPre(p, Comps(k(n))) \/ IsPre(Comps(k(n)), p)
Laws == \A q \in More : InOrder(q) /\ Partition(q) /\ Options(q) /\ Landed(q)

EnvOp(q) == [op |-> "envdata", p |-> [kind |-> "env", steps |-> q, name |-> ""]]
Names == SetSeq(DOMAIN ev)
Generated == LET qs == SetSeq(More) IN
  Emit([i \in 1..Len(Names) |-> [op |-> "setenv", k |-> Names[i], v |-> ev[Names[i]]]] \o [i \in 1..Len(qs) |-> EnvOp(qs[i])])
=============================================================================
