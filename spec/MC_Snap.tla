------------------------------- MODULE MC_Snap ------------------------------
(* Every short history in which sources change between being provided: a     *)
(* figment has what its sources said when they were provided to it, however  *)
(* long before the provider itself was made.                                 *)
EXTENDS Ops
CONSTANT Depth
VARIABLES ops, S, file, var, has     \* has: what each figment must have
vars == <<ops, S, file, var, has>>

D1(x) == Dict("", "f" :> FigS(x))
Docs == [one |-> D1("x1"), two |-> D1("x2"), long |-> Dict("", ("f" :> FigS("x3")) @@ ("g" :> FigS("more")))]
Write(d) == [op |-> "wfile", path |-> "w/d.toml", text |-> "", fmt |-> "toml", doc |-> Docs[d], bad |-> "false"]
Remove == [op |-> "rm", path |-> "w/d.toml"]
Set(v) == [op |-> "setenv", k |-> "T1_A", v |-> v]
Unset == [op |-> "unsetenv", k |-> "T1_A"]
EnvP(n) == [kind |-> "env", steps |-> <<<<"prefixed", "T1_">>>>, name |-> n]
File1(n) == FileP(n, "toml", "w/d.toml", "true", <<>>)
Name == "P" \o ToString(S.n + 1)
Figs == 1..Len(S.figs)
Has0 == [f |-> "", g |-> "", a |-> ""]
FromFile1 == IF file = "" THEN Has0 ELSE CASE file = "one" -> [Has0 EXCEPT !.f = "x1"] [] file = "two" -> [Has0 EXCEPT !.f = "x2"]
                                           [] file = "long" -> [f |-> "x3", g |-> "more", a |-> ""]
FromEnv == [Has0 EXCEPT !.a = var]
Held(n) == [kind |-> "held", i |-> 1, name |-> n]     \* the provider made before
FromHeld == IF S.held[1].kind = "env" THEN FromEnv ELSE FromFile1
Over(x, y) == [k \in {"f", "g", "a"} |-> IF y[k] # "" THEN y[k] ELSE x[k]]
Do(op, f2, v2, h2) == ops' = Append(ops, op) /\ S' = Apply(S, With(op)) /\ file' = f2 /\ var' = v2 /\ has' = h2
Lasts == IF ops = <<>> THEN "" ELSE ops[Len(ops)].op
Next ==
  /\ Len(ops) < Depth
  /\ \/ Lasts \notin {"wfile", "rm"} /\ \E d \in DOMAIN Docs : d # file /\ Do(Write(d), d, var, has)
     \/ Lasts \notin {"wfile", "rm"} /\ file # "" /\ Do(Remove, "", var, has)
     \/ Lasts \notin {"setenv", "unsetenv"} /\ \E v \in {"v1", "v2"} : v # var /\ Do(Set(v), file, v, has)
     \/ Lasts \notin {"setenv", "unsetenv"} /\ var # "" /\ Do(Unset, file, "", has)
     \/ Len(S.held) = 0 /\ \E p \in {File1("P0"), EnvP("P0")} : Do([op |-> "hold", p |-> p], file, var, has)
     \/ Len(S.held) = 1 /\ Do(From(Held(Name)), file, var, Append(has, FromHeld))
     \/ Len(S.held) = 1 /\ \E h \in Figs : Do(Prov(h, "merge", Held(Name), "true"), file, var, Append(has, Over(has[h], FromHeld)))
     \/ Do(From(File1(Name)), file, var, Append(has, FromFile1))
     \/ Do(From(EnvP(Name)), file, var, Append(has, FromEnv))
     \/ \E h \in Figs : Do(Prov(h, "merge", File1(Name), "false"), file, var, Append(has, Over(has[h], FromFile1)))
     \/ \E h \in Figs : Do(Prov(h, "join", EnvP(Name), "true"), file, var, Append(has, Over(FromEnv, has[h])))
     \/ \E h \in Figs, g \in Figs : h < g /\ Do(Prov(g, "merge", FigP(h), "true"), file, var, Append(has, Over(has[g], has[h])))
Init == ops = <<>> /\ S = InitS /\ file = "" /\ var = "" /\ has = <<>>
Spec == Init /\ [][Next]_vars

Got(f, k) == LET v == Find(Merged(f), k) IN IF v = NoVal THEN "" ELSE v.v
Laws == \A i \in Figs : S.figs[i].ok /\ \A k \in {"f", "g", "a"} : Got(S.figs[i], k) = has[i][k]
Snapshot == [][\A i \in Figs : S'.figs[i] = S.figs[i]]_vars
Ends == Len(ops) = Depth /\ Lasts \in {"from", "prov"} /\ Len(S.figs) >= 2
Generated == Ends => Emit(ops \o <<[op |-> "proj"]>>)
=============================================================================
