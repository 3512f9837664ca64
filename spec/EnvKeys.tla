------------------------------ MODULE EnvKeys -------------------------------
(* From environment variables to configuration: names go through a pipeline  *)
(* of steps in the order they were declared, then become nested keys.        *)
EXTENDS EnvParse

\* The catalogue of mapping functions the harness offers.
MapFn(f, k) ==
  CASE f = "id" -> k
    [] f = "dots" -> Replace(k, "_", ".")
    [] f = "upper" -> Upper(k)
    [] f = "lower" -> Lower(k)
    [] f = "pre" -> "pre." \o k
    [] f = "suf" -> k \o "x"
    [] f = "tail" -> Drop(k, 1)
    [] f = "abtox" -> IF EqCI(k, "a_b") THEN "x.y" ELSE k
    [] f = "pad" -> " " \o k \o " "
    [] f = "empty" -> ""

\* What is not text is shown by replacement characters.
AsText(s) == IF Contains(s, Tab.raw) THEN Replace(s, Tab.raw, Tab.repl) ELSE s

K(k) == [some |-> TRUE, k |-> k]
Gone == [some |-> FALSE, k |-> ""]

Step(st, k) ==
  CASE st[1] = "prefixed" -> IF HasPrefixCI(k, st[2]) THEN K(Drop(k, Len(st[2]))) ELSE Gone
    [] st[1] = "split" -> K(Replace(k, st[2], "."))
    [] st[1] = "only" -> IF \E i \in 1..Len(st[2]) : EqCI(st[2][i], k) THEN K(k) ELSE Gone
    [] st[1] = "ignore" -> IF \E i \in 1..Len(st[2]) : EqCI(st[2][i], k) THEN Gone ELSE K(k)
    [] st[1] = "map" -> K(MapFn(st[2], k))
    [] st[1] = "filter" -> IF HasPrefixCI(k, st[2]) THEN K(k) ELSE Gone
    [] st[1] = "filternot" -> IF HasPrefixCI(k, st[2]) THEN Gone ELSE K(k)
    [] st[1] = "filtermap" -> IF HasPrefixCI(k, st[2]) THEN K(MapFn(st[3], k)) ELSE Gone
    [] OTHER -> K(k)        \* lowercase, profile, global: not about this key

RECURSIVE Pipe(_, _, _)
Pipe(steps, i, k) ==
  IF i > Len(steps) THEN K(k)
  ELSE LET r == Step(steps[i], k) IN IF r.some THEN Pipe(steps, i + 1, r.k) ELSE Gone

LastOf(steps, names, dflt) ==
  LET ix == {i \in 1..Len(steps) : steps[i][1] \in names}
  IN IF ix = {} THEN dflt
     ELSE LET m == CHOOSE i \in ix : \A j \in ix : j <= i IN steps[m]
EnvLower(steps) == LastOf(steps, {"lowercase"}, <<"lowercase", "true">>)[2] = "true"
EnvProfile(steps) == LET l == LastOf(steps, {"profile", "global"}, <<"profile", "default">>)
                     IN IF l[1] = "global" THEN "global" ELSE Lower(l[2])
EnvPrefix(steps) == IF Len(steps) > 0 /\ steps[1][1] = "prefixed" THEN steps[1][2] ELSE ""
EnvName(steps) == IF Len(steps) > 0 /\ steps[1][1] = "prefixed"
                  THEN "`" \o Upper(steps[1][2]) \o "` environment variable(s)"
                  ELSE "environment variable(s)"

\* The key a variable name ends up as, if any.
EnvKey(steps, name) ==
  LET r == Pipe(steps, 1, Trim(AsText(name)))
      k == Trim(r.k)
      parts == Split(k, ".")
  IN IF ~r.some \/ (\E i \in 1..Len(parts) : parts[i] = "") THEN Gone
     ELSE K(IF EnvLower(steps) THEN Lower(k) ELSE k)

\* The variables that survive, as <<key, raw value>>, in any fixed order.
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
EnvEntries(steps, env) ==
  LET q == SetSeq({n \in DOMAIN env : EnvKey(steps, n).some})
  IN [i \in 1..Len(q) |-> <<EnvKey(steps, q[i]).k, AsText(env[q[i]])>>]

RECURSIVE IsPre(_, _)
IsPre(a, b) == a = <<>> \/ (b # <<>> /\ a[1] = b[1] /\ IsPre(Tail(a), Tail(b)))
Collide(k1, k2) == LET a == KeyPath(k1) b == KeyPath(k2) IN IsPre(a, b) \/ IsPre(b, a)

RECURSIVE FoldEnv(_, _, _, _, _)
FoldEnv(es, i, acc, ft, ut) ==
  IF i > Len(es) THEN acc
  ELSE FoldEnv(es, i + 1, CoMap(acc, Nest(es[i][1], ParseEnv(es[i][2], ft, ut)).m, "merge"), ft, ut)

\* Which of two colliding variables wins is not specified: any order may be
\* what the operating system returns.
EnvDicts(steps, env, ft, ut) ==
  LET es == EnvEntries(steps, env)
      hit == {i \in 1..Len(es) : \E j \in 1..Len(es) : i # j /\ Collide(es[i][1], es[j][1])}
      free == SelectSeq([i \in 1..Len(es) |-> <<es[i][1], es[i][2], i>>], LAMBDA e : e[3] \notin hit)
      base == FoldEnv(free, 1, Empty, ft, ut)
      perms == {f \in [1..Cardinality(hit) -> hit] : \A i, j \in 1..Cardinality(hit) : i # j => f[i] # f[j]}
  IN IF hit = {} THEN {base}
     ELSE {FoldEnv([i \in 1..Cardinality(hit) |-> es[f[i]]], 1, base, ft, ut) : f \in perms}

\* Single-variable lookups: all variables whose name matches.
EnvVars(env, name) == {AsText(env[n]) : n \in {n \in DOMAIN env : EqCI(Trim(AsText(n)), name)}}
=============================================================================
