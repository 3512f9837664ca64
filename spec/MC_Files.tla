------------------------------ MODULE MC_Files ------------------------------
(* Every small tree of files, every working directory in it and every way of *)
(* naming a file source: which file is read, whether a missing one is        *)
(* reported and what relative paths in it resolve to.                        *)
EXTENDS Ops
VARIABLES have, blocked, cwd, on
vars == <<have, blocked, cwd, on>>

Places == {"app.toml", "w/app.toml", "w/x/app.toml", "c/app.toml", "w/c/app.toml"} \cup
          (IF Thorough THEN {"w/x/y/app.toml", "o/app.toml", "w/x/c/app.toml"} ELSE {})
Blocks == {"", "w/app.toml", "app.toml"}       \* a directory by that name
Cwds == {"", "w", "w/x", "o"} \cup (IF Thorough THEN {"w/x/y", "w/c"} ELSE {})
PlaceSeq == SetSeq(Places)
Ix(p) == CHOOSE i \in 1..Len(PlaceSeq) : PlaceSeq[i] = p
Own(p) == "k" \o ToString(Ix(p))
DocOf(p) == Dict("", ("at" :> Str("", p)) @@ ("p" :> Str("", "r.txt")) @@ (Own(p) :> Str("", "../s"))
                     @@ ("q" :> Str("", "/abs/" \o p)))

Setup == [i \in 1..5 |-> [op |-> "mkdir", path |-> <<"w/x/y", "o", "w/c", "c", "w/x/c">>[i]]]
         \o (IF blocked = "" THEN <<>> ELSE <<[op |-> "mkdir", path |-> blocked]>>)
         \o LET q == SetSeq(have) IN [i \in 1..Len(q) |-> [op |-> "wfile", path |-> q[i], text |-> "", fmt |-> "toml", doc |-> DocOf(q[i]), bad |-> "false"]]
         \o << [op |-> "cd", path |-> cwd] >>

RelNames == {"app.toml", "c/app.toml", "./app.toml", "app.toml/in", "../app.toml", "x/../c/app.toml", "app.toml/"}
AbsNames == {"w/app.toml", "app.toml", "o/app.toml", "w/../app.toml"}
T1(x) == <<x, "true">>
F1(x) == <<x, "false">>
OptsR == {<<>>, <<F1("search")>>, <<T1("required")>>, <<F1("search"), T1("required")>>, <<F1("search"), <<"profile", "debug">>, T1("search")>>,
          <<T1("required"), F1("required")>>}
OptsA == {<<>>, <<T1("required")>>, <<F1("search")>>}
Variants == {FileP("F", "toml", n, "false", o) : n \in RelNames, o \in OptsR} \cup {FileP("F", "toml", n, "true", o) : n \in AbsNames, o \in OptsA}

Init == have = {} /\ blocked = "" /\ cwd = "" /\ on = FALSE
Next == ~on /\ on' = TRUE /\ \E h \in SUBSET Places, b \in Blocks, c \in Cwds :
          b \notin h /\ have' = h /\ blocked' = b /\ cwd' = c
Spec == Init /\ [][Next]_vars

(* ---------------------------------- laws --------------------------------- *)
Opt(p, n, d) == LET ix == {i \in 1..Len(p.opts) : p.opts[i][1] = n}
                IN IF ix = {} THEN d ELSE p.opts[CHOOSE i \in ix : \A j \in ix : j <= i][2] = "true"
Above == {d \in {"", "w", "w/x", "w/x/y", "w/c", "o"} : d = "" \/ d = cwd \/ HasPrefix(cwd, d \o "/")}
\* Where a name leads in a directory, "" if there is no way
Place(d, n) ==
  CASE n = "../app.toml" -> IF d = "" THEN "" ELSE Cat(Slashed(Front(Plain(d))), "app.toml")
    [] n = "x/../c/app.toml" -> IF d # "w" THEN "" ELSE "w/c/app.toml"
    [] n = "w/../app.toml" -> "app.toml"
    [] n = "app.toml/" -> ""
    [] n = "./app.toml" -> Cat(d, "app.toml")
    [] OTHER -> Cat(d, n)
\* The file that should be read: "" if none
Nearest(p) ==
  LET ds == IF p.abs = "true" THEN {""} ELSE IF Opt(p, "search", TRUE) THEN Above ELSE {cwd}
      hit == {d \in ds : Place(d, p.path) \in have}
  IN IF hit = {} THEN "" ELSE Place(CHOOSE d \in hit : \A e \in hit : Len(e) <= Len(d), p.path)
Profile1(p) == IF \E i \in 1..Len(p.opts) : p.opts[i][1] = "profile" THEN "debug" ELSE "default"
At0(S) == RunFrom(Setup, 1, S)
DirOf(f) == Slashed(Front(Plain(f)))
RelAt(f, key, S) == LET x == Extract(f, [t |-> "relpath"], key, TRUE, FALSE, Empty, S.fs) IN IF x.st = "ok" THEN x.r ELSE [rel |-> "?", v |-> "?", md |-> "?"]
Under(dir, p) == Cat("ROOT", Cat(dir, p))
One1(p, S) ==
  LET f == Provide(NewFig, p, "merge", S, NoObs, 1)
      n == Nearest(p)
      g == [f EXCEPT !.prof = Profile1(p)]
      \* how the source shows: where it was found, or the name as it was given
      given == p.abs = "false" /\ ~Opt(p, "search", TRUE)
      r == RelAt(g, "p", S)
  IN IF n = "" THEN /\ f.ok = ~Opt(p, "required", FALSE)
                    /\ f.maps = Empty /\ Len(f.errs) = (IF f.ok THEN 0 ELSE 1)
     ELSE /\ f.ok /\ DOMAIN f.maps = {Profile1(p)}
          /\ Strip(Merged(g)) = DocOf(n)
          /\ r.v = "r.txt"
          /\ IF given THEN r.rel = Cat(Slashed(Front(PComps(p.path))), "r.txt")
             ELSE Walk(<<>>, Plain(r.rel)) = Plain(Under(DirOf(n), "r.txt"))
          /\ RelAt(g, "q", S).rel = "/abs/" \o n
\* Values of several files each stay with theirs.
Chain == LET q == SetSeq(have) IN [i \in 1..Len(q) |-> FileP("C" \o ToString(i), "toml", q[i], "true", <<>>)]
RECURSIVE Chained(_, _, _, _)
Chained(q, i, f, S) == IF i > Len(q) THEN f ELSE Chained(q, i + 1, Provide(f, q[i], "merge", S, NoObs, i), S)
Laws == on =>
  LET S == At0(InitS)
      f == Chained(Chain, 1, NewFig, S)
  IN /\ \A p \in Variants : One1(p, S)
     /\ \A n \in have : RelAt(f, Own(n), S).rel = Under(DirOf(n), "../s")

VarSeq == SetSeq(Variants)
Rel(h, k) == X(h, k, "true", "false", [t |-> "relpath"])
Generated == on =>
  LET each == Flat2([i \in 1..Len(VarSeq) |-> <<From(VarSeq[i]), Rel(i, "p"), [op |-> "meta", h |-> i]>>])
      n == Len(VarSeq)
      ch == [i \in 1..Len(Chain) |-> Prov(n + i, "merge", Chain[i], "false")]
      hs == SetSeq(have)
      last == n + 1 + Len(Chain)
  IN Emit(Setup \o each \o <<[op |-> "new"]>> \o ch \o Flat2([i \in 1..Len(hs) |-> <<Rel(last, Own(hs[i])), [op |-> "relser", h |-> last, path |-> Own(hs[i]), other |-> Own(hs[1])]>>])
          \o <<[op |-> "meta", h |-> last]>>)
=============================================================================
