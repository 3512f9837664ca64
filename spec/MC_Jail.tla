------------------------------- MODULE MC_Jail -------------------------------
(* Every short sequence of operations in jails, one after the other, ended   *)
(* in every way: what is outside stays as it was, at the end and (files) at  *)
(* every moment; what is asked for inside happens.                           *)
EXTENDS Jail, IOUtils
CONSTANTS Kind, Depth
VARIABLES ops, W, before       \* before: the world when the jail was entered
vars == <<ops, W, before>>
Thorough == IOEnv.TIER = "thorough"

Sets == {[op |-> "jset", k |-> k, v |-> v, q |-> "false"] : k \in {"A", "B"}, v \in {"", "1"}} \cup
        {[op |-> "jset", k |-> "TMPDIR", v |-> "x", q |-> "false"], [op |-> "jset", k |-> "A=B", v |-> "1", q |-> "false"]}
Clear == [op |-> "jclear", q |-> "false"]
Ps == {"f", "d", "./d/f", "d/../f", "../f", "../../d", "d/e/../../../g", "", ".", "..", "d/", "d/..",
       "TMP/JNAME", "TMP/JNAME/f", "TMP/JNAME/d", "TMP/JNAME/d/../f", "TMP/JNAME/../out/keep", "TMP/JNAME/..", "TMP/JNAMEx/f", "TMP/out/f", "TMP/out",
       "TMP/JNAME/../JNAME/f", "TMP/JNAME/d/../../out/f"}
Some3 == {"f", "d", "../f", "TMP/JNAME/d", "TMP/JNAME/../out/keep", "d/e", "..", "TMP/JNAMEx"}
PathOps(P, q) == {[op |-> "jfile", path |-> p, text |-> "t", q |-> q] : p \in P} \cup {[op |-> "jdir", path |-> p, q |-> q] : p \in P}
                 \cup {[op |-> "jcd", path |-> p, q |-> q] : p \in P}
Inner == CASE Kind = "env" -> Sets \cup {Clear}
           [] Kind = "paths" -> PathOps(Ps, "false")
           [] Kind = "moves" -> PathOps(Some3, "false") \cup PathOps({"d", "TMP/out"}, "true") \cup {[op |-> "jsib", q |-> "false"]}
Outer == IF Kind = "env" THEN {[op |-> "osenv", k |-> "A", v |-> v] : v \in {"", "old"}} ELSE {}
Ends == IF Kind = "env" THEN {"ok", "err", "panic"} ELSE {"ok", "panic"}
Hows == IF Kind = "env" THEN {"try", "expect"} ELSE {"try"}

Do(op) == ops' = Append(ops, op) /\ W' = Step(W, op).W
Alive == W.j.on /\ W.j.dead = ""
Next ==
  \/ ~W.j.on /\ Len(ops) < Depth - 1 /\ \E h \in Hows : Do([op |-> "jenter", how |-> h]) /\ before' = W
  \/ ~W.j.on /\ Len(ops) = 0 /\ \E o \in Outer : Do(o) /\ UNCHANGED before
  \/ Alive /\ Len(ops) < Depth - 1 /\ (\E o \in Inner : Do(o)) /\ UNCHANGED before
  \/ W.j.on /\ \E e \in Ends : Do([op |-> "jleave", end |-> e, msg |-> "m"]) /\ UNCHANGED before
Init == ops = <<>> /\ W = World0 /\ before = World0
Spec == Init /\ [][Next]_vars

(* ---------------------------------- laws --------------------------------- *)
In(p) == p = Dir(W.n) \/ HasPrefix(p, Dir(W.n) \o "/")
Outside(w) == {<<p, w.fs[p]>> : p \in {p \in DOMAIN w.fs : ~In(p) /\ ~HasPrefix(p, Dir(W.n) \o "x")}}
Last1 == ops[Len(ops)]
\* Nothing but the jail's directory is ever touched; the working directory stays inside.
Contained == W.j.on => Outside(W) = Outside(before) /\ In(W.cwd) /\ Dir(W.n) \in DOMAIN W.fs
\* After the end everything is as before it.
Restored == ops # <<>> /\ ~W.j.on /\ Last1.op = "jleave" =>
              W.env = before.env /\ W.cwd = before.cwd /\ Outside(W) = Outside(before) /\ \A p \in DOMAIN W.fs : ~In(p)
\* A path means a place: real ".." semantics where no ".." goes above the start.
RECURSIVE Goes(_, _)     \* where q leads from b, <<"!">> if above the start
Goes(b, q) == IF q = <<>> THEN b ELSE IF q[1] \in {"", "."} THEN Goes(b, Tail(q))
              ELSE IF q[1] = ".." THEN (IF b = <<>> THEN <<"!">> ELSE Goes(Front(b), Tail(q))) ELSE Goes(Append(b, q[1]), Tail(q))
Place(p) ==
  LET g == Goes(<<>>, Split(Real(W, p), "/")) IN
  IF g = <<"!">> THEN "!" ELSE IF Absolute(p) THEN Slashed(g) ELSE Cat(W.cwd, Slashed(g))
\* In the state where an operation may happen: what it will do
Law1(o) ==
  LET r == Step(W, o) pl == Place(o.path) IN
  /\ Absolute(o.path) /\ ~In(pl) => r.res = "err"
  /\ r.res = "err" => [r.W EXCEPT !.j = W.j] = W
  /\ r.res = "ok" /\ o.op = "jfile" => \E p \in DOMAIN r.W.fs : In(p) /\ r.W.fs = (p :> "F:t") @@ W.fs
  /\ pl # "!" /\ In(pl) /\ pl # W.cwd =>
       CASE o.op = "jfile" -> LET can == IsDirAt(W, ParentOf(pl)) /\ ~IsDirAt(W, pl) IN
                              (r.res = "ok") = can /\ (can => r.W.fs = (pl :> "F:t") @@ W.fs)
         [] o.op = "jdir" -> LET can == \A q \in PrefixesOf(pl) : ~IsFileAt(W, q) IN
                             (r.res = "ok") = can /\ (can => IsDirAt(r.W, pl) /\ \A q \in DOMAIN r.W.fs : q \in DOMAIN W.fs \/ (In(q) /\ r.W.fs[q] = "D" /\ (q = pl \/ HasPrefix(pl, q \o "/"))))
         [] o.op = "jcd" -> (r.res = "ok") = IsDirAt(W, pl) /\ (r.res = "ok" => r.W.cwd = pl)
Works == Alive /\ Kind # "env" => \A o \in {o \in Inner : o.op # "jsib"} : Law1(o)
Laws == Contained /\ Restored /\ Works
\* Ended sessions, as long as they may be; shorter ones are their beginnings.
Done == ops # <<>> /\ ~W.j.on /\ Last1.op = "jleave" /\ (Len(ops) >= Depth \/ (Kind = "env" /\ Len(ops) >= Depth - 1))
Generated == Done => PrintT("SESSION " \o ToJson(ops))
=============================================================================
