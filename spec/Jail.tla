--------------------------------- MODULE Jail --------------------------------
(* Jails: a scratch directory, an environment and a working directory that    *)
(* are put back however the jailed closure ends.                              *)
(* Paths are slash-separated texts below TMP, where jails are made; the       *)
(* directory of the n-th jail is TMP/Jn, which sessions call JNAME.           *)
EXTENDS Paths

NoJail == [on |-> FALSE, dead |-> "", how |-> ""]
World0 == [env |-> ("TMPDIR" :> "TMP"), cwd |-> "TMP/out", n |-> 0, j |-> NoJail,
           fs |-> ("TMP/out" :> "D") @@ ("TMP/out/keep" :> "F:k")]

Name(n) == "J" \o ToString(n)
Dir(n) == "TMP/" \o Name(n)
Real(W, p) == Replace(p, "JNAME", Name(W.n))

\* Dots are resolved without looking at the file system; ".." never climbs
\* above the root or, in relative paths, above the current directory.
RECURSIVE Dedots(_, _)
Dedots(q, acc) ==
  IF q = <<>> THEN acc
  ELSE IF q[1] \in {"", "."} THEN Dedots(Tail(q), acc)
  ELSE IF q[1] = ".." THEN Dedots(Tail(q), IF acc = <<>> THEN acc ELSE Front(acc))
  ELSE Dedots(Tail(q), Append(acc, q[1]))
\* The directory TMP is somewhere below the root.
Above == << <<"/", 1>>, <<"/", 2>> >>
Absolute(p) == HasPrefix(p, "TMP") \/ IsAbs(p)
Dedot(p) == Slashed(Dedots(Split(p, "/"), <<>>))
Inside(W, p) == p = Dir(W.n) \/ HasPrefix(p, Dir(W.n) \o "/")

\* What the jail makes of a path: rejected, or the path it works with.
Admit(W, p0) ==
  LET p == Real(W, p0) d == Dedot(p) IN
  IF Absolute(p) THEN [ok |-> HasPrefix(p, "TMP") /\ Inside(W, d), ret |-> d, at |-> d]
  ELSE [ok |-> TRUE, ret |-> d, at |-> Cat(W.cwd, d)]

IsDirAt(W, p) == p = "TMP" \/ (p \in DOMAIN W.fs /\ W.fs[p] = "D")
IsFileAt(W, p) == p \in DOMAIN W.fs /\ W.fs[p] # "D"
ParentOf(p) == Slashed(Front(Split(p, "/")))
PrefixesOf(p) == LET q == Split(p, "/") IN {Slashed(SubSeq(q, 1, i)) : i \in 2..Len(q)}

R(W, res, ret) == [W |-> W, res |-> res, ret |-> ret]
Fail(W) == R(W, "err", "")

MakeFile(W, p, text) ==
  LET a == Admit(W, p) IN
  IF ~a.ok \/ a.ret = "" \/ IsDirAt(W, a.at) \/ ~IsDirAt(W, ParentOf(a.at)) THEN Fail(W)
  ELSE R([W EXCEPT !.fs = (a.at :> ("F:" \o text)) @@ @], "ok", "")
MakeDir(W, p) ==
  LET a == Admit(W, p) IN
  IF ~a.ok \/ (\E q \in PrefixesOf(a.at) : IsFileAt(W, q)) THEN Fail(W)
  ELSE IF a.ret = "" THEN R(W, "ok", "")
  ELSE R([W EXCEPT !.fs = [q \in PrefixesOf(a.at) |-> "D"] @@ @], "ok", a.ret)
ChangeDir(W, p) ==
  LET a == Admit(W, p) IN
  IF ~a.ok \/ a.ret = "" \/ ~IsDirAt(W, a.at) THEN Fail(W)
  ELSE R([W EXCEPT !.cwd = a.at], "ok", a.ret)

\* Names and values the operating system does not take make the call panic.
BadName(k) == k = "" \/ Contains(k, "=") \/ Contains(k, Tab.ctl[1])
BadValue(v) == Contains(v, Tab.ctl[1])

Enter(W, how) ==
  LET n == W.n + 1 IN
  R([W EXCEPT !.n = n, !.cwd = Dir(n), !.fs = (Dir(n) :> "D") @@ @,
              !.j = [on |-> TRUE, dead |-> "", how |-> how, env |-> W.env, cwd |-> W.cwd]],
    "ok", Dir(n))
Leave(W, end, msg) ==
  LET gone == {p \in DOMAIN W.fs : Inside(W, p)}
      e == IF W.j.dead # "" THEN W.j.dead ELSE end
      res == IF e = "err" /\ W.j.how = "expect" THEN "panic" ELSE e
      text == IF W.j.dead # "" THEN "*" ELSE IF e = "ok" THEN ""
              ELSE IF e = "err" /\ W.j.how = "expect" THEN "jail failed: " \o msg ELSE msg
  IN R([W EXCEPT !.env = W.j.env, !.cwd = W.j.cwd, !.fs = [p \in (DOMAIN @) \ gone |-> @[p]],
                 !.j = NoJail], res, text)

JailOp(W, ev) ==
  CASE ev.op = "jset" ->
         IF BadName(ev.k) \/ BadValue(ev.v) THEN R(W, "panic", "")
         ELSE R([W EXCEPT !.env = (ev.k :> ev.v) @@ @], "ok", "")
    [] ev.op = "jclear" -> R([W EXCEPT !.env = [x \in {} |-> ""]], "ok", "")
    [] ev.op \in {"jfile", "jbin"} -> MakeFile(W, ev.path, ev.text)
    [] ev.op = "jdir" -> MakeDir(W, ev.path)
    [] ev.op = "jcd" -> ChangeDir(W, ev.path)
    [] ev.op = "jsib" -> R([W EXCEPT !.fs = ((Dir(W.n) \o "x") :> "D") @@ @], "ok", "")
    [] ev.op = "jlook" -> R(W, "ok", Dir(W.n))
\* A closure that returns or panics early is over: nothing happens until the end.
Step(W, ev) ==
  CASE ev.op = "osenv" -> R([W EXCEPT !.env = (ev.k :> ev.v) @@ @], "ok", "")
    [] ev.op = "viasym" -> R(W, "ok", "")
    [] ev.op = "jenter" -> Enter(W, ev.how)
    [] ev.op = "jleave" -> Leave(W, ev.end, ev.msg)
    [] OTHER ->
         IF W.j.dead # "" THEN R(W, "skip", "")
         ELSE LET r == JailOp(W, ev) IN
              IF r.res = "panic" THEN R([W EXCEPT !.j.dead = "panic"], "skip", "")
              ELSE IF r.res = "err" /\ ev.q = "true" THEN [r EXCEPT !.W.j.dead = "err"]
              ELSE r
=============================================================================
