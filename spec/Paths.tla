-------------------------------- MODULE Paths -------------------------------
(* Paths as sequences of components, and what is a file or a directory.      *)
(* Paths in sessions are relative to the session's root directory, shown as  *)
(* ROOT in absolute ones.                                                    *)
EXTENDS Strs, TLC

NonEmpty(q) == SelectSeq(q, LAMBDA c : c # "")
IsAbs(p) == Len(p) > 0 /\ At(p, 1) = "/"
\* Components without the root; "." only counts at the start of a relative path
PComps(p) ==
  LET q == NonEmpty(Split(p, "/"))
      keep == {i \in 1..Len(q) : q[i] # "." \/ (i = 1 /\ ~IsAbs(p))}
  IN SelectSeq([i \in 1..Len(q) |-> IF i \in keep THEN q[i] ELSE ""], LAMBDA c : c # "")
\* Components of a place in the file system
Plain(p) == SelectSeq(NonEmpty(Split(p, "/")), LAMBDA c : c # ".")
Cat(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "/" \o b
Slashed(q) == Join(q, "/")
Front(q) == SubSeq(q, 1, Len(q) - 1)

\* A file system: files (with contents) and directories made explicitly.
Prefixes(p) == LET q == Plain(p) IN {Slashed(SubSeq(q, 1, i)) : i \in 0..Len(q)}
IsDir(fs, p) ==
  LET n == Slashed(Plain(p)) IN
  \/ n = ""
  \/ \E f \in DOMAIN fs.files : n # f /\ n \in Prefixes(f)
  \/ \E d \in fs.dirs : n \in Prefixes(d)

\* The place a path leads to from the root: everything passed through has to be
\* a directory, and nothing leads above the root.
Nowhere == <<"?">>
RECURSIVE Leads(_, _, _)
Leads(fs, at, q) ==
  IF q = <<>> THEN at
  ELSE IF ~IsDir(fs, Slashed(at)) THEN Nowhere
  ELSE IF q[1] \in {"", "."} THEN Leads(fs, at, Tail(q))
  ELSE IF q[1] = ".." THEN (IF at = <<>> THEN Nowhere ELSE Leads(fs, Front(at), Tail(q)))
  ELSE Leads(fs, Append(at, q[1]), Tail(q))
PlaceOf(fs, p) == Slashed(Leads(fs, <<>>, Split(p, "/")))
IsFile(fs, p) == PlaceOf(fs, p) \in DOMAIN fs.files

NotFound == [found |-> FALSE, at |-> "", key |-> ""]
RECURSIVE Climb(_, _, _)
\* Nearest file at or above the directory with components q.
Climb(fs, q, path) ==
  LET p == Cat(Slashed(q), path) IN
  IF IsFile(fs, p) THEN [found |-> TRUE, at |-> p, key |-> PlaceOf(fs, p)]
  ELSE IF q = <<>> THEN NotFound
  ELSE Climb(fs, Front(q), path)

\* The file a file source reads, if any, and the path it reports.
Resolve(fs, cwd, path, abs, search) ==
  IF abs THEN
    [found |-> IsFile(fs, path), key |-> PlaceOf(fs, path), src |-> <<"file", path>>]
  ELSE IF ~search THEN
    [found |-> IsFile(fs, Cat(cwd, path)), key |-> PlaceOf(fs, Cat(cwd, path)),
     src |-> <<"relfile", path>>]
  ELSE LET r == Climb(fs, Plain(cwd), path) IN
    [found |-> r.found, key |-> r.key,
     src |-> IF r.found THEN <<"file", r.at>> ELSE <<"relfile", path>>]

(* --------------------------- relative paths ----------------------------- *)
RECURSIVE Common(_, _)
Common(a, b) == IF a # <<>> /\ b # <<>> /\ a[1] = b[1] THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
Ups(n) == [i \in 1..n |-> ".."]
\* From base to target, both absolute or both relative; where the base goes up
\* past what they share, nobody knows what to come down through.
DiffC(p, b) == LET n == Common(p, b)
               IN Ups(Len(b) - n) \o SubSeq(p, n + 1, Len(p))
NoDiff(p, b) == \E i \in Common(p, b) + 1..Len(b) : b[i] = ".."
Diff(p, b) == IF IsAbs(p) # IsAbs(b) \/ NoDiff(Plain(p), Plain(b)) THEN [st |-> "none", d |-> ""]
              ELSE [st |-> "some", d |-> Slashed(DiffC(Plain(p), Plain(b)))]

\* Going through a path from a base: what the relative path denotes.
RECURSIVE Walk(_, _)
Walk(b, q) == IF q = <<>> THEN b
              ELSE IF q[1] = ".." THEN Walk(IF b = <<>> THEN b ELSE Front(b), Tail(q))
              ELSE Walk(Append(b, q[1]), Tail(q))

\* ROOT stands for `depth` components (the leading slash counts as one).
RootC(depth) == [i \in 1..depth |-> <<"ROOT", i>>]
AbsC(depth, p) == IF IsAbs(p) THEN <<"/">> \o PComps(p) ELSE RootC(depth) \o PComps(p)
\* How the location of a file source is shown in directory cwd.
ShowFile(src, cwd, depth) ==
  IF src[1] = "relfile" /\ ~IsAbs(src[2]) THEN src[2]
  ELSE LET pc == IF src[1] = "relfile" THEN <<"/">> \o PComps(src[2]) ELSE RootC(depth) \o Plain(src[2])
           bc == RootC(depth) \o PComps(cwd)
           \* the leading slash is always shared, whatever stands for it
           n == IF src[1] = "file" THEN Common(pc, bc) ELSE 1
           len == (Len(bc) - n) + (Len(pc) - n)
       IN IF len < Len(pc)
          THEN Slashed(Ups(Len(bc) - n) \o SubSeq(pc, n + 1, Len(pc)))
          ELSE IF src[1] = "relfile" THEN src[2] ELSE Cat("ROOT", src[2])

(* ------------------ paths relative to their declaration ------------------ *)
JoinPath(dir, p) == IF dir = "" THEN p ELSE IF dir = "/" THEN "/" \o p ELSE dir \o "/" \o p
ParentText(p) ==
  LET q == PComps(p) IN
  IF q = <<>> THEN "" ELSE (IF IsAbs(p) THEN "/" ELSE "") \o Slashed(Front(q))
=============================================================================
