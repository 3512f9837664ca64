------------------------------ MODULE MC_Paths ------------------------------
(* Every pair of small paths: what leads from one to the other.              *)
(* And how files show in directories.                                        *)
EXTENDS Ops
VARIABLES at, on
vars == <<at, on>>

N == IF Thorough THEN 4 ELSE 3
C == {"a", "A", "..", "."}
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE Seqs(S, n - 1) \cup {Append(q, c) : q \in {x \in Seqs(S, n - 1) : Len(x) = n - 1}, c \in S}
All == {Slashed(q) : q \in Seqs(C, N)} \cup {"/" \o Slashed(q) : q \in Seqs(C, N)}
Init == at \in All /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED at
Spec == Init /\ [][Next]_vars

(* Going from b along d ends at p; nothing shorter does, at least where      *)
(* neither goes up.                                                          *)
RECURSIVE Settle(_, _, _)      \* the place q leads to from `w`
Settle(w, q, abs) ==
  IF q = <<>> THEN w
  ELSE IF q[1] # ".." THEN Settle(Append(w, q[1]), Tail(q), abs)
  ELSE IF w # <<>> /\ w[Len(w)] # ".." THEN Settle(Front(w), Tail(q), abs)
  ELSE Settle(IF abs THEN w ELSE Append(w, ".."), Tail(q), abs)
Tidy(q) == \A i \in 1..Len(q) : q[i] # ".."
Law1(p, b) ==
  LET r == Diff(p, b) pc == Plain(p) bc == Plain(b) d == NonEmpty(Split(r.d, "/"))
      up == {i \in 1..Len(d) : d[i] = ".."}
      tidy == Tidy(pc) /\ Tidy(bc)
  IN IF IsAbs(p) # IsAbs(b) THEN r.st = "none"
     ELSE /\ Tidy(bc) => r.st = "some"
          /\ r.st = "some" =>
             /\ ~IsAbs(r.d)
             /\ Settle(<<>>, bc \o d, IsAbs(p)) = Settle(<<>>, pc, IsAbs(p))
             /\ pc = bc => d = <<>>
          /\ tidy =>
             /\ (pc = bc) = (d = <<>>)
             /\ \A i \in up : \A j \in 1..i : j \in up
             /\ Cardinality(up) <= Len(bc)
             /\ \A k \in 0..Len(bc), s \in 0..Len(pc) :
                  LET e == Ups(k) \o SubSeq(pc, Len(pc) - s + 1, Len(pc)) IN Walk(bc, e) = pc => Len(d) <= Len(e)
\* A file below the root of the session, seen from a directory below it
Law2(cwd, f) ==
  LET s == ShowFile(<<"file", f>>, cwd, 3)
      c == NonEmpty(Split(s, "/"))
  IN IF HasPrefix(s, "ROOT") THEN Plain(Drop(s, 4)) = Plain(f)
     ELSE /\ Walk(PComps(cwd), c) = Plain(f)
          /\ Len(c) < 3 + Len(Plain(f))
Rel(p) == ~IsAbs(p) /\ p = Slashed(Plain(p)) /\ Tidy(Plain(p))
Laws == on => /\ \A b \in All : Law1(at, b)
              /\ Rel(at) => \A f \in All : (Rel(f) /\ f # "") => Law2(at, f)
Generated == on =>
  LET q == SetSeq(All) fs == SetSeq({f \in All : Rel(f) /\ f # ""}) IN
  Emit([i \in 1..Len(q) |-> [op |-> "diff", p |-> at, b |-> q[i]]]
       \o (IF Rel(at) /\ at # "" THEN <<[op |-> "mkdir", path |-> at], [op |-> "cd", path |-> at]>>
                                    \o [i \in 1..Len(fs) |-> [op |-> "srcdisp", path |-> fs[i]]] ELSE <<>>))
=============================================================================
