------------------------------ MODULE JailTrace ------------------------------
(* Checks recorded sessions of jails: every event, and no other, has exactly  *)
(* the outcome the specification gives it.                                    *)
EXTENDS Jail, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
View == SeqSet(Split(IOEnv.VIEW, ","))
VARIABLES sid, o, l, W, bad      \* o: position in the session's operations
vars == <<sid, o, l, W, bad>>
Ops == Sessions[sid].ops
Evs == Sessions[sid].ev

Cmp(T, r, ev) ==
  << <<IF ev.op = "jleave" THEN "outcome" ELSE "res",
       <<r.res, IF r.ret = "*" THEN ev.obs.ret ELSE r.ret>>, <<ev.obs.res, ev.obs.ret>> >>,
     <<IF ev.op = "jleave" THEN "envafter" ELSE "envin", T.env, ev.obs.env>>,
     <<IF ev.op = "jleave" THEN "cwdafter" ELSE "cwdin", T.cwd, ev.obs.cwd>>,
     <<IF ev.op = "jleave" THEN "fsafter" ELSE "fsin", T.fs, ev.obs.fs>> >>
Wrong(q) == SelectSeq(q, LAMBDA c : c[1] \in View /\ c[2] # c[3])
Report(q) == PrintT("MISMATCH " \o ToJson([sid |-> sid, l |-> o, comp |-> q[1], exp |-> q[2], got |-> q[3]]))

Init == sid \in 1..Len(Sessions) /\ o = 1 /\ l = 1 /\ W = World0 /\ bad = FALSE
Next ==
  /\ ~bad /\ o <= Len(Ops)
  /\ LET r == Step(W, Ops[o]) IN
     IF r.res = "skip" THEN W' = r.W /\ l' = l /\ bad' = bad
     ELSE IF l > Len(Evs) \/ Evs[l].op # Ops[o].op
       THEN Report(<<"lost", Ops[o].op, IF l > Len(Evs) THEN "nothing" ELSE Evs[l].op>>)
            /\ bad' = TRUE /\ UNCHANGED <<W, l>>
     ELSE LET w == Wrong(Cmp(r.W, r, Evs[l])) IN
          /\ W' = r.W /\ l' = l + 1
          /\ IF w = <<>> THEN bad' = FALSE ELSE Report(w[1]) /\ bad' = TRUE
  /\ o' = o + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
Where == <<sid, o>>
=============================================================================
