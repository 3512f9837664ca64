--------------------------- MODULE JailLockTrace -----------------------------
(* Events of concurrent jails in the order they were logged, from within the  *)
(* closures. Taking the lock, entering, restoring and letting go are silent   *)
(* steps composed with the events.                                            *)
EXTENDS Strs, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, lock, env, done, bad
vars == <<sid, l, lock, env, done, bad>>
Evs == Sessions[sid].ev
Plan == Sessions[sid].ops

Digit == [c \in Digits |-> (CHOOSE i \in 1..10 : At("0123456789", i) = c) - 1]
RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(Drop(s, 1), acc * 10 + Digit[At(s, 1)])
IdOf(id) == LET q == Split(Drop(id, 1), ".") IN <<ToNat(q[1], 0), ToNat(q[2], 0)>>
JailOf(id) == Plan[IdOf(id)[1]].jails[IdOf(id)[2]]
Outcome(j) == IF j.how = "expect" /\ j.end = "err" THEN "panic" ELSE j.end
Total == LET RECURSIVE Sum(_)
             Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(Plan[i].jails)
         IN Sum(Len(Plan))

\* What an event must have seen, or why it cannot happen here
Verdict(ev) ==
  CASE ev.op = "start" ->
         IF lock # "" THEN <<"exclusive", lock \o " active", ev.id \o " starts">>
         ELSE IF IdOf(ev.id)[2] # done[IdOf(ev.id)[1]] + 1 THEN <<"sequence", "", ev.id>>
         ELSE IF ev.env # "none" \/ ev.cwd # "own" THEN <<"isolated", <<"none", "own">>, <<ev.env, ev.cwd>> >>
         ELSE <<>>
    [] ev.op \in {"set", "look", "end"} ->
         IF lock # ev.id THEN <<"exclusive", lock \o " active", ev.id>>
         ELSE LET e == IF ev.op = "set" /\ JailOf(ev.id).vars # "0" THEN ev.id ELSE env
              IN IF ev.env # e \/ ev.cwd # "own" THEN <<"isolated", <<e, "own">>, <<ev.env, ev.cwd>> >> ELSE <<>>
    [] ev.op = "out" ->
         IF ev.env # Outcome(JailOf(ev.id)) THEN <<"outcome", Outcome(JailOf(ev.id)), ev.env>> ELSE <<>>
    [] ev.op = "final" ->
         IF ev.env # "none" \/ ev.cwd # "base" \/ ev.id # "1" THEN <<"clean", <<"none", "base", "1">>, <<ev.env, ev.cwd, ev.id>> >>
         ELSE IF lock # "" \/ (\E t \in 1..Len(Plan) : done[t] # Len(Plan[t].jails)) THEN <<"blocked", "", lock>>
         ELSE <<>>
Report(q) == PrintT("MISMATCH " \o ToJson([sid |-> sid, l |-> 1, comp |-> q[1], exp |-> q[2], got |-> q[3]]))
Init == /\ sid \in 1..Len(Sessions) /\ l = 1 /\ lock = "" /\ env = "none" /\ bad = FALSE
        /\ done = [t \in 1..Len(Sessions[sid].ops) |-> 0]
Next ==
  /\ ~bad /\ l <= Len(Evs)
  /\ LET ev == Evs[l] v == Verdict(ev) IN
     /\ IF v = <<>> THEN bad' = FALSE ELSE Report(v) /\ bad' = TRUE
     /\ lock' = CASE ev.op = "start" -> ev.id [] ev.op = "end" -> "" [] OTHER -> lock
     /\ env' = CASE ev.op = "start" -> "none" [] ev.op = "end" -> "none"
                 [] ev.op = "set" /\ JailOf(ev.id).vars # "0" -> ev.id [] OTHER -> env
     /\ done' = IF ev.op = "end" /\ v = <<>> THEN [done EXCEPT ![IdOf(ev.id)[1]] = @ + 1] ELSE done
  /\ l' = l + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
Where == <<sid, l>>
=============================================================================
