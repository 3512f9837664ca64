------------------------------- MODULE JailLock ------------------------------
(* Jails of concurrent threads, step by step as they are implemented: take    *)
(* the lock, remember the working directory, enter, run, put everything back, *)
(* let go. Environment and working directory are the process's: 0 stands for  *)
(* how they were, otherwise for the thread whose jail set them last.          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Threads, Jails, Guarded, RestoreFirst
VARIABLES lock, pc, left, env, cwd, saved, out
vars == <<lock, pc, left, env, cwd, saved, out>>
Ends == {"ok", "err", "panic"}
None == 0

Init == /\ lock = None /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Jails]
        /\ env = None /\ cwd = None
        /\ saved = [t \in Threads |-> [env |-> None, cwd |-> None, touched |-> FALSE]]
        /\ out = [t \in Threads |-> "ok"]
At1(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]

Want(t) == left[t] > 0 /\ At1(t, "idle", "want") /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<lock, env, cwd, saved, out>>
Acquire(t) == At1(t, "want", "locked") /\ (Guarded => lock = None) /\ lock' = t
              /\ UNCHANGED <<left, env, cwd, saved, out>>
Save(t) == At1(t, "locked", "saved")
           /\ saved' = [saved EXCEPT ![t] = [env |-> None, cwd |-> cwd, touched |-> FALSE]]
           /\ UNCHANGED <<lock, left, env, cwd, out>>
Enter(t) == At1(t, "saved", "run") /\ cwd' = t /\ UNCHANGED <<lock, left, env, saved, out>>
SetEnv(t) == pc[t] = "run" /\ env' = t /\ pc' = pc
             /\ saved' = [saved EXCEPT ![t] = IF @.touched THEN @ ELSE [@ EXCEPT !.env = env, !.touched = TRUE]]
             /\ UNCHANGED <<lock, left, cwd, out>>
End(t) == At1(t, "run", "over") /\ \E e \in Ends : out' = [out EXCEPT ![t] = e]
          /\ UNCHANGED <<lock, left, env, cwd, saved>>
Restore(t) == /\ At1(t, IF RestoreFirst THEN "over" ELSE "free", IF RestoreFirst THEN "restored" ELSE "idle")
              /\ env' = (IF saved[t].touched THEN saved[t].env ELSE env) /\ cwd' = saved[t].cwd
              /\ UNCHANGED <<lock, left, saved, out>>
Release(t) == /\ At1(t, IF RestoreFirst THEN "restored" ELSE "over", IF RestoreFirst THEN "idle" ELSE "free")
              /\ lock' = (IF lock = t THEN None ELSE lock) /\ UNCHANGED <<left, env, cwd, saved, out>>
Next == \E t \in Threads : Want(t) \/ Acquire(t) \/ Save(t) \/ Enter(t) \/ SetEnv(t) \/ End(t)
                           \/ Restore(t) \/ Release(t)
\* Threads go on, locks are granted eventually, closures end.
Fair == \A t \in Threads : WF_vars(Want(t)) /\ SF_vars(Acquire(t)) /\ WF_vars(Save(t)) /\ WF_vars(Enter(t))
                           /\ WF_vars(End(t)) /\ WF_vars(Restore(t)) /\ WF_vars(Release(t))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

Active == {t \in Threads : pc[t] \in {"run", "over"}}
Exclusive == Cardinality(Active) <= 1
\* While a jail runs nobody else changes anything.
Isolated == \A t \in Threads : pc[t] = "run" =>
              cwd = t /\ env = (IF saved[t].touched THEN t ELSE None)
\* When nobody holds the lock everything is as it was.
Clean == lock = None /\ (\A t \in Threads : pc[t] \in {"idle", "want"}) => env = None /\ cwd = None
StartsClean == \A t \in Threads : pc[t] = "locked" => env = None /\ cwd = None
\* However jails end, those after them get their turn.
NoneBlocked == \A t \in Threads : pc[t] = "want" ~> pc[t] = "idle"
=============================================================================
