------------------------------ MODULE TagsTrace ------------------------------
(* Checks what threads recorded: identities in their order, with the calls    *)
(* that got them, must be an interleaving of the threads' calls; what         *)
(* combined figments list must be one of their calls.                         *)
EXTENDS Strs, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, pc, bad
vars == <<sid, l, pc, bad>>
Evs == Sessions[sid].ev
Op == Sessions[sid].ops[1]

Digit == [c \in Digits |-> (CHOOSE i \in 1..10 : At("0123456789", i) = c) - 1]
RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(Drop(s, 1), acc * 10 + Digit[At(s, 1)])
CallOf(name) == LET q == Split(Drop(name, 1), "-") IN <<ToNat(q[1], 0), ToNat(q[2], 0)>>
T == ToNat(Op.t, 0)
Least == T * ToNat(Op.figs, 0) * ToNat(Op.provs, 0)

\* One entry per call, each thread's in the order of its calls
RECURSIVE Increasing(_, _, _)
Increasing(q, i, last) ==
  i > Len(q) \/ (LET c == CallOf(q[i]) IN last[c[1]] < c[2] /\ Increasing(q, i + 1, [last EXCEPT ![c[1]] = c[2]]))
Zero == [t \in 1..T |-> 0]
Own(md) == SelectSeq(md, LAMBDA n : n \notin {"Default", "b"})
Report(q) == PrintT("MISMATCH " \o ToJson([sid |-> sid, l |-> 1, comp |-> q[1], exp |-> q[2], got |-> q[3]]))

RECURSIVE Sum(_)
Sum(t) == IF t = 0 THEN 0 ELSE pc[t] + Sum(t - 1)

Verdict(ev) ==
  CASE ev.op = "tag" ->
         LET c == CallOf(ev.names[1])
         IN IF Len(ev.names) # 1 THEN <<"unique", "one call", ev.names>>
            ELSE IF pc[c[1]] + 1 # c[2] THEN <<"order", ToString(pc[c[1]] + 1), ev.names>>
            ELSE <<>>
    [] ev.op = "combo" ->
         IF SeqSet(Own(ev.md)) # SeqSet(ev.names) \/ Len(Own(ev.md)) # Len(ev.names)
           THEN <<"listed", ev.names, ev.md>>
         ELSE IF Cardinality({i \in 1..Len(ev.md) : ev.md[i] = "b"}) # 1 \/ ev.base # "b" THEN <<"shared", "b once", ev.md>>
         ELSE IF ~Increasing(Own(ev.md), 1, Zero) THEN <<"listorder", "", ev.md>>
         ELSE IF \E i \in 1..Len(ev.vals) : ev.vals[i][1] # ev.vals[i][2]
           THEN <<"attributed", "", CHOOSE v \in SeqSet(ev.vals) : v[1] # v[2]>>
         ELSE <<>>
    \* A figment lists its calls in their order, whichever threads it went through.
    [] ev.op = "handed" ->
         IF ev.md # <<"b">> \o ev.names THEN <<"handed", ev.names, ev.md>> ELSE <<>>
    [] ev.op = "all" ->
         LET o == Own(ev.md) Total == ToNat(ev.calls, 0) IN
         IF Total < Least \/ Sum(T) # Total THEN <<"calls", ev.calls, ToString(pc)>>
         ELSE IF Len(o) # Total \/ ToNat(ev.count, 0) # Total + 1 THEN <<"all", ToString(Total), ToString(Len(o))>>
         ELSE IF ev.wrong # <<>> THEN <<"attributed", "", ev.wrong>>
         ELSE <<>>

Init == sid \in 1..Len(Sessions) /\ l = 1 /\ pc = [t \in 1..ToNat(Sessions[sid].ops[1].t, 0) |-> 0] /\ bad = FALSE
Next ==
  /\ ~bad /\ l <= Len(Evs)
  /\ LET ev == Evs[l] v == Verdict(ev) IN
     /\ IF v = <<>> THEN bad' = FALSE ELSE Report(v) /\ bad' = TRUE
     /\ pc' = IF ev.op = "tag" /\ v = <<>> THEN [pc EXCEPT ![CallOf(ev.names[1])[1]] = @ + 1] ELSE pc
  /\ l' = l + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
Where == <<sid, l>>
=============================================================================
