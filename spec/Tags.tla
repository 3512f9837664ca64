--------------------------------- MODULE Tags --------------------------------
(* Source identities: every provider call of any thread draws one from a      *)
(* counter all share. A figment holds the metadata of its calls by identity,  *)
(* so lists them in the order of identities. Figments are handed between      *)
(* threads, and combining them unites what they hold.                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Figs, Calls, Mode
\* Mode: how an identity is drawn: "atomic", as one step. What must not be:
\* "split", reading and writing the counter as two steps; "blocks", every
\* thread drawing from a block of its own; "narrow", identities returning.
Block == 2
Width == 3
VARIABLES ctr, pc, read, issued, at, made
vars == <<ctr, pc, read, issued, at, made>>
\* issued: identity -> set of calls <<thread, n>> that got it
\* at: the thread that has a figment; made: the identities of its calls, in order
ASSUME Mode \in {"atomic", "split", "blocks", "narrow"}

Init == ctr = 1 /\ pc = [t \in Threads |-> 0] /\ read = [t \in Threads |-> 0]
        /\ issued = [i \in 1..(Cardinality(Threads) * (Calls + Block)) |-> {}]
        /\ at \in [Figs -> Threads] /\ made = [f \in Figs |-> <<>>]
\* A call gets identity i: for a figment of its own, or for one it was handed.
Issue(t, i, f) == /\ issued' = [issued EXCEPT ![i] = @ \cup {<<t, pc[t] + 1>>}]
                  /\ pc' = [pc EXCEPT ![t] = @ + 1]
                  /\ made' = (IF f \in Figs THEN [made EXCEPT ![f] = Append(@, i)] ELSE made)
                  /\ UNCHANGED at
Held(t) == {f \in Figs : at[f] = t} \cup {0}
Call(t, f) == Mode = "atomic" /\ pc[t] < Calls /\ Issue(t, ctr, f) /\ ctr' = ctr + 1 /\ UNCHANGED read
Short(t, f) == /\ Mode = "narrow" /\ pc[t] < Calls
               /\ Issue(t, ((ctr - 1) % Width) + 1, f) /\ ctr' = ctr + 1 /\ UNCHANGED read
Load(t) == Mode = "split" /\ pc[t] < Calls /\ read[t] = 0 /\ read' = [read EXCEPT ![t] = ctr]
           /\ UNCHANGED <<ctr, pc, issued, at, made>>
Store(t, f) == Mode = "split" /\ read[t] # 0 /\ ctr' = read[t] + 1 /\ Issue(t, read[t], f) /\ read' = [read EXCEPT ![t] = 0]
Own(t, f) == /\ Mode = "blocks" /\ pc[t] < Calls
             /\ LET i == IF read[t] % Block = 0 THEN ctr ELSE read[t] + 1
                IN Issue(t, i, f) /\ read' = [read EXCEPT ![t] = i]
                   /\ ctr' = IF i = ctr THEN ctr + Block ELSE ctr
Hand(f, t) == at[f] # t /\ at' = [at EXCEPT ![f] = t] /\ UNCHANGED <<ctr, pc, read, issued, made>>
Next == \E t \in Threads : Load(t) \/ (\E f \in Held(t) : Call(t, f) \/ Store(t, f) \/ Own(t, f) \/ Short(t, f)) \/ (\E f \in Figs : Hand(f, t))
Spec == Init /\ [][Next]_vars

Unique == \A i \in DOMAIN issued : Cardinality(issued[i]) <= 1
OnePerCall == \A t \in Threads, n \in 1..Calls :
                n <= pc[t] => Cardinality({i \in DOMAIN issued : <<t, n>> \in issued[i]}) = 1
InOrder == \A i, j \in DOMAIN issued : \A c \in issued[i], d \in issued[j] :
             c[1] = d[1] /\ c[2] < d[2] => i < j
\* A figment lists its calls in the order they were made, whoever made them.
Handed == \A f \in Figs : \A i, j \in 1..Len(made[f]) : i < j => made[f][i] < made[f][j]
\* A combination of any figments lists exactly their calls, each thread's in order.
Listing(S) == {i \in DOMAIN issued : issued[i] \cap S # {}}
Combined == \A ns \in [Threads -> 0..Calls] :
              LET S == {<<t, n>> \in Threads \X (1..Calls) : n <= ns[t] /\ n <= pc[t]}
              IN Cardinality(Listing(S)) = Cardinality(S)
=============================================================================
