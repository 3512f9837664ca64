------------------------------ MODULE MC_Errors -----------------------------
(* All small trees of chained errors, alone and as failures of providers.    *)
EXTENDS Ops
VARIABLES tree, on
Lf(how, x, paths) == [n |-> "leaf", how |-> how, x |-> x, paths |-> paths, a |-> <<"unit", "">>, list |-> 0]
Ch(l, r, p) == [n |-> "chain", l |-> l, r |-> r, path |-> p]
Names == <<"1", "2", "3", "4", "5">>
Acts == {<<"bool", "true">>, <<"unsigned", "7">>, <<"signed", "-7">>, <<"float", "1.5">>, <<"float", "2.0">>, <<"char", "c">>, <<"str", "q\"s">>,
         <<"bytes", "hi">>, <<"unit", "">>, <<"option", "">>, <<"newtype", "">>, <<"seq", "">>, <<"map", "">>, <<"enum", "">>, <<"unitvariant", "">>,
         <<"newtypevariant", "">>, <<"tuplevariant", "">>, <<"structvariant", "">>, <<"other", "thing">>}
Hows == {"msg", "string", "custom", "sercustom", "kind", "missing", "kindmissing", "dup", "len", "isize", "usize"}
Hows2 == {"type", "kindtype", "typeone", "value", "unsup", "unsupkey"}
PathLists == {<<>>, <<"a">>, <<"a.b", "c">>, <<"", "a..b">>, <<".">>}
Leaves == {Lf(h, "x", ps) : h \in Hows, ps \in PathLists}
          \cup {[Lf(h, "x", <<"k">>) EXCEPT !.a = x, !.list = l] : h \in Hows2, x \in Acts, l \in {2}}
          \cup {[Lf(h, "x", <<>>) EXCEPT !.list = l] : h \in {"variant", "field", "typeone"}, l \in 0..3}
\* Shapes of trees over the leaves named lo..hi, paths given to some
RECURSIVE Trees(_, _)
Trees(lo, hi) ==
  IF lo = hi THEN {Lf("msg", Names[lo], IF lo = 2 THEN <<"p">> ELSE <<>>)}
  ELSE UNION {{Ch(l, r, p) : l \in Trees(lo, m), r \in Trees(m + 1, hi), p \in (IF hi - lo < 3 \/ Thorough THEN {"", "q.r"} ELSE {""})} : m \in lo..(hi - 1)}
All == Leaves \cup UNION {Trees(1, n) : n \in 2..(IF Thorough THEN 5 ELSE 4)}

Init == tree = [n |-> "none"] /\ on = FALSE
Next == ~on /\ on' = TRUE /\ tree' \in All
Spec == Init /\ [][Next]_<<tree, on>>

(* ---------------------------------- laws --------------------------------- *)
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF t.n = "leaf" THEN <<t>> ELSE LeavesOf(t.l) \o LeavesOf(t.r)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* Grouping does not matter: the causes are the leaves, last chained first.
InOrder == LET es == Causes(tree) ls == Rev(LeavesOf(tree)) IN
           Len(es) = Len(ls) /\ \A i \in 1..Len(es) :
             /\ es[i].kind = LeafKind(ls[i])
             /\ Len(es[i].path) >= Len(CompsOf(ls[i].paths)) /\ SubSeq(es[i].path, 1, Len(CompsOf(ls[i].paths))) = CompsOf(ls[i].paths)
             /\ \A c \in SeqSet(es[i].path) : c # ""
\* The text has a line for each cause.
Lines == LET v == TreeView(tree) IN
         Len(Split(v.disp, "\n")) = v.count /\ \A i \in 1..v.count : Split(v.disp, "\n")[i] = v.items[i].text
Texts == tree.n = "leaf" => LET s == TreeView(tree).disp IN
           /\ tree.how \in {"type", "kindtype", "typeone"} => HasPrefix(s, "invalid type: found ")
           /\ tree.how \in {"type", "kindtype", "value", "len"} => SubSeq(s, Len(s) - 11, Len(s)) = ", expected x"
           /\ s \notin {"", "?"}
\* As the failure of a provider, after another one
P(t) == [kind |-> "err", tree |-> t, prof |-> "", name |-> "P1"]
AsFailure == LET S == Run(<<From(P(tree)), Prov(1, "merge", [P(tree) EXCEPT !.name = "P2"], "true")>>) f == S.figs[2] IN
             ~f.ok /\ f.errs = [i \in 1..(2 * Len(Causes(tree))) |->
                 LET n == Len(Causes(tree)) IN [Causes(tree)[IF i > n THEN i - n ELSE i] EXCEPT !.t = IF i > n THEN "P2:default" ELSE "P1:default"]]
Laws == on => InOrder /\ Lines /\ Texts /\ AsFailure
Generated == on => Emit(<<[op |-> "err", tree |-> tree], From(P(tree)), Prov(1, "join", [P(tree) EXCEPT !.name = "P2"], "true"),
                          [op |-> "errdisp", h |-> 1], [op |-> "errdisp", h |-> 2]>>)
=============================================================================
