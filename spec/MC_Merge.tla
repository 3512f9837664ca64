------------------------------ MODULE MC_Merge ------------------------------
(* Every conflict between two small values, under every strategy, against    *)
(* the strategy table; and chains of three. Each is replayed in the code.    *)
EXTENDS Ops
VARIABLES a, b, c, o, o2

N1 == Num("", "u8", "1")
Leaf == {FigS("x"), N1, Arr("", <<N1>>), Arr("", <<FigS("y"), Dict("", Empty)>>)} \cup
        (IF Thorough THEN {Unit(""), Bool("", "true")} ELSE {})
Inner == {FigS("x"), Arr("", <<N1>>)} \cup (IF Thorough THEN {N1} ELSE {})
Vals == Leaf \cup Dicts({"p", "q"}, Leaf) \cup {Dict("", "p" :> d) : d \in Dicts({"p", "r"}, Inner)}
Few == {FigS("z"), Arr("", <<N1>>), Dict("", "p" :> Arr("", <<FigS("y")>>))}

Init == a \in Vals /\ b \in Vals /\ o \in Orders /\ c \in {NoVal} \cup (IF Thorough THEN Few ELSE {}) 
        /\ o2 \in IF c = NoVal THEN {"merge"} ELSE Orders
Next == FALSE /\ UNCHANGED <<a, b, c, o, o2>>
Spec == Init /\ [][Next]_<<a, b, c, o, o2>>

\* The strategy table, path by path.
Table(x, y, ord, r) ==
  \A p \in PathsIn(x) \cup PathsIn(y) \cup PathsIn(r) :
    LET above == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
        open == \A q \in above : Has(x, q) /\ Has(y, q) /\ IsD(FindP(x, q)) /\ IsD(FindP(y, q))
        xv == FindP(x, p) yv == FindP(y, p) rv == FindP(r, p)
    IN open =>
       /\ Has(r, p) <=> Has(x, p) \/ Has(y, p)
       /\ Has(x, p) /\ ~Has(y, p) => rv = xv
       /\ ~Has(x, p) /\ Has(y, p) => rv = yv
       /\ Has(x, p) /\ Has(y, p) =>
            IF IsD(xv) /\ IsD(yv) THEN IsD(rv) /\ DOMAIN rv.m = DOMAIN xv.m \cup DOMAIN yv.m
            ELSE IF IsA(xv) /\ IsA(yv) /\ ord \in {"adjoin", "admerge"} THEN rv = Arr("", xv.x \o yv.x)
            ELSE rv = (IF ord \in {"join", "adjoin"} THEN xv ELSE yv)

AB == CoVal(a, b, o)
Laws ==
  /\ Table(a, b, o, AB)
  /\ c # NoVal => Table(AB, c, o2, CoVal(AB, c, o2))
  /\ o \in {"merge", "join"} => CoVal(a, a, o) = a
One(n, v) == MapP(n, "default" :> ("k" :> v), "")
Sess == << From(One("P1", a)), Prov(1, o, One("P2", b), "false") >>
       \o (IF c = NoVal THEN <<>> ELSE << Prov(2, o2, One("P3", c), "true") >>)
Generated == Emit(Sess)
=============================================================================
