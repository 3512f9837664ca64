--------------------------------- MODULE Ops --------------------------------
(* Operations as sessions spell them, for sessions generated by the model.   *)
EXTENDS FigmentCore, IOUtils
Thorough == IOEnv.TIER = "thorough"

FigS(x) == Str("", x)
MapP(name, data, prof) == [kind |-> "map", data |-> data, prof |-> prof, name |-> name]
ErrP(name, msgs, prof) == [kind |-> "err", msgs |-> msgs, prof |-> prof, name |-> name]
FigP(h) == [kind |-> "fig", h |-> h]
TupP(name, key, val) == [kind |-> "tuple", key |-> key, val |-> val, name |-> name]
SerP(name, ctor, prof, key, val) ==
  [kind |-> "ser", ctor |-> ctor, prof |-> prof, key |-> key, val |-> val, name |-> name]
TextP(name, fmt, doc, opts) ==
  [kind |-> "text", fmt |-> fmt, text |-> "", doc |-> doc, bad |-> "false", opts |-> opts, name |-> name]
FileP(name, fmt, path, abs, opts) ==
  [kind |-> "file", fmt |-> fmt, path |-> path, abs |-> abs, opts |-> opts, name |-> name]
From(p) == [op |-> "from", p |-> p, site |-> 0, byref |-> "false"]
Prov(h, ord, p, byref) == [op |-> "prov", h |-> h, ord |-> ord, site |-> 0, byref |-> byref, p |-> p]
Select(h, prof) == [op |-> "select", h |-> h, prof |-> prof]
FocusOn(h, key) == [op |-> "focus", h |-> h, key |-> key]
Q(h, path) == [op |-> "q", h |-> h, path |-> path]
X(h, path, inner, lossy, ty) ==
  [op |-> "x", h |-> h, path |-> path, inner |-> inner, lossy |-> lossy, ty |-> ty]
NoObs == [line |-> 0, cline |-> 0, ft |-> Empty, ut |-> Empty, fc |-> Empty]
With(op) == [obs |-> NoObs] @@ op
RECURSIVE RunFrom(_, _, _)
RunFrom(ops, i, S) == IF i > Len(ops) THEN S ELSE RunFrom(ops, i + 1, Apply(S, With(ops[i])))
Run(ops) == RunFrom(ops, 1, InitS)
Emit(ops) == PrintT("SESSION " \o ToJson(ops))

RECURSIVE Flat2(_)      \* the sequences of a sequence, one after the other
Flat2(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
            ELSE LET h == Len(q) \div 2 IN Flat2(SubSeq(q, 1, h)) \o Flat2(SubSeq(q, h + 1, Len(q)))

\* Partial functions from keys to values of a set
Partial(Ks, V) == UNION {[D -> V] : D \in SUBSET Ks}
Dicts(Ks, V) == {Dict("", m) : m \in Partial(Ks, V)}

\* Paths of dictionary keys into a value, and what is there
RECURSIVE PathsIn(_)
PathsIn(v) == {<<>>} \cup (IF IsD(v) THEN UNION {{<<k>> \o p : p \in PathsIn(v.m[k])} : k \in DOMAIN v.m} ELSE {})
Has(v, p) == FindP(v, p) # NoVal
Dotted(p) == Join(p, ".")
=============================================================================
