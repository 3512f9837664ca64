"""What each property's check consists of."""

import figcheck as fc


def plan(level, models=(), thorough=None, **kw):
    d = dict(level=level, models={"quick": list(models)}, **kw)
    if thorough is not None:
        d["models"]["thorough"] = list(models) + list(thorough)
    return d


M = "model_checking"
PLAN = {
    "C01": plan(M, [("MC_Merge", "MC_Merge")]),
}
for _p in ["C%02d" % i for i in range(2, 30)]:
    if _p not in ("C17", "C20"):
        PLAN[_p] = plan(M)
for _p, _k in {"C02": ["layers"], "C03": ["tags"], "C04": ["errors"], "C06": ["layers", "tags"], "C07": ["focus"],
               "C18": ["compose"], "C19": ["compose", "errors"], "C21": ["case"]}.items():
    PLAN[_p] = plan(M, [("MC_History", "MC_History_" + k) for k in _k], [("MC_History", "MC_HistoryBig_" + k) for k in _k])
PLAN["C17"] = plan(M, [("MC_JailLock", "MC_JailLock")], [("MC_JailLock", "MC_JailLockBig")], engine=fc.LOCKS, n=240, nt=1200,
                   broken=[("MC_JailLock", "MC_JailLockNone", "Exclusive"), ("MC_JailLock", "MC_JailLockLate", "StartsClean")])
PLAN["C20"] = plan(M, [("MC_Tags", "MC_Tags")], [("MC_Tags", "MC_TagsBig")], engine=fc.TAGS, n=40, nt=40,
                   broken=[("MC_Tags", "MC_TagsBroken", "Unique"), ("MC_Tags", "MC_TagsBlocks", "Handed"), ("MC_Tags", "MC_TagsNarrow", "Unique")])
PLAN["C10"] = plan(M, [("MC_Parse", "MC_Parse_" + k) for k in ("values", "all", "array", "dict", "mixed", "string", "number", "space")])
PLAN["C11"] = plan(M, [("MC_Env", "MC_Env")])
_x = [("MC_Extract", "MC_Extract_" + k) for k in ("scalars", "shapes", "deep")]
for _p in ("C05", "C08", "C09", "C23", "C25"):
    PLAN[_p] = plan(M, _x)
_m = [("MC_Meta", "MC_Meta_single"), ("MC_Meta", "MC_Meta_double")]
PLAN["C12"] = plan(M, [("MC_Files", "MC_Files")])
PLAN["C13"] = plan(M, [("MC_Docs", "MC_Docs")])
PLAN["C14"] = plan(M, [("MC_Files", "MC_Files")])
PLAN["C15"] = plan(M, [("MC_Jail", "MC_Jail_env"), ("MC_Jail", "MC_Jail_moves")], [("MC_Jail", "MC_JailBig_env")])
PLAN["C16"] = plan(M, [("MC_Jail", "MC_Jail_paths"), ("MC_Jail", "MC_Jail_moves")])
PLAN["C18"] = plan(M, [("MC_Snap", "MC_Snap"), ("MC_History", "MC_History_compose")],
                   [("MC_Snap", "MC_SnapBig"), ("MC_History", "MC_HistoryBig_compose")])
PLAN["C22"] = plan(M, _m)
PLAN["C24"] = plan(M, [("MC_Paths", "MC_Paths")])
PLAN["C26"] = plan(M, _m)
PLAN["C27"] = plan(M, [("MC_Nest", "MC_Nest")])
PLAN["C28"] = plan(M, [("MC_Value", "MC_Value")])
PLAN["C29"] = plan(M, [("MC_Errors", "MC_Errors")])
PLAN["C15"]["engine"] = PLAN["C16"]["engine"] = fc.JAIL

NOTES = {
    "technique": "TLA+ specification, model-checked by TLC; its behaviours and random sessions replayed in the real crate "
                 "and every recorded outcome checked against the specification by TLC (trace validation)",
    "note": "Exhaustive on the specification within small constants; the code is bound by the sessions replayed, each of "
            "whose steps must have exactly the outcome the specification computes. Trusts TLC, the harness's projection and "
            "the standard library for float parsing.",
    "notes": "See DESIGN.md.",
    "na": {},
}
