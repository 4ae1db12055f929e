"""Pruning of unused nodes (P15); objective and constraints (P16)."""
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods, paths_of
from .graphp import norm, strip_load, lw, where, fns
from .links import walk_ast, noep, roots_of

TI = "topological_index_"
THIS = ("this",)


def mem(n):
    return ("mem", THIS, n)


NODES, DECS, CONS, OBJ = mem("nodes_"), mem("decisions_"), mem("constraints_"), mem("objective_ptr_")


def pos_of(t, base):
    """position term of the element of `base` mentioned in t"""
    for z in subterms(t):
        if len(z) == 3 and z[0] in ("idx", "at") and z[1] == base:
            return z[2]
    return None


def node_field(loc, name):
    """('mem', X, name) anywhere at the top of loc"""
    return loc is not None and len(loc) == 3 and loc[0] == "mem" and loc[2] == name


def about_decision(c):
    """the condition says that the node is a decision (its index is below the number of decisions)"""
    if c[0] == "cmp" and c[1] in ("le", "lt"):
        cc, parts = lin_parts(c[2])
        ti = [t for t in parts if node_field(strip_load(t), TI)]
        nd = [t for t in parts if t[0] == "size" and t[1] == DECS]
        if len(ti) == 1 and len(nd) == 1 and parts[ti[0]] == 1 and parts[nd[0]] == -1:
            return cc >= 1 if c[1] == "le" else cc >= 0
    return False


def wrong_decision(c):
    """compares with the number of decisions, but lets in a node that is none"""
    if c[0] == "cmp" and c[1] in ("le", "lt"):
        cc, parts = lin_parts(c[2])
        ti = [t for t in parts if node_field(strip_load(t), TI)]
        nd = [t for t in parts if t[0] == "size" and t[1] == DECS]
        if len(ti) == 1 and len(nd) == 1 and parts[ti[0]] == 1 and parts[nd[0]] == -1:
            return not about_decision(c)
    return False


def marks_of(events, elem):
    """events that mark the node designated by a term `elem` accepts"""
    out = []
    for e in flat(events):
        if e.k == "w" and node_field(e.loc, TI) and contains(e.loc, elem):
            out.append(("index", e))
        elif e.k in ("push", "cont", "call") and any(contains(a, elem) for a in [e.val] + list(e.x.get("args") or []) if a is not None) and e.k != "call":
            out.append(("set", e))
    return out


def rule_prune(ctx):
    p = program()
    ctx.rule("prune-sorted", "pruning sorts first and undoes its marks at the end", 1)
    ctx.rule("prune-keeps-constraints", "every constraint is marked to be kept (or is a decision)", 1)
    ctx.rule("prune-keeps-objective", "the objective is marked to be kept (or is a decision)", 1)
    ctx.rule("prune-keeps-listened", "unless told otherwise, every symbol somebody holds on to is marked to be kept", 1)
    ctx.rule("prune-condition", "a node is deleted only if it is no decision, removable, not marked and has no successor left", 1)
    ctx.rule("prune-complete", "a node is kept only for one of these reasons, and nodes are visited users first", 1)
    ctx.rule("prune-unlinks", "before a node is deleted it is taken out of the successor list of each of its predecessors, and deleted nodes leave the node list", 1)
    ctx.rule("fixed-outputs", "a symbol whose position among its predecessor's successors identifies it is never deleted", 2)
    fs = fns(p, "remove_unused_nodes")
    if not fs:
        raise AnalysisBroken("Graph::remove_unused_nodes not found")
    for f in fs:
        with ctx.guard("prune-condition", "remove_unused_nodes"):
            prune(ctx, p, f)
    outputs(ctx, p)


def prune(ctx, p, f):
    pas = paths_of(p, f, NS + "Graph", noinline=("topological_sort", "reset_topological_sort"))
    if pas is None:
        ctx.undecided("prune-condition", "path budget")
        return
    flag = f["params"][0]["n"] if f["params"] else None
    for pa in pas:
        if pa.throws:
            continue
        ctx.count("paths")
        ev = pa.events
        calls = [(i, e.x["name"]) for i, e in enumerate(ev) if e.k == "call"]
        sorts = [i for i, n in calls if n == "topological_sort"]
        resets = [i for i, n in calls if n == "reset_topological_sort"]
        # the deleting loop
        dele = []
        for i, e in enumerate(ev):
            if e.k == "loop":
                for q in e.x["paths"]:
                    for x in flat(q.events):
                        if x.k == "w" and x.loc[0] == "idx" and x.loc[1] == NODES and is_num(x.val) and x.val[1] == 0:
                            dele.append((i, e, q, x))
                        elif x.k == "cont" and x.loc == NODES:
                            dele.append((i, e, q, x))
        dele = [d for d in dele if d[3].k == "w"] or dele
        if not dele:
            if not any(e.k in ("cont", "w", "push", "algo") and e.loc is not None and contains(e.loc, lambda z: z == NODES) for e in flat(ev)) and not ev_other(ev):
                ctx.bad("prune-complete", "none", where(f), "nothing is removed%s" % when(pa))
            else:
                ctx.undecided("prune-condition", "deletion not recognised")
            continue
        di = dele[0][0]
        marks_idx = [e for e in flat(ev[:di]) if e.k == "w" and node_field(e.loc, TI)]
        # sorted first, reset last
        first = min([i for i, e in enumerate(ev) if any(x.k == "w" and node_field(x.loc, TI) for x in flat([e]))] + [di])
        sorted_cond = any(strip_load(c) == mem("topologically_sorted_") for c in pa.conds)
        if not [i for i in sorts if i < first] and not sorted_cond:
            ctx.bad("prune-sorted", "sort", where(f), "unused nodes are determined without sorting the nodes first%s" % when(pa))
        elif marks_idx and not [i for i in resets if i > di]:
            ctx.bad("prune-sorted", "reset", where(f), "the marks stay in the nodes' topological indices%s" % when(pa))
        else:
            ctx.ok("prune-sorted", when(pa))
        keepvals = {e.val for e in marks_idx}
        constraints(ctx, f, pa, ev[:di])
        objective(ctx, f, pa, ev[:di])
        listeners(ctx, f, pa, ev[:di], flag)
        for i, lp, q, x in dele:
            delete(ctx, p, f, pa, lp, q, x, keepvals, marks_idx)
        skips(ctx, f, pa, dele)
        # compaction
        tail = ev[di + 1:]
        if dele[0][3].k == "w":
            comp = [e for e in tail if e.k in ("cont", "algo", "w") and e.loc is not None and e.loc == NODES]
            if comp:
                ctx.ok("prune-unlinks", "deleted nodes leave the node list")
            elif not ev_other(tail):
                ctx.bad("prune-unlinks", "compact", where(f), "deleted nodes stay in the node list as null pointers")
            else:
                ctx.undecided("prune-unlinks", "compaction")
        for e in flat(ev):
            if e.k in ("w", "push", "cont", "algo") and e.loc is not None and any(z in (DECS, CONS, OBJ) for z in [e.loc, e.loc[1] if len(e.loc) > 1 else None]):
                ctx.bad("prune-condition", "lists", lw(e), "pruning changes %s" % show(e.loc))
        if pa.end[0] == "ret":
            retval(ctx, f, pa)


def ev_other(ev):
    """calls that may do the work out of sight"""
    return any(e.k == "call" and (e.x.get("f") or {}).get("q", "").startswith(NS + "Graph::") and not (e.x.get("f") or {}).get("const") and e.x["name"] not in ("topological_sort", "reset_topological_sort") for e in flat(ev))


def when(pa):
    return " when [%s]" % "; ".join(show(c) for c in pa.conds) if pa.conds else ""


def constraints(ctx, f, pa, ev):
    loops = [e for e in ev if e.k == "loop" and e.x.get("range") is not None and strip_load(e.x["range"]) == CONS or e.k == "loop" and any(
        pos_of(x.loc, CONS) is not None for q in e.x["paths"] for x in flat(q.events) if x.loc is not None)]
    other = [e for e in ev if e.k == "loop" and e not in loops and e.x.get("range") is not None and contains(e.x["range"], lambda z: z == CONS)]
    ok = False
    for lp in loops:
        elem = lambda z: len(z) == 3 and z[0] in ("idx", "at") and z[1] == CONS
        miss = None
        for q in lp.x["paths"]:
            if q.end[0] in ("break", "ret"):
                miss = ("the marking of the constraints can stop early", q)
                break
            if q.end[0] == "throw":
                continue
            if not marks_of(q.events, elem) and not any(about_decision(c) for c in q.conds):
                miss = ("a constraint is not marked to be kept", q)
                break
        if miss:
            ctx.bad("prune-keeps-constraints", "skip", lw(lp), "%s when [%s]" % (miss[0], "; ".join(show(c) for c in miss[1].conds)))
            return
        ok = True
    if ok:
        ctx.ok("prune-keeps-constraints", when(pa))
    elif other:
        r = other[0].x["range"]
        if r[0] in ("drop", "take"):
            ctx.bad("prune-keeps-constraints", "range", lw(other[0]), "only %s are marked to be kept" % show(r))
        else:
            ctx.undecided("prune-keeps-constraints", show(r))
    elif ev_other(ev) or mentions(ev, CONS):
        ctx.undecided("prune-keeps-constraints", "")
    else:
        ctx.bad("prune-keeps-constraints", "none", where(f), "the constraints are not marked to be kept%s" % when(pa))


def mentions(ev, loc):
    return any(contains(t, lambda z: z == loc) for e in flat(ev) for t in [e.loc, e.val] + list(e.x.get("args") or []) if isinstance(t, tuple))


def objective(ctx, f, pa, ev):
    isobj = lambda z: z == OBJ
    if marks_of(ev, isobj):
        ctx.ok("prune-keeps-objective", when(pa))
        return
    isnull = any(c == ("not", ("load", OBJ, c[1][2])) if c[0] == "not" and c[1][0] == "load" and len(c[1]) == 3 else False for c in pa.conds) or any(
        c[0] == "cmp" and c[1] == "eq" and contains(c, isobj) and not contains(c, lambda z: len(z) == 3 and z[0] == "mem" and z[2] == TI) for c in pa.conds)
    dec = any(about_decision(c) and contains(c, isobj) for c in pa.conds)
    if isnull or dec:
        ctx.ok("prune-keeps-objective", when(pa))
    elif ev_other(ev) or mentions(ev, OBJ):
        ctx.undecided("prune-keeps-objective", when(pa))
    else:
        ctx.bad("prune-keeps-objective", "skip", where(f), "the objective is not marked to be kept%s" % when(pa))


def listeners(ctx, f, pa, ev, flag):
    ign = any(c == ("param", flag) or strip_load(c) == ("param", flag) for c in pa.conds)
    nign = any(c[0] == "not" and strip_load(c[1]) == ("param", flag) for c in pa.conds)
    isuse = lambda z: len(z) > 1 and z[0] in ("app", "opaque", "call") and z[1] == "use_count"
    loops = [e for e in ev if e.k == "loop" and any(contains(c, isuse) for q in e.x["paths"] for c in q.conds)]
    if ign:
        return
    if not nign and not ign and not loops:
        if ev_other(ev):
            ctx.undecided("prune-keeps-listened", "")
        else:
            ctx.bad("prune-keeps-listened", "none", where(f), "a symbol somebody holds on to is not marked to be kept%s" % when(pa))
        return
    if not loops:
        if ev_other(ev):
            ctx.undecided("prune-keeps-listened", "")
        else:
            ctx.bad("prune-keeps-listened", "none", where(f), "a symbol somebody holds on to is not marked to be kept%s" % when(pa))
        return
    for lp in loops:
        elem = lambda z: len(z) == 3 and z[0] in ("idx", "at") and z[1] == NODES
        r = lp.x.get("range")
        if r is not None:
            low = lower(r)
            if low is not None and not (is_num(low) and low[1] <= 0 or low[0] == "size" and low[1] == DECS):
                ctx.bad("prune-keeps-listened", "range", lw(lp), "only %s are looked at" % show(r))
                return
            if contains(r, lambda z: z and z[0] in ("take", "filter")):
                ctx.undecided("prune-keeps-listened", show(r))
                return
        for q in lp.x["paths"]:
            if q.end[0] in ("break", "ret"):
                ctx.bad("prune-keeps-listened", "break", lw(lp), "looking for symbols in use can stop early")
                return
            if marks_of(q.events, elem):
                continue
            # must know use_count <= 1
            okc = False
            why = []
            for c in q.conds:
                if contains(c, isuse) and c[0] == "cmp":
                    cc, parts = lin_parts(c[2])
                    if len(parts) == 1:
                        co = list(parts.values())[0]
                        if c[1] == "le" and co > 0 and -cc / co <= 1 or c[1] == "lt" and co > 0 and -cc / co <= 2 or c[1] == "eq" and -cc / co == 1:
                            okc = True
                        else:
                            why.append(c)
                if about_decision(c):
                    okc = True
            if not okc:
                ctx.bad("prune-keeps-listened", "threshold", lw(lp), "a symbol is not marked although somebody may hold on to it, when [%s]" % "; ".join(show(c) for c in q.conds))
                return
    ctx.ok("prune-keeps-listened", when(pa))


def lower(r):
    """first position a (possibly reversed) range over nodes_ starts at"""
    if strip_load(r) == NODES:
        return lit(0)
    if r[0] in ("reverse", "rng", "load", "as_const", "view", "all"):
        return lower(r[1])
    if r[0] == "drop":
        b = lower(r[1])
        return add(b, r[2]) if b is not None else None
    return None


def reversed_(r):
    n = 0
    while r[0] in ("reverse", "drop", "rng", "load", "take"):
        n += r[0] == "reverse"
        r = r[1]
    return n % 2 == 1


def delete(ctx, p, f, pa, lp, q, x, keepvals, marks_idx):
    elem = lambda z: len(z) == 3 and z[0] in ("idx", "at") and z[1] == NODES
    cs = q.conds
    rem = any(c[0] in ("app", "opaque") and c[1] == "removable" for c in cs)
    remn = any(c[0] == "not" and contains(c, lambda z: len(z) > 1 and z[1] == "removable") for c in cs)
    nosucc = any(c[0] == "not" and c[1][0] == "size" and node_field(c[1][1], "successors_") for c in cs) or any(c[0] == "cmp" and contains(c, lambda z: len(z) > 2 and z[0] == "size" and node_field(z[1], "successors_")) and empties(c) for c in cs) or any(
        contains(c, lambda z: len(z) > 1 and z[0] == "empty" and contains(z, lambda y: node_field(y, "successors_"))) and c[0] != "not" for c in cs)
    succ_seen = any(contains(c, lambda z: node_field(z, "successors_")) for c in cs)
    marked = [c for c in cs if c[0] == "cmp" and c[1] in ("ne", "le", "lt") and len(lin_parts(c[2])[1]) == 1 and node_field(strip_load(list(lin_parts(c[2])[1])[0]), TI)]
    tag = "delete"
    # decisions are out of range
    r = lp.x.get("range")
    low = lower(r) if r is not None else None
    bad = False
    if low is not None:
        d = add(low, ("size", DECS, 0), -1)
        if is_num(low) and low[1] <= 0 or low[0] == "lin" and not same_size(low):
            lowbad = not any(wd(c) for c in cs)
            if lowbad:
                bad = True
                ctx.bad("prune-condition", "decisions", lw(lp), "nodes are deleted starting at position %s, which can be a decision" % show(low))
    if not rem:
        bad = True
        ctx.bad("prune-condition", "removable", lw(x), "a node is deleted although it says it is not removable" if remn else "a node is deleted without asking whether it is removable")
    if not nosucc:
        if succ_seen:
            ctx.bad("prune-condition", "successors", lw(x), "a node is deleted although it can have successors, when [%s]" % "; ".join(show(c) for c in cs))
        else:
            ctx.bad("prune-condition", "successors", lw(x), "a node is deleted without checking that it has no successors")
        bad = True
    if marks_idx:
        ok = None
        for c in marked:
            cc, parts = lin_parts(c[2])
            co = list(parts.values())[0]
            for kv in keepvals:
                if is_num(kv):
                    v = co * kv[1] + cc  # the condition must be false for the mark
                    holds = v != 0 if c[1] == "ne" else v <= 0 if c[1] == "le" else v < 0
                    if not holds:
                        ok = True if ok is None else ok
                    else:
                        ok = False
        if ok is False:
            bad = True
            ctx.bad("prune-condition", "mark", lw(x), "the mark that is tested is not the one the kept nodes got (%s)" % ", ".join(show(k) for k in keepvals))
        elif ok is None:
            if any(contains(c, lambda z: node_field(z, TI)) for c in cs):
                ctx.undecided("prune-condition", "mark test")
            else:
                bad = True
                ctx.bad("prune-condition", "mark", lw(x), "a node is deleted without checking whether it was marked to be kept")
        for kv in keepvals:
            if is_num(kv) and kv[1] >= 0:
                bad = True
                ctx.bad("prune-condition", "markvalue", lw(x), "the mark %s is also a valid topological index" % show(kv))
    if not bad:
        ctx.ok("prune-condition", when(pa))
    # unlinking
    before = []
    for e in q.events:
        if e is x:
            break
        before.append(e)
    un = None
    for e in before:
        if e.k == "loop" and e.x.get("range") is not None and contains(e.x["range"], lambda z: node_field(z, "predecessors_")):
            good = True
            for z in e.x["paths"]:
                er = [y for y in flat(z.events) if y.k in ("cont", "algo", "w") and y.loc is not None and contains(y.loc, lambda w: node_field(w, "successors_"))]
                if z.end[0] in ("break", "ret"):
                    ctx.bad("prune-unlinks", "break", lw(e), "taking the node out of its predecessors' successor lists can stop early")
                    return
                if not er:
                    ctx.bad("prune-unlinks", "skip", lw(e), "a predecessor keeps the deleted node in its successor list when [%s]" % "; ".join(show(c) for c in z.conds))
                    return
                pred_ok(ctx, z, er)
            if e.x["range"][0] in ("drop", "take"):
                ctx.bad("prune-unlinks", "range", lw(e), "only %s forget the deleted node" % show(e.x["range"]))
                return
            un = True
    if un:
        ctx.ok("prune-unlinks", when(pa))
    elif any(e.k == "call" for e in before if e.x.get("name") not in ("removable",)):
        ctx.undecided("prune-unlinks", "unlinking not recognised")
    else:
        after = q.events[q.events.index(x) + 1:] if x in q.events else []
        if any(contains(e.loc, lambda z: node_field(z, "successors_")) for e in flat(after) if e.loc is not None):
            ctx.bad("prune-unlinks", "late", lw(x), "the node is deleted before it is taken out of its predecessors' successor lists")
        else:
            ctx.bad("prune-unlinks", "none", lw(x), "a deleted node stays in its predecessors' successor lists")


def pred_ok(ctx, z, er):
    """erase_if: the predicate compares the entry with the deleted node"""
    for e in flat(z.events):
        if e.k == "loop":
            for q in e.x["paths"]:
                if q.end[0] == "ret":
                    v = q.end[1]
                    if v[0] == "cmp" and v[1] == "eq" or v[0] in ("lit",) or v[0] == "cmp":
                        if v[0] == "cmp" and v[1] == "ne":
                            ctx.bad("prune-unlinks", "inverted", lw(e), "every successor but the deleted node is taken out")
                        elif v[0] == "cmp" and not contains(v, lambda y: len(y) == 3 and y[0] == "mem" and y[2] == "ptr"):
                            ctx.bad("prune-unlinks", "predicate", lw(e), "successor entries are taken out by %s, not by the deleted node" % show(v)) if contains(v, lambda y: len(y) == 3 and y[0] == "mem" and y[2] == "index") else None


def same_size(low):
    cc, parts = lin_parts(low)
    return cc >= 0 and len(parts) == 1 and list(parts)[0][0] == "size" and list(parts)[0][1] == DECS and list(parts.values())[0] == 1


def wd(c):
    if c[0] == "cmp" and c[1] in ("le", "lt"):
        cc, parts = lin_parts(c[2])
        return any(t[0] == "size" and t[1] == DECS for t in parts)
    return contains(c, lambda z: len(z) > 1 and z[0] in ("app", "dyncast", "opaque") and "Decision" in str(z[1:]))


def empties(c):
    """size(...) <= 0 or == 0"""
    cc, parts = lin_parts(c[2])
    if len(parts) != 1:
        return False
    co = list(parts.values())[0]
    return c[1] == "le" and co > 0 and -cc / co < 1 and -cc / co >= 0 or c[1] == "lt" and co > 0 and 0 < -cc / co <= 1 or c[1] == "eq" and cc == 0


def skips(ctx, f, pa, dele):
    lp = dele[0][1]
    qs = [d[2] for d in dele]
    for q in lp.x["paths"]:
        if q in qs:
            continue
        if q.end[0] in ("break", "ret"):
            ctx.bad("prune-complete", "break", lw(lp), "the removal can stop before all nodes were looked at, when [%s]" % "; ".join(show(c) for c in q.conds))
            return
        why = [c for c in q.conds if c[0] == "not" and contains(c, lambda z: len(z) > 1 and z[1] == "removable")
               or c[0] == "cmp" and contains(c, lambda z: node_field(z, TI))
               or contains(c, lambda z: node_field(z, "successors_")) and not (c[0] == "cmp" and empties(c))
               or c[0] == "not" and contains(c, lambda z: len(z) == 3 and z[0] in ("idx", "at") and z[1] == NODES) and not contains(c, lambda z: z and z[0] == "app")
               or wd(c)]
        # conditions shared with the deleting path are not reasons
        why = [c for c in why if not all(c in d.conds for d in qs)]
        if not why and not any(contains(c, lambda z: z and z[0] in ("opaque", "havoc", "hav", "app")) and c not in qs[0].conds and not contains(c, lambda z: len(z) > 1 and z[1] in ("removable", "predecessors")) for c in q.conds):
            ctx.bad("prune-complete", "kept", lw(lp), "an unused node is kept when [%s]" % "; ".join(show(c) for c in q.conds))
            return
    r = lp.x.get("range")
    if r is not None and lower(r) is not None:
        if not reversed_(r):
            ctx.bad("prune-complete", "order", lw(lp), "nodes are visited before the nodes that use them, so an unused chain is only shortened")
            return
        low = lower(r)
        d = None
        cc, parts = lin_parts(low)
        if len(parts) == 1 and list(parts)[0][0] == "size" and cc > 0:
            ctx.bad("prune-complete", "range", lw(lp), "the first node after the decisions is never removed")
            return
    ctx.ok("prune-complete", when(pa))


def retval(ctx, f, pa):
    v = pa.end[1]
    cc, parts = lin_parts(v)
    sz = [(t, c) for t, c in parts.items() if t[0] == "size" and t[1] == NODES]
    if len(sz) == 2 and len(parts) == 2:
        (a, ca), (b, cb) = sorted(sz, key=lambda x: x[0][2])
        if ca == 1 and cb == -1 and cc == 0:
            ctx.ok("prune-complete", "returns how many were removed")
        else:
            ctx.bad("prune-complete", "count", where(f), "the returned number is %s" % show(v))


def outputs(ctx, p):
    n = 0
    for cls in concrete_nodes(p):
        for f in p.methods_of(cls):
            if not f.get("isctor") or f.get("body") is None or not f.get("params"):
                continue
            hit = False
            for e in walk_ast([f.get("inits"), f.get("body")]):
                if e.get("k") == "mcall" and e.get("f", {}).get("n") == "size":
                    if any(x.get("k") == "mcall" and x.get("f", {}).get("n") == "successors" for x in walk_ast(e.get("o"))):
                        hit = True
            if not hit:
                continue
            n += 1
            m = node_methods(p, cls).get(("removable", ()))
            if m is None or m.get("body") is None:
                ctx.bad("fixed-outputs", short(cls), where(f), "%s takes its number from its predecessor's successors, but can be removed" % short(cls))
                continue
            vs = [pa.end[1] for pa in paths_of(p, m, cls) or [] if pa.end[0] == "ret"]
            if vs and all(v in (("lit", False), ("lit", 0)) for v in vs):
                ctx.ok("fixed-outputs", short(cls))
            elif any(v == ("lit", True) for v in vs):
                ctx.bad("fixed-outputs", short(cls), where(m), "%s takes its number from its predecessor's successors, but can be removed" % short(cls))
            else:
                ctx.bad("fixed-outputs", short(cls), where(m), "%s takes its number from its predecessor's successors, but can be removed when %s" % (short(cls), ", ".join(show(v) for v in vs)))


# ------------------------------------------------------------ objective and constraints
def rule_roles(ctx):
    p = program()
    ctx.rule("objective-single", "only a symbol with exactly one element (or none, to unset) becomes the objective", 1)
    ctx.rule("constraint-logical", "only a symbol with exactly one element that can be nothing but 0 or 1 becomes a constraint", 1)
    ctx.rule("refusal-changes-nothing", "a refused objective or constraint leaves the model as it was", 1)
    ctx.rule("energy", "the energy is the value of the objective, and 0 without one", 1)
    ctx.rule("feasible", "a state is feasible exactly when no constraint is 0", 1)
    ctx.rule("roles-owner", "nothing else changes the objective or the constraints", 1)
    for f in fns(p, "set_objective"):
        with ctx.guard("objective-single", "set_objective"):
            setter(ctx, p, f, "objective-single", OBJ, nullok=True)
    for f in fns(p, "add_constraint"):
        with ctx.guard("constraint-logical", "add_constraint"):
            setter(ctx, p, f, "constraint-logical", CONS, nullok=False, logical=True)
    for f in fns(p, "energy"):
        with ctx.guard("energy", "energy"):
            energy(ctx, p, f)
    for f in fns(p, "feasible"):
        with ctx.guard("feasible", "feasible"):
            feasible(ctx, p, f)
    logical_def(ctx, p)
    owners(ctx, p)


def is_call(t, name, obj):
    """t is obj->name()"""
    t = t if t[0] != "load" else t[1]
    return t[0] == "app" and t[1] == name and contains(t[2], obj)


def bound(c, name, obj):
    """(op, constant) of a comparison  name() op constant, normalised"""
    if c[0] != "cmp":
        return None
    cc, parts = lin_parts(c[2])
    if len(parts) != 1:
        return None
    t, co = list(parts.items())[0]
    if not is_call(t, name, obj):
        return None
    v = -cc / co
    op = c[1]
    if op in ("eq", "ne"):
        return op, v
    if op == "le":
        return ("le" if co > 0 else "ge"), v
    if op == "lt":
        return ("lt" if co > 0 else "gt"), v
    return None


def setter(ctx, p, f, rule, target, nullok, logical=False):
    prm = f["params"][0]["n"]
    obj = lambda z: z == ("param", prm)
    pas = paths_of(p, f, NS + "Graph")
    for pa in pas or []:
        st = [e for e in flat(pa.events) if e.k in ("w", "push", "cont") and e.loc is not None and (e.loc == target or len(e.loc) > 1 and e.loc[1] == target)]
        if pa.throws:
            foreign = [e for e in flat(pa.events) if e.k in ("w", "push", "cont") and e.loc is not None and contains(e.loc, lambda z: z == THIS)]
            if foreign:
                ctx.bad("refusal-changes-nothing", f["n"], lw(foreign[0]), "%s changes %s before it refuses" % (f["n"], show(foreign[0].loc)))
            else:
                ctx.ok("refusal-changes-nothing", f["n"])
            continue
        isnull = any(c[0] == "not" and strip_load(c[1]) == ("param", prm) or c[0] == "cmp" and c[1] == "eq" and len(lin_parts(c[2])[1]) == 1 and list(lin_parts(c[2])[1])[0] == ("param", prm) for c in pa.conds)
        if not st:
            if isnull and not nullok:
                continue
            dup = any(contains(c, lambda z: z == target) for c in pa.conds)
            if not dup:
                ctx.bad(rule, f["n"] + ":dropped", where(f), "%s accepts its argument but does not keep it%s" % (f["n"], when(pa)))
            continue
        e = st[0]
        if e.val is not None and e.val != ("param", prm) and strip_load(e.val) != ("param", prm):
            if is_num(e.val) and isnull:
                pass
            elif is_num(e.val):
                ctx.bad(rule, f["n"] + ":value", lw(e), "%s stores %s instead of its argument" % (f["n"], show(e.val)))
                continue
            else:
                ctx.undecided(rule, "%s stores %s" % (f["n"], show(e.val)))
                continue
        if e.k == "w" and target == CONS and e.loc != CONS:
            ctx.bad(rule, f["n"] + ":overwrite", lw(e), "an earlier constraint is overwritten")
            continue
        if isnull and nullok:
            ctx.ok(rule, "unset")
            continue
        bs = [bound(c, "size", obj) for c in pa.conds]
        if ("eq", 1.0) not in [(b[0], float(b[1])) for b in bs if b]:
            got = [b for b in bs if b]
            if not got and not any(contains(c, lambda z: len(z) > 2 and z[1] == "size" and contains(z, obj)) for c in pa.conds):
                if any(contains(c, lambda z: len(z) > 1 and z[0] == "app" and contains(z, obj)) and not contains(c, lambda z: len(z) > 1 and z[1] in ("integral", "min", "max", "logical")) for c in pa.conds):
                    ctx.undecided(rule, "%s size test" % f["n"])
                else:
                    ctx.bad(rule, f["n"] + ":size", lw(e), "%s accepts a symbol of any size%s" % (f["n"], when(pa)))
                    continue
            elif got:
                lo = [b for b in got if b[0] in ("ge", "gt")]
                up = [b for b in got if b[0] in ("le", "lt")]
                los = [b[1] if b[0] == "ge" else b[1] + 1 for b in lo]
                ups = [b[1] if b[0] == "le" else b[1] - 1 for b in up]
                if los and ups and max(los) == 1 and min(ups) == 1:
                    pass
                else:
                    ctx.bad(rule, f["n"] + ":size", lw(e), "%s accepts a symbol whose size is not one%s" % (f["n"], when(pa)))
                    continue
            else:
                ctx.undecided(rule, "%s size test" % f["n"])
                continue
        if logical and not logical_conds(pa.conds, obj):
            lg = [c for c in pa.conds if contains(c, lambda z: len(z) > 1 and z[1] in ("integral", "logical", "min", "max") and contains(z, obj))]
            ctx.bad(rule, f["n"] + ":logical", lw(e), "%s accepts a symbol that can take values other than 0 and 1%s" % (f["n"], when(pa)))
            continue
        ctx.ok(rule, when(pa))


def logical_conds(conds, obj):
    if any(is_call(c, "logical", obj) for c in conds if c[0] in ("app", "load")):
        return True
    integral = any(is_call(c, "integral", obj) for c in conds if c[0] in ("app", "load"))
    lo = [b for b in (bound(c, "min", obj) for c in conds) if b]
    hi = [b for b in (bound(c, "max", obj) for c in conds) if b]
    return integral and any(b[0] in ("ge", "eq") and b[1] >= 0 or b[0] == "gt" and b[1] >= -1 for b in lo) and any(b[0] in ("le", "eq") and b[1] <= 1 or b[0] == "lt" and b[1] <= 2 for b in hi)


def logical_def(ctx, p):
    """what logical() means"""
    for f in p.byq.get(NS + "Array::logical", []):
        pass


def energy(ctx, p, f):
    for pa in paths_of(p, f, NS + "Graph") or []:
        if pa.end[0] != "ret":
            continue
        v = pa.end[1]
        isnull = any(c[0] == "not" and strip_load(c[1]) == OBJ or c[0] == "cmp" and c[1] == "eq" and contains(c, lambda z: z == OBJ) for c in pa.conds)
        if isnull:
            if is_num(v) and v[1] == 0:
                ctx.ok("energy", "0 without objective")
            else:
                ctx.bad("energy", "none", where(f), "without an objective the energy is %s" % show(v))
            continue
        z = strip_load(v)
        if z[0] in ("idx", "at") and contains(z, lambda y: y == OBJ) and is_num(z[2]):
            if z[2][1] == 0 and not contains(z[1], lambda y: len(y) > 1 and y[0] == "app" and y[1] == "diff"):
                ctx.ok("energy", "first element of the objective")
            else:
                ctx.bad("energy", "which", where(f), "the energy is %s" % show(v))
        elif is_num(v) or not contains(v, lambda y: y == OBJ):
            if contains(v, lambda y: y and y[0] in ("opaque", "hav")):
                ctx.undecided("energy", show(v))
            else:
                ctx.bad("energy", "not", where(f), "the energy is %s, not the objective's value%s" % (show(v), when(pa)))
        elif v[0] == "lin" or v[0] in ("mul", "neg", "app") and v[1] in ("abs", "fabs", "round", "floor", "min", "max"):
            ctx.bad("energy", "changed", where(f), "the energy is %s, not the objective's value" % show(v))
        else:
            ctx.undecided("energy", show(v))


def feasible(ctx, p, f):
    el = lambda z: len(z) == 3 and z[0] in ("idx", "at") and z[1] == CONS
    for pa in paths_of(p, f, NS + "Graph") or []:
        if pa.end[0] != "ret":
            continue
        v = pa.end[1]
        loops = [e for e in pa.events if e.k == "loop" and any(contains(c, el) for q in e.x["paths"] for c in q.conds)]
        if v in (("lit", True), ("lit", 1)):
            if not loops:
                emp = any(contains(c, lambda z: len(z) > 1 and z[0] in ("size", "empty") and z[1] == CONS) for c in pa.conds)
                if emp:
                    ctx.ok("feasible", "no constraints")
                else:
                    ctx.bad("feasible", "all", where(f), "a state is called feasible without looking at the constraints%s" % when(pa))
                continue
            lp = loops[0]
            r = lp.x.get("range")
            if r is not None and r[0] in ("drop", "take") and contains(r, lambda z: z == CONS):
                ctx.bad("feasible", "range", lw(lp), "only %s are looked at" % show(r))
                continue
            bad = None
            for q in lp.x["paths"]:
                if q.end[0] in ("normal", "continue", "fall"):
                    tv = truth(q.conds, el)
                    if tv is False:
                        bad = "a constraint that is 0 does not make the state infeasible"
                    elif tv is None and not any(contains(c, lambda z: len(z) > 2 and z[0] in ("app", "opaque", "call") and z[1] in ("view", "buff", "begin") and contains(z, el)) for c in q.conds):
                        bad = "a constraint is skipped when [%s]" % "; ".join(show(c) for c in q.conds)
                    elif tv == "weak":
                        bad = "a constraint passes when [%s]" % "; ".join(show(c) for c in q.conds)
                elif q.end[0] == "break":
                    bad = "looking at the constraints can stop early"
            if bad:
                ctx.bad("feasible", "pass", lw(lp), bad)
            else:
                ctx.ok("feasible", "true only if all hold")
        elif v in (("lit", False), ("lit", 0)):
            tv = truth(pa.conds, el)
            if tv is True:
                ctx.bad("feasible", "fail", where(f), "a state is called infeasible although the constraint holds")
            elif tv is False:
                ctx.ok("feasible", "false only if one is 0")
            elif tv == "weak":
                ctx.bad("feasible", "fail", where(f), "a state is called infeasible%s" % when(pa))
            else:
                ctx.undecided("feasible", when(pa))
        else:
            ctx.undecided("feasible", show(v))


def truth(conds, el):
    """True/False: the constraint element is known nonzero/zero; 'weak': compared with something that does not separate 0 from 1"""
    for c in conds:
        neg = c[0] == "not"
        t = c[1] if neg else c
        if t[0] == "load" and contains(t, el):
            return not neg
        if t[0] == "cmp" and contains(t, el):
            cc, parts = lin_parts(t[2])
            if len(parts) == 1:
                co = list(parts.values())[0]
                r = []
                for val in (0, 1):
                    w = co * val + cc
                    r.append({"eq": w == 0, "ne": w != 0, "le": w <= 0, "lt": w < 0}[t[1]] != neg)
                if r == [False, True]:
                    return True
                if r == [True, False]:
                    return False
                return "weak"
    return None


def owners(ctx, p):
    from .links import MUT
    allow = {"objective_ptr_": {"set_objective"}, "constraints_": {"add_constraint"}}
    callers, mut = {}, {}
    for lst in p.byid.values():
        f = lst[0]
        if f.get("body") is None:
            continue
        for e in walk_ast(f.get("body")):
            if e.get("k") in ("mcall", "call") and e.get("f"):
                callers.setdefault(e["f"]["id"], set()).add(f["id"])
            tgt = e.get("o") if e.get("k") == "mcall" and e.get("f", {}).get("n") in MUT else e.get("a") if e.get("k") == "assign" else (e.get("a") or [None])[0] if e.get("k") == "call" and e.get("f", {}).get("n") in ("erase_if", "erase", "swap") else None
            if isinstance(tgt, dict):
                t = tgt
                while isinstance(t, dict) and t.get("k") not in ("mem",):
                    t = t.get("x") or t.get("o") or t.get("a")
                    if isinstance(t, list):
                        t = t[0] if t else None
                if isinstance(t, dict) and t.get("n") in allow and t.get("cls") == NS + "Graph":
                    mut[(f["id"], t["n"])] = (f, e)

    def fine(fid, ok, seen=()):
        f = p.find(fid)
        if f and f["q"] in {NS + "Graph::" + x for x in ok}:
            return True
        if fid in seen:
            return False
        cs = callers.get(fid)
        return bool(cs) and all(fine(c, ok, seen + (fid,)) for c in cs)
    for (fid, fld), (f, e) in mut.items():
        if fine(fid, allow[fld]):
            ctx.ok("roles-owner", short(f["q"]))
        else:
            ctx.bad("roles-owner", short(f["q"]), str(e.get("l")), "%s changes %s" % (short(f["q"]), fld))
