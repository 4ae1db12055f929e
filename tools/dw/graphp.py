"""Rules over the graph: proposals, traversals, ordering, pruning, objective/constraint admission, locking."""
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, STATE_T, short, is_state, paths_of, concrete_nodes, node_methods

G = NS + "Graph::"


def fns(p, q, pred=None):
    return [f for f in p.byq.get(G + q, []) if f.get("body") is not None and (pred is None or pred(f))]


def is_idx(t):
    """element term -> (container, position) or None"""
    while t[0] in ("load",):
        t = t[1]
    if t[0] in ("idx", "at"):
        return t[1], t[2]
    if t[0] == "deref":
        return is_idx(t[1])
    return None


def strip_load(t):
    while t[0] == "load":
        t = t[1]
    return t


def kpos(pos, lid):
    """pos = a + c*k(lid) -> (a, c) or None"""
    if pos == ("k", lid):
        return lit(0), 1
    if pos == ("revk", lid):
        return lit(0), "rev"
    c, parts = lin_parts(pos)
    if ("k", lid) in parts:
        d = dict(parts)
        co = d.pop(("k", lid))
        a = mk_lin(c, d)
        if contains(a, lambda x: x == ("k", lid)):
            return None
        return a, co
    if ("revk", lid) in parts:
        d = dict(parts)
        d.pop(("revk", lid))
        return mk_lin(c, d), "rev"
    return None


def same_cont(a, b):
    """same container, whatever the epoch"""
    return norm(a) == norm(b)


def norm(t):
    """forget epochs and havoc identities of loads/sizes"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "load":
        return ("load", norm(t[1]))
    if t[0] == "size":
        return ("size", norm(t[1]))
    if t[0] in ("app", "opaque"):
        a = t[3]
        a = tuple(norm(x) for x in a if not (isinstance(x, tuple) and x and x[0] == "n"))
        return (t[0], t[1], norm(t[2]), a)
    return tuple(norm(x) for x in t)


def coverage(loop, pos, cont):
    """does the loop visit every element of cont through position term pos?
    True / (False, why) / None"""
    x = loop.x
    if any(q.end[0] in ("break",) for q in x["paths"]):
        brk = [q for q in x["paths"] if q.end[0] == "break"]
        return (False, "the loop can stop early (break)") if brk else None
    kp = kpos(pos, x["id"])
    if kp is None:
        return None
    a, c = kp
    if x.get("range") is not None:
        r = x["range"]
        while r[0] == "reverse":
            r = r[1]
        if r[0] in ("drop", "take"):
            if is_num(r[2]) and r[0] == "drop" and r[2][1] == 0:
                return True
            if is_num(r[2]) and r[0] == "drop":
                return (False, "the loop leaves out the first %s elements" % show(r[2]))
            return None
        if r[0] in ("sub", "subrange", "span"):
            return None
        if is_num(a) and a[1] == 0 and c in (1, "rev"):
            return True
        return None
    # counted loop: start and bound
    st = None
    bound = None
    for q in x["paths"]:
        for cd in q.conds:
            if cd[0] == "cmp" and contains(cd, lambda z: z == ("k", x["id"])):
                st = cd
                break
        break
    if st is None:
        return None
    cc, parts = lin_parts(st[2])
    co = parts.get(("k", x["id"]), 0)
    sz = [t for t in parts if t[0] == "size" and same_cont(t[1], cont)]
    if c == 1:
        if not is_num(a):
            return None
        if a[1] > 0:
            return (False, "the loop starts at element %s" % show(a))
        if a[1] != 0 or len(parts) != 2 or not sz:
            return None
        if st[1] == "le" and co == 1:
            if cc == 1:
                return True
            if cc > 1:
                return (False, "the loop stops %d element(s) early" % (cc - 1))
        if st[1] == "lt" and co == 1 and cc == 0 or st[1] == "ne" and cc == 0:
            return True
        return None
    if c == -1:
        # pos = a - k >= 0 with a = size-1
        ac, ap = lin_parts(a)
        if len(ap) == 1 and list(ap.values()) == [1] and list(ap)[0][0] == "size" and same_cont(list(ap)[0][1], cont):
            low = add(neg(pos), lit(0))
            if st[1] == "le" and ac == -1:
                d = add(st[2], low, -1)
                if is_num(d):
                    if d[1] == 0:
                        return True
                    if d[1] > 0:
                        return (False, "the loop stops %d element(s) before the first" % d[1])
            if ac < -1:
                return (False, "the loop starts %d element(s) before the last" % (-1 - ac))
    return None


def calls_in(path):
    return [e for e in path.events if e.k == "call"]


def visits(events, meth):
    """loops that call meth on their elements: (loop, container, verdict per iteration)"""
    out = []
    for e in events:
        if e.k != "loop":
            continue
        inner = [c for c in flat(e.events if hasattr(e, "events") else []) if c.k == "call"]
        hits = []
        for q in e.x["paths"]:
            cs = [c for c in q.events if c.k == "call" and c.x["name"] == meth and c.x.get("obj") is not None]
            hits.append((q, cs))
        if any(cs for _, cs in hits):
            out.append((e, hits))
    return out


def where(f):
    return "%s (%s)" % (f["l"].rsplit(":", 1)[0], short(f["q"]))


def lw(e):
    return str(e.line).rsplit(":", 1)[0]


def visit_rule(ctx, rule, key, f, events, meth, list_term=None):
    """events must contain exactly one full visit of `list_term` calling meth on each element.
    returns (status, container)"""
    vs = visits(events, meth)
    if not vs:
        return None
    if len(vs) > 1:
        ctx.bad(rule, key + ":twice", where(f), "%s() is called on the affected symbols in more than one pass" % meth)
        return vs[0]
    e, hits = vs[0]
    skip = [q for q, cs in hits if not cs and q.end[0] not in ("throw",)]
    if skip:
        ctx.bad(rule, key + ":skip", lw(e), "an iteration over the affected symbols may not call %s(): it is skipped when [%s]" % (
            meth, "; ".join(show(c) for c in skip[0].conds)))
    for q, cs in hits:
        if len(cs) > 1 and len({repr(c.x["obj"]) for c in cs}) == 1:
            ctx.bad(rule, key + ":double", lw(e), "%s() is called %d times on the same symbol" % (meth, len(cs)))
    c = [cs for _, cs in hits if cs][0][0]
    el = is_idx(c.x["obj"])
    if el is None:
        return (e, None)
    cov = coverage(e, el[1], el[0])
    if isinstance(cov, tuple):
        ctx.bad(rule, key + ":cover", lw(e), "not every affected symbol gets %s(): %s" % (meth, cov[1]))
    rets = [q for q in e.x["paths"] if q.end[0] == "ret" and e.x["kind"] in ("rfor", "for", "while")]
    if rets:
        ctx.bad(rule, key + ":early", lw(e), "the pass calling %s() can return before the last symbol" % meth)
    return (e, el[0])


def accept_cond(conds):
    for c in conds:
        if c[0] == "app" and c[1] in ("call", "operator()"):
            return True
        if c[0] == "not" and c[1][0] == "app" and c[1][1] in ("call", "operator()"):
            return False
    return None


def rule_propose(ctx):
    p = program()
    ctx.rule("propose-protocol", "a proposal propagates over the descendants of its sources, asks the acceptance function once, then commits every one "
             "of them (accepted) or reverts every one of them (rejected)", 2)
    ctx.rule("each-symbol", "propagating, committing or reverting a list of symbols calls that method exactly once on each of them", 3)
    fs = fns(p, "propose")
    if not fs:
        raise AnalysisBroken("Graph::propose not found")
    for f in fs:
        with ctx.guard("propose-protocol", 'propose'):
            key = "propose"
            for pa in paths_of(p, f, NS + "Graph", noinline=("descendants",)) or []:
                if pa.throws:
                    continue
                acc = accept_cond(pa.conds)
                asks = [i for i, e in enumerate(pa.events) if e.k == "call" and e.x["name"] == "operator()" and e.x.get("obj") == ("param", f["params"][2]["n"])] if len(f["params"]) > 2 else []
                pos = {}
                lists = {}
                for m in ("propagate", "commit", "revert"):
                    v = visit_rule(ctx, "propose-protocol", key + ":" + m, f, pa.events, m)
                    if v:
                        pos[m] = pa.events.index(v[0])
                        lists[m] = v[1]
                desc = [e for e in pa.events if e.k == "call" and e.x["name"] == "descendants"]
                raw = [m for m in ("propagate", "commit", "revert") for e in flat(pa.events) if e.k == "call" and e.x["name"] == m and m not in pos]
                if raw:
                    ctx.undecided("propose-protocol", "%s on a path where %s is called in a form not understood" % (key, raw[0]))
                    continue
                bad = False
                if "propagate" not in pos:
                    # a path that does nothing at all is only fine when there is nothing to do
                    if any(_empty(c) for c in pa.conds) and not asks:
                        ctx.undecided("propose-protocol", "%s: nothing to do on path [%s]" % (key, "; ".join(map(show, pa.conds))))
                        continue
                    ctx.bad("propose-protocol", key + ":no-propagate", where(f), "a path of propose does not propagate the changes: [%s]" % "; ".join(map(show, pa.conds)))
                    bad = True
                if len(asks) > 1:
                    ctx.bad("propose-protocol", key + ":asks", where(f), "the acceptance function is called %d times on one path" % len(asks))
                    bad = True
                if asks and "propagate" in pos and asks[0] < pos["propagate"]:
                    ctx.bad("propose-protocol", key + ":order", where(f), "the acceptance function is asked before the changes are propagated")
                    bad = True
                if not asks:
                    ctx.undecided("propose-protocol", key + ": acceptance call not recognised")
                    continue
                if acc is None:
                    if "commit" in pos and "revert" in pos:
                        ctx.bad("propose-protocol", key + ":both", where(f), "one path both commits and reverts")
                    elif "commit" not in pos and "revert" not in pos:
                        ctx.bad("propose-protocol", key + ":neither", where(f), "a path of propose neither commits nor reverts")
                    else:
                        ctx.bad("propose-protocol", key + ":unconditional", where(f), "a path of propose %s without looking at the acceptance function's answer" % (
                            "commits" if "commit" in pos else "reverts"))
                    continue
                want, other = ("commit", "revert") if acc else ("revert", "commit")
                if want not in pos:
                    ctx.bad("propose-protocol", key + ":missing-" + want, where(f), "the %s path does not %s the affected symbols%s" % (
                        "accepting" if acc else "rejecting", want, " when [%s]" % "; ".join(show(c) for c in pa.conds)))
                    bad = True
                if other in pos:
                    ctx.bad("propose-protocol", key + ":wrong-" + other, where(f), "the %s path %ss the affected symbols" % ("accepting" if acc else "rejecting", other))
                    bad = True
                if want in pos and asks and pos[want] < asks[0]:
                    ctx.bad("propose-protocol", key + ":early-" + want, where(f), "%s happens before the acceptance function is asked" % want)
                    bad = True
                if not bad:
                    ok = True
                    for m in ("propagate", want):
                        if lists.get(m) is None:
                            ok = False
                            continue
                        root = base_list(lists[m])
                        if root == "descendants":
                            continue
                        if root == "param":
                            ctx.bad("propose-protocol", key + ":list-" + m, where(f), "%s runs over the proposed sources only, not over everything that depends on them" % m)
                            bad = True
                        else:
                            ok = False
                    if not bad:
                        (ctx.ok if ok else ctx.undecided)("propose-protocol", "propose, %s path" % ("accepting" if acc else "rejecting"))
    for m in ("propagate", "commit", "revert"):
        for f in fns(p, m):
            for pa in paths_of(p, f, NS + "Graph") or []:
                if pa.throws:
                    continue
                n0 = len(ctx.violations)
                v = visit_rule(ctx, "each-symbol", "Graph::%s/%s" % (m, f["pt"][1] if len(f.get("pt", [])) > 1 else ""), f, pa.events, m)
                if v is None:
                    if any(e.k == "call" and e.x["name"] == m for e in flat(pa.events)):
                        ctx.undecided("each-symbol", "Graph::%s: form not understood" % m)
                    elif any(_empty(c) for c in pa.conds):
                        ctx.ok("each-symbol", "Graph::%s on an empty list" % m)
                    else:
                        ctx.bad("each-symbol", "Graph::%s:none" % m, where(f), "a path of Graph::%s does not call %s() on the symbols: [%s]" % (m, m, "; ".join(map(show, pa.conds))))
                    continue
                if len(ctx.violations) == n0:
                    if v[1] is None or coverage_ok(v) is not True:
                        ctx.undecided("each-symbol", "Graph::%s" % m)
                    else:
                        ctx.ok("each-symbol", "Graph::%s visits its whole list" % m)


def coverage_ok(v):
    e = v[0]
    for q in e.x["paths"]:
        for c in q.events:
            if c.k == "call" and c.x.get("obj") is not None:
                el = is_idx(c.x["obj"])
                if el and el[0] == v[1]:
                    return coverage(e, el[1], el[0])
    return None


def _empty(c):
    """condition that a list is empty"""
    return c[0] == "not" and c[1][0] == "size" or c[0] == "cmp" and c[1] in ("eq", "le") and contains(c, lambda z: z[0] == "size")


def base_list(t):
    x = t
    while x[0] in ("deref", "load", "data"):
        x = x[1]
    if x[0] == "app" and x[1] == "descendants":
        return "descendants"
    if x[0] == "param":
        return "param"
    return None


# ------------------------------------------------------------------ traversals
def topo_of(t):
    """t reads ->topological_index_ of some node: the node term"""
    t = strip_load(t)
    if t[0] == "mem" and t[2] == "topological_index_":
        n = t[1]
        return n[1] if n[0] == "deref" else n
    if t[0] == "app" and t[1] == "topological_index":
        n = t[2]
        return n[1] if n[0] == "deref" else n
    return None


def mark_of(loc):
    """state[n->topological_index]->mark : the node term"""
    loc = strip_load(loc)
    if loc[0] == "mem" and loc[2] == "mark":
        x = loc[1]
        if x[0] == "deref":
            i = is_idx(x[1])
            if i:
                return topo_of(i[1])
    return None


def ascending(cmpres):
    """comparator result: True ascending by topological index, False not, None unknown"""
    if not cmpres or len(cmpres) != 1:
        return None
    conds, v = cmpres[0]
    if v[0] != "cmp" or v[1] not in ("le", "lt"):
        return None
    c, parts = lin_parts(v[2])
    sg = {}
    for t, co in parts.items():
        n = topo_of(t)
        if n is None:
            return None
        sides = {z[1] for z in subterms(n) if len(z) == 2 and z[0] == "k" and z[1] in ("A", "B")}
        if len(sides) != 1:
            return None
        sg[sides.pop()] = co
    if sg == {"A": 1, "B": -1}:
        return True
    if sg == {"A": -1, "B": 1}:
        return False
    return None


def rule_traverse(ctx):
    p = program()
    ctx.rule("closure", "the symbols to update are closed under 'depends on': every successor of a listed symbol that is not yet marked is marked and listed", 1)
    ctx.rule("marks-cleared", "the traversal marks set while collecting the symbols are cleared again for every listed symbol", 1)
    ctx.rule("dependency-order", "the symbols to update are sorted by ascending topological index", 1)
    ctx.rule("topological-index", "sorting numbers a node only after all of its successors, counting down from the number of nodes, and lists the nodes in that order", 2)
    ctx.rule("initialise-order", "initialising a state initialises every node that has none, in topological order, and a node only after its predecessors", 2)
    ctx.rule("reset-closure", "resetting a node's state also resets every (sorted) successor's", 1)
    for f in fns(p, "descendants"):
        with ctx.guard("closure", f['q']):
            for pa in paths_of(p, f, NS + "Graph") or []:
                if not pa.throws:
                    descend(ctx, f, pa)
    for f in fns(p, "topological_sort"):
        with ctx.guard("topological-index", f['q']):
            toposort(ctx, p, f)
    for f in fns(p, "initialize_state"):
        with ctx.guard("initialise-order", f['q']):
            pas = paths_of(p, f, NS + "Graph", noinline=("topological_sort",)) or []
            for pa in pas:
                if pa.throws:
                    continue
                init_state(ctx, p, f, pa)
    for f in fns(p, "recursive_initialize"):
        with ctx.guard("initialise-order", f['q']):
            rec_init(ctx, p, f)
    for f in fns(p, "recursive_reset"):
        with ctx.guard("reset-closure", f['q']):
            rec_reset(ctx, p, f)
    for f in fns(p, "reset_topological_sort"):
        with ctx.guard("topological-index", f['q']):
            reset_sort(ctx, p, f)


def descend(ctx, f, pa):
    rv = pa.end[1] if pa.end[0] == "ret" else None
    lst = strip_load(rv) if rv is not None else None
    # the inner loop over successors
    found = False
    for e, c in flat_ctx(pa.events):
        if e.k != "loop" or e.x.get("range") is None:
            continue
        r = e.x["range"]
        rr = r
        while rr[0] in ("reverse", "drop", "take"):
            rr = rr[1]
        is_succ = rr[0] == "mem" and rr[2] == "successors_" or rr[0] == "deref" and rr[1][0] == "app" and rr[1][1] == "successors"
        if not is_succ:
            continue
        found = True
        bad = False
        if any(q.end[0] == "break" for q in e.x["paths"]) or r[0] in ("drop", "take"):
            ctx.bad("closure", "descendants:partial", lw(e), "not every successor of a listed symbol is looked at")
            bad = True
        for q in e.x["paths"]:
            if q.end[0] == "throw":
                continue
            pushes = [x for x in q.events if x.k == "push" and x.loc == lst] if lst is not None else [x for x in q.events if x.k == "push"]
            marks = [x for x in q.events if x.k == "w" and mark_of(x.loc) is not None and x.val == TRUE]
            marked = any(mark_of(cd) is not None for cd in q.conds)
            unmarked = any(cd[0] == "not" and mark_of(cd[1]) is not None for cd in q.conds)
            if not pushes:
                if marked and not marks:
                    extra = [cd for cd in q.conds if mark_of(cd) is None]
                    continue
                if any(x.k in ("push", "call") for x in q.events):
                    ctx.undecided("closure", "descendants: successor handled in a form not understood")
                    bad = True
                    continue
                if q.conds and all(_known_skip(cd) for cd in q.conds):
                    ctx.bad("closure", "descendants:unlisted", lw(e), "a successor is left out of the update although it is not marked, when [%s]" % "; ".join(show(cd) for cd in q.conds))
                    bad = True
                elif q.conds:
                    ctx.bad("closure", "descendants:unlisted", lw(e), "a successor is left out of the update when [%s]" % "; ".join(show(cd) for cd in q.conds))
                    bad = True
                else:
                    ctx.bad("closure", "descendants:unlisted", lw(e), "successors are not added to the symbols to update")
                    bad = True
                continue
            if not marks and not unmarked:
                ctx.undecided("closure", "descendants: how duplicates are avoided is not understood")
                bad = True
            elif not marks:
                ctx.bad("closure", "descendants:unmarked", lw(e), "a symbol is listed without being marked: it can be listed (and so updated, committed or reverted) twice")
                bad = True
            elif marks and pushes:
                n = mark_of(marks[0].loc)
                if norm(strip_load(n)) != norm(strip_load(pushes[0].val)):
                    ctx.undecided("closure", "descendants: marked and listed symbol not recognised as the same")
                    bad = True
        if not bad:
            ctx.ok("closure", "Graph::descendants lists every unmarked successor")
        outer = [x for x, _ in c if x.k == "loop"]
        if outer and outer[-1].x.get("range") is None and rr[0] == "mem":
            el = is_idx(rr[1][1]) if rr[1][0] == "deref" else None
            kp = kpos(el[1], outer[-1].x["id"]) if el else None
            if kp and kp[1] == 1 and is_num(kp[0]) and kp[0][1] > 0:
                ctx.bad("closure", "descendants:start", lw(outer[-1]), "the first %s source(s) are never expanded" % show(kp[0]))
            if any(q.end[0] in ("break",) for q in outer[-1].x["paths"]):
                ctx.bad("closure", "descendants:stop", lw(outer[-1]), "the search can stop before every listed symbol is expanded")
            nx = [q for q in outer[-1].x["paths"] if not any(z is e for z in flat(q.events))]
            for q in nx:
                if q.end[0] in ("normal", "continue") and q.conds:
                    ctx.bad("closure", "descendants:skip", lw(outer[-1]), "a listed symbol's successors are not looked at when [%s]" % "; ".join(show(cd) for cd in q.conds[1:] or q.conds))
    if not found:
        ctx.undecided("closure", "Graph::descendants: no loop over successors recognised")
    sorts = [(i, e) for i, e in enumerate(pa.events) if e.k == "algo" and e.x["name"] in ("sort", "stable_sort")]
    other = [e for e in pa.events if e.k == "algo" and e.x["name"] not in ("sort", "stable_sort")]
    pushed_after = False
    if not sorts:
        if other or not found or any(e.k == "call" for e in pa.events):
            ctx.undecided("dependency-order", "descendants: ordering not understood")
        else:
            ctx.bad("dependency-order", "descendants:unsorted", where(f), "the symbols to update are not sorted by topological index: a symbol can be updated before one it depends on")
    else:
        i, s = sorts[-1]
        asc = ascending(s.x.get("cmp"))
        full = full_range(s)
        late = [e for e in flat(pa.events[i + 1:]) if e.k in ("push", "algo", "cont") and e.loc == s.loc]
        if asc is False:
            if late:
                ctx.undecided("dependency-order", "descendants: reordered after the sort")
            else:
                ctx.bad("dependency-order", "descendants:descending", lw(s), "the symbols to update are sorted by descending topological index")
        elif full is False:
            ctx.bad("dependency-order", "descendants:partial-sort", lw(s), "only part of the symbols to update is sorted: %s" % show(s.x["args"][0]))
        elif late and any(e.k == "push" for e in late):
            ctx.bad("dependency-order", "descendants:late", lw(s), "symbols are added after the sort")
        elif asc is True and full is True and not late:
            ctx.ok("dependency-order", "descendants sorted ascending")
        else:
            ctx.undecided("dependency-order", "descendants: comparator or range not understood")
    # marks cleared
    ok = None
    for e in pa.events:
        if e.k != "loop":
            continue
        for q in e.x["paths"]:
            w = [x for x in q.events if x.k == "w" and mark_of(x.loc) is not None and x.val == FALSE]
            if w:
                el = is_idx(mark_of(w[0].loc))
                if el:
                    cv = coverage(e, el[1], el[0])
                    if isinstance(cv, tuple):
                        ctx.bad("marks-cleared", "descendants:marks", lw(e), "marks stay set on some symbols: %s" % cv[1])
                        return
                    skips = [z for z in e.x["paths"] if z.end[0] in ("normal", "continue", "ret") and not [x for x in z.events if x.k == "w" and mark_of(x.loc) is not None]]
                    if skips and not all(any(mark_of(cd) is not None or cd[0] == "not" and mark_of(cd[1]) is not None for cd in z.conds) for z in skips):
                        ctx.bad("marks-cleared", "descendants:marks-skip", lw(e), "marks stay set when [%s]" % "; ".join(show(cd) for cd in skips[0].conds))
                        return
                    ok = cv
    if ok is True:
        ctx.ok("marks-cleared", "marks are cleared over the whole list")
    elif ok is None:
        sets = [x for x in flat(pa.events) if x.k == "w" and mark_of(x.loc) is not None and x.val == TRUE]
        clr = [x for x in flat(pa.events) if x.k == "w" and mark_of(x.loc) is not None and x.val == FALSE]
        if sets and not clr and not any(e.k == "call" for e in flat(pa.events)) and any(l.k == "loop" for l in pa.events):
            ctx.bad("marks-cleared", "descendants:marks", lw(sets[0]), "marks set while collecting are never cleared: the next proposal will leave these symbols out")
        else:
            ctx.undecided("marks-cleared", "descendants: how marks are cleared is not understood")


def _known_skip(cd):
    return cd[0] == "not" and mark_of(cd[1]) is not None


def full_range(s):
    a = s.x["args"]
    if a and a[0][0] == "iter":
        if not (is_num(a[0][2])):
            return None
        if a[0][2][1] != 0:
            return False
        if len(a) > 1 and a[1][0] == "iter":
            e = a[1][2]
            if e[0] == "size":
                return True
            c, parts = lin_parts(e)
            if len(parts) == 1 and list(parts)[0][0] == "size" and c < 0:
                return False
        return None
    return True


def node_of_elem(t):
    return t


def toposort(ctx, p, f):
    fwd = [pa for pa in paths_of(p, f, NS + "Graph") or [] if not pa.throws]
    for pa in fwd:
        early = [c for c in pa.conds if strip_load(c) == ("mem", ("this",), "topologically_sorted_")]
        if early:
            if any(e.k in ("w", "loop") for e in pa.events):
                ctx.undecided("topological-index", "already-sorted path does work")
            else:
                ctx.ok("topological-index", "already sorted: nothing to do")
            continue
        ws = [e for e in pa.events if e.k == "w" and e.loc == ("mem", ("this",), "topologically_sorted_")]
        done = False
        for e in pa.events:
            if e.k != "loop":
                continue
            for q in e.x["paths"]:
                idxw = [(i, x) for i, x in enumerate(q.events) if x.k == "w" and x.loc[0] == "mem" and x.loc[2] == "topological_index_"]
                succ = [(i, x) for i, x in enumerate(q.events) if x.k == "loop" and x.x.get("range") is not None and contains(x.x["range"], lambda z: len(z) == 3 and z[0] == "mem" and z[2] == "successors_")]
                final = [(i, x) for i, x in idxw if not (is_num(x.val) and x.val[1] < 0)]
                if not final:
                    continue
                done = True
                i, w = final[-1]
                bad = False
                if not succ:
                    if any(x.k == "call" for x in flat(q.events)):
                        ctx.undecided("topological-index", "numbering order not understood")
                    else:
                        ctx.bad("topological-index", "topological_sort:no-succ", lw(w), "a node is numbered without its successors being numbered first")
                    continue
                if succ[0][0] > i:
                    # numbered before its successors: fine only when counting up
                    d = count_delta(e, q, w)
                    if d is not None and d < 0:
                        ctx.bad("topological-index", "topological_sort:preorder", lw(w), "a node takes its (descending) number before its successors do: it sorts after them")
                    else:
                        ctx.undecided("topological-index", "numbering order not understood")
                    continue
                d = count_delta(e, q, w)
                if d is not None and d > 0:
                    ctx.bad("topological-index", "topological_sort:ascending", lw(w), "numbers count up in post-order: a node sorts after its successors")
                    bad = True
                elif d is not None and d == 0:
                    ctx.bad("topological-index", "topological_sort:same", lw(w), "two nodes can get the same number")
                    bad = True
                rec = succ[0][1]
                skipq = [z for z in rec.x["paths"] if z.end[0] not in ("throw",) and not any(x.k == "call" for x in z.events)]
                if skipq:
                    ok = all(any(_numbered(cd) for cd in z.conds) for z in skipq)
                    if not ok and any(x.k == "call" for z in rec.x["paths"] for x in z.events):
                        ctx.bad("topological-index", "topological_sort:skip", lw(rec), "a successor is not visited before its predecessor is numbered, when [%s]" % "; ".join(show(c) for c in skipq[0].conds))
                        bad = True
                if any(z.end[0] == "break" for z in rec.x["paths"]):
                    ctx.bad("topological-index", "topological_sort:break", lw(rec), "not every successor is visited before a node is numbered")
                    bad = True
                if not bad:
                    if d == -1:
                        ctx.ok("topological-index", "post-order numbering, counting down")
                    else:
                        ctx.undecided("topological-index", "counter not understood")
            r = e.x.get("range")
        if not done:
            ctx.undecided("topological-index", "numbering not understood")
        srt = [(i, e) for i, e in enumerate(pa.events) if e.k == "algo" and e.x["name"] in ("sort", "stable_sort")]
        if srt:
            asc = ascending(srt[-1][1].x.get("cmp"))
            if asc is False:
                ctx.bad("topological-index", "topological_sort:list-order", lw(srt[-1][1]), "the node list is sorted by descending topological index: position and index disagree")
            elif full_range(srt[-1][1]) is False:
                ctx.bad("topological-index", "topological_sort:list-part", lw(srt[-1][1]), "only part of the node list is sorted: position and index disagree")
            else:
                (ctx.ok if asc else ctx.undecided)("topological-index", "node list sorted by index")
        elif done and not any(e.k == "call" for e in pa.events):
            ctx.bad("topological-index", "topological_sort:list-unsorted", where(f), "the node list is not put in topological order: position and index disagree")
        if not ws:
            ctx.bad("topological-index", "topological_sort:flag", where(f), "the graph is not marked as sorted: it stays unlocked and is numbered again")
        elif ws[-1].val == FALSE:
            ctx.bad("topological-index", "topological_sort:flag", lw(ws[-1]), "the graph is marked as unsorted")


def _numbered(cd):
    """condition says the node already has a (non-negative) number"""
    return cd[0] == "cmp" and any(topo_of(t) is not None for t in lin_parts(cd[2])[1])


def count_delta(loop, q, w):
    """per-node change of the counter whose value is written as the index"""
    acc = loop.x.get("acc") or {}
    for key, (start, init, post) in acc.items():
        if w.val == start:
            v = q.st.store.get(key)
            if v is None:
                return None
            d = add(v, start, -1)
            return d[1] if is_num(d) else None
        d0 = add(w.val, start, -1)
        if is_num(d0):
            v = q.st.store.get(key)
            if v is None:
                return None
            d = add(v, start, -1)
            return d[1] if is_num(d) else None
    return None


def init_state(ctx, p, f, pa):
    key = "initialize_state/%s" % ",".join(f.get("pt", []))
    vs = visits(pa.events, "initialize_state")
    if not vs:
        direct = [e for e in pa.events if e.k == "call" and e.x["name"] == "initialize_state"]
        if direct or any(e.k == "call" for e in flat(pa.events) if e.x["name"] not in ("topological_sort",)):
            ctx.undecided("initialise-order", "Graph::%s: form not understood" % key)
        else:
            ctx.bad("initialise-order", key + ":none", where(f), "a path does not initialise the nodes")
        return
    e, hits = vs[0]
    bad = False
    for q, cs in hits:
        if cs or q.end[0] == "throw":
            continue
        # skipping is only fine when the node already has a state
        has = [c for c in q.conds if _state_cell(c)]
        loopc = [c for c in q.conds if c[0] == "cmp"]
        rest = [c for c in q.conds if c not in has and c not in loopc[:1]]
        if has:
            continue
        neg_ = [c for c in q.conds if c[0] == "not" and _state_cell(c[1])]
        ctx.bad("initialise-order", key + ":skip", lw(e), "a node without a state may stay uninitialised, when [%s]" % "; ".join(show(c) for c in q.conds))
        bad = True
    for q, cs in hits:
        if cs and any(_state_cell(c) for c in q.conds):
            ctx.bad("initialise-order", key + ":reinit", lw(e), "a node that already has a state is initialised again")
            bad = True
    c = [cs for _, cs in hits if cs][0][0]
    el = is_idx(c.x["obj"])
    if el is None:
        ctx.undecided("initialise-order", key)
        return
    cv = coverage(e, el[1], el[0])
    if isinstance(cv, tuple):
        ctx.bad("initialise-order", key + ":cover", lw(e), "not every node is initialised: " + cv[1])
        return
    kp = kpos(el[1], e.x["id"])
    if kp and kp[1] in (-1, "rev"):
        ctx.bad("initialise-order", key + ":reverse", lw(e), "nodes are initialised in reverse topological order: before the nodes they depend on")
        return
    if bad:
        return
    if norm(strip_load(el[0])) != ("mem", ("this",), "nodes_") or cv is not True:
        ctx.undecided("initialise-order", key)
    else:
        ctx.ok("initialise-order", "Graph::" + key)
    nonconst = f.get("const") is False or not f.get("const")
    if nonconst:
        ts = [i for i, x in enumerate(pa.events) if x.k == "call" and x.x["name"] == "topological_sort"]
        if not ts:
            ctx.undecided("initialise-order", key + ": sorts first?")
        elif ts[0] > pa.events.index(e):
            ctx.bad("initialise-order", key + ":sort-late", lw(e), "nodes are initialised before the graph is sorted")


def _state_cell(c):
    x = strip_load(c)
    return x[0] in ("at", "idx")


def rec_call(e, f, argi):
    return e.k == "call" and e.x["name"] in ("recurse", f["n"])


def rec_init(ctx, p, f):
    for pa in paths_of(p, f, NS + "Graph") or []:
        if pa.throws:
            continue
        own = [(i, e) for i, e in enumerate(pa.events) if e.k == "call" and e.x["name"] == "initialize_state"]
        if not own:
            if any(_state_cell(c) for c in pa.conds):
                ctx.ok("initialise-order", "recursive_initialize: already initialised")
            elif any(e.k == "call" for e in flat(pa.events)):
                ctx.undecided("initialise-order", "recursive_initialize: not understood")
            else:
                ctx.bad("initialise-order", "recursive_initialize:none", where(f), "a node without a state is not initialised when [%s]" % "; ".join(map(show, pa.conds)))
            continue
        if any(_state_cell(c) for c in pa.conds):
            ctx.bad("initialise-order", "recursive_initialize:again", lw(own[0][1]), "a node that already has a state is initialised again")
            continue
        loops = [(i, e) for i, e in enumerate(pa.events) if e.k == "loop" and e.x.get("range") is not None and contains(e.x["range"], lambda z: len(z) == 3 and z[0] == "mem" and z[2] == "predecessors_")]
        if not loops:
            if any(rec_call(e, f, 1) for e in flat(pa.events)):
                ctx.undecided("initialise-order", "recursive_initialize: not understood")
            else:
                ctx.bad("initialise-order", "recursive_initialize:no-pred", lw(own[0][1]), "a node is initialised without its predecessors")
            continue
        i, e = loops[0]
        if i > own[0][0]:
            ctx.bad("initialise-order", "recursive_initialize:late", lw(e), "a node is initialised before its predecessors")
            continue
        r = e.x["range"]
        bad = any(q.end[0] == "break" for q in e.x["paths"]) or r[0] in ("drop", "take")
        skips = [q for q in e.x["paths"] if q.end[0] in ("normal", "continue", "ret") and not any(rec_call(x, f, 1) for x in flat(q.events))]
        skips = [q for q in skips if not any(_state_cell(c) for c in q.conds)]
        if bad or skips:
            ctx.bad("initialise-order", "recursive_initialize:skip", lw(e), "not every predecessor is initialised first%s" % (
                ": left out when [%s]" % "; ".join(show(c) for c in skips[0].conds) if skips else ""))
        else:
            ctx.ok("initialise-order", "recursive_initialize: predecessors first")


def rec_reset(ctx, p, f):
    for pa in paths_of(p, f, NS + "Graph") or []:
        if pa.throws:
            continue
        w = [e for e in pa.events if (e.k == "w" and e.val in (FALSE, ("null",), lit(0))) or e.k == "call" and e.x["name"] == "reset"]
        loops = [e for e in pa.events if e.k == "loop" and e.x.get("range") is not None and contains(e.x["range"], lambda z: len(z) == 3 and z[0] == "mem" and z[2] == "successors_")]
        if not loops:
            past = [c for c in pa.conds if c[0] == "cmp" and contains(c, lambda z: z[0] == "size")]
            cell = [c for c in pa.conds if _state_cell(c) or c[0] == "not" and _state_cell(c[1])]
            if not w and past and not cell:
                ctx.ok("reset-closure", "recursive_reset: past the end of the state")
            elif not w and not past:
                ctx.bad("reset-closure", "recursive_reset:stop", where(f), "resetting stops at a node when [%s]: successors keep a state computed from the old one" % "; ".join(map(show, pa.conds)))
            elif any(rec_call(e, f, 1) for e in flat(pa.events)):
                ctx.undecided("reset-closure", "recursive_reset: not understood")
            else:
                ctx.bad("reset-closure", "recursive_reset:no-succ", where(f), "a node's state is reset without its successors'")
            continue
        if not w:
            ctx.undecided("reset-closure", "recursive_reset: own reset not recognised") if any(e.k in ("cont", "call") for e in pa.events) else ctx.bad(
                "reset-closure", "recursive_reset:own", where(f), "the node's own state is not reset")
            continue
        e = loops[0]
        r = e.x["range"]
        bad = any(q.end[0] == "break" for q in e.x["paths"]) or r[0] in ("drop", "take")
        skips = [q for q in e.x["paths"] if q.end[0] in ("normal", "continue", "ret") and not any(rec_call(x, f, 1) for x in flat(q.events))]
        nb = [q for q in skips if not unsorted_cond(q.conds)]
        if bad or nb:
            ctx.bad("reset-closure", "recursive_reset:skip", lw(e), "not every successor is reset%s" % (": left out when [%s]" % "; ".join(show(c) for c in nb[0].conds) if nb else ""))
        else:
            ctx.ok("reset-closure", "recursive_reset: every sorted successor")


def unsorted_cond(conds):
    """topological index < 0 (or outside the state) on this path"""
    for c in conds:
        if c[0] == "cmp" and c[1] in ("le", "lt"):
            cc, parts = lin_parts(c[2])
            for t, co in parts.items():
                if topo_of(t) is not None:
                    if len(parts) == 1 and co > 0 and cc >= (1 if c[1] == "le" else 0):
                        return True        # idx + 1 <= 0
                    if len(parts) == 2 and co < 0 and any(z[0] == "size" for z in parts):
                        return True        # size <= idx
        if c[0] == "cmp" and c[1] == "eq":
            cc, parts = lin_parts(c[2])
            if len(parts) == 1 and topo_of(list(parts)[0]) is not None and -cc * list(parts.values())[0] < 0:
                return True
    return False


def reset_sort(ctx, p, f):
    for pa in paths_of(p, f, NS + "Graph") or []:
        if pa.throws:
            continue
        if any(c[0] == "not" and strip_load(c[1]) == ("mem", ("this",), "topologically_sorted_") for c in pa.conds):
            continue
        ws = [e for e in pa.events if e.k == "w" and e.loc == ("mem", ("this",), "topologically_sorted_")]
        if ws and ws[-1].val == TRUE or not ws:
            ctx.bad("topological-index", "reset_topological_sort:flag", where(f), "resetting the order leaves the graph marked as sorted")
            continue
        lp = [e for e in pa.events if e.k == "loop" and any(x.k == "w" and x.loc[0] == "mem" and x.loc[2] == "topological_index_" for x in flat([e]))]
        if not lp:
            ctx.bad("topological-index", "reset_topological_sort:index", where(f), "node indices are not reset")
            continue
        e = lp[0]
        r = e.x.get("range")
        ok = True
        for q in e.x["paths"]:
            for x in q.events:
                if x.k == "w" and x.loc[0] == "mem" and x.loc[2] == "topological_index_":
                    if is_num(x.val) and x.val[1] >= 0:
                        ctx.bad("topological-index", "reset_topological_sort:value", lw(x), "a reset node keeps a non-negative index (%s)" % show(x.val))
                        ok = False
        if r is not None and r[0] == "drop" and ok:
            c, parts = lin_parts(r[2])
            dec = [t for t in parts if t[0] == "size" and t[1] == ("mem", ("this",), "decisions_")]
            if dec and len(parts) == 1 and c != 0:
                ctx.bad("topological-index", "reset_topological_sort:range", lw(e), "resets the wrong nodes: all but the first %s" % show(r[2]))
                ok = False
        elif r is not None and r == ("mem", ("this",), "nodes_"):
            if all(not q.conds for q in e.x["paths"]):
                ctx.bad("topological-index", "reset_topological_sort:decisions", lw(e), "the indices of decisions are reset too: existing states no longer match them")
                ok = False
        if ok:
            ctx.ok("topological-index", "reset_topological_sort")
