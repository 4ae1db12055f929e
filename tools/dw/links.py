"""Rules over the construction of the graph: operands are linked, in order, both ways, and only by accepted nodes."""
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods
from .graphp import norm, strip_load, lw, where

_ctor = {}


def node_ptr_type(p, t):
    """'one' pointer to a node, 'many' range of them, or None"""
    u = t.replace("const ", "").strip()
    m = re.match(r"^(dwave::optimization::\w+(?:<.*>)?) \*(?:const)?$", u)
    if m:
        n = m.group(1)
        return "one" if p.is_a(n, NS + "Node") or n == NS + "Array" or n == NS + "Node" else None
    if re.search(r"(span|vector|initializer_list|array)<", u):
        for mm in re.finditer(r"(dwave::optimization::\w+) \*", u):
            if p.is_a(mm.group(1), NS + "Node") or mm.group(1) == NS + "Node":
                return "many"
    return None


def ctor_paths(p, f, cls):
    k = (f["id"], f["unit"])
    if k not in _ctor:
        try:
            # a node under construction is unsorted
            st = {("mem", ("this",), "topological_index_"): lit(-1)} if f.get("isctor") else None
            _ctor[k] = [pa for pa in Walker(p, noinline=("add_predecessor", "add_successor")).run(f, cls=cls, store=st)
                        if not (pa.throws and (rechecked(pa) or f.get("isctor") and sorted_self(pa)))]
        except Capped:
            _ctor[k] = None
    return _ctor[k]


def rename_k(t, lid):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("k", "revk") and t[1] == lid:
            return (t[0], "#")
        return tuple(rename_k(x, lid) for x in t)
    return t


def noep(t):
    """without epochs, element reads spelt alike"""
    t = norm(t)

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "load" and len(x) == 2:
                return go(x[1])
            if x and x[0] in ("idx", "at") and len(x) == 3:
                return ("at", go(x[1]), go(x[2]))
            return tuple(go(y) for y in x)
        return x
    return go(t)


def rechecked(pa):
    """the rejecting check already passed for every element in an earlier complete loop"""
    part = [e for e in pa.events if e.k == "loop" and e.x.get("partial")]
    if not part or part[-1].x.get("range") is None or part[-1].x.get("exit") is None:
        return False
    last = part[-1]
    q = last.x["paths"][last.x["exit"]]
    want = {noep(rename_k(c, last.x["id"])) for c in q.conds}
    for e in pa.events:
        if e is last or e.k != "loop" or e.x.get("partial") or e.x.get("range") is None:
            continue
        if noep(e.x["range"]) != noep(last.x["range"]):
            continue
        for z in e.x["paths"]:
            if z.end[0] == "throw" and (z.end[1:3] == pa.end[1:3]):
                return True  # the same check, passed by every element before
            if z.end[0] == "throw" and {noep(rename_k(c, e.x["id"])) for c in z.conds} <= want:
                return True
    return False


def sorted_self(pa):
    """the path assumes that the node under construction already has a topological index"""
    for c in pa.conds + [c for e in pa.events if e.k == "loop" and e.x.get("exit") is not None for c in e.x["paths"][e.x["exit"]].conds]:
        if c[0] == "cmp" and c[1] in ("le", "lt"):
            cc, parts = lin_parts(c[2])
            if len(parts) == 1 and strip_load(list(parts)[0]) == ("mem", ("this",), "topological_index_") and list(parts.values())[0] < 0 and cc >= 0:
                return True
    return False


def ctors(p):
    for cls in concrete_nodes(p):
        for f in p.methods_of(cls):
            if f.get("isctor") and f.get("body") is not None:
                yield cls, f


def link_calls(events):
    """(position, event, loops) of every add_predecessor on this"""
    out = []
    for i, (e, ctx) in enumerate(flat_ctx(events)):
        if e.k == "call" and e.x["name"] == "add_predecessor" and (e.x.get("obj") in (None, ("this",)) or strip_load(e.x["obj"]) == ("this",)):
            out.append((i, e, ctx))
    return out


def roots_of(t, params, store, depth=0):
    """which ctor parameters a term comes from"""
    out = set()
    for s in subterms(t):
        if len(s) == 2 and s[0] == "param" and s[1] in params:
            out.add(s[1])
        if s and s[0] in ("mem",) and len(s) == 3 and s[1] == ("this",) and depth < 3:
            v = store.get(s)
            if v is not None:
                out |= roots_of(v, params, store, depth + 1)
    return out


def rule_links(ctx):
    p = program()
    ctx.rule("operand-linked", "every node given to a constructor becomes a predecessor on every path that completes", 40)
    ctx.rule("operand-order", "operands become predecessors in the order of the constructor's parameters", 12)
    ctx.rule("both-ways", "linking adds the edge on both ends, with the position the predecessor takes in the list", 3)
    ctx.rule("edge-owners", "only the linking functions and the removal of a node change the edge lists", 1)
    n = 0
    for cls, f in ctors(p):
        with ctx.guard("operand-linked", f['q']):
            ops = [(x["n"], node_ptr_type(p, x["t"])) for x in f["params"]]
            ops = [(a, b) for a, b in ops if b]
            if not ops:
                continue
            ctx.count("constructors with operands")
            pas = ctor_paths(p, f, cls)
            tag = "%s(%s)" % (short(cls), ", ".join(short(x["t"]) for x in f["params"]))
            if pas is None:
                ctx.undecided("operand-linked", tag)
                continue
            seen_bad = set()
            und = set()
            ordbad = ordund = False
            for pa in pas:
                if pa.throws:
                    continue
                lc = link_calls(pa.events)
                init = [e for e in flat(pa.events) if e.k == "call" and e.x["name"] == "Node"]
                names = [a for a, _ in ops]
                seq = []
                unresolved = bool(init)
                for i, e, c in lc:
                    r = roots_of(e.x["args"][0], names, pa.st.store) if e.x["args"] else set()
                    if not r and c:
                        # linked inside a loop over something built from an operand list
                        r2 = set()
                        for lp, _ in c:
                            if lp.x.get("range") is not None:
                                r2 |= roots_of(lp.x["range"], names, pa.st.store)
                        r = r2
                    if len(r) == 1:
                        seq.append(r.pop())
                    elif not r:
                        unresolved = True
                        seq.append(None)
                    else:
                        # e.g. an element of an operand list mentions the list only
                        many = [x for x in r if dict(ops)[x] == "many"]
                        seq.append(many[0] if len(many) == 1 else None)
                        unresolved = unresolved or len(many) != 1
                for a, kind in ops:
                    if a in seq:
                        continue
                    if unresolved or None in seq:
                        und.add(a)
                    elif opaque_this(pa):
                        und.add(a)
                    elif kind == "many" and any(_isempty(c, a) for c in pa.conds):
                        continue
                    else:
                        seen_bad.add((a, "; ".join(show(c) for c in pa.conds)[:200]))
                dup = [a for a, kd in ops if kd == "one" and seq.count(a) > 1 and not any(c for _, e, c in lc)]
                for a in dup:
                    ctx.bad("operand-linked", tag + ":twice:" + a, where(f), "operand '%s' is linked twice" % a)
                got = [a for a in dict.fromkeys(seq) if a]
                want = [a for a in names if a in got]
                if None in seq:
                    ordund = True
                elif got != want:
                    ordbad = (got, want)
                # partial coverage of operand lists
                for i, e, c in lc:
                    for lp, q in c:
                        skips = [z for z in lp.x["paths"] if z.end[0] in ("normal", "continue", "ret") and not any(x is e or x.k == "call" and x.x["name"] == "add_predecessor" for x in flat(z.events))]
                        for z in skips:
                            holds = [cd for cd in z.conds if cd[0] != "not" and cd[0] in ("app", "opaque") and _variant(cd) and any(cd in y.conds for y in lp.x["paths"] if y not in skips)]
                            if not any(_variant(cd) for cd in z.conds) or holds:
                                ctx.bad("operand-linked", tag + ":skip", lw(lp), "some operands of the list are not linked, when [%s]" % "; ".join(show(cd) for cd in z.conds))
                        if any(z.end[0] == "break" for z in lp.x["paths"]):
                            ctx.bad("operand-linked", tag + ":break", lw(lp), "linking the operands can stop early")
                        miss = uncovered(e, lp, len([x for x in seq if x == roots1(e, names, pa)]))
                        if miss:
                            ctx.bad("operand-linked", tag + ":range", lw(lp), miss)
                        r = lp.x.get("range")
                        if r is not None and r[0] == "drop" and is_num(r[2]) and r[2][1] > 0:
                            ctx.bad("operand-linked", tag + ":drop", lw(lp), "the first %s operand(s) are not linked" % show(r[2]))
            for a, cs in sorted(seen_bad)[:3]:
                ctx.bad("operand-linked", tag + ":" + a, where(f), "operand '%s' does not become a predecessor%s: it can change without this node being updated, and can be removed while in use" % (
                    a, " when [%s]" % cs if cs else ""))
            if not seen_bad:
                for a, _ in ops:
                    (ctx.undecided if a in und else ctx.ok)("operand-linked", "%s: %s" % (tag, a))
            if len(ops) > 1:
                if ordbad:
                    ctx.bad("operand-order", tag, where(f), "operands are linked in the order %s, not %s" % (ordbad[0], ordbad[1]))
                elif ordund:
                    ctx.undecided("operand-order", tag)
                else:
                    ctx.ok("operand-order", tag)
    both_ways(ctx, p)
    owners(ctx, p)
    # member functions that take nodes later (in-place growth)
    for cls in concrete_nodes(p):
        for (nm, pt), f in node_methods(p, cls).items():
            if nm != "add_node" or f.get("body") is None:
                continue
            ops = [x["n"] for x in f["params"] if node_ptr_type(p, x["t"]) == "one"]
            pas = ctor_paths(p, f, cls)
            for pa in pas or []:
                if pa.throws:
                    continue
                lc = link_calls(pa.events)
                for a in ops:
                    if any(a in roots_of(e.x["args"][0], [a], pa.st.store) for _, e, _ in lc):
                        ctx.ok("operand-linked", "%s::%s" % (short(cls), nm))
                    elif opaque_this(pa):
                        ctx.undecided("operand-linked", "%s::%s" % (short(cls), nm))
                    else:
                        ctx.bad("operand-linked", "%s::%s:%s" % (short(cls), nm, a), where(f), "the added operand does not become a predecessor when [%s]" % "; ".join(show(c) for c in pa.conds))


def roots1(e, names, pa):
    r = roots_of(e.x["args"][0], names, pa.st.store)
    return r.pop() if len(r) == 1 else None


def uncovered(e, lp, nlinks):
    """elements of the operand list that the counting loop leaves out"""
    if nlinks > 1 or lp.x.get("range") is not None:
        return None
    k = ("k", lp.x["id"])
    for z in subterms(e.x["args"][0]):
        if len(z) >= 3 and z[0] in ("at", "idx") and contains(z[2], lambda y: y == k):
            c, parts = lin_parts(z[2])
            if set(parts) != {k}:
                return None
            if parts[k] == 1 and c > 0:
                return "the first %d operand(s) of the list are not linked" % c
            if parts[k] > 1:
                return "only every %d. operand of the list is linked" % parts[k]
            for q in lp.x["paths"]:
                for cd in q.conds:
                    if cd[0] == "cmp" and cd[1] in ("lt", "le", "ne"):
                        c2, p2 = lin_parts(cd[2])
                        sz = [t for t in p2 if t != k]
                        if len(p2) == 2 and k in p2 and len(sz) == 1 and sz[0][0] == "size":
                            # normalised to  sign*(k - size) + c2  op 0
                            if cd[1] == "lt" and p2[k] == 1 and c2 > 0 or cd[1] == "le" and p2[k] == 1 and c2 > 1 or cd[1] == "ne" and c2 * p2[k] > 0:
                                return "the last operand(s) of the list are not linked"
    return None


def _variant(c):
    return contains(c, lambda z: z and z[0] in ("app", "opaque") and len(z) > 1 and z[1] in ("holds_alternative", "get_if", "index"))


def _isempty(c, a):
    return contains(c, lambda z: z and z[0] == "size") and contains(c, lambda z: z == ("param", a))


def opaque_this(pa):
    """a call that was not expanded and may link on behalf of the constructor"""
    for e in flat(pa.events):
        if e.k == "call":
            f = e.x.get("f") or {}
            if e.x["name"] in ("add_predecessor", "add_successor"):
                continue
            q = f.get("q", "")
            if e.x.get("obj") == ("this",) and not f.get("const") and not f.get("static"):
                return True
            if any(a in (("this",), ("addr", ("deref", ("this",)))) for a in e.x["args"]):
                return True
    return False


def both_ways(ctx, p):
    def pushes(pa, fld):
        return [e for e in flat(pa.events) if e.k == "push" and e.loc[0] == "mem" and e.loc[2] == fld]

    for name in ("add_predecessor", "add_successor", "Node"):
        for f in p.byq.get(NS + "Node::" + name, []):
            if name == "Node" and not f["params"]:
                continue
            for pa in Walker(p).run(f, cls=None):
                if pa.throws:
                    continue
                pr, su = pushes(pa, "predecessors_"), pushes(pa, "successors_")
                tag = "Node::" + name
                prinit = pa.st.store.get(("mem", ("this",), "predecessors_")) if name == "Node" else None
                if not su:
                    ctx.bad("both-ways", tag + ":succ", where(f), "linking does not add this node to the predecessor's successors%s" % _when(pa))
                    continue
                if name != "Node" and not pr:
                    ctx.bad("both-ways", tag + ":pred", where(f), "linking does not add the predecessor to this node's list%s" % _when(pa))
                    continue
                s = su[0]
                args = s.x.get("args") or []
                if name == "Node" or len(su) != 1 or len(pr) > 1:
                    ctx.undecided("both-ways", tag) if name != "Node" else ctx.ok("both-ways", tag)
                    continue
                owner_s, owner_p = s.loc[1], pr[0].loc[1]
                # successor entry must name the node whose predecessor list grows, predecessor entry the node whose successor list grows
                if len(args) >= 2:
                    a0 = args[0]
                    ok1 = addr_of(a0) == obj_of(owner_p)
                    ok2 = addr_of(pr[0].val) == obj_of(owner_s)
                    pos = args[1]
                    at = pr[0].x.get("at")
                    if addr_of(a0) is not None and obj_of(owner_p) is not None and not ok1:
                        ctx.bad("both-ways", tag + ":who", lw(s), "the successor entry names the wrong node")
                        continue
                    if addr_of(pr[0].val) is not None and obj_of(owner_s) is not None and not ok2:
                        ctx.bad("both-ways", tag + ":whom", lw(pr[0]), "the predecessor entry names the wrong node")
                        continue
                    d = add(pos, at, -1) if at is not None else None
                    if d is not None and norm(pos) == norm(at) or d is not None and is_num(d) and d[1] == 0:
                        # the size read must be the one before the push
                        ctx.ok("both-ways", tag)
                    elif d is not None and is_num(d):
                        ctx.bad("both-ways", tag + ":pos", lw(s), "the successor entry carries position %s, the predecessor goes to %s" % (show(pos), show(at)))
                    else:
                        ctx.undecided("both-ways", tag)
                else:
                    ctx.undecided("both-ways", tag)


def addr_of(v):
    v = v if v[0] != "load" else v
    if v[0] == "addr":
        return v[1]
    if v == ("this",) or v == ("load", ("this",), 0):
        return ("this",)
    if v[0] == "param":
        return ("deref", v)
    return None


def obj_of(loc):
    if loc == ("this",):
        return loc
    return loc


def _when(pa):
    return " when [%s]" % "; ".join(show(c) for c in pa.conds) if pa.conds else ""


MUT = {"emplace_back", "push_back", "erase", "clear", "resize", "pop_back", "insert", "emplace", "assign", "swap"}


def owners(ctx, p):
    allow = {NS + "Node::add_predecessor", NS + "Node::add_successor", NS + "Node::Node", NS + "Graph::remove_unused_nodes"}
    # helpers called only from the allowed functions are fine: collect mutating functions, then require every caller chain to be allowed
    callers = {}
    mut = {}
    for lst in p.byid.values():
        f = lst[0]
        if f.get("body") is None:
            continue
        for e in walk_ast(f.get("body")):
            if e.get("k") in ("mcall", "call", "ctor", "opcall") and e.get("f"):
                callers.setdefault(e["f"]["id"], set()).add(f["id"])
            tgt = None
            if e.get("k") == "mcall" and e.get("f", {}).get("n") in MUT:
                tgt = e.get("o")
            elif e.get("k") == "assign":
                tgt = e.get("a")
            elif e.get("k") == "call" and e.get("f", {}).get("n") in ("erase_if", "erase", "swap", "remove_if", "sort") and e.get("a"):
                tgt = e["a"][0]
            if tgt is not None:
                for x in walk_ast(tgt):
                    if x.get("k") == "mem" and x.get("n") in ("predecessors_", "successors_") and x.get("cls") == NS + "Node":
                        mut[f["id"]] = (f, e)
                        break

    def fine(fid, seen=()):
        f = p.find(fid)
        if f and (f["q"] in allow or any(f["q"].startswith(a + "::") or ("lambda" in f["q"] and a.split("::")[-1] in fid) for a in allow)):
            return True
        if fid in seen:
            return False
        cs = callers.get(fid)
        return bool(cs) and all(fine(c, seen + (fid,)) for c in cs)

    for fid, (f, e) in mut.items():
        if fine(fid):
            ctx.ok("edge-owners", short(f["q"]))
        else:
            ctx.bad("edge-owners", short(f["q"]), str(e.get("l")), "%s changes the edge list of a node outside the linking functions" % short(f["q"]))


def walk_ast(x):
    if isinstance(x, dict):
        yield x
        for k, v in x.items():
            if k != "f" and isinstance(v, (dict, list)):
                yield from walk_ast(v)
    elif isinstance(x, list):
        for y in x:
            yield from walk_ast(y)


def rule_reject(ctx):
    """no node is linked into the graph before the last check that can reject it"""
    p = program()
    ctx.rule("check-before-link", "on every path that rejects its arguments nothing has been linked, stored in the graph or changed in another node yet", 60)
    ctx.rule("emplace-order", "a node enters the graph's lists only after its constructor has accepted the arguments, and a sorted graph refuses before that", 1)
    for cls, f in ctors(p):
        with ctx.guard("check-before-link", f['q']):
            pas = ctor_paths(p, f, cls)
            tag = "%s(%s)" % (short(cls), ", ".join(short(x["t"]) for x in f["params"]))
            if pas is None:
                ctx.undecided("check-before-link", tag)
                continue
            reject(ctx, p, f, pas, tag)
    for cls in concrete_nodes(p):
        for (nm, pt), f in node_methods(p, cls).items():
            if nm == "add_node" and f.get("body") is not None:
                reject(ctx, p, f, ctor_paths(p, f, cls) or [], "%s::%s" % (short(cls), nm))
    for f in p.byq.get(NS + "Graph::emplace_node", []):
        emplace(ctx, p, f)


def reject(ctx, p, f, pas, tag):
    nt = 0
    for pa in pas:
        if not pa.throws:
            continue
        nt += 1
        lc = link_calls(pa.events)
        # inside the loop iteration that throws itself, a link in the same or an earlier iteration counts
        if lc:
            e = lc[0][1]
            ctx.bad("check-before-link", tag, lw(e), "the node is linked to an operand (%s) before the check at %s that can still reject it: a rejected node leaves a dangling edge" % (
                ", ".join(show(a) for a in e.x["args"]), str(pa.end[2]).rsplit(":", 1)[0] if len(pa.end) > 2 else "?"))
            return
        for e in flat(pa.events):
            if e.k in ("w", "push", "cont") and foreign(e.loc):
                ctx.bad("check-before-link", tag + ":other", lw(e), "another object (%s) is changed before the check at %s that can still reject the node" % (
                    show(e.loc), str(pa.end[2]).rsplit(":", 1)[0] if len(pa.end) > 2 else "?"))
                return
    ctx.ok("check-before-link", "%s: %d rejecting paths" % (tag, nt))


def foreign(loc):
    """a location inside another node"""
    x = loc
    while x[0] in ("mem", "idx"):
        x = x[1]
    return x[0] == "deref" and strip_load(x[1])[0] == "param" and loc[0] == "mem" and loc[2] in ("successors_", "predecessors_", "topological_index_")


def emplace(ctx, p, f):
    pas = Walker(p, inline_pred=lambda g: (g.get("q") or "").startswith(NS + "Graph::")).run(f, cls=NS + "Graph")
    tag = "emplace_node"
    for pa in pas:
        srt = [c for c in pa.conds if strip_load(c) == ("mem", ("this",), "topologically_sorted_")]
        nsrt = [c for c in pa.conds if c[0] == "not" and strip_load(c[1]) == ("mem", ("this",), "topologically_sorted_")]
        grows = [e for e in flat(pa.events) if e.k in ("push", "cont", "w") and contains(e.loc, lambda z: len(z) == 3 and z[0] == "mem" and z[2] in ("nodes_", "decisions_"))]
        if pa.throws:
            if grows:
                ctx.bad("emplace-order", tag + ":late", lw(grows[0]), "the graph is changed before the node is refused")
            else:
                ctx.ok("emplace-order", "refusal leaves the graph alone")
            continue
        if not srt and not nsrt:
            ctx.bad("emplace-order", tag + ":locked", where(f), "a node can be added to a sorted (locked) graph")
        elif srt:
            ctx.bad("emplace-order", tag + ":locked", where(f), "a node is added although the graph is sorted (locked)")
        else:
            ctx.ok("emplace-order", "a sorted graph refuses new nodes")
