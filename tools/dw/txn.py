"""Transaction rules over node state: revert restores, commit finalises, reported changes are true."""
from .engine import *
from .facts import program, AnalysisBroken

NS = "dwave::optimization::"
STATE_T = "std::vector<std::unique_ptr<dwave::optimization::NodeStateData>>"


def is_state(t, const=None):
    c = t.startswith("const ")
    u = t[6:] if c else t
    ok = u.startswith(STATE_T) or u.startswith("dwave::optimization::State") and not u.startswith("dwave::optimization::StateD")
    if not ok:
        return False
    return const is None or c == const


def short(n):
    return n.replace(NS, "")


def concrete_nodes(p):
    return sorted(n for n in p.derived(NS + "Node") if not p.rec[n].get("abstract"))


def node_methods(p, cls):
    """final methods of cls: (name, param types) -> function"""
    out = {}
    for b in p.bases(cls):
        for f in p.methods_of(b):
            if f.get("isctor") or f.get("isdtor") or f.get("lambda"):
                continue
            out.setdefault((f["n"], tuple(f.get("pt", []))), f)
    return out


_paths = {}


def paths_of(p, f, cls, **kw):
    k = (f["id"], f["unit"], cls, tuple(sorted(kw.items(), key=repr)))
    if k not in _paths:
        try:
            w = Walker(p, **kw)
            _paths[k] = [x for x in w.run(f, cls=cls)]
        except Capped:
            _paths[k] = None
    return _paths[k]


def fpath(loc):
    """location -> (root term, member path without indices, index terms)"""
    mems, idxs = [], []
    x = loc
    while x[0] in ("mem", "idx"):
        if x[0] == "mem":
            mems.append(x[2])
        else:
            idxs.append(x[2])
        x = x[1]
    mems.reverse()
    idxs.reverse()
    return x, tuple(mems), tuple(idxs)


OWN = ("data", ("this",))


def own(loc):
    r, m, i = fpath(loc)
    return m if r == OWN and m else None


def value_root(t):
    """which own field does this value read? -> (path, 'size'|'val') or None"""
    if t[0] == "load":
        m = own(t[1])
        return (m, "val", fpath(t[1])[2]) if m else None
    if t[0] == "size":
        m = own(t[1])
        return (m, "size", fpath(t[1])[2]) if m else None
    if t[0] == "toint":
        return value_root(t[1])
    return None


class Node_:
    pass


_txn = {}


def txn(p, cls):
    if cls in _txn:
        return _txn[cls]
    n = Node_()
    n.cls = cls
    n.T, n.commit, n.revert, n.diff, n.init = [], None, None, None, []
    ms = node_methods(p, cls)
    n.methods = ms
    for (name, pt), f in ms.items():
        st = [t for t in pt if is_state(t)]
        if not st:
            continue
        if name == "commit":
            n.commit = f
        elif name == "revert":
            n.revert = f
        elif name == "initialize_state":
            n.init.append(f)
        elif name == "diff" and len(pt) == 1:
            n.diff = f
        elif any(is_state(t, False) for t in pt) and name not in ("data_ptr", "update"):
            n.T.append(f)
    n.capped = []
    n.tp = []
    for f in n.T:
        r = paths_of(p, f, cls)
        if r is None:
            n.capped.append(f["q"])
        else:
            n.tp.append((f, r))
    n.cp = paths_of(p, n.commit, cls) if n.commit else None
    n.rp = paths_of(p, n.revert, cls) if n.revert else None
    n.dp = paths_of(p, n.diff, cls) if n.diff else None
    # mutated own fields: path -> list of (function, path, event, ctx)
    n.mut = {}
    for f, paths in n.tp:
        for pa in paths:
            if pa.throws:
                continue
            for e, ctx in flat_ctx(pa.events):
                if e.loc is None or e.k not in ("w", "push", "cont", "algo"):
                    continue
                m = own(e.loc)
                if m:
                    n.mut.setdefault(m, []).append((f, pa, e, ctx))
    # logs: containers of records that T appends to and that commit/revert clear
    n.upd = set()
    for m, evs in n.mut.items():
        for f, pa, e, ctx in evs:
            if e.k == "push" and e.val is not None and (e.val[0] == "obj" and e.val[1].endswith("::Update")):
                n.upd.add(m)
    # reported change container
    n.D = None
    if n.dp:
        for pa in n.dp:
            if pa.end[0] == "ret":
                v = pa.end[1]
                l = v[1] if v[0] in ("L", "span", "load") else None
                if l is not None and own(l):
                    n.D = own(l)
    _txn[cls] = n
    return n


def touches(paths, m, kinds=("w", "push", "cont", "algo")):
    """events on own field m (or a component of it, or an aggregate holding it)"""
    out = []
    for pa in paths or []:
        if pa.throws:
            continue
        for e, ctx in flat_ctx(pa.events):
            if e.loc is None or e.k not in kinds:
                continue
            x = own(e.loc)
            if x and (x[:len(m)] == m or m[:len(x)] == x):
                out.append((pa, e, ctx))
    return out


def path_touches(pa, m):
    return touches([pa], m)


def line(e):
    return e.line if e is not None and e.line else "?"


def fields_read(p, fs, rec_fields):
    """names of data fields syntactically mentioned in these functions (transitively not followed)"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "mem" and x.get("repo"):
                out.add((x["n"]))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in fs:
        walk(f.get("body"))
    return out


def is_empty_cond(c, logs):
    """does the condition say that one of the logs is empty?"""
    if c[0] == "not" and isinstance(c[1], tuple) and c[1][0] == "size" and own(c[1][1]) in logs:
        return True
    if c[0] == "cmp" and c[1] in ("eq", "le"):
        c0, parts = lin_parts(c[2])
        if len(parts) == 1:
            (a, k), = parts.items()
            if a[0] == "size" and own(a[1]) in logs:
                if c[1] == "eq" and c0 == 0:
                    return True
                if c[1] == "le" and k > 0 and c0 == 0:
                    return True
    return False


def mentions_log(c, logs):
    return any(s[0] == "size" and own(s[1]) in logs for s in subterms(c) if s and s[0] == "size")


# fields whose content is only scratch space inside one propagation (each line: reason)
FORWARD_OK = {
    # every index is logged at most once: an entry is only added when the stored value differs from
    # the operand's final value, and is then set to that final value
    ("QuadraticModelNode", ("effective_changes_",)),
}


def scratch(p, n, m):
    """field only used inside the mutating call itself: first touched by clear/whole assignment there,
    and not mentioned by any reader method"""
    name = m[-1]
    for f, pa, e, ctx in n.mut[m]:
        evs = [x for x in touches([pa], m)]
        first = evs[0][1]
        if not (first.k == "cont" and first.x["m"] in ("clear", "assign") or clears(first) or
                first.k == "w" and first.loc[0] == "mem" and own(first.loc) == m):
            return False
    readers = [f for (nm, pt), f in n.methods.items() if f not in n.T and nm not in ("initialize_state",)]
    return name not in fields_read(p, readers, None)


def rule_revert(ctx):
    p = program()
    ctx.rule("revert-covers", "every part of a node's state that a move or propagation can change is written "
             "by that node's revert", 40)
    ctx.rule("revert-all-paths", "no revert path skips restoring a changed part (unless its change log is empty)", 40)
    ctx.rule("revert-source", "what revert writes back is the saved old value: the saved copy that only commit "
             "refreshes, or the old component of the change log", 30)
    ctx.rule("revert-elements", "elements that are overwritten in place are put back one by one or as a whole, not only by "
             "changing the size of their container")
    ctx.rule("revert-size", "a container that grew or shrank gets its size back")
    ctx.rule("revert-order", "undo logs that can hold an index twice are unwound newest first", 8)
    ctx.rule("revert-no-skip", "the undo loop leaves out an entry only if the element no longer exists or already has "
             "its old value", 8)
    ctx.rule("revert-log-cleared", "revert empties the change logs", 20)
    ctx.rule("undo-logged", "each in-place change made by a move or propagation is in the undo log with its index "
             "and previous value", 40)
    for cls in concrete_nodes(p):
        with ctx.guard("revert-covers", short(cls)):
            n = txn(p, cls)
            if n.revert is None or not n.mut:
                continue
            ctx.count("node classes")
            ctx.count("state-changing methods", len(n.tp))
            ctx.count("paths", sum(len(x) for _, x in n.tp))
            for q in n.capped:
                ctx.undecided("revert-covers", "%s: path budget exceeded in %s" % (short(cls), short(q)))
            if n.rp is None:
                ctx.undecided("revert-covers", "%s: revert could not be summarised" % short(cls))
                continue
            rp = [x for x in n.rp if not x.throws]
            logs = logs_of(n)
            for m in sorted(n.mut):
                where0 = line(n.mut[m][0][2])
                name = "%s.%s" % (short(cls), ".".join(m))
                ts = touches(rp, m)
                if not ts:
                    if scratch(p, n, m):
                        ctx.ok("revert-covers", name + " is scratch space of one propagation")
                        continue
                    ctx.bad("revert-covers", "%s" % name, n.revert["l"],
                            "%s changes %s (%s) but revert never writes it" % (
                                short(n.mut[m][0][0]["q"]), name, where0))
                    continue
                ctx.ok("revert-covers", name)
                if m in logs:
                    # must be cleared on every path
                    for pa in rp:
                        cl = [e for _, e, _ in touches([pa], m) if clears(e)]
                        if cl:
                            ctx.ok("revert-log-cleared", name)
                        elif any(is_empty_cond(c, {m}) for c in pa.conds):
                            ctx.ok("revert-log-cleared", name)
                        elif any(mentions_log(c, logs) for c in pa.conds) or not pa.conds:
                            ctx.bad("revert-log-cleared", name, n.revert["l"],
                                    "revert leaves the change log %s non-empty on a path" % name)
                        else:
                            ctx.undecided("revert-log-cleared", name + " under " + "; ".join(show(c) for c in pa.conds))
                    continue
                for pa in rp:
                    if path_touches(pa, m):
                        ctx.ok("revert-all-paths", name)
                        continue
                    if any(is_empty_cond(c, logs) for c in pa.conds):
                        ctx.ok("revert-all-paths", name)
                    elif any(mentions_log(c, logs) for c in pa.conds) or not pa.conds:
                        ctx.bad("revert-all-paths", name, n.revert["l"],
                                "revert can return without restoring %s (condition: %s)" % (
                                    name, "; ".join(show(c) for c in pa.conds) or "none"))
                    else:
                        ctx.undecided("revert-all-paths", name + " under " + "; ".join(show(c) for c in pa.conds))
                check_elements(ctx, n, m, name, rp, logs)
                check_source(ctx, n, m, name, rp, logs)
                check_skips(ctx, n, m, name, rp, logs)
            check_logged(ctx, p, n, logs)


def check_elements(ctx, n, m, name, rp, logs):
    """a container whose elements are overwritten in place gets them back, and one that grows or shrinks its size"""
    evs = [e for _, _, e, _ in n.mut[m] if e.loc is not None]
    direct = [e for e in evs if (e.loc[0] == "idx" and e.loc[1][0] == "mem" and own(e.loc[1]) == m) or (e.loc[0] == "mem" and own(e.loc) == m)]
    if len(direct) != len(evs):
        return
    ts = touches(rp, m)
    sizing = ("resize", "pop_back", "reserve", "shrink_to_fit")
    only_size = all(e.k == "push" or e.k == "cont" and e.x["m"] in sizing for _, e, _ in ts)
    hidden = any(x.k in ("call", "lost", "obscure") for pa in rp for x in flat(pa.events))
    if any(e.k == "w" and e.loc[0] == "idx" for e in direct):
        if not only_size:
            ctx.ok("revert-elements", name)
        elif hidden:
            ctx.undecided("revert-elements", name)
        else:
            ctx.bad("revert-elements", name, line(ts[0][1]), "elements of %s are overwritten (%s), but revert only changes its size" % (
                name, line([e for e in direct if e.k == "w" and e.loc[0] == "idx"][0])))
    ways = []
    if any(e.k == "push" or e.k == "cont" and e.x["m"] == "resize" for e in direct):
        ways.append((7, "grew"))
    if any(e.k == "cont" and e.x["m"] in ("pop_back", "resize") for e in direct):
        ways.append((3, "shrank"))
    for size, what in ways:
        verdict = True
        for pa in rp:
            if any(e.k != "w" or e.loc[0] != "idx" for _, e, _ in touches([pa], m)) or any(is_empty_cond(c, logs) for c in pa.conds):
                continue
            if any(x.k in ("call", "lost", "obscure") for x in flat(pa.events)):
                verdict = None
                continue
            vs = [at_sizes(c, size) for c in pa.conds]
            if False in vs:
                continue
            if None in vs:
                verdict = None
                continue
            verdict = False
            break
        if verdict is False:
            ctx.bad("revert-size", name, n.revert["l"], "revert keeps the size of %s when it %s (%s)" % (
                name, what, "; ".join(show(c) for c in pa.conds) or "always"))
        elif verdict is None:
            ctx.undecided("revert-size", "%s when it %s" % (name, what))
        else:
            ctx.ok("revert-size", "%s when it %s" % (name, what))


def at_sizes(c, size, saved=5):
    """a condition when every container has `size` elements and every saved size is `saved`; None: not known"""
    if c[0] == "not":
        v = at_sizes(c[1], size, saved)
        return None if v is None else not v
    if c[0] in ("and", "or") and len(c) > 1 and isinstance(c[1], tuple):
        vs = [at_sizes(x, size, saved) for x in (c[1] if c[1] and isinstance(c[1][0], tuple) else c[1:])]
        if c[0] == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c[0] != "cmp":
        return None
    t = c[2]
    k, parts = (t[1], t[2]) if t[0] == "lin" else (0, ((t, 1),))
    if t[0] == "lit":
        k, parts = t[1], ()
    for x, q in parts:
        if x[0] == "size":
            k += q * size
        elif x[0] == "load" and x[1][0] == "mem" and own(x[1]) is not None and "size" in x[1][2]:
            k += q * saved
        else:
            return None
    return {"le": k <= 0, "lt": k < 0, "eq": k == 0, "ne": k != 0, "ge": k >= 0, "gt": k > 0}.get(c[1])


def check_skips(ctx, n, m, name, rp, logs):
    """in an undo loop that restores elements of m from a log, an iteration may only leave an entry out when
    the element no longer exists (index beyond the restored container) or already has its old value"""
    for pa in rp:
        for e, _ in flat_ctx(pa.events):
            if e.k != "loop":
                continue
            ws = []
            for q in e.x["paths"]:
                for x in q.events:
                    if x.k == "w" and x.loc is not None and own(x.loc) == m and x.loc[0] == "idx":
                        r = value_root(x.val)
                        if r and (r[0][:-1] in logs or r[0] in logs):
                            ws.append((q, x, r))
            if not ws:
                continue
            _, w0, r0 = ws[0]
            cont, idx = w0.loc[1], w0.loc[2]
            for q in e.x["paths"]:
                if any(q is q2 for q2, _, _ in ws) or q.end[0] == "throw":
                    continue
                if any(x.k in ("cont", "push", "w", "loop") for x in q.events):
                    ctx.undecided("revert-no-skip", "%s: another kind of undo step" % name)
                    continue
                if q.end[0] == "break":
                    ctx.bad("revert-no-skip", name, line(e), "revert stops unwinding %s before the end of its log" % name)
                    continue
                why = None
                sizes = [("size", cont)]
                for y in pa.events:
                    if y is e:
                        break
                    if y.k == "cont" and y.loc == cont and y.x["m"] == "resize" and y.x["args"]:
                        sizes.append(y.x["args"][0])
                for c in q.conds:
                    if c[0] == "cmp" and c[1] == "le":
                        # size - idx <= 0
                        d = add(c[2], idx)
                        for S in sizes:
                            x = add(d, S, -1)
                            if d[0] == "size" and d[1] == cont:
                                x = lit(0)
                            if is_num(x) and x[1] >= 0:
                                why = True
                            elif is_num(x):
                                why = "short"
                    if c[0] == "cmp" and c[1] == "eq":
                        t = {x[1] for x in subterms(c) if x and x[0] == "load"}
                        if any(under(l, cont) for l in t) and any(own(l) == r0[0] for l in t):
                            why = True      # already equal to the old value
                    if any(x and x[0] == "app" and "isnan" in str(x[1]) for x in subterms(c)) or any(
                            is_nothing(x) for x in [c]):
                        why = why or "placed"
                    if any(x and x[0] == "size" and x[1] == cont for x in subterms(c)):
                        why = why or "size"
                    if has_unknown(c):
                        why = why or "unknown"
                    # the restored size field (a saved size assigned to the container)
                    if size_restored(n, m) and any(x and x[0] in ("load",) and own(x[1]) and "size" in own(x[1])[-1] for x in subterms(c)):
                        why = why or "size"
                if why == "short":
                    ctx.bad("revert-no-skip", name, line(e), "revert leaves out the log entries of the last existing element(s) of %s" % name)
                elif why is True:
                    ctx.ok("revert-no-skip", "%s: only entries of elements that no longer exist are left out" % name)
                elif why:
                    ctx.undecided("revert-no-skip", "%s under %s" % (name, "; ".join(show(c) for c in q.conds)))
                else:
                    ctx.bad("revert-no-skip", name, line(e),
                            "revert leaves out log entries of %s when %s, although the element still exists" % (
                                name, "; ".join(show(c) for c in q.conds) or "always"))


def clears(e):
    if e.k == "cont" and e.x["m"] in ("clear",):
        return True
    if e.k == "cont" and e.x["m"] == "resize" and e.x["args"] and e.x["args"][0] == ZERO:
        return True
    if e.k == "w" and e.val is not None and e.val in (("list", ()),):
        return True
    return False


def logs_of(n):
    """own containers used as change logs: Update/pair records appended by T, cleared by commit or revert"""
    out = set()
    for m, evs in n.mut.items():
        if not any(e.k == "push" for _, _, e, _ in evs):
            continue
        c = [e for _, e, _ in touches(n.cp, m) + touches(n.rp, m) if clears(e)]
        if m in n.upd or c:
            out.add(m)
    return out


def check_source(ctx, n, m, name, rp, logs):
    """the values revert writes to field m"""
    for pa, e, lctx in touches(rp, m):
        if e.k == "w":
            v = e.val
            r = value_root(v)
            if v[0] == "toint":
                v = v[1]
            if r is None:
                ctx.undecided("revert-source", "%s := %s" % (name, show(v)))
                continue
            rm, kind, ridx = r
            base = rm[:-1] if rm[-1] in ("old", "value", "index", "first", "second") else rm
            if base in logs and base != rm:
                comp = rm[-1]
                if comp in ("value", "index", "first"):
                    ctx.bad("revert-source", name, line(e),
                            "revert writes the log's `%s` component back into %s" % (comp, name))
                    continue
                ctx.ok("revert-source", "%s from %s.%s" % (name, ".".join(base), comp))
                # index of the restored element
                tgt = fpath(e.loc)[2]
                want = {"old": "index", "second": "first"}.get(comp)
                if tgt:
                    tr = value_root(tgt[-1])
                    if tr and tr[0][:-1] == base and tr[0][-1] != want:
                        ctx.bad("revert-source", name, line(e), "revert restores %s at the log's `%s`" % (name, tr[0][-1]))
                # newest first?
                if ridx:
                    pos = ridx[-1]
                    d = direction(pos)
                    if d == "rev":
                        ctx.ok("revert-order", name)
                    elif d == "fwd":
                        if (short(n.cls), base) in FORWARD_OK:
                            ctx.ok("revert-order", name + " (each index logged once)")
                        else:
                            ctx.bad("revert-order", name, line(e),
                                    "revert unwinds %s oldest first; an element changed twice ends up with its "
                                    "intermediate value" % ".".join(base))
                    else:
                        ctx.undecided("revert-order", name)
                continue
            if rm in logs:
                # a parallel log of old values (e.g. previous offsets)
                d = direction(ridx[-1]) if ridx else None
                if d == "rev":
                    ctx.ok("revert-order", name)
                elif d == "fwd" and (short(n.cls), rm) not in FORWARD_OK:
                    ctx.bad("revert-order", name, line(e), "revert unwinds %s oldest first" % ".".join(rm))
                ctx.ok("revert-source", "%s from %s" % (name, ".".join(rm)))
                continue
            if rm == m:
                ctx.bad("revert-source", name, line(e), "revert writes %s from itself" % name)
                continue
            # saved copy
            if rm in n.mut and not same_struct_old(rm, m):
                ctx.bad("revert-source", name, n.mut[rm][0][2].line,
                        "the saved copy %s that revert restores %s from is itself overwritten by %s" % (
                            ".".join(rm), name, short(n.mut[rm][0][0]["q"])))
                continue
            if rm in n.mut:
                ctx.bad("revert-source", name, n.mut[rm][0][2].line,
                        "the saved copy %s that revert restores %s from is itself overwritten by %s" % (
                            ".".join(rm), name, short(n.mut[rm][0][0]["q"])))
                continue
            ctx.ok("revert-source", "%s := %s" % (name, ".".join(rm)))
        elif e.k == "cont" and e.x["m"] == "resize" and e.x["args"]:
            r = value_root(e.x["args"][0])
            if r is None:
                ctx.undecided("revert-source", "%s.resize(%s)" % (name, show(e.x["args"][0])))
            elif r[0] in n.mut:
                ctx.bad("revert-source", name, line(e), "revert resizes %s to %s, which moves change" % (name, ".".join(r[0])))
            else:
                ctx.ok("revert-source", "%s resized to %s" % (name, ".".join(r[0])))


def same_struct_old(a, b):
    return False


def direction(pos):
    if pos[0] in ("revk", "rpos"):
        return "rev"
    if pos[0] == "k":
        return "fwd"
    c, parts = lin_parts(pos)
    ks = [(a, k) for a, k in parts.items() if a[0] == "k"]
    if len(ks) == 1:
        return "fwd" if ks[0][1] > 0 else "rev"
    return None


# ---------------------------------------------------------------------------- log matching
def undo_map(n, logs):
    """value field -> set of (log, old component) revert restores it from"""
    out = {}
    rp = [x for x in (n.rp or []) if not x.throws]
    for m in n.mut:
        if m in logs:
            continue
        for pa, e, lctx in touches(rp, m):
            if e.k == "w":
                r = value_root(e.val)
                if r:
                    base = r[0][:-1]
                    if base in logs and r[0][-1] in ("old", "second"):
                        out.setdefault(m, set()).add(base)
            if e.k == "cont" and e.x["m"] == "insert":
                for a in e.x["args"]:
                    r = value_root(a)
                    if r and r[0][:-1] in logs:
                        out.setdefault(m, set()).add(r[0][:-1])
    return out


def known_terms(*ts):
    return not any(has_unknown(t) for t in ts)


def teq(a, b):
    """True / False / None"""
    if a == b:
        return True
    if a[0] == "toint":
        a = a[1]
    if b[0] == "toint":
        b = b[1]
    if a == b:
        return True
    if has_unknown(a) or has_unknown(b):
        return None
    for x, y in ((a, b), (b, a)):
        if x[0] == "cond":
            rs = {teq(x[2], y), teq(x[3], y)}
            return rs.pop() if len(rs) == 1 else None
    # same location seen in different epochs: unknown
    la = {(s[1]) for s in subterms(a) if s and s[0] in ("load", "size")}
    lb = {(s[1]) for s in subterms(b) if s and s[0] in ("load", "size")}
    ea = {(s[1], s[2]) for s in subterms(a) if s and s[0] in ("load", "size") and len(s) == 3}
    eb = {(s[1], s[2]) for s in subterms(b) if s and s[0] in ("load", "size") and len(s) == 3}
    for l, e in ea:
        for l2, e2 in eb:
            if l == l2 and e != e2:
                return None
    return False


def entry(v):
    """log record term -> (index, old, value)"""
    if v is None:
        return None
    if v[0] == "obj" and v[1].endswith("::Update"):
        d = dict(v[2])
        return d.get("index"), d.get("old"), d.get("value")
    if v[0] == "app" and v[1] in ("make_pair", "ctor:std::pair<long, double>") and len(v[3]) == 2:
        return v[3][0], v[3][1], None
    if v[0] == "app" and v[1].startswith("ctor:std::pair"):
        a = v[3]
        if len(a) == 2:
            return a[0], a[1], None
    return None


NOTH = ("nothing",)


def is_nothing(t):
    return t is not None and any(s and s[0] == "global" and str(s[1]).endswith("nothing") for s in subterms(t))


def groups(pa):
    """the straight-line groups of a path: its own events and each loop-body path's events"""
    out = []

    def rec(events, conds, ctx):
        out.append((events, conds, ctx))
        for e in events:
            if e.k == "loop":
                for q in e.x["paths"]:
                    if q.end[0] != "throw":
                        rec(q.events, conds + q.conds, ctx + (e,))
    rec(pa.events, list(pa.conds), ())
    return out


def eq_known(conds, a, b):
    c = cmp_("==", a, b)
    return c == TRUE or c in conds or cmp_("==", a, b, True) in conds


def same_place(conds, loc):
    """a condition saying that the element has the same value at two moments"""
    for c in conds:
        if c[0] == "cmp" and c[1] == "eq":
            c0, parts = lin_parts(c[2])
            if c0 == 0 and len(parts) == 2 and sorted(parts.values()) == [-1, 1] and all(
                    a[0] == "load" and a[1] == loc for a in parts):
                return True
    return False


def later_writes(events, ev, loc):
    """a loop after `ev` in the same group also writes the element"""
    seen = False
    for e in events:
        if e is ev:
            seen = True
        elif seen and e.k == "loop" and any(x.k == "w" and x.loc == loc for x in flat([e])):
            return True
    return False


def idx_match(logloc, logged, loc):
    """does the logged index designate element `loc`?  (a log per part: the part's number times a fixed
    stride may be added)"""
    idx = loc[2]
    r = teq(logged, idx)
    if r is True:
        return True
    li, bi = fpath(logloc)[2], fpath(loc)[2]
    if len(li) == len(bi) and li:
        o = li[-1]
        d = add(idx, logged, -1)
        c0, parts = lin_parts(d)
        if c0 == 0 and parts:
            if is_num(o):
                return o[1] != 0 and all(k % o[1] == 0 for k in parts.values())
            if all(a[0] == "mul" and o in a[1] for a in parts):
                return True
    return r


def invisible(conds, idx, n):
    """a condition `size-field <= idx` on the path: the element is not visible"""
    for c in conds:
        if c[0] == "cmp" and c[1] == "le":
            c0, parts = lin_parts(c[2])
            d = add(c[2], idx)      # c: S - idx + c0 <= 0
            dc, dp = lin_parts(d)
            if len(dp) == 1 and c0 == 0 and dc == 0:
                (a, k), = dp.items()
                if k == 1 and a[0] == "load" and own(a[1]) and own(a[1])[-1] in ("size",):
                    return True
    return False


def match_log(ctx, p, n, rule, buf, log, need_new, where_name, new_read=False):
    """each change of own container `buf` made by T is recorded in `log` (same index, pre-value and,
    if need_new, post-value)"""
    bufname = "%s.%s" % (short(n.cls), ".".join(buf))
    for f, paths in n.tp:
        for pa in paths:
            if pa.throws:
                continue
            allpush = [e for e, c in flat_ctx(pa.events) if e.k == "push" and e.loc is not None and own(e.loc) == log]
            gs = groups(pa)
            for events, conds, lctx in gs:
                W = [e for e in events if e.k == "w" and e.loc is not None and own(e.loc) == buf and e.loc[0] == "idx"]
                PB = [e for e in events if e.k == "push" and e.loc is not None and own(e.loc) == buf]
                PP = [e for e in events if e.k == "cont" and e.loc is not None and own(e.loc) == buf and e.x["m"] == "pop_back"]
                L = [e for e in events if e.k == "push" and e.loc is not None and own(e.loc) == log]
                if not (W or PB or PP):
                    # records of changes that are made nowhere in this call
                    continue
                ents = []
                for e in L:
                    en = entry(e.val)
                    ents.append((e, en))
                used = set()
                key = "%s|%s|%s" % (short(f["q"]), ".".join(buf), ".".join(log))

                def take(test):
                    for i, (e, en) in enumerate(ents):
                        if i in used or en is None:
                            continue
                        if test(en) is True:
                            used.add(i)
                            return e, en
                    return None

                # in-place writes grouped by location
                byloc = {}
                for e in W:
                    byloc.setdefault(e.loc, []).append(e)
                for loc, ws in byloc.items():
                    idx = loc[2]
                    pre, post = ws[0].old, ws[-1].val
                    if later_writes(events, ws[-1], loc):
                        post = ("hav", "later")
                    cand = []
                    for i, (e, en) in enumerate(ents):
                        if en is None or i in used:
                            continue
                        if idx_match(e.loc, en[0], loc) is True and same_outer(e.loc, loc):
                            cand.append(i)
                    if cand:
                        used.update(cand)
                        e1, en1 = ents[cand[0]]
                        e2, en2 = ents[cand[-1]]
                        r1 = teq(en1[1], pre)
                        r2 = teq(en2[2], post) if (need_new or new_read) and en2[2] is not None else True
                        if r1 is False and not is_nothing(en1[1]) and eq_known(conds, en1[1], pre):
                            r1 = True
                        if r1 is False and is_nothing(en1[1]):
                            r1 = None       # an element that only now becomes visible
                        if r2 is False and not is_nothing(en2[2]) and eq_known(conds, en2[2], post):
                            r2 = True
                        if r1 is False:
                            ctx.bad(rule, key + "|old", line(e1),
                                    "%s records old value %s for %s[%s], but the value before the change is %s" % (
                                        short(f["q"]), show(en1[1]), bufname, show(idx), show(pre)))
                        elif r2 is False:
                            ctx.bad(rule, key + "|new", line(e2),
                                    "%s records new value %s for %s[%s], but stores %s" % (
                                        short(f["q"]), show(en2[2]), bufname, show(idx), show(post)))
                        elif r1 and r2:
                            ctx.ok(rule, "%s: %s[%s] logged with its previous value" % (short(f["q"]), bufname, show(idx)))
                        else:
                            ctx.undecided(rule, "%s: %s[%s]" % (short(f["q"]), bufname, show(idx)))
                        continue
                    # unmatched write
                    if eq_known(conds, pre, post) or teq(pre, post) is True or same_place(conds, loc):
                        ctx.ok(rule)
                        continue
                    if need_new and invisible(conds, idx, n):
                        ctx.ok(rule, "%s: element %s is not visible" % (short(f["q"]), show(idx)))
                        continue
                    loose = [i for i, (e, en) in enumerate(ents) if i not in used and (en is None or idx_match(e.loc, en[0], loc) is not False or not same_outer(e.loc, loc))]
                    wrong = [i for i, (e, en) in enumerate(ents) if i not in used and en is not None and idx_match(e.loc, en[0], loc) is False and same_outer(e.loc, loc)]
                    others = [e for e in allpush if e not in L]
                    if not ents and not others:
                        ctx.bad(rule, key + "|missing", line(ws[0]),
                                "%s changes %s[%s] without recording it in %s" % (short(f["q"]), bufname, show(idx), ".".join(log)))
                    elif not ents and lctx and siblings_log(lctx[-1], buf, log) and not outside(pa, lctx[-1], log):
                        ctx.bad(rule, key + "|missing", line(ws[0]),
                                "%s changes %s[%s] without recording it in %s when %s" % (
                                    short(f["q"]), bufname, show(idx), ".".join(log), "; ".join(show(c) for c in conds[-3:])))
                    elif wrong and not loose and not others and known_terms(idx):
                        en = ents[wrong[0]][1]
                        if len(wrong) == len([1 for l2 in byloc if l2 != loc and not any(teq(x[1][0], l2[2]) for x in ents if x[1])]) + 1 or len(byloc) == 1:
                            ctx.bad(rule, key + "|index", line(ents[wrong[0]][0]),
                                    "%s changes %s[%s] but records index %s" % (short(f["q"]), bufname, show(idx), show(en[0])))
                        else:
                            ctx.undecided(rule, "%s: %s[%s]" % (short(f["q"]), bufname, show(idx)))
                    else:
                        ctx.undecided(rule, "%s: %s[%s]" % (short(f["q"]), bufname, show(idx)))
                for e in PB:
                    at = e.x.get("at")
                    cand = [i for i, (x, en) in enumerate(ents) if i not in used and en is not None and at is not None and teq(en[0], at) is True]
                    if cand:
                        i = cand[0]
                        used.add(i)
                        en = ents[i][1]
                        if not is_nothing(en[1]) and known_terms(en[1]):
                            ctx.bad(rule, key + "|placement-old", line(ents[i][0]), "%s appends to %s but records it as a change of an existing element" % (short(f["q"]), bufname))
                            continue
                        if (need_new or new_read) and en[2] is not None and teq(en[2], e.val) is False:
                            ctx.bad(rule, key + "|placement-new", line(ents[i][0]), "%s appends %s to %s but records %s" % (short(f["q"]), show(e.val), bufname, show(en[2])))
                            continue
                        ctx.ok(rule, "%s: append to %s recorded" % (short(f["q"]), bufname))
                    elif not need_new and size_restored(n, buf):
                        ctx.ok(rule, "%s: append to %s undone by restoring the size" % (short(f["q"]), bufname))
                    elif not ents and not allpush:
                        ctx.bad(rule, key + "|placement-missing", line(e), "%s appends to %s without recording it in %s" % (short(f["q"]), bufname, ".".join(log)))
                    else:
                        w2 = [i for i, (x, en) in enumerate(ents) if i not in used and en is not None and is_nothing(en[1])]
                        if len(w2) == 1 and len(PB) == 1 and at is not None and teq(ents[w2[0]][1][0], at) is False and len(allpush) == len(L):
                            ctx.bad(rule, key + "|placement-index", line(ents[w2[0]][0]), "%s appends to %s at %s but records index %s" % (short(f["q"]), bufname, show(at), show(ents[w2[0]][1][0])))
                        else:
                            ctx.undecided(rule, "%s: append to %s" % (short(f["q"]), bufname))
                for e in PP:
                    at = e.x.get("at")
                    cand = [i for i, (x, en) in enumerate(ents) if i not in used and en is not None and teq(en[0], at) is True]
                    # an index term written through the update itself (index is asserted to be the last)
                    cand = cand or [i for i, (x, en) in enumerate(ents) if i not in used and en is not None and is_nothing(en[2])]
                    if cand:
                        i = cand[0]
                        used.add(i)
                        en = ents[i][1]
                        r = teq(en[1], e.old) if e.old is not None else None
                        if not is_nothing(en[2]) and known_terms(en[2]):
                            ctx.bad(rule, key + "|removal-new", line(ents[i][0]), "%s removes the last element of %s but records it as a change of value" % (short(f["q"]), bufname))
                        elif is_nothing(en[1]):
                            ctx.bad(rule, key + "|removal-old", line(ents[i][0]), "%s removes the last element of %s without recording its value" % (short(f["q"]), bufname))
                        elif r is False and teq(en[0], at) is True:
                            ctx.bad(rule, key + "|removal-old", line(ents[i][0]), "%s removes %s from %s but records old value %s" % (short(f["q"]), show(e.old), bufname, show(en[1])))
                        else:
                            ctx.ok(rule, "%s: removal from %s recorded" % (short(f["q"]), bufname))
                    elif not ents and not allpush:
                        ctx.bad(rule, key + "|removal-missing", line(e), "%s removes from %s without recording it in %s" % (short(f["q"]), bufname, ".".join(log)))
                    else:
                        ctx.undecided(rule, "%s: removal from %s" % (short(f["q"]), bufname))


def same_outer(logloc, bufloc):
    """log[i] and buf[i] of the same outer index (vector of logs / vector of buffers)"""
    li = fpath(logloc)[2]
    bi = fpath(bufloc)[2][:-1]
    if len(li) != len(bi):
        return True
    return all(teq(a, b) is not False for a, b in zip(li, bi))


def siblings_log(loop, buf, log):
    for q in loop.x["paths"]:
        for e in q.events:
            if e.k == "push" and e.loc is not None and own(e.loc) == log:
                return True
    return False


def outside(pa, loop, log):
    inside = set(id(e) for q in loop.x["paths"] for e in flat(q.events))
    return any(e.k == "push" and e.loc is not None and own(e.loc) == log and id(e) not in inside for e in flat(pa.events))


def size_restored(n, buf):
    return any(e.k == "cont" and e.x["m"] in ("resize", "erase") for _, e, _ in touches(n.rp, buf))


def check_logged(ctx, p, n, logs):
    um = undo_map(n, logs)
    for buf, ls in um.items():
        for log in ls:
            reads = any(s[0] == "load" and own(s[1]) == log + ("value",) for pa in n.rp or [] for e in flat(pa.events)
                        for s in subterms((e.loc, e.val, tuple(e.x.get("args") or ()))) if s and len(s) > 1 and isinstance(s[1], tuple))
            match_log(ctx, p, n, "undo-logged", buf, log, False, "undo", new_read=reads)


# ---------------------------------------------------------------------------- commit
def rule_commit(ctx):
    p = program()
    ctx.rule("commit-clears-logs", "commit empties every change log on every path", 30)
    ctx.rule("commit-refreshes-saved", "commit refreshes each saved copy that revert (or the reported size change) "
             "compares with, from the current value", 20)
    ctx.rule("commit-keeps-values", "commit does not change the current values", 30)
    for cls in concrete_nodes(p):
        with ctx.guard("commit-clears-logs", short(cls)):
            n = txn(p, cls)
            if n.commit is None or not n.mut:
                continue
            ctx.count("node classes")
            if n.cp is None or n.rp is None:
                ctx.undecided("commit-clears-logs", short(cls))
                continue
            cp = [x for x in n.cp if not x.throws]
            rp = [x for x in n.rp if not x.throws]
            logs = set(logs_of(n)) | ({n.D} if n.D in n.mut else set())
            for m in sorted(n.mut):
                name = "%s.%s" % (short(cls), ".".join(m))
                if m in logs:
                    for pa in cp:
                        if [e for _, e, _ in touches([pa], m) if clears(e)]:
                            ctx.ok("commit-clears-logs", name)
                        elif any(is_empty_cond(c, {m}) for c in pa.conds):
                            ctx.ok("commit-clears-logs", name)
                        elif any(mentions_log(c, logs) for c in pa.conds) or not pa.conds:
                            ctx.bad("commit-clears-logs", name, n.commit["l"],
                                    "commit leaves the change log %s non-empty" % name)
                        else:
                            ctx.undecided("commit-clears-logs", name + " under " + "; ".join(show(c) for c in pa.conds))
                    # conditional clears inside loops: only skippable when that log is empty
                    for pa in cp:
                        for e in flat(pa.events):
                            if e.k != "loop":
                                continue
                            ps = e.x["paths"]
                            has = [any(clears(x) and own(x.loc) == m for x in flat(q.events) if x.loc is not None and x.k in ("cont", "w")) for q in ps]
                            if any(has) and not all(has):
                                for q, h in zip(ps, has):
                                    if h:
                                        continue
                                    if any(is_empty_cond(c, {m}) for c in q.conds):
                                        ctx.ok("commit-clears-logs", name)
                                    elif q.end[0] in ("break", "ret") or any(mentions_log(c, {m}) for c in q.conds):
                                        ctx.bad("commit-clears-logs", name + "|loop", line(e),
                                                "commit skips clearing part of %s when %s" % (name, "; ".join(show(c) for c in q.conds)))
                                    else:
                                        ctx.undecided("commit-clears-logs", name)
                    continue
                # value fields
                ev = [(pa, e) for pa, e, _ in touches(cp, m)]
                if ev and not scratch(p, n, m):
                    for pa, e in ev:
                        # rebuilding a cache of the current values is fine (assign from own view)
                        if e.k == "cont" and e.x["m"] == "assign":
                            ctx.ok("commit-keeps-values", name)
                        elif e.k == "w" and value_root(e.val) and value_root(e.val)[0] == m:
                            ctx.ok("commit-keeps-values", name)
                        elif e.k == "w" and value_root(e.val):
                            ctx.bad("commit-keeps-values", name, line(e), "commit overwrites the current value %s with %s" % (name, show(e.val)))
                        else:
                            ctx.undecided("commit-keeps-values", name)
                else:
                    ctx.ok("commit-keeps-values", name)
            # saved copies
            saved = {}
            for m in n.mut:
                if m in logs:
                    continue
                for pa, e, lctx in touches(rp, m):
                    if e.k == "w":
                        r = value_root(e.val)
                        if r and r[0] not in logs and r[0][:-1] not in logs and r[0] != m and r[0] not in n.mut:
                            saved.setdefault(r[0], set()).add((m, "val"))
                    elif e.k == "cont" and e.x["m"] == "resize" and e.x["args"]:
                        r = value_root(e.x["args"][0])
                        if r and r[0] not in n.mut:
                            saved.setdefault(r[0], set()).add((m, "size"))
            sd = size_diff_saved(p, n)
            for g, src in sd.items():
                saved.setdefault(g, set()).update(src)
            for g, srcs in saved.items():
                name = "%s.%s" % (short(cls), ".".join(g))
                for pa in cp:
                    evs = [e for _, e, _ in touches([pa], g)]
                    if not evs:
                        if any(is_empty_cond(c, logs) for c in pa.conds):
                            ctx.ok("commit-refreshes-saved", name)
                        elif any(mentions_log(c, logs) for c in pa.conds) or not pa.conds:
                            ctx.bad("commit-refreshes-saved", name, n.commit["l"],
                                    "commit does not refresh the saved %s (it still describes an earlier state, so the next "
                                    "revert or size report is wrong)" % name)
                        else:
                            ctx.undecided("commit-refreshes-saved", name)
                        continue
                    for e in evs:
                        if e.k != "w":
                            ctx.undecided("commit-refreshes-saved", name)
                            continue
                        r = value_root(e.val)
                        if r is None:
                            if n.size_of and e.val == n.size_of:
                                ctx.ok("commit-refreshes-saved", name)
                            else:
                                ctx.undecided("commit-refreshes-saved", "%s := %s" % (name, show(e.val)))
                        elif any(r[0] == m for m, k in srcs):
                            ctx.ok("commit-refreshes-saved", "%s := %s" % (name, show(e.val)))
                        elif r[1] == "size" and any(k == "size" for m, k in srcs):
                            ctx.undecided("commit-refreshes-saved", "%s := %s" % (name, show(e.val)))
                        else:
                            ctx.bad("commit-refreshes-saved", name, line(e),
                                    "commit sets the saved %s from %s, not from %s" % (name, show(e.val), ", ".join(".".join(m) for m, _ in srcs)))
                    # conditional refresh inside loops
                    for e in flat(pa.events):
                        if e.k != "loop":
                            continue
                        ps = e.x["paths"]
                        has = [any(x.loc is not None and x.k == "w" and own(x.loc) == g for x in flat(q.events)) for q in ps]
                        if any(has) and not all(has):
                            for q, h in zip(ps, has):
                                if not h:
                                    if any(is_empty_cond(c, logs) for c in q.conds):
                                        ctx.ok("commit-refreshes-saved", name)
                                    elif any(mentions_log(c, logs) for c in q.conds):
                                        ctx.bad("commit-refreshes-saved", name + "|loop", line(e), "commit skips refreshing %s when %s" % (name, "; ".join(show(c) for c in q.conds)))
                                    else:
                                        ctx.undecided("commit-refreshes-saved", name)


def size_diff_saved(p, n):
    """saved sizes the reported size change is computed from: size_diff = current - saved"""
    out = {}
    n.size_of = None
    f = n.methods.get(("size_diff", ("const " + STATE_T + " &",)))
    if f is None:
        for (nm, pt), g in n.methods.items():
            if nm == "size_diff":
                f = g
    if f is None:
        return out
    for pa in paths_of(p, f, n.cls) or []:
        if pa.end[0] != "ret":
            continue
        v = pa.end[1]
        c, parts = lin_parts(v)
        pos = [(a, k) for a, k in parts.items() if k > 0]
        negs = [(a, k) for a, k in parts.items() if k < 0]
        if len(pos) == 1 and len(negs) == 1:
            cur, sav = value_root(pos[0][0]), value_root(negs[0][0])
            if sav and sav[0] not in n.mut:
                out.setdefault(sav[0], set())
                if cur:
                    out[sav[0]].add((cur[0], cur[1]))
                else:
                    n.size_of = pos[0][0]
    return out


# ---------------------------------------------------------------------------- diff truth
def buffers(p, n):
    """own container(s) whose data buff() exposes"""
    out = set()
    for (nm, pt), f in n.methods.items():
        if nm == "buff":
            for pa in paths_of(p, f, n.cls) or []:
                if pa.end[0] == "ret":
                    v = pa.end[1]
                    if v[0] == "addr":
                        m = own(v[1])
                        if m:
                            out.add(m)
    return out


def rule_diff(ctx):
    p = program()
    ctx.rule("change-reported", "each change of the exposed values made by a move or propagation appends a record "
             "with the element's index, its previous value and its new value to the reported changes", 40)
    ctx.rule("record-order", "removals are listed from the last element down to the new size, placements upwards", 4)
    ctx.rule("scalar-report", "a scalar node reports a change exactly when its saved old value differs from its "
             "current value", 4)
    for cls in concrete_nodes(p):
        with ctx.guard("change-reported", short(cls)):
            n = txn(p, cls)
            if n.diff is None:
                continue
            bufs = buffers(p, n)
            if n.D and n.D in n.upd:
                ctx.count("node classes with a reported change list")
                for b in bufs:
                    if b == n.D or b not in n.mut:
                        continue
                    match_log(ctx, p, n, "change-reported", b, n.D, True, "diff")
                    record_order(ctx, n, b, n.D)
            # delegated lists (decision owners): the data object's per-part logs
            elif not n.D:
                for b in n.mut:
                    pass
    for cls, buf, log in delegated(p):
        with ctx.guard("change-reported", short(cls)):
            n = txn(p, cls)
            if buf not in n.mut or log not in n.mut:
                raise AnalysisBroken("%s: the state no longer has %s / %s" % (cls, buf, log))
            ctx.count("node classes with a reported change list")
            match_log(ctx, p, n, "change-reported", buf, log, True, "diff")
            record_order(ctx, n, buf, log)
    scalar_report(ctx, p)


def kcoef(t):
    """coefficient of the loop counter in an index term (None: not linear in exactly one counter)"""
    c, parts = lin_parts(t)
    ks = [k for a, k in parts.items() if a[0] == "k"]
    if len(ks) == 1 and not any(a[0] == "k" for x in parts if x[0] != "k" for a in subterms(x) if a):
        return ks[0]
    return None


def record_order(ctx, n, buf, log):
    """only the last element can be removed and only the end can be appended to: records of a run of removals
    go downwards and cover every removed element, records of a run of placements go upwards"""
    for f, paths in n.tp:
        for pa in paths:
            if pa.throws:
                continue
            for events, conds, lctx in groups(pa):
                for i, e in enumerate(events):
                    if e.k != "loop":
                        continue
                    for q in e.x["paths"]:
                        for x in q.events:
                            if x.k != "push" or x.loc is None or own(x.loc) != log:
                                continue
                            en = entry(x.val)
                            if en is None or en[0] is None:
                                continue
                            kc = kcoef(en[0])
                            key = "%s|%s" % (short(f["q"]), ".".join(log))
                            if is_nothing(en[2]):
                                if kc is None:
                                    continue
                                if kc > 0:
                                    ctx.bad("record-order", key + "|removal", line(x),
                                            "%s lists removed elements in increasing index order; only the last element can be removed at each step" % short(f["q"]))
                                    continue
                                ctx.ok("record-order", "%s: removals listed from the last element down" % short(f["q"]))
                                # coverage: a later resize to R removes exactly the listed elements
                                rs = [y for y in events[i:] if y.k == "cont" and y.loc is not None and own(y.loc) == buf and y.x["m"] == "resize"]
                                pops = [y for y in q.events if y.k == "cont" and y.loc is not None and own(y.loc) == buf]
                                if rs and not pops and rs[0].x["args"]:
                                    R = rs[0].x["args"][0]
                                    want = add(R, en[0], -1)
                                    lc = [c for c in q.conds if c[0] == "cmp" and c[1] == "le"]
                                    if any(c[2] == want for c in lc):
                                        ctx.ok("record-order", "%s: every removed element is listed" % short(f["q"]))
                                    else:
                                        ds = [add(c[2], want, -1) for c in lc]
                                        ds = [d for d in ds if is_num(d)]
                                        if ds and not has_unknown(want):
                                            ctx.bad("record-order", key + "|removal-range", line(x),
                                                    "%s shrinks to %s but lists %s removed element(s) %s than that" % (
                                                        short(f["q"]), show(R), abs(int(ds[0][1])), "fewer" if ds[0][1] > 0 else "more"))
                                        else:
                                            ctx.undecided("record-order", "%s: range of the listed removals" % short(f["q"]))
                            elif is_nothing(en[1]):
                                if kc is None:
                                    continue
                                if kc < 0:
                                    ctx.bad("record-order", key + "|placement", line(x), "%s lists appended elements in decreasing index order" % short(f["q"]))
                                else:
                                    ctx.ok("record-order", "%s: placements listed upwards" % short(f["q"]))


def delegated(p):
    """decision owners whose values are exposed through per-part successor nodes: the successor's buff/diff
    read the owner's data; found from the successor's methods"""
    out = []
    for cls in concrete_nodes(p):
        n = txn(p, cls)
        b = d = owner = None
        for (nm, pt), f in n.methods.items():
            if nm in ("buff", "diff") and len(pt) == 1:
                for pa in paths_of(p, f, cls) or []:
                    if pa.end[0] != "ret":
                        continue
                    v = pa.end[1]
                    l = v[1] if v[0] in ("addr", "L", "load", "span") else None
                    if l is None:
                        continue
                    r, m, i = fpath(l)
                    if r[0] == "data" and r != OWN and m:
                        if nm == "buff":
                            b = m
                        else:
                            d = m
                        owner = r
        if b and d:
            t = None
            for bc, fd in p.fields(cls):
                if owner[1][0] == "deref" and owner[1][1][0] == "load" and owner[1][1][1] == ("mem", ("this",), fd["n"]):
                    t = fd["t"].rstrip(" *").replace("const ", "")
            if t in p.rec:
                out.append((t, b, d))
    if len(out) < 2:
        raise AnalysisBroken("expected the two disjoint decision families, found %r" % (out,))
    return out


def scalar_report(ctx, p):
    """ScalarNodeStateData-style diff: span of one record, present iff old != value"""
    for cls in concrete_nodes(p):
        with ctx.guard("scalar-report", short(cls)):
            n = txn(p, cls)
            if not n.dp:
                continue
            for pa in n.dp:
                if pa.end[0] != "ret":
                    continue
                v = pa.end[1]
                if v[0] == "span":
                    r, m, i = fpath(v[1])
                    if r != OWN:
                        continue
                    c = v[2]
                    a, b = ("load", ("mem", v[1], "old"), 0), ("load", ("mem", v[1], "value"), 0)
                    if c == cmp_("!=", a, b):
                        ctx.ok("scalar-report", short(cls))
                    elif c[0] == "cmp" and {s[1] for s in subterms(c) if s and s[0] == "load"} <= {a[1], b[1]}:
                        ctx.bad("scalar-report", short(cls), n.diff["l"], "%s reports a change when %s" % (short(cls), show(c)))
                    else:
                        ctx.undecided("scalar-report", "%s: %s" % (short(cls), show(c)))
