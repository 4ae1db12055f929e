"""Front end for the Python and Cython sources: one small syntax for both, and a path walker over it.

Expressions are tuples:
 ('n', name) ('attr', e, name) ('sub', e, idx) ('call', f, (args), ((kw, e),...)) ('const', v) ('bin', op, a, b)
 ('un', op, a) ('cmp', op, a, b) ('not', a) ('and', a, b) ('or', a, b) ('tuple', es) ('list', es) ('set', es) ('dict', (k,v)...)
 ('slice', a, b, c) ('cast', type, e) ('addr', e) ('ifexp', c, a, b) ('comp', kind, elt, ((target, iter, conds),...)) ('lambda', params, body)
 ('star', e) ('fstr', es) ('yield', e) ('?', kind)
Statements: dicts with key 'k'."""
import ast
import os
import sys

from .facts import REPO, AnalysisBroken

PKG = "dwave/optimization/"
_cy = {}


def _cython():
    if not _cy:
        for d in ("/opt/dwo-venv/lib/python3.12/site-packages", "/opt/dwo-venv/lib/python%d.%d/site-packages" % sys.version_info[:2]):
            if os.path.isdir(d) and d not in sys.path:
                sys.path.append(d)
        try:
            from Cython.Compiler.Main import Context, CompilationOptions, default_options
            from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
            from Cython.Compiler import Parsing, Symtab, Errors
        except Exception as e:
            raise AnalysisBroken("the Cython parser is not available: %s" % e)
        _cy.update(locals())
    return _cy


def parse_cython(rel):
    c = _cython()
    path = os.path.join(REPO, rel)
    try:
        ctx = c["Context"].from_options(c["CompilationOptions"](c["default_options"], language_level=3, cplus=True))
        sd = c["FileSourceDescriptor"](path, path)
        scope = c["Symtab"].ModuleScope("m", None, ctx)
        c["Errors"].init_thread()
        with open(path, encoding="utf8") as fh:
            s = c["PyrexScanner"](fh, sd, source_encoding="utf8", scope=scope, context=ctx)
            tree = c["Parsing"].p_module(s, path.endswith("pxd"), "m")
    except Exception as e:
        raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
    return tree


# --------------------------------------------------------------------------- conversion from Cython's tree
BIN = {"AddNode": "+", "SubNode": "-", "MulNode": "*", "DivNode": "/", "ModNode": "%", "PowNode": "**", "IntBinopNode": "&"}


class CyConv:
    def __init__(self, rel):
        self.rel = rel

    def line(self, n):
        return "%s:%d" % (self.rel, n.pos[1]) if getattr(n, "pos", None) else self.rel

    def e(self, n):
        if n is None:
            return ("const", None)
        t = type(n).__name__
        f = getattr(self, "e_" + t, None)
        if f:
            return f(n)
        if hasattr(n, "operand1") and hasattr(n, "operand2") and hasattr(n, "operator"):
            return ("bin", str(n.operator), self.e(n.operand1), self.e(n.operand2))
        if hasattr(n, "operand"):
            return ("un", str(getattr(n, "operator", t)), self.e(n.operand))
        return ("?", t)

    def e_NameNode(self, n):
        return ("n", str(n.name))

    def e_AttributeNode(self, n):
        return ("attr", self.e(n.obj), str(n.attribute))

    def e_IndexNode(self, n):
        return ("sub", self.e(n.base), self.e(n.index))

    def e_SliceIndexNode(self, n):
        return ("sub", self.e(n.base), ("slice", self.e(n.start) if n.start else ("const", None), self.e(n.stop) if n.stop else ("const", None), ("const", None)))

    def e_SliceNode(self, n):
        return ("slice", self.e(n.start), self.e(n.stop), self.e(n.step))

    def e_SimpleCallNode(self, n):
        return ("call", self.e(n.function), tuple(self.e(a) for a in n.args), ())

    def e_GeneralCallNode(self, n):
        pos = self.e(n.positional_args)
        args = pos[1] if pos[0] in ("tuple", "list") else (("star", pos),)
        kw = ()
        k = n.keyword_args
        if k is not None:
            d = self.e(k)
            kw = tuple((x[0][1] if x[0][0] == "const" else None, x[1]) for x in d[1]) if d[0] == "dict" else ((None, d),)
        return ("call", self.e(n.function), tuple(args), kw)

    def e_AsTupleNode(self, n):
        return self.e(n.arg)

    def e_MergedSequenceNode(self, n):
        es = []
        for a in n.args:
            x = self.e(a)
            if x[0] in ("tuple", "list", "set") and type(a).__name__ in ("TupleNode", "ListNode", "SetNode"):
                es.extend(x[1])
            else:
                es.append(("star", x))
        return ("tuple", tuple(es))

    def e_MergedDictNode(self, n):
        out = []
        for a in n.keyword_args:
            d = self.e(a)
            out.extend(d[1] if d[0] == "dict" else [(("?", "**"), d)])
        return ("dict", tuple(out))

    def e_DictNode(self, n):
        return ("dict", tuple((self.e(i.key), self.e(i.value)) for i in n.key_value_pairs))

    def e_TupleNode(self, n):
        return ("tuple", tuple(self.e(a) for a in n.args))

    def e_ListNode(self, n):
        return ("list", tuple(self.e(a) for a in n.args))

    def e_SetNode(self, n):
        return ("set", tuple(self.e(a) for a in n.args))

    def e_IntNode(self, n):
        try:
            return ("const", int(str(n.value).rstrip("uUlL"), 0))
        except ValueError:
            return ("const", n.value)

    def e_FloatNode(self, n):
        return ("const", float(n.value))

    def e_BoolNode(self, n):
        return ("const", bool(n.value))

    def e_NoneNode(self, n):
        return ("const", None)

    def e_NullNode(self, n):
        return ("const", "NULL")

    def e_EllipsisNode(self, n):
        return ("const", "...")

    def s_val(self, n):
        v = n.value
        return v.decode("utf8", "replace") if isinstance(v, bytes) else str(v)

    def e_UnicodeNode(self, n):
        return ("const", self.s_val(n))

    def e_StringNode(self, n):
        v = getattr(n, "unicode_value", None)
        return ("const", str(v) if v is not None else self.s_val(n))

    def e_IdentifierStringNode(self, n):
        return ("const", self.s_val(n))

    def e_BytesNode(self, n):
        v = n.value
        return ("const", v if isinstance(v, bytes) else str(v).encode("latin1", "replace"))

    def e_CharNode(self, n):
        return ("const", str(n.value))

    def e_JoinedStrNode(self, n):
        return ("fstr", tuple(self.e(v) for v in n.values))

    def e_FormattedValueNode(self, n):
        return self.e(n.value)

    def e_NotNode(self, n):
        return ("not", self.e(n.operand))

    def e_BoolBinopNode(self, n):
        return (str(n.operator), self.e(n.operand1), self.e(n.operand2))

    def e_PrimaryCmpNode(self, n):
        op = {"is_not": "is not", "not_in": "not in"}.get(n.operator, str(n.operator))
        a, b = self.e(n.operand1), self.e(n.operand2)
        r = ("cmp", op, a, b)
        c = n.cascade
        while c is not None:
            x = self.e(c.operand2)
            r = ("and", r, ("cmp", {"is_not": "is not", "not_in": "not in"}.get(c.operator, str(c.operator)), b, x))
            b = x
            c = c.cascade
        return r

    def e_CondExprNode(self, n):
        return ("ifexp", self.e(n.test), self.e(n.true_val), self.e(n.false_val))

    def e_TypecastNode(self, n):
        ty = self.e(n.operand)
        return ("cast", self.tname(n.base_type, n.declarator), ty)

    def e_AmpersandNode(self, n):
        return ("addr", self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        v = self.e(n.operand)
        return ("const", -v[1]) if v[0] == "const" and isinstance(v[1], (int, float)) else ("un", "-", v)

    def e_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def e_LambdaNode(self, n):
        return ("lambda", tuple(self.pname(a) for a in n.args), self.e(n.result_expr))

    def e_StarredUnpackingNode(self, n):
        return ("star", self.e(n.target))

    def e_YieldExprNode(self, n):
        return ("yield", self.e(n.arg) if n.arg else ("const", None))

    def e_NewExprNode(self, n):
        return ("n", "new " + self.tname(n.cppclass, None))

    def e_SizeofVarNode(self, n):
        return ("sizeof", self.e(n.operand))

    def e_ComprehensionNode(self, n):
        kind = str(getattr(n, "type", "") or "list").split()[0]
        return self.comp(n.loop, "list")

    def e_GeneratorExpressionNode(self, n):
        return self.comp(n.loop, "gen")

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e(n.gen)

    def comp(self, loop, kind):
        gens = []
        body = loop
        elt = ("?", "elt")
        cur = None
        while True:
            t = type(body).__name__
            if t in ("ForInStatNode", "_ForInStatNode") or hasattr(body, "iterator") and hasattr(body, "target"):
                it = body.iterator
                seq = it.sequence if hasattr(it, "sequence") else it
                cur = [self.e(body.target), self.e(seq), []]
                gens.append(cur)
                body = body.body
            elif t == "IfStatNode":
                cur[2].append(self.e(body.if_clauses[0].condition))
                body = body.if_clauses[0].body
            elif t == "StatListNode" and len(body.stats) == 1:
                body = body.stats[0]
            elif t == "ExprStatNode":
                x = body.expr
                elt = ("yield", self.e(x.arg)) if hasattr(x, "arg") else self.e(x)
                if elt[0] == "yield":
                    elt = elt[1]
                break
            elif t in ("ComprehensionAppendNode",):
                elt = self.e(body.expr)
                break
            elif t == "DictComprehensionAppendNode":
                elt = ("tuple", (self.e(body.key_expr), self.e(body.value_expr)))
                kind = "dict"
                break
            else:
                elt = ("?", t)
                break
        return ("comp", kind, elt, tuple((a, b, tuple(c)) for a, b, c in gens))

    def e_ComprehensionAppendNode(self, n):
        return self.e(n.expr)

    # types
    def tname(self, base, decl):
        t = type(base).__name__
        if t == "CSimpleBaseTypeNode":
            s = ".".join(list(base.module_path or []) + [str(base.name)]) if base.name else "object"
        elif t == "TemplatedTypeNode":
            s = self.tname(base.base_type_node, None) + "[" + ",".join(self.targ(a) for a in base.positional_args) + "]"
        elif t == "CConstOrVolatileTypeNode" or t == "CConstTypeNode":
            s = "const " + self.tname(base.base_type, None)
        elif t == "CComplexBaseTypeNode":
            return self.tname(base.base_type, base.declarator)
        elif t == "CNestedBaseTypeNode":
            s = self.tname(base.base_type, None) + "." + str(base.name)
        elif t == "MemoryViewSliceTypeNode":
            s = self.tname(base.base_type_node, None) + "[:]"
        elif t == "NameNode":
            s = str(base.name)
        else:
            s = getattr(base, "name", None) or t
        d = decl
        while d is not None:
            k = type(d).__name__
            if k == "CPtrDeclaratorNode":
                s += "*"
            elif k == "CReferenceDeclaratorNode":
                s += "&"
            d = getattr(d, "base", None)
        return str(s)

    def targ(self, a):
        return self.tname(a, None) if hasattr(a, "base_type") or hasattr(a, "name") or hasattr(a, "base_type_node") else str(self.e(a))

    def dname(self, d):
        while d is not None and type(d).__name__ != "CNameDeclaratorNode":
            d = d.base
        return d

    def pname(self, a):
        d = self.dname(a.declarator)
        nm = str(d.name) if d is not None and d.name else ""
        return nm or str(getattr(a.base_type, "name", "") or "")

    def params(self, args):
        out = []
        for a in args:
            d = self.dname(a.declarator)
            nm = str(d.name) if d is not None and d.name else ""
            ty = None
            if nm:
                ty = self.tname(a.base_type, a.declarator) if getattr(a.base_type, "name", None) or type(a.base_type).__name__ != "CSimpleBaseTypeNode" else None
            else:
                nm = str(a.base_type.name)
            out.append({"n": nm, "t": ty, "default": self.e(a.default) if a.default is not None else None, "kwonly": bool(a.kw_only)})
        return out

    # statements
    def body(self, n):
        if n is None:
            return []
        if type(n).__name__ == "StatListNode":
            out = []
            for s in n.stats:
                out.extend(self.body(s))
            return out
        return self.s(n)

    def s(self, n):
        t = type(n).__name__
        L = self.line(n)
        if t == "ExprStatNode":
            return [{"k": "expr", "e": self.e(n.expr), "l": L}]
        if t == "SingleAssignmentNode":
            return [{"k": "assign", "t": [self.e(n.lhs)], "v": self.e(n.rhs), "l": L}]
        if t == "CascadedAssignmentNode":
            return [{"k": "assign", "t": [self.e(x) for x in n.lhs_list], "v": self.e(n.rhs), "l": L}]
        if t == "ParallelAssignmentNode":
            return [{"k": "assign", "t": [("tuple", tuple(self.e(s.lhs) for s in n.stats))], "v": ("tuple", tuple(self.e(s.rhs) for s in n.stats)), "l": L}]
        if t == "InPlaceAssignmentNode":
            return [{"k": "aug", "t": self.e(n.lhs), "op": str(n.operator), "v": self.e(n.rhs), "l": L}]
        if t == "CVarDefNode":
            out = []
            for d in n.declarators:
                nd = self.dname(d)
                if nd is None or not nd.name:
                    continue
                ty = self.tname(n.base_type, d)
                out.append({"k": "decl", "n": str(nd.name), "t": ty, "v": self.e(nd.default) if nd.default is not None else None, "l": L})
            return out
        if t == "IfStatNode":
            els = self.body(n.else_clause)
            for c in reversed(n.if_clauses):
                els = [{"k": "if", "c": self.e(c.condition), "b": self.body(c.body), "e": els, "l": self.line(c)}]
            return els
        if t in ("ForInStatNode",):
            it = n.iterator
            seq = it.sequence if hasattr(it, "sequence") else it
            return [{"k": "for", "t": self.e(n.target), "i": self.e(seq), "b": self.body(n.body), "e": self.body(n.else_clause), "l": L}]
        if t == "ForFromStatNode":
            return [{"k": "for", "t": self.e(n.target), "i": ("call", ("n", "range"), (self.e(n.bound1), self.e(n.bound2)), ()), "b": self.body(n.body), "e": self.body(n.else_clause), "l": L}]
        if t == "WhileStatNode":
            return [{"k": "while", "c": self.e(n.condition), "b": self.body(n.body), "l": L}]
        if t == "ReturnStatNode":
            return [{"k": "return", "v": self.e(n.value) if n.value is not None else ("const", None), "l": L}]
        if t == "RaiseStatNode":
            return [{"k": "raise", "v": self.e(n.exc_type) if n.exc_type is not None else None, "l": L}]
        if t == "ReraiseStatNode":
            return [{"k": "raise", "v": None, "l": L}]
        if t == "TryExceptStatNode":
            hs = []
            for c in n.except_clauses:
                hs.append({"types": [self.e(x) for x in (c.pattern or [])], "n": self.e(c.target) if c.target is not None else None, "b": self.body(c.body)})
            return [{"k": "try", "b": self.body(n.body), "h": hs, "e": self.body(n.else_clause), "f": [], "l": L}]
        if t == "TryFinallyStatNode":
            return [{"k": "try", "b": self.body(n.body), "h": [], "e": [], "f": self.body(n.finally_clause), "l": L}]
        if t == "WithStatNode":
            return [{"k": "with", "i": [(self.e(n.manager), self.e(n.target) if n.target is not None else None)], "b": self.body(n.body), "l": L}]
        if t == "AssertStatNode":
            return [{"k": "assert", "c": self.e(n.condition), "l": L}]
        if t == "DelStatNode":
            return [{"k": "del", "t": [self.e(a) for a in n.args], "l": L}]
        if t == "BreakStatNode":
            return [{"k": "break", "l": L}]
        if t == "ContinueStatNode":
            return [{"k": "continue", "l": L}]
        if t in ("GILStatNode", "CompilerDirectivesNode"):
            return self.body(n.body)
        if t in ("DefNode", "CFuncDefNode"):
            return [{"k": "def", "f": self.func(n), "l": L}]
        if t in ("CClassDefNode", "PyClassDefNode"):
            return [{"k": "class", "c": self.cls(n), "l": L}]
        if t in ("FromImportStatNode",):
            mod = str(getattr(n.module, "module_name", None) and n.module.module_name.value or "")
            return [{"k": "import", "m": mod, "names": [(str(a), str(b.name)) for a, b in n.items], "l": L}]
        if t == "FromCImportStatNode":
            return [{"k": "cimport", "m": str(n.module_name), "names": [(str(x[1]), str(x[2] or x[1])) for x in n.imported_names], "l": L}]
        if t == "CDefExternNode":
            return [{"k": "extern", "file": str(n.include_file), "ns": str(n.namespace) if n.namespace else None, "b": self.body(n.body), "l": L}]
        if t == "CppClassNode":
            return [{"k": "cppclass", "n": str(n.name), "bases": [self.tname(b, None) if not isinstance(b, str) else b for b in (n.base_classes or [])], "b": [x for a in (n.attributes or []) for x in self.s(a)], "l": L}]
        if t == "PassStatNode":
            return []
        if t == "GlobalNode":
            return []
        return [{"k": "other", "t": t, "l": L}]

    def func(self, n):
        t = type(n).__name__
        if t == "DefNode":
            dec = [self.e(d.decorator) for d in (n.decorators or [])]
            ps = self.params(n.args)
            return {"n": str(n.name), "params": ps, "star": str(n.star_arg.name) if n.star_arg else None, "kw": str(n.starstar_arg.name) if n.starstar_arg else None,
                    "body": self.body(n.body), "dec": dec, "l": self.line(n), "kind": "def", "file": self.rel, "doc": str(n.doc) if n.doc else None}
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        nm = self.dname(d.base).name
        return {"n": str(nm), "params": self.params(d.args), "star": None, "kw": None, "body": self.body(n.body), "l": self.line(n), "kind": "cdef",
                "dec": [self.e(x.decorator) for x in (n.decorators or [])], "file": self.rel, "ret": self.tname(n.base_type, n.declarator),
                "exc": (d.exception_check, d.exception_value is not None), "doc": None}

    def cls(self, n):
        name = str(getattr(n, "class_name", None) or n.name)
        b = getattr(n, "bases", None)
        bases = []
        if b is not None and hasattr(b, "args"):
            bases = [self.e(x) for x in b.args]
        return {"n": name, "bases": bases, "body": self.body(n.body), "l": self.line(n), "file": self.rel, "cdef": type(n).__name__ == "CClassDefNode"}


# --------------------------------------------------------------------------- conversion from Python's ast
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.MatMult: "@", ast.BitAnd: "&",
       ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~",
       ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class PyConv:
    def __init__(self, rel):
        self.rel = rel

    def line(self, n):
        return "%s:%d" % (self.rel, n.lineno)

    def e(self, n):
        A = ast
        if n is None:
            return ("const", None)
        if isinstance(n, A.Name):
            return ("n", n.id)
        if isinstance(n, A.Constant):
            return ("const", "..." if n.value is Ellipsis else n.value)
        if isinstance(n, A.Attribute):
            return ("attr", self.e(n.value), n.attr)
        if isinstance(n, A.Subscript):
            return ("sub", self.e(n.value), self.e(n.slice))
        if isinstance(n, A.Slice):
            return ("slice", self.e(n.lower), self.e(n.upper), self.e(n.step))
        if isinstance(n, A.Call):
            return ("call", self.e(n.func), tuple(self.e(a) for a in n.args), tuple((k.arg, self.e(k.value)) for k in n.keywords))
        if isinstance(n, A.BinOp):
            return ("bin", OPS[type(n.op)], self.e(n.left), self.e(n.right))
        if isinstance(n, A.UnaryOp):
            if isinstance(n.op, A.Not):
                return ("not", self.e(n.operand))
            v = self.e(n.operand)
            if isinstance(n.op, A.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
                return ("const", -v[1])
            return ("un", OPS[type(n.op)], v)
        if isinstance(n, A.BoolOp):
            r = self.e(n.values[-1])
            for v in reversed(n.values[:-1]):
                r = ("and" if isinstance(n.op, A.And) else "or", self.e(v), r)
            return r
        if isinstance(n, A.Compare):
            r, left = None, self.e(n.left)
            for op, c in zip(n.ops, n.comparators):
                x = self.e(c)
                y = ("cmp", OPS[type(op)], left, x)
                r = y if r is None else ("and", r, y)
                left = x
            return r
        if isinstance(n, A.Tuple):
            return ("tuple", tuple(self.e(x) for x in n.elts))
        if isinstance(n, A.List):
            return ("list", tuple(self.e(x) for x in n.elts))
        if isinstance(n, A.Set):
            return ("set", tuple(self.e(x) for x in n.elts))
        if isinstance(n, A.Dict):
            return ("dict", tuple((self.e(k) if k is not None else ("?", "**"), self.e(v)) for k, v in zip(n.keys, n.values)))
        if isinstance(n, A.IfExp):
            return ("ifexp", self.e(n.test), self.e(n.body), self.e(n.orelse))
        if isinstance(n, (A.ListComp, A.SetComp, A.GeneratorExp)):
            return ("comp", {"ListComp": "list", "SetComp": "set", "GeneratorExp": "gen"}[type(n).__name__], self.e(n.elt),
                    tuple((self.e(g.target), self.e(g.iter), tuple(self.e(c) for c in g.ifs)) for g in n.generators))
        if isinstance(n, A.DictComp):
            return ("comp", "dict", ("tuple", (self.e(n.key), self.e(n.value))), tuple((self.e(g.target), self.e(g.iter), tuple(self.e(c) for c in g.ifs)) for g in n.generators))
        if isinstance(n, A.Lambda):
            return ("lambda", tuple(a.arg for a in n.args.args), self.e(n.body))
        if isinstance(n, A.Starred):
            return ("star", self.e(n.value))
        if isinstance(n, A.JoinedStr):
            return ("fstr", tuple(self.e(v) for v in n.values))
        if isinstance(n, A.FormattedValue):
            return self.e(n.value)
        if isinstance(n, (A.Yield, A.YieldFrom)):
            return ("yield", self.e(n.value))
        if isinstance(n, A.NamedExpr):
            return ("walrus", self.e(n.target), self.e(n.value))
        return ("?", type(n).__name__)

    def body(self, l):
        return [y for x in l for y in self.s(x)]

    def s(self, n):
        A = ast
        L = self.line(n)
        if isinstance(n, A.Expr):
            return [{"k": "expr", "e": self.e(n.value), "l": L}]
        if isinstance(n, A.Assign):
            return [{"k": "assign", "t": [self.e(t) for t in n.targets], "v": self.e(n.value), "l": L}]
        if isinstance(n, A.AnnAssign):
            return [{"k": "assign", "t": [self.e(n.target)], "v": self.e(n.value), "l": L}] if n.value is not None else []
        if isinstance(n, A.AugAssign):
            return [{"k": "aug", "t": self.e(n.target), "op": OPS[type(n.op)], "v": self.e(n.value), "l": L}]
        if isinstance(n, A.If):
            return [{"k": "if", "c": self.e(n.test), "b": self.body(n.body), "e": self.body(n.orelse), "l": L}]
        if isinstance(n, A.For):
            return [{"k": "for", "t": self.e(n.target), "i": self.e(n.iter), "b": self.body(n.body), "e": self.body(n.orelse), "l": L}]
        if isinstance(n, A.While):
            return [{"k": "while", "c": self.e(n.test), "b": self.body(n.body), "l": L}]
        if isinstance(n, A.Return):
            return [{"k": "return", "v": self.e(n.value), "l": L}]
        if isinstance(n, A.Raise):
            return [{"k": "raise", "v": self.e(n.exc) if n.exc is not None else None, "l": L}]
        if isinstance(n, A.Try):
            hs = [{"types": [self.e(h.type)] if h.type is not None else [], "n": ("n", h.name) if h.name else None, "b": self.body(h.body)} for h in n.handlers]
            return [{"k": "try", "b": self.body(n.body), "h": hs, "e": self.body(n.orelse), "f": self.body(n.finalbody), "l": L}]
        if isinstance(n, A.With):
            return [{"k": "with", "i": [(self.e(i.context_expr), self.e(i.optional_vars) if i.optional_vars is not None else None) for i in n.items], "b": self.body(n.body), "l": L}]
        if isinstance(n, A.Assert):
            return [{"k": "assert", "c": self.e(n.test), "l": L}]
        if isinstance(n, A.Delete):
            return [{"k": "del", "t": [self.e(t) for t in n.targets], "l": L}]
        if isinstance(n, A.Break):
            return [{"k": "break", "l": L}]
        if isinstance(n, A.Continue):
            return [{"k": "continue", "l": L}]
        if isinstance(n, A.Pass):
            return []
        if isinstance(n, (A.FunctionDef,)):
            return [{"k": "def", "f": self.func(n), "l": L}]
        if isinstance(n, A.ClassDef):
            return [{"k": "class", "c": {"n": n.name, "bases": [self.e(b) for b in n.bases], "body": self.body(n.body), "l": L, "file": self.rel, "cdef": False}, "l": L}]
        if isinstance(n, A.ImportFrom):
            return [{"k": "import", "m": n.module or "", "names": [(a.name, a.asname or a.name) for a in n.names], "l": L}]
        if isinstance(n, A.Import):
            return [{"k": "import", "m": None, "names": [(a.name, a.asname or a.name) for a in n.names], "l": L}]
        return [{"k": "other", "t": type(n).__name__, "l": L}]

    def func(self, n):
        a = n.args
        allp = a.posonlyargs + a.args
        defs = [None] * (len(allp) - len(a.defaults)) + a.defaults
        ps = [{"n": x.arg, "t": ast.unparse(x.annotation) if x.annotation else None, "default": self.e(d) if d is not None else None, "kwonly": False} for x, d in zip(allp, defs)]
        ps += [{"n": x.arg, "t": ast.unparse(x.annotation) if x.annotation else None, "default": self.e(d) if d is not None else None, "kwonly": True} for x, d in zip(a.kwonlyargs, a.kw_defaults)]
        return {"n": n.name, "params": ps, "star": a.vararg.arg if a.vararg else None, "kw": a.kwarg.arg if a.kwarg else None, "body": self.body(n.body),
                "dec": [self.e(d) for d in n.decorator_list], "l": self.line(n), "kind": "def", "file": self.rel, "doc": ast.get_docstring(n)}


# --------------------------------------------------------------------------- modules
class Module:
    def __init__(self, rel):
        self.rel = rel
        path = os.path.join(REPO, rel)
        if not os.path.exists(path):
            raise AnalysisBroken("%s not found" % rel)
        if rel.endswith(".py"):
            try:
                tree = ast.parse(open(path, encoding="utf8").read())
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
            self.stmts = PyConv(rel).body(tree.body)
        else:
            c = CyConv(rel)
            self.stmts = c.body(parse_cython(rel).body)
        self.funcs, self.classes = {}, {}
        self.collect(self.stmts)

    def collect(self, stmts):
        for s in stmts:
            if s["k"] == "def":
                self.funcs[s["f"]["n"]] = s["f"]
            elif s["k"] == "class":
                c = s["c"]
                c["methods"] = {x["f"]["n"]: x["f"] for x in c["body"] if x["k"] == "def"}
                for m in c["methods"].values():
                    m["cls"] = c["n"]
                self.classes[c["n"]] = c
            elif s["k"] == "if":
                self.collect(s["b"])
                self.collect(s["e"])
            elif s["k"] == "try":
                self.collect(s["b"])


_mods = {}


def module(name):
    """'symbols.pyx' or 'libcpp/nodes.pxd' below dwave/optimization"""
    rel = PKG + name
    if rel not in _mods:
        _mods[rel] = Module(rel)
    return _mods[rel]


def sub(e):
    """all subexpressions"""
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in KINDS:
                yield from sub(x)
            else:
                yield from subs(x)


def subs(x):
    for y in x:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in KINDS and (len(y) > 1):
                yield from sub(y)
            else:
                yield from subs(y)


KINDS = {"n", "attr", "sub", "call", "const", "bin", "un", "cmp", "not", "and", "or", "tuple", "list", "set", "dict", "slice", "cast", "addr", "ifexp",
         "comp", "lambda", "star", "fstr", "yield", "?", "param", "elem", "unk", "new", "sizeof", "walrus", "closure", "glob", "pos", "exc", "ctx"}


def has(e, pred):
    return any(pred(x) for x in sub(e))


def ren(e):
    """render a term"""
    k = e[0]
    if k in ("n", "param", "glob"):
        return e[1]
    if k == "attr":
        return "%s.%s" % (ren(e[1]), e[2])
    if k == "sub":
        return "%s[%s]" % (ren(e[1]), ren(e[2]))
    if k == "call":
        return "%s(%s)" % (ren(e[1]), ", ".join([ren(a) for a in e[2]] + ["%s=%s" % (n, ren(v)) for n, v in e[3]]))
    if k == "const":
        return repr(e[1])
    if k in ("bin", "cmp"):
        return "%s %s %s" % (ren(e[2]), e[1], ren(e[3]))
    if k == "un":
        return "%s%s" % (e[1], ren(e[2]))
    if k == "not":
        return "not (%s)" % ren(e[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (ren(e[1]), k, ren(e[2]))
    if k in ("tuple", "list", "set"):
        return "[%s]" % ", ".join(ren(x) for x in e[1])
    if k == "cast":
        return ren(e[2])
    if k == "addr":
        return "&" + ren(e[1])
    if k == "elem":
        return "each(%s)" % ren(e[1])
    if k == "unk":
        return "?%s" % (e[1],)
    if k == "star":
        return "*" + ren(e[1])
    if k == "slice":
        return ":".join("" if x == ("const", None) else ren(x) for x in e[1:4])
    if k == "comp":
        return "[%s for ...]" % ren(e[2])
    return k


# --------------------------------------------------------------------------- walker
class PyPath:
    def __init__(self, conds, events, end, env, attrs):
        self.conds, self.events, self.end, self.env, self.attrs = conds, events, end, env, attrs

    @property
    def raises(self):
        return self.end[0] == "raise"


class Capped(Exception):
    pass


class St:
    __slots__ = ("env", "attrs", "conds", "ev")

    def __init__(self, env, attrs, conds, ev):
        self.env, self.attrs, self.conds, self.ev = env, attrs, conds, ev

    def copy(self):
        return St(dict(self.env), dict(self.attrs), list(self.conds), list(self.ev))


def neg(c):
    if c[0] == "not":
        return c[1]
    if c[0] == "cmp":
        o = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}.get(c[1])
        if o:
            return ("cmp", o, c[2], c[3])
    return ("not", c)


class PyWalker:
    """enumerates the paths of a function. Calls to functions found by `resolve` are expanded."""

    def __init__(self, resolve=None, cap=2000, depth=3):
        self.resolve, self.cap, self.maxdepth = resolve, cap, depth
        self.n = 0
        self.loops = 0
        self.stack = []

    def run(self, f, args=None, env=None):
        st = St(dict(env or {}), {}, [], [])
        for p in f["params"]:
            st.env[p["n"]] = (args or {}).get(p["n"], ("param", p["n"]))
        for x in ("star", "kw"):
            if f.get(x):
                st.env[f[x]] = (args or {}).get(f[x], ("param", f[x]))
        self.stack.append(id(f))
        out = []
        for s, end in self.block(f["body"], st):
            if end is None:
                end = ("return", ("const", None), f["l"])
            out.append(PyPath(s.conds, s.ev, end, s.env, s.attrs))
        self.stack.pop()
        return out

    def tick(self):
        self.n += 1
        if self.n > self.cap * 40:
            raise Capped()

    # ---- statements: yields (state, end) with end None = falls through
    def block(self, stmts, st):
        cur = [(st, None)]
        for s in stmts:
            nxt = []
            for x, end in cur:
                if end is not None:
                    nxt.append((x, end))
                else:
                    nxt.extend(self.stmt(s, x))
            cur = nxt
            if len(cur) > self.cap:
                raise Capped()
        return cur

    def stmt(self, s, st):
        self.tick()
        return getattr(self, "s_" + s["k"], self.s_nop)(s, st)

    def s_nop(self, s, st):
        return [(st, None)]

    def vals(self, e, st, s):
        """evaluate an expression: [(state, value, end)]"""
        return self.ev(e, st, s)

    def s_expr(self, s, st):
        return [(x, end) for x, v, end in self.vals(s["e"], st, s)]

    def s_assign(self, s, st):
        out = []
        for x, v, end in self.vals(s["v"], st, s):
            if end is None:
                for t in s["t"]:
                    self.store(t, v, x, s)
            out.append((x, end))
        return out

    def s_decl(self, s, st):
        if s["v"] is None:
            st.env[s["n"]] = ("new", s["t"], s["n"])
            return [(st, None)]
        out = []
        for x, v, end in self.vals(s["v"], st, s):
            if end is None:
                x.env[s["n"]] = v
            out.append((x, end))
        return out

    def s_aug(self, s, st):
        out = []
        for x, v, end in self.vals(s["v"], st, s):
            if end is None:
                for y, old, end2 in self.vals(s["t"], x, s):
                    y.ev.append({"k": "aug", "t": self.place(s["t"], y), "op": s["op"], "v": v, "old": old, "l": s["l"]})
                    self.store(s["t"], ("bin", s["op"], old, v), y, s, aug=True)
                    out.append((y, end2))
            else:
                out.append((x, end))
        return out

    def s_del(self, s, st):
        for t in s["t"]:
            st.ev.append({"k": "del", "t": self.place(t, st), "l": s["l"]})
            if t[0] == "n":
                st.env.pop(t[1], None)
        return [(st, None)]

    def place(self, t, st):
        if t[0] == "n":
            return t
        if t[0] == "attr":
            return ("attr", self.quiet(t[1], st), t[2])
        if t[0] == "sub":
            return ("sub", self.quiet(t[1], st), self.quiet(t[2], st))
        return t

    def quiet(self, e, st):
        r = self.ev(e, st.copy(), {"l": None})
        return r[0][1] if r else ("unk", 0)

    def store(self, t, v, st, s, aug=False):
        if t[0] == "n":
            st.env[t[1]] = v
        elif t[0] in ("tuple", "list"):
            for i, x in enumerate(t[1]):
                if x[0] == "star":
                    self.store(x[1], ("sub", v, ("slice", ("const", i), ("const", None), ("const", None))), st, s)
                elif v[0] in ("tuple", "list") and len(v[1]) == len(t[1]) and not any(y[0] == "star" for y in v[1]):
                    self.store(x, v[1][i], st, s)
                else:
                    self.store(x, ("sub", v, ("const", i)), st, s)
        elif t[0] == "star":
            self.store(t[1], v, st, s)
        elif t[0] in ("attr", "sub"):
            p = self.place(t, st)
            if not aug:
                st.ev.append({"k": "store", "t": p, "v": v, "l": s["l"]})
            st.attrs[p] = v

    def s_if(self, s, st):
        out = []
        for x, truth, end in self.cond(s["c"], st, s):
            if end is not None:
                out.append((x, end))
            else:
                out.extend(self.block(s["b"] if truth else s["e"], x))
        return out

    def s_assert(self, s, st):
        return [(st, None)]

    def s_return(self, s, st):
        return [(x, end or ("return", v, s["l"])) for x, v, end in self.vals(s["v"], st, s)]

    def s_raise(self, s, st):
        if s["v"] is None:
            return [(st, ("raise", ("exc",), s["l"]))]
        return [(x, end or ("raise", v, s["l"])) for x, v, end in self.vals(s["v"], st, s)]

    def s_break(self, s, st):
        return [(st, ("break",))]

    def s_continue(self, s, st):
        return [(st, ("continue",))]

    def s_def(self, s, st):
        st.env[s["f"]["n"]] = ("closure", s["f"]["n"], id(s["f"]))
        self.closures = getattr(self, "closures", {})
        self.closures[id(s["f"])] = (s["f"], st)
        return [(st, None)]

    def s_import(self, s, st):
        for a, b in s["names"]:
            st.env[b] = ("glob", (s["m"] + "." if s["m"] else "") + a)
        return [(st, None)]

    def s_with(self, s, st):
        cur = [(st, None)]
        ctxs = []
        for m, t in s["i"]:
            nxt = []
            for x, end in cur:
                if end is not None:
                    nxt.append((x, end))
                    continue
                for y, v, e2 in self.vals(m, x, s):
                    if e2 is None:
                        y.ev.append({"k": "enter", "v": v, "l": s["l"]})
                        if t is not None:
                            self.store(t, ("ctx", v), y, s)
                        ctxs.append(v)
                    nxt.append((y, e2))
            cur = nxt
        out = []
        for x, end in cur:
            if end is not None:
                out.append((x, end))
                continue
            for y, e2 in self.block(s["b"], x):
                for v in reversed(ctxs[:len(s["i"])]):
                    y.ev.append({"k": "exit", "v": v, "l": s["l"]})
                out.append((y, e2))
        return out

    def s_try(self, s, st):
        out = []
        base = st.copy()
        res = []
        for x, end in self.block(s["b"], st):
            if end is not None and end[0] == "raise" and s["h"]:
                # an explicit raise goes to a matching handler
                for h in s["h"]:
                    y = x.copy()
                    if h["n"]:
                        self.store(h["n"], end[1], y, s)
                    res.extend(self.block(h["b"], y))
                if not any(self.catches_all(h) for h in s["h"]):
                    res.append((x, end))
            elif end is None:
                res.extend(self.block(s["e"], x))
            else:
                res.append((x, end))
        for h in s["h"]:
            y = base.copy()
            y.ev.append({"k": "except", "types": tuple(h["types"]), "l": s["l"]})
            y.conds.append(("exc", tuple(h["types"])))
            if h["n"]:
                self.store(h["n"], ("exc",), y, s)
            # anything assigned in the body is unknown
            for n in assigned(s["b"]):
                y.env[n] = ("unk", n)
            res.extend(self.block(h["b"], y))
        if s["f"]:
            for x, end in res:
                for y, e2 in self.block(s["f"], x):
                    out.append((y, e2 if e2 is not None else end))
            # an exception raised by a call in the body
            y = base.copy()
            y.ev.append({"k": "except", "types": (), "l": s["l"]})
            for n in assigned(s["b"]):
                y.env[n] = ("unk", n)
            for z, e2 in self.block(s["f"], y):
                out.append((z, e2 if e2 is not None else ("raise", ("exc",), s["l"])))
            return out
        return res

    def catches_all(self, h):
        return not h["types"] or any(t in (("n", "Exception"), ("n", "BaseException")) for t in h["types"])

    def s_for(self, s, st):
        out = []
        for x, it, end in self.vals(s["i"], st, s):
            if end is not None:
                out.append((x, end))
                continue
            out.extend(self.loop(s, x, it))
        return out

    def s_while(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, it):
        self.loops += 1
        lid = self.loops
        mod = assigned(s["b"])
        before = st
        inner = st.copy()
        pre = len(inner.ev), len(inner.conds)
        for n in mod:
            if n in inner.env:
                inner.env[n] = ("unk", "%s@%d" % (n, lid))
        for k in list(inner.attrs):
            if attr_assigned(s["b"], k):
                del inner.attrs[k]
        inner.ev, inner.conds = [], list(st.conds)
        nc = len(inner.conds)
        starts = [(inner, None)]
        if it is not None:
            self.bind_elem(s["t"], it, inner, s, lid)
        else:
            starts = []
            for y, truth, end in self.cond(s["c"], inner, s):
                if end is None and truth:
                    starts.append((y, None))
        paths = []
        for y, _ in starts:
            for z, end in self.block(s["b"], y):
                paths.append(PyPath(z.conds[nc:], z.ev, end or ("normal",), z.env, z.attrs))
        le = {"k": "loop", "id": lid, "it": it, "t": s.get("t"), "c": s.get("c"), "paths": paths, "l": s["l"]}
        out = []
        for q in paths:
            if q.end[0] in ("return", "raise"):
                z = before.copy()
                z.ev.append(dict(le, exit=paths.index(q)))
                z.conds += q.conds
                z.env.update({k: v for k, v in q.env.items() if k in mod})
                out.append((z, q.end))
        z = before.copy()
        z.ev.append(le)
        for n in mod | (target_names(s["t"]) if it is not None else set()):
            # a name appended to or rebound in the loop
            z.env[n] = ("unk", "%s@after%d" % (n, lid)) if n in mod and rebound(s["b"], n) or n not in before.env else z.env.get(n, ("unk", n))
        for k in list(z.attrs):
            if attr_assigned(s["b"], k):
                z.attrs[k] = ("unk", "after%d" % lid)
        out.extend(self.block(s.get("e") or [], z) if s.get("e") else [(z, None)])
        return out

    def bind_elem(self, t, it, st, s, lid):
        # zip / enumerate keep the pairing visible
        if it[0] == "call" and it[1] in (("n", "enumerate"), ("glob", "enumerate")) and t[0] == "tuple" and len(t[1]) == 2:
            self.store(t[1][0], ("pos", lid), st, s)
            self.bind_elem(t[1][1], it[2][0], st, s, lid)
        elif it[0] == "call" and it[1] in (("n", "zip"), ("glob", "zip")) and t[0] == "tuple" and len(t[1]) == len(it[2]):
            for x, y in zip(t[1], it[2]):
                self.bind_elem(x, y, st, s, lid)
        elif it[0] == "call" and it[1] in (("n", "range"), ("glob", "range")):
            self.store(t, ("elem", it, lid), st, s)
        else:
            self.store(t, ("elem", it, lid), st, s)

    # ---- conditions
    def cond(self, c, st, s):
        """[(state, truth, end)]"""
        if c[0] == "not":
            return [(x, not t if end is None else t, end) for x, t, end in self.cond(c[1], st, s)]
        if c[0] in ("and", "or"):
            out = []
            for x, t, end in self.cond(c[1], st, s):
                if end is not None:
                    out.append((x, t, end))
                elif t == (c[0] == "and"):
                    out.extend(self.cond(c[2], x, s))
                else:
                    out.append((x, t, None))
            return out
        out = []
        for x, v, end in self.vals(c, st, s):
            if end is not None:
                out.append((x, True, end))
                continue
            out.extend(self.split(v, x))
        return out

    def split(self, v, x):
        if v[0] == "not":
            return [(y, not t, e) for y, t, e in self.split(v[1], x)]
        if v[0] in ("and", "or"):
            out = []
            for y, t, e in self.split(v[1], x):
                out.extend(self.split(v[2], y) if t == (v[0] == "and") else [(y, t, e)])
            return out
        tv = truth_of(v)
        if tv is None and v in x.conds and stable(v, x):
            tv = True
        if tv is None and neg(v) in x.conds and stable(v, x):
            tv = False
        if tv is not None:
            return [(x, tv, None)]
        y = x.copy()
        x.conds.append(v)
        y.conds.append(neg(v))
        return [(x, True, None), (y, False, None)]

    # ---- expressions: [(state, term, end)]
    def ev(self, e, st, s):
        k = e[0]
        if k == "n":
            return [(st, st.env.get(e[1], e), None)]
        if k in ("const", "param", "glob", "elem", "unk", "new", "?", "closure", "pos", "exc", "ctx"):
            return [(st, e, None)]
        if k == "attr":
            return [(x, x.attrs.get(("attr", v, e[2]), ("attr", v, e[2])) if end is None else v, end) for x, v, end in self.ev(e[1], st, s)]
        if k == "sub":
            out = []
            for x, a, end in self.ev(e[1], st, s):
                if end is not None:
                    out.append((x, a, end))
                    continue
                for y, b, e2 in self.ev(e[2], x, s):
                    t = ("sub", a, b)
                    if a[0] in ("tuple", "list") and b[0] == "const" and isinstance(b[1], int) and not any(z[0] == "star" for z in a[1]) and -len(a[1]) <= b[1] < len(a[1]):
                        t = a[1][b[1]]
                    out.append((y, y.attrs.get(t, t), e2))
            return out
        if k == "call":
            return self.call(e, st, s)
        if k in ("and", "or"):
            return [(x, ("const", t), end) for x, t, end in self.cond(e, st, s)] if pure_bool(e) else self.seq(e, st, s, (1, 2))
        if k == "ifexp":
            out = []
            for x, t, end in self.cond(e[1], st, s):
                if end is not None:
                    out.append((x, e, end))
                else:
                    out.extend(self.ev(e[2] if t else e[3], x, s))
            return out
        if k == "cmp":
            return self.seq(e, st, s, (2, 3))
        if k == "bin":
            return self.seq(e, st, s, (2, 3))
        if k in ("not", "addr", "star", "yield", "sizeof"):
            r = self.seq(e, st, s, (1,))
            if k == "yield":
                for x, v, end in r:
                    x.ev.append({"k": "yield", "v": v[1], "l": s.get("l")})
            return r
        if k == "un":
            return self.seq(e, st, s, (2,))
        if k == "cast":
            return self.seq(e, st, s, (2,))
        if k == "walrus":
            out = []
            for x, v, end in self.ev(e[2], st, s):
                if end is None:
                    self.store(e[1], v, x, s)
                out.append((x, v, end))
            return out
        if k == "slice":
            return self.seq(e, st, s, (1, 2, 3))
        if k in ("tuple", "list", "set", "fstr"):
            cur = [(st, (), None)]
            for a in e[1]:
                nxt = []
                for x, acc, end in cur:
                    if end is not None:
                        nxt.append((x, acc, end))
                        continue
                    for y, v, e2 in self.ev(a, x, s):
                        nxt.append((y, acc + (v,), e2))
                cur = nxt
            return [(x, (k, acc), end) for x, acc, end in cur]
        if k == "dict":
            y = st
            items = []
            for a, b in e[1]:
                items.append((self.quiet(a, y), self.first(b, y, s)))
            return [(y, ("dict", tuple(items)), None)]
        if k == "comp":
            return [(st, self.comp(e, st, s), None)]
        if k == "lambda":
            inner = st.copy()
            for p in e[1]:
                inner.env[p] = ("param", p)
            return [(st, ("lambda", e[1], self.quiet(e[2], inner)), None)]
        return [(st, e, None)]

    def first(self, e, st, s):
        r = self.ev(e, st, s)
        return r[0][1]

    def comp(self, e, st, s):
        inner = st.copy()
        n0 = len(inner.ev)
        gens = []
        self.loops += 1
        lid = self.loops
        for t, it, cs in e[3]:
            iv = self.quiet(it, inner)
            self.bind_elem(t, iv, inner, s, lid)
            gens.append((("elem", iv, lid), iv, tuple(self.quiet(c, inner) for c in cs)))
        el = self.ev(e[2], inner, s)
        v = el[0][1]
        evs = [x for r in el for x in r[0].ev[n0:]]
        if evs:
            st.ev.append({"k": "loop", "id": lid, "it": gens[0][1], "t": None, "c": None, "comp": True, "l": s.get("l"),
                          "paths": [PyPath(r[0].conds[len(st.conds):], r[0].ev[n0:], ("normal",) if r[2] is None else r[2], {}, {}) for r in el]})
        return ("comp", e[1], v, tuple(gens))

    def seq(self, e, st, s, idx):
        cur = [(st, list(e), None)]
        for i in idx:
            nxt = []
            for x, acc, end in cur:
                if end is not None:
                    nxt.append((x, acc, end))
                    continue
                for y, v, e2 in self.ev(e[i], x, s):
                    a = list(acc)
                    a[i] = v
                    nxt.append((y, a, e2))
            cur = nxt
        return [(x, fold(tuple(a)), end) for x, a, end in cur]

    def call(self, e, st, s):
        f, args, kws = e[1], e[2], e[3]
        cur = [(st, None, (), (), None)]
        nxt = []
        for x, v, end in self.ev(f, st, s):
            nxt.append((x, v, (), (), end))
        cur = nxt
        for a in args:
            nxt = []
            for x, fv, acc, kw, end in cur:
                if end is not None:
                    nxt.append((x, fv, acc, kw, end))
                    continue
                for y, v, e2 in self.ev(a, x, s):
                    if v[0] == "star" and v[1][0] in ("tuple", "list"):
                        nxt.append((y, fv, acc + v[1][1], kw, e2))
                    else:
                        nxt.append((y, fv, acc + (v,), kw, e2))
            cur = nxt
        for n, a in kws:
            nxt = []
            for x, fv, acc, kw, end in cur:
                if end is not None:
                    nxt.append((x, fv, acc, kw, end))
                    continue
                for y, v, e2 in self.ev(a, x, s):
                    nxt.append((y, fv, acc, kw + ((n, v),), e2))
            cur = nxt
        out = []
        for x, fv, acc, kw, end in cur:
            t = ("call", fv, acc, kw)
            if end is not None:
                out.append((x, t, end))
                continue
            g = None
            recv = None
            if fv[0] == "closure" and fv[2] in getattr(self, "closures", {}):
                g, outer = self.closures[fv[2]]
                base_env = dict(outer.env)
            elif self.resolve is not None:
                r = self.resolve(fv, acc, kw, x)
                if r is not None:
                    g, recv = r
                    base_env = {}
            if g is not None and len(self.stack) <= self.maxdepth and id(g) not in self.stack and not any(a[0] == "star" for a in acc) and not is_gen(g):
                out.extend(self.expand(g, recv, acc, kw, x, s, t, base_env))
                continue
            x.ev.append({"k": "call", "f": fv, "args": acc, "kw": kw, "l": s.get("l"), "t": t})
            out.append((x, t, None))
        return out

    def expand(self, g, recv, acc, kw, st, s, t, base_env):
        args = list(acc)
        ps = [p for p in g["params"]]
        env = dict(base_env)
        pos = [p for p in ps if not p.get("kwonly")]
        vals = ([recv] if recv is not None else []) + args
        if len(vals) > len(pos) and not g.get("star"):
            st.ev.append({"k": "call", "f": t[1], "args": acc, "kw": kw, "l": s.get("l"), "t": t})
            return [(st, t, None)]
        for p, v in zip(pos, vals):
            env[p["n"]] = v
        if g.get("star"):
            env[g["star"]] = ("tuple", tuple(vals[len(pos):]))
        kd = dict(kw)
        for p in ps:
            if p["n"] in kd:
                env[p["n"]] = kd.pop(p["n"])
            elif p["n"] not in env or p["n"] in base_env and p not in pos[:len(vals)]:
                env[p["n"]] = p["default"] if p["default"] is not None else ("unk", p["n"])
        if g.get("kw"):
            env[g["kw"]] = ("dict", tuple((("const", k), v) for k, v in kd.items()))
        inner = St(env, st.attrs, st.conds, st.ev)
        self.stack.append(id(g))
        out = []
        try:
            for x, end in self.block(g["body"], inner):
                y = St(dict(st.env), x.attrs, x.conds, x.ev)
                if end is None:
                    out.append((y, ("const", None), None))
                elif end[0] == "return":
                    out.append((y, end[1], None))
                else:
                    out.append((y, t, end))
        finally:
            self.stack.pop()
        return out


QUIET = {"isinstance", "issubclass", "hasattr", "getattr", "len", "range", "type", "super", "tuple", "list", "int", "bool", "float", "str", "repr", "shape", "ndim", "size",
         "model", "is_locked", "topological_index", "dynamic", "all", "any", "min", "max", "abs", "sum", "zip", "enumerate", "successors", "predecessors",
         "num_nodes", "num_decisions", "data", "has_state", "get"}


def stable(v, x):
    """may the outcome of an earlier evaluation of the condition be used again?"""
    own = {fname(z[1]) for z in sub(v) if z[0] == "call"}
    if not own:
        return True
    first = 0
    for i, e in enumerate(x.ev):
        if e["k"] == "call" and fname(e["f"]) in own:
            first = i
            break
    return not any(e["k"] in ("loop", "yield", "aug", "store") or e["k"] == "call" and fname(e["f"]) not in QUIET | own for e in x.ev[first:])


def is_gen(g):
    if "_gen" not in g:
        g["_gen"] = any(has(x, lambda z: z[0] == "yield") for x in exprs(g["body"]))
    return g["_gen"]


def pure_bool(e):
    if e[0] in ("and", "or"):
        return pure_bool(e[1]) and pure_bool(e[2])
    return e[0] in ("cmp", "not") or e[0] == "call" and e[1] in (("n", "isinstance"), ("n", "hasattr"), ("n", "all"), ("n", "any"), ("n", "issubclass"))


def fold(t):
    if t[0] == "not":
        tv = truth_of(t[1])
        return ("const", not tv) if tv is not None else t
    if t[0] == "bin" and t[2][0] == t[3][0] == "const" and all(isinstance(x[1], (int, float)) and not isinstance(x[1], bool) for x in t[2:]):
        try:
            return ("const", {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}[t[1]](t[2][1], t[3][1]))
        except KeyError:
            return t
    if t[0] == "cmp" and t[1] in ("is", "is not", "==", "!="):
        a, b = t[2], t[3]
        if a == b and a[0] in ("const", "param"):
            return ("const", t[1] in ("is", "=="))
        if a[0] == "const" and b[0] == "const" and (a[1] is None or b[1] is None or type(a[1]) is type(b[1])):
            return ("const", (a[1] == b[1]) == (t[1] in ("is", "==")))
        # comparisons with None are written with None on the right
        if a == ("const", None):
            return ("cmp", t[1], b, a)
    return t


def truth_of(v):
    if v[0] == "const":
        return bool(v[1])
    if v[0] in ("tuple", "list") and not any(x[0] == "star" for x in v[1]):
        return bool(v[1])
    if v[0] == "not":
        t = truth_of(v[1])
        return None if t is None else not t
    return None


def target_names(t):
    if t[0] == "n":
        return {t[1]}
    if t[0] in ("tuple", "list"):
        return set().union(*[target_names(x) for x in t[1]]) if t[1] else set()
    if t[0] == "star":
        return target_names(t[1])
    return set()


def stmts_in(body):
    for s in body:
        yield s
        for k in ("b", "e", "f"):
            if isinstance(s.get(k), list):
                yield from stmts_in(s[k])
        for h in s.get("h") or []:
            yield from stmts_in(h["b"])


def exprs(body):
    for s in stmts_in(body):
        for k in ("e", "v", "c", "i"):
            x = s.get(k)
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield x
        if s["k"] in ("assign", "del"):
            yield from s["t"]
        if s["k"] in ("aug", "for") and isinstance(s.get("t"), tuple):
            yield s["t"]
        if s["k"] == "with":
            for a, b in s["i"]:
                yield a


def assigned(body):
    out = set()
    for s in stmts_in(body):
        if s["k"] == "assign":
            for t in s["t"]:
                out |= target_names(t)
        elif s["k"] in ("aug", "for"):
            out |= target_names(s["t"])
        elif s["k"] == "decl":
            out.add(s["n"])
        elif s["k"] == "with":
            for a, b in s["i"]:
                if b is not None:
                    out |= target_names(b)
    return out


def rebound(body, n):
    return n in assigned(body)


def attr_assigned(body, place):
    name = place[2] if place[0] == "attr" else None
    for s in stmts_in(body):
        ts = s["t"] if s["k"] == "assign" else [s["t"]] if s["k"] == "aug" else []
        for t in ts:
            if t[0] == place[0] and (t[0] != "attr" or t[2] == name):
                return True
    return False


def flat(events, paths_conds=()):
    """events incl. those inside loops, with the conditions of the iteration path: (event, [(loop, path)...])"""
    for e in events:
        yield e, paths_conds
        if e["k"] == "loop":
            for q in e["paths"]:
                yield from flat(q.events, paths_conds + ((e, q),))


def calls(events, pred):
    return [(e, c) for e, c in flat(events) if e["k"] == "call" and pred(e)]


def fname(f):
    """last name of a called function"""
    return f[2] if f[0] == "attr" else f[1].split(".")[-1] if f[0] in ("n", "glob") else fname(f[1]) if f[0] == "sub" else ""
