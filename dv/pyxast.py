"""Front end for the Cython layer: the parse tree of the Cython compiler itself, mapped onto Python's ast.

Kept: every statement and expression.  C-only syntax becomes a call: <T>x -> __cast__('T', x), &x -> __addr__(x),
sizeof(T) -> __sizeof__('T').  Dropped: declared C types of locals and arguments (kept aside in `ctypes`).
"""
import ast
import json
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class Front(Exception):
    pass


def parse_tree(path):
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        p = subprocess.run(["/opt/coffe-venv/bin/python", os.path.join(HERE, "pyx_dump.py"), path, out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode:
            raise Front("cython parser: " + p.stdout.decode(errors="replace")[-600:])
        with open(out) as h:
            return json.load(h)
    finally:
        os.unlink(out)


BIN = {"AddNode": ast.Add, "SubNode": ast.Sub, "MulNode": ast.Mult, "DivNode": ast.Div, "ModNode": ast.Mod,
       "PowNode": ast.Pow, "NumBinopNode": None, "IntBinopNode": None}
OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "**": ast.Pow, "//": ast.FloorDiv,
       "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor}
CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "is": ast.Is,
       "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn, "<>": ast.NotEq}


def declname(d):
    while isinstance(d, dict) and d.get("k") != "CNameDeclaratorNode":
        d = d.get("base")
    return d.get("name") if d else None


def declstars(d):
    n = 0
    while isinstance(d, dict) and d.get("k") != "CNameDeclaratorNode":
        n += d.get("k") == "CPtrDeclaratorNode"
        d = d.get("base")
    return n


class Conv:
    def __init__(self):
        self.ctypes = {}

    def at(self, node, n):
        node.lineno = n.get("line") or 0
        node.col_offset = 0
        return node

    def e(self, n):
        if n is None:
            return None
        f = getattr(self, "e_" + n["k"], None)
        if f is None:
            if n["k"] in BIN or "operator" in n and n.get("operator") in OPS and "operand1" in n:
                return self.at(ast.BinOp(self.e(n["operand1"]), OPS[n["operator"]](), self.e(n["operand2"])), n)
            raise Front("line %s: expression %s" % (n.get("line"), n["k"]))
        return self.at(f(n), n)

    def name(self, s):
        return ast.Name(s, ast.Load())

    def call(self, f, *a):
        return ast.Call(self.name(f), list(a), [])

    def e_NameNode(self, n):
        return self.name(n["name"])

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n["obj"]), n["attribute"], ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n["base"]), self.e(n["index"]), ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(self.e(n["base"]), ast.Slice(self.e(n.get("start")), self.e(n.get("stop")), None), ast.Load())

    def e_IntNode(self, n):
        return ast.Constant(int(n["value"], 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n["value"]))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n["value"]) if not isinstance(n["value"], str) else n["value"] == "True")

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_NullNode(self, n):
        return self.name("NULL")

    def e_StringNode(self, n):
        return ast.Constant(n.get("unicode_value") or n.get("value"))
    e_UnicodeNode = e_StringNode
    e_BytesNode = e_IdentifierStringNode = e_StringNode

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(x) for x in n["values"]])

    def e_FormattedValueNode(self, n):
        f = n.get("format_spec")
        if isinstance(f, dict):
            f = self.e(f)
            f = f if isinstance(f, ast.JoinedStr) else ast.JoinedStr([f])
        else:
            f = None
        c = n.get("conversion_char")
        return ast.FormattedValue(self.e(n["value"]), ord(c) if isinstance(c, str) and c else -1, f)

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n["function"]), [self.e(x) for x in n["args"] or ()], [])

    def e_GeneralCallNode(self, n):
        pa = n["positional_args"]
        if pa["k"] == "TupleNode":
            args = [self.e(x) for x in pa["args"]]
        elif pa["k"] == "AsTupleNode":
            args = [ast.Starred(self.e(pa["arg"]), ast.Load())]
        else:
            raise Front("line %s: star call" % n["line"])
        kw = []
        ka = n.get("keyword_args")
        if ka:
            if ka["k"] == "DictNode":
                for it in ka["key_value_pairs"]:
                    kw.append(ast.keyword(self.e(it["key"]).value, self.e(it["value"])))
            elif ka["k"] == "MergedDictNode" and len(ka["keyword_args"]) == 1:
                kw.append(ast.keyword(None, self.e(ka["keyword_args"][0])))
            else:
                kw.append(ast.keyword(None, self.e(ka)))
        return ast.Call(self.e(n["function"]), args, kw)

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(x) for x in n["args"]], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(x) for x in n["args"]], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(x) for x in n["args"]])

    def e_DictNode(self, n):
        its = n["key_value_pairs"]
        return ast.Dict([self.e(x["key"]) for x in its], [self.e(x["value"]) for x in its])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n["operand"]))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n["operand"]))

    def e_UnaryPlusNode(self, n):
        return self.e(n["operand"])

    def e_BoolBinopNode(self, n):
        op = ast.And() if n["operator"] == "and" else ast.Or()
        return ast.BoolOp(op, [self.e(n["operand1"]), self.e(n["operand2"])])

    def e_PrimaryCmpNode(self, n):
        ops, rest = [CMP[n["operator"]]()], [self.e(n["operand2"])]
        c = n.get("cascade")
        while c:
            ops.append(CMP[c["operator"]]())
            rest.append(self.e(c["operand2"]))
            c = c.get("cascade")
        return ast.Compare(self.e(n["operand1"]), ops, rest)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n["test"]), self.e(n["true_val"]), self.e(n["false_val"]))

    def e_TypecastNode(self, n):
        return self.call("__cast__", ast.Constant(str((n.get("base_type") or {}).get("name"))), self.e(n["operand"]))

    def e_AmpersandNode(self, n):
        return self.call("__addr__", self.e(n["operand"]))

    def e_SizeofTypeNode(self, n):
        b = n["base_type"]
        return self.call("__sizeof__", ast.Constant(b.get("name", "?") + "*" * declstars(n.get("declarator"))))

    def e_LambdaNode(self, n):
        raise Front("line %s: lambda" % n["line"])

    def comp(self, loop):
        gens = []
        while True:
            k = loop["k"]
            if k == "ForInStatNode":
                gens.append(ast.comprehension(self.e(loop["target"]), self.e(loop["iterator"]["sequence"]), [], 0))
                loop = loop["body"]
            elif k == "IfStatNode":
                c = loop["if_clauses"][0]
                gens[-1].ifs.append(self.e(c["condition"]))
                loop = c["body"]
            elif k == "ComprehensionAppendNode":
                return gens, self.e(loop["expr"])
            elif k == "DictComprehensionAppendNode":
                return gens, (self.e(loop["key_expr"]), self.e(loop["value_expr"]))
            elif k == "ExprStatNode":
                loop = loop["expr"]
            elif k == "YieldExprNode":
                return gens, self.e(loop["arg"])
            elif k == "StatListNode" and len(loop["stats"]) == 1:
                loop = loop["stats"][0]
            else:
                raise Front("line %s: comprehension %s" % (loop.get("line"), k))

    def e_ComprehensionNode(self, n):
        gens, el = self.comp(n["loop"])
        if isinstance(el, tuple):
            return ast.DictComp(el[0], el[1], gens)
        if "set" in str(n.get("ctype")):
            return ast.SetComp(el, gens)
        return ast.ListComp(el, gens)

    def e_GeneratorExpressionNode(self, n):
        gens, el = self.comp(n["loop"])
        return ast.GeneratorExp(el, gens)
    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    # ---- statements
    def s(self, n):
        if n is None:
            return []
        f = getattr(self, "s_" + n["k"], None)
        if f is None:
            raise Front("line %s: statement %s" % (n.get("line"), n["k"]))
        r = f(n)
        for x in r if isinstance(r, list) else [r]:
            self.at(x, n) if not getattr(x, "lineno", None) else None
        return r if isinstance(r, list) else [r]

    def s_StatListNode(self, n):
        out = []
        for x in n["stats"]:
            out += self.s(x)
        return out

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n["expr"]))

    def s_SingleAssignmentNode(self, n):
        if n["rhs"] and n["rhs"]["k"] == "ImportNode":
            return ast.Pass()
        return ast.Assign([self.e(n["lhs"])], self.e(n["rhs"]))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.e(x) for x in n["lhs_list"]], self.e(n["rhs"]))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.e(n["lhs"]), OPS[n["operator"]](), self.e(n["rhs"]))

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.get("value")) if isinstance(n.get("value"), dict) else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.get("exc_type")), self.e(n.get("cause")))

    def s_IfStatNode(self, n):
        orelse = self.s(n.get("else_clause"))
        for c in reversed(n["if_clauses"]):
            orelse = [self.at(ast.If(self.e(c["condition"]), self.s(c["body"]), orelse), c)]
        return orelse

    def s_ForInStatNode(self, n):
        return ast.For(self.e(n["target"]), self.e(n["iterator"]["sequence"]), self.s(n["body"]), self.s(n.get("else_clause")))

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n["condition"]), self.s(n["body"]), self.s(n.get("else_clause")))

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n["except_clauses"]:
            p = c.get("pattern")
            if isinstance(p, list):
                p = p[0] if len(p) == 1 else {"k": "TupleNode", "args": p, "line": c["line"]}
            hs.append(ast.ExceptHandler(self.e(p) if p else None, (c.get("target") or {}).get("name"), self.s(c["body"])))
        return ast.Try(self.s(n["body"]), hs, self.s(n.get("else_clause")), [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.s(n["body"]), [], [], self.s(n["finally_clause"]))

    def s_WithStatNode(self, n):
        body = n["body"]
        tgt = n.get("target")
        return ast.With([ast.withitem(self.e(n["manager"]), self.e(tgt) if isinstance(tgt, dict) else None)], self.s(body))

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(n.get("cond") or n.get("condition")), None)

    def s_CVarDefNode(self, n):
        out = []
        for d in n["declarators"]:
            nm = declname(d)
            self.ctypes[nm] = (n["base_type"].get("name"), declstars(d))
            x = d
            while x.get("k") != "CNameDeclaratorNode":
                x = x.get("base")
            if x.get("default"):
                out.append(ast.Assign([self.name(nm)], self.e(x["default"])))
        return out or [ast.Pass()]

    def s_DelStatNode(self, n):
        return ast.Delete([self.e(x) for x in n["args"]])

    def skip(self, n):
        return ast.Pass()
    s_CImportStatNode = s_FromCImportStatNode = s_FromImportStatNode = s_ImportNode = s_GlobalNode = skip

    def args(self, n):
        pos, kwonly, defs, kwdefs = [], [], [], []
        nk = n.get("num_kwonly_args", 0)
        al = [a for a in n["args"]]
        for a in al:
            nm = declname(a["declarator"]) or (a["base_type"] or {}).get("name")
            x = ast.arg(nm)
            pos.append(x)
            defs.append(self.e(a["default"]) if isinstance(a.get("default"), dict) else None)
        A = ast.arguments([], pos, None, [], [], None, [])
        A.all_defaults = defs
        sa, ka = n.get("star_arg"), n.get("starstar_arg")
        A.vararg = ast.arg(sa["name"]) if isinstance(sa, dict) and sa.get("name") else None
        A.kwarg = ast.arg(ka["name"]) if isinstance(ka, dict) and ka.get("name") else None
        return A

    def body(self, n):
        try:
            return self.s(n), None
        except Front as e:
            return [ast.Pass()], str(e)

    def s_DefNode(self, n):
        decs = [self.e(d["decorator"]) for d in n.get("decorators") or ()]
        b, err = self.body(n["body"])
        f = ast.FunctionDef(n["name"], self.args(n), b, decs, None)
        f.unsupported = err
        return f

    def s_CFuncDefNode(self, n):
        d = n["declarator"]
        while d.get("k") != "CFuncDeclaratorNode":
            d = d["base"]
        m = {"args": d["args"]}
        b, err = self.body(n["body"])
        f = ast.FunctionDef(declname(d), self.args(m), b, [], None)
        f.unsupported = err
        return f


def load(path):
    """-> (module functions {name: FunctionDef}, module assignments {name: expr}, classes {name: {...}})"""
    t = parse_tree(path)
    c = Conv()
    funcs, consts, classes = {}, {}, {}

    def stats(n):
        b = n.get("body") or n
        return b["stats"] if b["k"] == "StatListNode" else [b]
    for n in stats(t):
        if n["k"] in ("DefNode", "CFuncDefNode"):
            f = c.s(n)[0]
            funcs[f.name] = f
        elif n["k"] == "SingleAssignmentNode":
            for x in c.s(n):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                    consts[x.targets[0].id] = x.value
        elif n["k"] in ("CClassDefNode", "PyClassDefNode", "ClassDefNode"):
            name = n.get("class_name") or n.get("name") or declname(n.get("declarator")) or "?"
            cl = {"methods": {}, "getters": {}, "setters": {}, "static": {}, "line": n["line"], "fields": {}}
            for m in stats(n["body"]):
                if m["k"] == "CVarDefNode":
                    for d in m["declarators"]:
                        cl["fields"][declname(d)] = m["base_type"].get("name")
                if m["k"] not in ("DefNode", "CFuncDefNode"):
                    continue
                f = c.s(m)[0]
                kind = "methods"
                for d in f.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "getters"
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        kind = "static"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setters"
                    elif isinstance(d, ast.Attribute) and d.attr == "getter":
                        kind = "getters"
                    else:
                        raise Front("decorator %s" % ast.dump(d))
                cl[kind][f.name] = f
            classes[name] = cl
    return funcs, consts, classes, c.ctypes
