"""clang AST front end: the verified text is what clang parses from /repo/src on every run."""
import json
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
CFLAGS = ["-std=gnu99", "-fopenmp", "-Wno-error=implicit-function-declaration"]


class FrontEndError(Exception):
    pass


class TU(object):
    """one parsed translation unit"""

    def __init__(self, path, defines=(), incdirs=()):
        self.path = path
        cmd = ["clang"] + CFLAGS + ["-I" + os.path.join(REPO, "src"), "-idirafter", os.path.join(os.path.dirname(os.path.abspath(__file__)), "include")] + ["-I" + d for d in incdirs] + \
            ["-D" + d for d in defines] + \
            ["-w", "-Xclang", "-ast-dump=json", "-fsyntax-only", path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontEndError("clang rejects %s: %s" % (path, p.stderr.decode()[:2000]))
        root = json.loads(p.stdout)
        self.functions = {}
        self.records = {}      # id -> node ; name -> node
        self.recname = {}
        self.typedefs = {}
        self.enums = {}        # constant id -> value ; name -> value
        self.enumname = {}
        self.globals = {}
        self.idnode = {}
        self.collect(root, True)
        self.fname = os.path.basename(path)

    def collect(self, node, top):
        for d in node.get("inner", ()):
            k = d.get("kind")
            if k == "FunctionDecl":
                has = any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ()))
                if has:
                    self.functions[d["name"]] = d
                elif d["name"] not in self.functions:
                    pass
            elif k == "RecordDecl":
                self.record(d)
            elif k == "EnumDecl":
                self.enum(d)
            elif k == "TypedefDecl":
                self.typedefs[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
                self.typedef_owner(d)
            elif k == "VarDecl":
                self.globals[d["id"]] = d

    def typedef_owner(self, d):
        # typedef struct {...} name;  -> ElaboratedType/ownedTagDecl
        def walk(n):
            if "ownedTagDecl" in n:
                rid = n["ownedTagDecl"]["id"]
                if rid in self.records:
                    self.recname[d["name"]] = self.records[rid]
            if "decl" in n and n["decl"].get("kind") == "RecordDecl":
                rid = n["decl"]["id"]
                if rid in self.records:
                    self.recname.setdefault(d["name"], self.records[rid])
            for c in n.get("inner", ()):
                walk(c)
        walk(d)

    def record(self, d):
        fields = []
        for c in d.get("inner", ()):
            if c.get("kind") == "FieldDecl":
                fields.append((c.get("name", ""), c["type"]))
            elif c.get("kind") == "RecordDecl":
                self.record(c)
            elif c.get("kind") == "EnumDecl":
                self.enum(c)
        if d.get("completeDefinition") or fields:
            self.records[d["id"]] = fields
            if d.get("name"):
                self.recname[d["name"]] = fields
                self.recname["struct " + d["name"]] = fields

    def enum(self, d):
        v = -1
        for c in d.get("inner", ()):
            if c.get("kind") == "EnumConstantDecl":
                val = None
                for x in c.get("inner", ()):
                    val = self.constval(x)
                    if val is not None:
                        break
                v = val if val is not None else v + 1
                self.enums[c["id"]] = v
                self.enumname[c["name"]] = v

    def constval(self, x):
        if x.get("kind") in ("ConstantExpr", "IntegerLiteral") and "value" in x:
            return int(x["value"])
        for c in x.get("inner", ()):
            r = self.constval(c)
            if r is not None:
                return r
        return None

    def fields_of(self, tname):
        t = strip(tname)
        for _ in range(6):
            if t in self.recname:
                return self.recname[t]
            if t.startswith("struct ") and t[7:] in self.recname:
                return self.recname[t[7:]]
            if t in self.typedefs:
                t = strip(self.typedefs[t])
                continue
            return None
        return None


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for q in ("const ", "volatile ", "restrict ", "register ", "static "):
            if t.startswith(q):
                t = t[len(q):].strip()
                ch = True
        for q in (" const", " volatile", " restrict", "const", "*restrict"):
            if t.endswith(q):
                if q == "*restrict":
                    t = t[:-len("restrict")]
                else:
                    t = t[:-len(q)].strip()
                ch = True
    return t


REALS = {"double", "float", "long double"}
COMPLEX = {"_Complex double", "_Complex float", "_Complex long double"}     # one commutative field with the reals inside; see dv/cplx.py
INTS = {"int", "unsigned int", "long", "unsigned long", "size_t", "char", "unsigned char", "signed char",
        "short", "unsigned short", "long long", "unsigned long long", "_Bool", "bool", "unsigned", "ssize_t",
        "time_t", "clock_t", "__time_t", "__clock_t"}
UNSIGNED = {"unsigned int", "unsigned long", "size_t", "unsigned char", "unsigned short", "unsigned long long",
            "unsigned", "_Bool", "bool"}


def sort_of(tu, ty):
    """'R','I','P','A' (array),'S' (struct or opaque),'V' for a clang type object or string"""
    if isinstance(ty, dict):
        q = ty.get("desugaredQualType", ty.get("qualType"))
    else:
        q = ty
    q = strip(q)
    for _ in range(6):
        if q.endswith("]"):
            return "A"
        if q.endswith("*") or "(*" in q:
            return "P"
        if q in REALS or q in COMPLEX:
            return "R"
        if q in INTS or q.startswith("enum "):
            return "I"
        if q == "void":
            return "V"
        if "(" in q and q.endswith(")"):
            return "F"
        if q in tu.typedefs:
            q = strip(tu.typedefs[q])
            continue
        break
    return "S"


def is_unsigned(tu, ty):
    q = strip(ty.get("desugaredQualType", ty.get("qualType"))) if isinstance(ty, dict) else strip(ty)
    for _ in range(6):
        if q in UNSIGNED:
            return True
        if q in tu.typedefs:
            q = strip(tu.typedefs[q])
            continue
        return False
    return False


_cache = {}


def load(name, defines=()):
    path = name if os.path.isabs(name) else os.path.join(REPO, "src", name)
    key = (path, tuple(defines))
    if key not in _cache:
        _cache[key] = TU(path, defines)
    return _cache[key]
