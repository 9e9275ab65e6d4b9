"""Contracts of stdio, the string functions and libconfig as the command line program uses them.

Texts are ghost state: `#text` of a buffer is the sequence of pieces written into it, a piece being a literal, a
conversion of a value, or the text of another buffer.
"""
import ast
import json
import re
from dv.term import *
from dv.sym import STD, die, noop, Unsupported, mk, allocate
from specs.toolbox import TOOLS, ev

CONV = re.compile(r"%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L|q)?([diouxXeEfFgGcsp%])")


def lit(p):
    """the characters of a literal (clang prints it as it is written in C)"""
    return ast.literal_eval(p.args[0]) if p.op == "strlit" else None


def clit(s):
    return mk("strlit", (json.dumps(s),), "P")


def piece(s):
    return mk("app", ("lit", s), "P")


def ispiece(x):
    return x.op == "app" and x.args[0] == "lit"


def where(p):
    return fld(pointee(p), "#text")


def text(ex, st, p):
    s = lit(p)
    if s is not None:
        return cat(piece(s))
    return ex.simp(ex.read(st, where(p), "P"))


def cat(*ts):
    out = []
    for t in ts:
        for x in (t.args[1:] if t.op == "app" and t.args[0] == "cat" else (t,)):
            if out and ispiece(x) and ispiece(out[-1]):
                out[-1] = piece(out[-1].args[1] + x.args[1])
            elif not (ispiece(x) and x.args[1] == ""):
                out.append(x)
    return mk("app", ("cat",) + tuple(out), "P")


def formatted(ex, st, fmt, args):
    """the text a format and its arguments make"""
    f = lit(fmt)
    if f is None:           # a text used as its own format: ours have no conversions
        return text(ex, st, fmt)
    out, k, args = [], 0, list(args)
    for m in CONV.finditer(f):
        if f[k:m.start()]:
            out.append(piece(f[k:m.start()]))
        k = m.end()
        c = m.group(5)
        if c == "%":
            out.append(piece("%"))
            continue
        if not args:
            raise Unsupported("too few arguments for the format %r" % f)
        a = args.pop(0)
        if c == "s":
            out.append(text(ex, st, a))
        else:
            if c in "eEfFgG":
                if a.sort != "R":
                    raise Unsupported("%%%s of an integer" % c)
                kind = c.lower() + (m.group(3) or "6")
            else:
                if a.sort not in ("I", "B"):
                    raise Unsupported("%%%s of a %s" % (c, a.sort))
                a, kind = toI(a), "d"
            out.append(mk("app", ("put", kind, a), "P"))
    if "%" in CONV.sub("", f):
        raise Unsupported("format %r" % f)
    if f[k:]:
        out.append(piece(f[k:]))
    return cat(*out)


def c_snprintf(ex, fr, st, v, n):
    ex.write(st, where(v[0]), formatted(ex, st, v[2], v[3:]))
    return app("snprintf", tuple(v[:2]), "I")


def c_sprintf(ex, fr, st, v, n):
    ex.write(st, where(v[0]), formatted(ex, st, v[1], v[2:]))
    return app("sprintf", tuple(v[:1]), "I")


def c_copy(ex, fr, st, v, n):
    ex.write(st, where(v[0]), text(ex, st, v[1]))
    return v[0]


def c_append(ex, fr, st, v, n):
    ex.write(st, where(v[0]), cat(text(ex, st, v[0]), text(ex, st, v[1])))
    return v[0]


def c_strcmp(ex, fr, st, v, n):
    a, b = [text(ex, st, x) for x in v[:2]]
    pa, pb = [x.args[1:] if x.op == "app" and x.args[0] == "cat" else (x,) for x in (a, b)]
    if all(ispiece(x) for x in pa + pb):
        sa, sb = ["".join(x.args[1] for x in p) for p in (pa, pb)]
        return num((sa > sb) - (sa < sb), "I")
    return app("strcmp", (a, b), "I")


def c_fopen(ex, fr, st, v, n):
    f = mk("app", ("file", len([e for e in st.events if e[0] == "fopen"])), "P") if not ex.loopstack else None
    if f is None:
        raise Unsupported("a file opened in a loop")
    ev(st, "fopen", (f, text(ex, st, v[0]), lit(v[1])))
    return f


def c_fprintf(ex, fr, st, v, n):
    ev(st, "fprintf", (v[0], formatted(ex, st, v[1], v[2:])))
    return app("fprintf", (v[0],), "I")


def c_fputs(ex, fr, st, v, n):
    ev(st, "fprintf", (v[1], text(ex, st, v[0])))
    return app("fputs", (v[1],), "I")


def c_fclose(ex, fr, st, v, n):
    ev(st, "fclose", (v[0],))
    return num(0, "I")


def c_config_write(ex, fr, st, v, n):
    ev(st, "config_write", (v[0], text(ex, st, v[1])))
    return num(1, "I")


def c_make_path(ex, fr, st, v, n):
    """the directory exists afterwards and its name ends in a slash"""
    ev(st, "make_path", (text(ex, st, v[0]),))
    ex.write(st, where(v[0]), mk("app", ("dir", text(ex, st, v[0])), "P"))
    return num(0, "I")


OUTPUT = dict(TOOLS)
OUTPUT.update({"snprintf": c_snprintf, "sprintf": c_sprintf, "strcpy": c_copy, "strncpy": c_copy, "strcat": c_append, "strncat": c_append,
               "strcmp": c_strcmp, "fopen": c_fopen, "fprintf": c_fprintf, "fputs": c_fputs, "fclose": c_fclose,
               "config_write_file": c_config_write, "output_make_path": c_make_path,
               "print_error": noop, "print_error_verbose": noop, "coffe_print_error": noop, "exit": die, "printf": noop,
               "clock": lambda ex, fr, st, v, n: app("clock", (num(len(st.events), "I"),), "I")})


# ---- libconfig: the settings file is the map from names to values below ---------

class Settings(object):
    """the contents of a settings file: which optional names it has, and the values the program branches on"""

    def __init__(self, ints=(), absent=(), labels=()):
        self.ints, self.absent, self.labels = dict(ints), set(absent), None if labels is None else list(labels)
        self.asked = set()

    def name(self, ex, st, p):
        s = text(ex, st, p)
        parts = s.args[1:] if s.op == "app" and s.args[0] == "cat" else (s,)
        if not all(ispiece(x) for x in parts):
            raise Unsupported("a setting whose name is %s" % str(s)[:80])
        s = "".join(x.args[1] for x in parts)
        self.asked.add(s)
        return s

    def number(self, name, sort):
        if sort == "I" and name in self.ints:
            return num(self.ints[name], "I")
        return app("cfg", (clit(name),), sort)

    def scalar(self, sort):
        def h(ex, fr, st, v, n):
            name = self.name(ex, st, v[1])
            if name in self.absent:
                if ex.decide(bnot(eq(toI(v[3]), num(0, "I"))), st) is TRUE:
                    return die(ex, fr, st, v, n)
                return num(1, "I")
            ex.write(st, pointee(v[2]), self.number(name, sort))
            return num(0, "I")
        return h

    def string(self, ex, fr, st, v, n):
        name = self.name(ex, st, v[1])
        if name in self.absent:
            return die(ex, fr, st, v, n)
        ex.write(st, where(v[2]), app("cfg", (clit(name),), "P"))
        return num(0, "I")

    def array(self, sort):
        def h(ex, fr, st, v, n):
            name = self.name(ex, st, v[1])
            if name in self.absent:
                return num(1, "I")
            if sort == "P" and self.labels is not None:
                p = allocate(ex, fr, st, v, n)
                for i, s in enumerate(self.labels):
                    ex.write(st, pointee(ex.padd(p, num(i, "I"))), clit(s))
                ex.write(st, pointee(v[2]), p)
                ex.write(st, pointee(v[3]), num(len(self.labels), "I"))
            else:
                ex.write(st, pointee(v[2]), app("cfgarray", (clit(name),), "P"))
                ln = app("cfglen", (clit(name),), "I")
                ex.unsigned_terms.add(ln)
                ex.N.bound_below(ln, 0, True)
                ex.write(st, pointee(v[3]), ln)
            return num(0, "I")
        return h

    def lookup(self, ex, fr, st, v, n):
        name = self.name(ex, st, v[1])
        return NULL if name in self.absent else mk("app", ("new", "setting:" + name), "P")

    def bias(self, ex, fr, st, v, n):
        conf, setting, filename, single, spline, method, flag = v
        ev(st, "bias", (self.name(ex, st, setting), self.name(ex, st, single), filename, spline, toI(method), toI(flag)))
        return num(0, "I")
