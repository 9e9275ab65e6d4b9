"""Numeric evaluation of specification terms (used only to replay obligations)."""
import math
from . import term as T


class EvalError(Exception):
    pass


class Evaluator(object):
    """env: {symbol name: number}; hooks: app(f, args) and load(loc) supply table values"""

    def __init__(self, env, app=None, load=None):
        self.env = env
        self.hook_app = app
        self.hook_load = load
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.ev(t)
            self.memo[t.id] = r
        return r

    def ev(self, t):
        op = t.op
        A = t.args
        if op == "num":
            v = T.val(t)
            return int(v) if t.sort == "I" else float(v)
        if op == "sym":
            return math.pi if A[0] == "pi" else self.env[A[0]]
        if op == "add":
            return sum(self(x) for x in A)
        if op == "mul":
            r = 1
            for x in A:
                r *= self(x)
            return r
        if op == "inv":
            return 1.0 / self(A[0])
        if op == "toR":
            return float(self(A[0]))
        if op == "powi":
            return float(self(A[0])) ** int(A[1])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "addr":
            return ("addr", A[0])
        if op == "ite":
            return self(A[1]) if self(A[0]) else self(A[2])
        if op == "not":
            return not self(A[0])
        if op == "and":
            return all(self(x) for x in A)
        if op == "or":
            return any(self(x) for x in A)
        if op == "eq":
            return self(A[0]) == self(A[1])
        if op == "lt":
            return self(A[0]) < self(A[1])
        if op == "le":
            return self(A[0]) <= self(A[1])
        if op == "nz":
            return self(A[0]) != 0
        if op == "idiv":
            return int(math.trunc(self(A[0]) / self(A[1])))
        if op == "imod":
            return math.fmod(self(A[0]), self(A[1]))
        if op == "load":
            return self.hook_load(A[0])
        if op == "app":
            f = A[0]
            if f == "sqrt":
                v = self(A[1])
                return math.sqrt(v) if v > 0 else 0.0
            if f == "fabs":
                return abs(self(A[1]))
            if f in ("exp", "log", "sin", "cos", "floor", "ceil"):
                return getattr(math, f)(self(A[1]))
            if f == "legendre":
                return legendre(int(self(A[1])), self(A[2]))
            return self.hook_app(f, A[1:], self)
        raise EvalError("op %s" % op)


def legendre(n, x):
    a, b = 1.0, x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((2 * k + 1) * x * b - k * a) / (k + 1)
    return b
