"""Turns the partition summary of a small integer function (an action or goto lookup) into a decision procedure over
concrete table indexes: the summary's terms are evaluated on constants, the repository's code is not run."""
from .dump import AnalysisError
from .eng import Engine, T, Arr, mk, show, INT_RANGE


class Table:
    """A function of integer arguments read off its MIR."""

    def __init__(self, prog, name):
        self.fn = fn = prog.one(name)
        self.args = [mk("sym", ("x%d" % i,), fn["locals"][i + 1]) for i in range(fn["nargs"])]
        e = Engine(prog, panics=True)
        self.finals = e.run(fn, list(self.args))
        self.arrs = []
        self.local = {}
        self.tmp = []
        rows, panics = [], 0
        for f in self.finals:
            if f.status == "unreachable":
                continue
            if f.status == "panic":
                panics += 1
                continue
            if f.status != "return":
                raise AnalysisError("%s: %s" % (name, f.why or f.status))
            conds = []
            for b, v in f.facts.items():
                conds.append("%s(%s)" % ("" if v else "not ", self.expr(b)))
            rows.append((conds, self.retx(f.ret)))
        self.panics = panics
        if not rows:
            raise AnalysisError("%s never returns" % name)
        src = ["def f(%s):" % ", ".join("x%d" % i for i in range(fn["nargs"]))]
        for conds, r in rows:
            src.append("  if %s: return %s" % (" and ".join(conds) or "True", r))
        src.append("  return None")
        env = {"A": [a for a in self.arrs], "wrap": wrap}
        for i, a in enumerate(self.arrs):
            env["A%d" % i] = a.v
        exec("\n".join(src), env)
        self.src = "\n".join(src)
        self.f = env["f"]

    def __call__(self, *a):
        """The result, or None when an index lies outside its table."""
        try:
            return self.f(*a)
        except IndexError:
            return None

    def retx(self, v):
        if isinstance(v, tuple) and v and v[0] == "adt":
            return "(%d, (%s))" % (v[2], "".join(self.retx(x) + "," for x in v[3]))
        if isinstance(v, tuple) and v and v[0] == "tup":
            return "(%s)" % "".join(self.retx(x) + "," for x in v[1])
        return self.expr(v)

    def expr(self, t):
        if isinstance(t, int):
            return str(t)
        if isinstance(t, Arr):
            for i, a in enumerate(self.arrs):
                if a is t:
                    return "A%d" % i
            self.arrs.append(t)
            return "A%d" % (len(self.arrs) - 1)
        if isinstance(t, T):
            if t.op == "sym" and t in self.args:
                return str(t.args[0])
            if t.op == "lin":
                return "(%s)" % " + ".join([str(t.args[0])] + ["%d*%s" % (k, self.expr(x)) for x, k in t.args[1]])
            if t.op == "elem":
                return "%s[chk(%s)]" % (self.expr(t.args[0]), self.expr(t.args[1])) if False else \
                    "%s[%s]" % (self.expr(t.args[0]), self.expr(t.args[1]))
            if t.op == "cast" and t.args[1] in INT_RANGE:
                return "wrap(%s, %d, %d)" % ((self.expr(t.args[0]),) + INT_RANGE[t.args[1]])
            if t.op == "eqz":
                return "%s == 0" % self.expr(t.args[0])
            if t.op == "lez":
                return "%s <= 0" % self.expr(t.args[0])
            if t.op == "not":
                return "not (%s)" % self.expr(t.args[0])
        raise AnalysisError("term %s is outside the table language" % show(t))


def wrap(v, lo, hi):
    return v if lo <= v <= hi else (v - lo) % (hi - lo + 1) + lo
