"""Random EndBASIC sessions.

Programs follow a few conventions that keep them within what the specification describes:
variables are defined before any other statement of their scope, loops use dedicated counters,
and jumps do not cross the boundaries of callables.
"""
import json
import random
from langgen import Render, Writer, MAXI

INTS = [0, 1, 2, 3, 5, 7, 10, 12, 31, 32, 100, 255, 256, 1000, 32767, 46340, 46341, 65535, 65536,
        1073741823, 1073741824, MAXI - 1, MAXI]
STRS = ["", "a", "b", "ab", "hello", "x y", "ABC", "zz", "1", "Q\"q", "A\\b", "\u00f1and\u00fa", "tab,"]
RELS = ["=", "<>", "<", "<=", ">", ">="]
UNDEF = ["ZZ", "QQQ", "W_1"]
ALLT = "idbt"


class Profile:
    """Weights of the features that the programs use."""
    stmts = (4, 9)          # statements in the body of the main program
    depth = 2               # depth of the nested blocks
    edepth = 3              # depth of the expressions
    chunks = (1, 1)
    callables = (0, 1)
    arrays = 0.4
    shared = 0.2
    w = {"let": 4, "print": 5, "if": 2, "if1": 1, "while": 0.7, "do": 1, "for": 1.5, "select": 1,
         "exit": 0.4, "call": 1, "leta": 1, "end": 0.1, "jump": 0.5, "gosub": 0.3, "data": 0.3,
         "onerr": 0.2, "return": 0.05}
    err = 0.04              # chance of an operation that may fail at run time
    serr = 0.0              # chance of a program with static errors
    big = 0.15              # chance of big integers
    brk = 0.0               # chance of a break
    onerr = 0.15            # chance of installing an error handler upfront
    pad = 0.12              # chance of being a big program
    probe = 0.5             # chance of ending with a chunk that shows all variables

    def __init__(self, **kw):
        w = dict(self.w)
        w.update(kw.pop("w", {}))
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)
        self.w = w


class Scope:
    def __init__(self, parent=None, owner=""):
        self.parent = parent
        self.owner = owner       # name of the callable, or "" for the main program
        self.vars = {}           # scalars
        self.arrs = {}           # name -> (type, dims)
        self.counters = 0        # to name the counters of the loops
        self.defs = []           # definitions to put upfront
        self.subs = []           # gosub routines to put at the end
        self.ro = set()          # variables that should not be assigned randomly


class Gen:
    def __init__(self, seed, profile):
        self.rng = random.Random(seed)
        self.p = profile
        self.glob = Scope()      # only vars/arrs matter
        self.calls = {}          # name -> (ret, [types])
        self.label = 0
        self.nsub = 0
        self.fuel = 0
        self.static = False
        self.tamed = 0
        self.w0 = Writer(self.rng)

    # Helpers.

    def chance(self, p):
        return self.rng.random() < p

    def pick(self, xs):
        return self.rng.choice(xs)

    def weighted(self, w):
        ks = list(w)
        return self.rng.choices(ks, [w[k] for k in ks])[0]

    def scalars(self, sc, t):
        out = [n for n, ty in sc.vars.items() if ty == t]
        out += [n for n, ty in self.glob.vars.items() if ty == t and n not in sc.vars]
        return out

    def arrays(self, sc, t):
        out = [(n, a) for n, a in sc.arrs.items() if t in (a[0], None)]
        out += [(n, a) for n, a in self.glob.arrs.items()
                if t in (a[0], None) and n not in sc.vars and n not in sc.arrs]
        return out

    def suf(self, t):
        return t if self.chance(0.15) else ""

    # Expressions.

    def lit(self, t):
        r = self.rng
        if t == "i":
            if self.chance(self.p.big):
                return ("i", r.choice(INTS))
            return ("i", r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 13]))
        if t == "d":
            if self.chance(self.p.big * 0.1):
                return ("D", r.choice(["2147483648", "4000000000", "9007199254740992"]))
            x = r.choice([0, 1, 1, 2, 2, 3])
            m = r.choice([0, 1, 2, 3, 5, 7, 9, 11, 20, 37, 100])
            return ("d", m if x else m, x)
        if t == "b":
            return ("b", r.random() < 0.5)
        return ("t", r.choice(STRS))

    def norm(self, e):
        """Puts a literal double in canonical form (odd mantissa or no fraction)."""
        if e[0] == "d":
            m, x = e[1], e[2]
            while x > 0 and m % 2 == 0:
                m //= 2
                x -= 1
            return ("d", m, x)
        return e

    def badexpr(self, sc, depth):
        """An expression that is likely to have a static error."""
        r = self.rng.random()
        if r < 0.2:
            return ("v", self.pick(UNDEF), self.suf(self.pick(ALLT)))
        if r < 0.35:
            n = self.pick(sorted(sc.vars) or UNDEF)
            return ("v", n, self.pick(ALLT))
        if r < 0.45:
            arrs = self.arrays(sc, None)
            if arrs:
                n, a = self.pick(arrs)
                if self.chance(0.4):
                    return ("v", n, "")
                return ("c", n, self.suf(self.pick(ALLT)), [self.lit(self.pick("iiid")) for _ in range(self.rng.randint(1, 3))])
        if r < 0.55:
            n = self.pick(sorted(sc.vars) or UNDEF)
            return ("c", n, "", [self.lit("i")])
        if r < 0.75 and self.calls:
            n = self.pick(sorted(self.calls))
            k = self.rng.randint(0, 3)
            if k == 0:
                return ("v", n, self.suf(self.pick(ALLT)))
            return ("c", n, self.suf(self.pick(ALLT)), [self.expr(sc, self.pick(ALLT), depth - 1) for _ in range(k)])
        if r < 0.8:
            return ("v", self.pick(["PRINT", "READ", "LEN", "ERRMSG", "UBOUND"]), "")
        if r < 0.84:
            n = self.pick(sorted(sc.vars) + sorted(sc.arrs) + UNDEF + ["PRINT", "LEN", "UBOUND"])
            a = ("v", n, self.suf(self.pick(ALLT))) if self.chance(0.8) else self.expr(sc, self.pick(ALLT), depth - 1)
            return ("c", self.pick(["LBOUND", "UBOUND"]), self.suf(self.pick(ALLT)), [a] + [self.expr(sc, self.pick("idbt"), depth - 1) for _ in range(self.pick([0, 0, 1, 1, 2]))])
        if r < 0.88:
            return ("u", self.pick(["-", "NOT"]), self.expr(sc, self.pick("tbd"), depth - 1))
        op = self.pick(["+", "-", "*", "/", "MOD", "^", "AND", "OR", "XOR", "<<", ">>"] + RELS)
        return ("o", op, self.expr(sc, self.pick(ALLT), depth - 1), self.expr(sc, self.pick(ALLT), depth - 1))

    def expr(self, sc, t, depth=None):
        if depth is None:
            depth = self.rng.randint(0, self.p.edepth)
        if self.static and self.chance(0.08):
            return self.badexpr(sc, max(depth, 0))
        if depth <= 0 or self.chance(0.15):
            vs = self.scalars(sc, t)
            if vs and self.chance(0.65):
                return ("v", self.pick(vs), self.suf(t))
            return self.norm(self.lit(t))
        r = self.rng.random()
        if r < 0.12:
            arrs = self.arrays(sc, t)
            if arrs:
                n, a = self.pick(arrs)
                return ("c", n, self.suf(t), self.subscripts(sc, a[1], depth - 1))
        if r < 0.27:
            c = self.callexpr(sc, t, depth - 1)
            if c:
                return c
        if t == "b":
            k = self.rng.random()
            if k < 0.55:
                ot = self.pick("iiidtb")
                op = self.pick(RELS if ot != "b" else RELS[:2])
                rt = self.pick("id") if ot in "id" and self.chance(0.3) else ot
                return ("o", op, self.expr(sc, ot, depth - 1), self.expr(sc, rt, depth - 1))
            if k < 0.75:
                return ("u", "NOT", self.expr(sc, "b", depth - 1))
            return ("o", self.pick(["AND", "OR", "XOR"]), self.expr(sc, "b", depth - 1),
                    self.expr(sc, "b", depth - 1))
        if t == "t":
            if self.chance(0.06):
                return ("v", "ERRMSG", "")
            if self.tamed:
                o = [self.expr(sc, "t", depth - 1), self.lit("t")]
                self.rng.shuffle(o)
                return ("o", "+", o[0], o[1])
            return ("o", "+", self.expr(sc, "t", depth - 1), self.expr(sc, "t", depth - 1))
        if t == "d":
            k = self.rng.random()
            if k < 0.12:
                return ("u", "-", self.expr(sc, "d", depth - 1))
            lt, rt = self.pick([("d", "d"), ("i", "d"), ("d", "i")])
            if k < 0.75:
                op = self.pick(["+", "-", "+", "-", "*"])
            elif k < 0.85 or not self.chance(self.p.err * 4):
                d = self.pick([("i", 2), ("d", 1, 1), ("i", 4), ("d", 2, 0), ("d", 1, 2)])
                return ("o", "/", self.expr(sc, "d", depth - 1), d)
            elif k < 0.88:
                return ("o", "^", self.expr(sc, "d", depth - 1), ("i", self.rng.randint(0, 3)))
            else:
                op = self.pick(["/", "MOD", "^"])
            return ("o", op, self.expr(sc, lt, depth - 1), self.expr(sc, rt, depth - 1))
        k = self.rng.random()
        if k < 0.1:
            return ("u", self.pick(["-", "-", "NOT"]), self.expr(sc, "i", depth - 1))
        if k < 0.13 and self.arrays(sc, None):
            n, a = self.pick(self.arrays(sc, None))
            dim = [] if len(a[1]) == 1 and self.chance(0.5) else [("i", self.rng.randint(1, len(a[1])))]
            if self.chance(self.p.err * 4):
                dim = self.pick([[], [("i", 0)], [("u", "-", ("i", 1))], [self.num(sc, "i", depth - 1)], [("i", len(a[1]) + 1)]])
            return ("c", self.pick(["LBOUND", "UBOUND", "UBOUND"]), self.suf("i"), [("v", n, self.suf(a[0]))] + dim)
        if k < 0.16:
            return ("c", "LEN", self.suf("i"), [self.expr(sc, "t", depth - 1)])
        if k < 0.62:
            return ("o", self.pick(["+", "-", "*"]), self.expr(sc, "i", depth - 1), self.expr(sc, "i", depth - 1))
        if k < 0.78:
            op = self.pick(["/", "MOD", "^", "<<", ">>"])
            if not self.chance(self.p.err * 8):
                return ("o", op, self.expr(sc, "i", depth - 1), ("i", self.rng.randint(1, 4)))
            return ("o", op, self.expr(sc, "i", depth - 1), self.expr(sc, "i", depth - 1))
        return ("o", self.pick(["AND", "OR", "XOR"]), self.expr(sc, "i", depth - 1), self.expr(sc, "i", depth - 1))

    def num(self, sc, t, depth=None):
        """An expression that can be used where t is expected, maybe needing a conversion."""
        if t in "id" and self.chance(0.2):
            t = "d" if t == "i" else "i"
        return self.expr(sc, t, depth)

    def tame(self, sc, t):
        """An expression for t with strings that cannot grow exponentially."""
        self.tamed += 1
        e = self.num(sc, t)
        self.tamed -= 1
        return e

    def subscripts(self, sc, dims, depth):
        out = []
        for d in dims:
            if self.chance(self.p.err * 3):
                out.append(self.num(sc, "i", depth))
            elif self.chance(0.3) and self.scalars(sc, "i"):
                out.append(("o", "MOD", ("v", self.pick(self.scalars(sc, "i")), ""), ("i", d)))
            else:
                out.append(("i", self.rng.randint(0, d - 1)))
        return out

    def callable_ok(self, sc, n):
        # Callables only call those that were defined before them, other than for recursion.
        return not sc.owner or (n in self.order and self.order.index(n) < self.order.index(sc.owner))

    def callexpr(self, sc, t, depth):
        fns = [n for n, (ret, _) in self.calls.items() if ret == t and self.callable_ok(sc, n)]
        if sc.owner:
            fns = [n for n in fns if n != sc.owner]
        if not fns:
            return None
        n = self.pick(sorted(fns))
        types = self.calls[n][1]
        if not types:
            return ("v", n, self.suf(t))
        return ("c", n, self.suf(t), self.args(sc, n, depth))

    def args(self, sc, n, depth):
        out = []
        self.tamed += 1
        for i, ty in enumerate(self.calls[n][1]):
            if i == 0 and n in self.recursive:
                out.append(("i", self.rng.randint(0, 4)))
            else:
                out.append(self.num(sc, ty, depth))
        self.tamed -= 1
        return out

    # Statements.

    def counter(self, sc, pre, t="i"):
        sc.counters += 1
        n = "%s%d" % (pre, sc.counters)
        self.define(sc, n, t)
        sc.ro.add(n)
        return n

    def define(self, sc, n, t):
        sc.vars[n] = t
        if self.chance(0.2):
            sc.defs.append({"k": "dim", "n": n, "t": t})
        else:
            e = self.norm(self.lit(t))
            if t == "i":
                e = ("i", self.rng.randint(0, 9))
            sf = ""
            if self.chance(0.3):
                sf = t
                if t == "d" and self.chance(0.5):
                    e = ("i", self.rng.randint(0, 9))
            if e[0] == "D":
                e = ("d", 3, 1)
            sc.defs.append({"k": "let", "n": n, "sf": sf, "e": e})

    def newlabel(self):
        self.label += 1
        return "L%d" % self.label

    def block(self, sc, n, depth, loops):
        out = []
        for _ in range(n):
            out.extend(self.stmt(sc, depth, loops))
        return out

    def body(self, sc, depth, loops):
        return self.block(sc, self.rng.randint(0 if self.chance(0.2) else 1, 3), depth - 1, loops)

    def stmt(self, sc, depth, loops):
        w = dict(self.p.w)
        if depth <= 0:
            for k in ("if", "while", "do", "for", "select", "jump"):
                w[k] = 0
        if not loops and not sc.owner and not (self.static and self.chance(0.3)):
            w["exit"] = 0
        if not self.arrays(sc, None):
            w["leta"] = 0
        k = self.weighted(w)
        return getattr(self, "s_" + k)(sc, depth, loops)

    def s_let(self, sc, depth, loops):
        cands = [(n, t) for n, t in list(sc.vars.items()) + [(n, t) for n, t in self.glob.vars.items() if n not in sc.vars]
                 if n not in sc.ro or self.chance(0.02)]
        if self.static and self.chance(0.1):
            n = self.pick(UNDEF + sorted(self.calls) + [x for x, _ in self.arrays(sc, None)])
            return [{"k": "let", "n": n, "sf": self.suf(self.pick(ALLT)), "e": self.expr(sc, self.pick(ALLT))}]
        if not cands:
            return []
        n, t = self.pick(cands)
        sf = self.suf(t)
        if self.static and self.chance(0.1):
            t = self.pick(ALLT)
        return [{"k": "let", "n": n, "sf": sf, "e": self.tame(sc, t)}]

    def s_leta(self, sc, depth, loops):
        n, (t, dims) = self.pick(self.arrays(sc, None))
        subs = self.subscripts(sc, dims, 1)
        if self.static and self.chance(0.15):
            subs = subs + [("i", 0)] if self.chance(0.5) else subs[:-1]
            if not subs:
                subs = [("i", 0), ("i", 0), ("i", 0)]
            if self.chance(0.3):
                n = self.pick(UNDEF + sorted(sc.vars))
        return [{"k": "leta", "n": n, "sf": self.suf(t), "subs": subs, "e": self.tame(sc, t)}]

    def s_print(self, sc, depth, loops):
        items = []
        for _ in range(self.rng.randint(0 if self.chance(0.1) else 1, 3)):
            items.append((self.expr(sc, self.pick("iiddbt")), self.pick([";", ";", ","])))
        return [{"k": "print", "items": items, "trail": self.chance(0.1)}]

    def s_if(self, sc, depth, loops):
        br = [(self.expr(sc, "b"), self.body(sc, depth, loops))]
        while self.chance(0.3):
            br.append((self.expr(sc, "b"), self.body(sc, depth, loops)))
        if self.chance(0.4):
            br.append((None, self.body(sc, depth, loops)))
        return [{"k": "if", "br": br}]

    def simple(self, sc, loops):
        for _ in range(5):
            k = self.weighted({"let": 2, "print": 3, "call": 1, "exit": 1 if loops else 0})
            s = getattr(self, "s_" + k)(sc, 0, loops)
            if s:
                return s[0]["body"] if s[0]["k"] == "if1" else s[0]
        return {"k": "print", "items": [(("i", 1), "")]}

    def s_if1(self, sc, depth, loops):
        s = {"k": "if1", "g": self.expr(sc, "b"), "body": self.simple(sc, loops)}
        if self.chance(0.3):
            s["else"] = self.simple(sc, loops)
        return [s]

    def s_while(self, sc, depth, loops):
        k = self.counter(sc, "K")
        inc = {"k": "let", "n": k, "e": ("o", "+", ("v", k, ""), ("i", 1))}
        g = ("o", self.pick(["<", "<="]), ("v", k, ""), ("i", self.rng.randint(0, 3)))
        if self.chance(0.2):
            g = ("o", "AND", g, self.expr(sc, "b", 1))
        return [{"k": "let", "n": k, "e": ("i", 0)},
                {"k": "while", "g": g, "body": [inc] + self.body(sc, depth, loops)}]

    def s_do(self, sc, depth, loops):
        k = self.counter(sc, "K")
        dk = self.pick(["inf", "preu", "prew", "postu", "postw"])
        inc = {"k": "let", "n": k, "e": ("o", "+", ("v", k, ""), ("i", 1))}
        n = ("i", self.rng.randint(0, 3))
        body = [inc] + self.body(sc, depth, loops + ["DO"])
        s = {"k": "do", "dk": dk}
        if dk == "inf":
            ex = {"k": "if1", "g": ("o", ">", ("v", k, ""), n), "body": {"k": "exit", "what": "DO"}}
            body.insert(self.rng.randint(1, len(body)), ex)
            if self.chance(0.3):
                # Breaks out of the loop from the end of nested blocks.
                body[-1] = {"k": "if", "br": [(("o", "<=", ("v", k, ""), n), [{"k": "print", "items": [(("v", k, ""), "")]}]),
                                              (None, [{"k": "exit", "what": "DO"}])]}
        elif dk in ("preu", "postu"):
            s["g"] = ("o", self.pick([">", ">="]), ("v", k, ""), n)
        else:
            s["g"] = ("o", self.pick(["<", "<="]), ("v", k, ""), n)
        s["body"] = body
        return [{"k": "let", "n": k, "e": ("i", 0)}, s]

    def s_for(self, sc, depth, loops):
        t = "d" if self.chance(0.2) else "i"
        # The limit is evaluated on every iteration, so it must not depend on the iterator.
        other = self.num(sc, t, 1)
        if t == "i":
            k = self.counter(sc, "I")
            a, b = self.rng.randint(0, 3), self.rng.randint(0, 5)
            step = None
            start, end = ("i", a), ("i", b)
            if self.chance(0.4):
                st = self.pick([1, 2, 3, -1, -2])
                step = ("i", st)
                if st < 0:
                    start, end = ("i", b), ("i", a)
        else:
            k = self.counter(sc, "F", "d")
            step = self.pick([("d", 1, 1), ("d", 1, 2), ("d", -1, 1), ("d", 3, 1), ("i", 1)])
            start, end = ("i", self.rng.randint(0, 2)), self.norm(("d", self.rng.randint(0, 6), 1))
            if step[1] < 0:
                start, end = end, start
        if self.chance(0.2):
            start = self.num(sc, t, 1)
        if self.chance(0.2):
            end = other
        s = {"k": "for", "n": k, "sf": self.suf(t), "start": start, "end": end, "step": step,
             "body": self.body(sc, depth, loops + ["FOR"])}
        if self.chance(0.1):
            s["body"].append({"k": "let", "n": k, "e": ("o", "+", ("v", k, ""), ("i", 1))})
        return [s]

    def s_select(self, sc, depth, loops):
        t = self.pick("iiidtb")
        cases = []
        for _ in range(self.rng.randint(0 if self.chance(0.1) else 1, 3)):
            gs = []
            for _ in range(1 if self.chance(0.6) else 2):
                gt = self.pick("id") if t in "id" and self.chance(0.2) else t
                if t != "b" and self.chance(0.3):
                    gs.append(("to", self.expr(sc, gt, 1), self.expr(sc, gt, 1)))
                else:
                    op = self.pick(RELS) if self.chance(0.4) else "="
                    if t == "b":
                        op = self.pick(RELS[:2]) if op != "=" else "="
                    gs.append(("is", op, self.expr(sc, gt, 1)))
            cases.append((gs, self.body(sc, depth, loops)))
        if self.chance(0.5):
            cases.append(([], self.body(sc, depth, loops)))
        return [{"k": "select", "e": self.expr(sc, t, 1), "cases": cases}]

    def s_exit(self, sc, depth, loops):
        if self.static and self.chance(0.3):
            return [{"k": "exit", "what": self.pick(["DO", "FOR", "SUB", "FUNCTION"])}]
        opts = list(loops)
        if sc.owner and self.chance(0.5):
            opts.append("FUNCTION" if self.calls[sc.owner][0] else "SUB")
        if not opts:
            return []
        ex = {"k": "exit", "what": self.pick(opts)}
        if self.chance(0.7):
            return [{"k": "if1", "g": self.expr(sc, "b", 2), "body": ex}]
        return [ex]

    def s_call(self, sc, depth, loops):
        names = [n for n, (ret, _) in self.calls.items() if ret == "" and self.callable_ok(sc, n) and n != sc.owner]
        if self.static and self.chance(0.3):
            n = self.pick(UNDEF + sorted(self.calls) + sorted(sc.vars))
            return [{"k": "call", "n": n, "args": [self.expr(sc, self.pick(ALLT)) for _ in range(self.rng.randint(0, 3))]}]
        if not names:
            return []
        n = self.pick(sorted(names))
        return [{"k": "call", "n": n, "args": self.unlead(n, self.args(sc, n, 2))}]

    def unlead(self, n, args):
        """Keeps the first argument from starting with a parenthesis."""
        if args and Writer.leads(self.w0, args[0]):
            t = self.calls[n][1][0]
            if t in "id":
                args[0] = ("o", "+", ("i", 0), args[0])
            elif t == "t":
                args[0] = ("o", "+", ("t", ""), args[0])
            else:
                args[0] = ("o", "OR", ("b", False), args[0])
        return args

    def s_end(self, sc, depth, loops):
        e = None
        if self.chance(0.6):
            e = ("i", self.pick([0, 1, 5, 127]))
            if self.chance(0.3):
                e = self.num(sc, "i", 1)
                if e[0] == "i" and e[1] > 127:
                    e = ("i", 3)
            if self.static and self.chance(0.3):
                e = ("i", 128)
        s = {"k": "end", "e": e}
        if self.chance(0.6):
            return [{"k": "if1", "g": self.expr(sc, "b", 1), "body": s}]
        return [s]

    def s_jump(self, sc, depth, loops):
        lab = self.newlabel()
        if self.static and self.chance(0.1):
            return [{"k": "goto", "n": "NOWHERE"}]
        if self.chance(0.5):
            # Backward jump, a bounded number of times.
            k = self.counter(sc, "J")
            return [{"k": "let", "n": k, "e": ("i", 0)}, {"k": "label", "n": lab}] + \
                self.body(sc, depth, loops) + \
                [{"k": "if", "br": [(("o", "<", ("v", k, ""), ("i", self.rng.randint(1, 3))),
                                     [{"k": "let", "n": k, "e": ("o", "+", ("v", k, ""), ("i", 1))},
                                      {"k": "goto", "n": lab}])]}]
        go = {"k": "goto", "n": lab}
        first = {"k": "if1", "g": self.expr(sc, "b", 2), "body": go} if self.chance(0.7) else go
        return [first] + self.body(sc, depth, loops) + [{"k": "label", "n": lab}] + self.body(sc, depth, loops)

    def s_gosub(self, sc, depth, loops):
        if sc.subs and self.chance(0.5):
            return [{"k": "gosub", "n": self.pick(sc.subs)[0]}]
        if depth <= 0 or len(sc.subs) > 2:
            return []
        lab = self.newlabel()
        body = self.body(sc, depth, [])
        if self.chance(0.2):
            body.append({"k": "if1", "g": self.expr(sc, "b", 1), "body": {"k": "return"}})
            body += self.body(sc, depth, [])
        sc.subs.append((lab, [{"k": "label", "n": lab}] + body + [{"k": "return"}]))
        return [{"k": "gosub", "n": lab}]

    def s_return(self, sc, depth, loops):
        # Leftover GOSUB frames of previous chunks must not be used.
        return [{"k": "return"}] if self.first else []

    def s_data(self, sc, depth, loops):
        r = self.rng.random()
        if r < 0.35:
            vals = []
            for _ in range(self.rng.randint(1, 3)):
                if self.chance(0.1):
                    vals.append(None)
                    continue
                v = self.norm(self.lit(self.pick("iiidbt")))
                if v[0] == "D":
                    v = ("i", 77)
                if v[0] in "id" and v[1] and self.chance(0.2):
                    v = (v[0], -v[1]) + tuple(v[2:])
                vals.append(v)
            return [{"k": "data", "vals": vals}]
        if r < 0.45:
            return [{"k": "restore"}]
        cands = [n for n in list(sc.vars) + [g for g in self.glob.vars if g not in sc.vars] if n not in sc.ro]
        if not cands:
            return []
        # Prefer the same type so that reads succeed most of the time.
        return [{"k": "read", "vars": [self.pick(cands) for _ in range(1 if self.chance(0.7) else 2)]}]

    def s_onerr(self, sc, depth, loops):
        r = self.rng.random()
        if r < 0.45:
            return [{"k": "onerr", "m": "next"}]
        if r < 0.6:
            return [{"k": "onerr", "m": "none"}]
        if depth <= 0:
            return []
        lab, fin = self.newlabel(), self.newlabel()
        tryb = self.body(sc, depth, loops) + [self.failing(sc)] + self.body(sc, depth, loops)
        h = [{"k": "print", "items": [(("t", "H"), ";"), (("v", "ERRMSG", ""), "")]}] + self.body(sc, depth, loops)
        if self.chance(0.3):
            h.append({"k": "onerr", "m": self.pick(["none", "next"])})
        return [{"k": "onerr", "m": "goto", "n": lab}] + tryb + [{"k": "goto", "n": fin}, {"k": "label", "n": lab}] + h \
            + [{"k": "label", "n": fin}]

    def failing(self, sc):
        """A statement that is likely to fail."""
        vs = self.scalars(sc, "i")
        zero = ("o", "-", ("v", self.pick(vs), ""), ("v", self.pick(vs), "")) if vs else ("i", 0)
        bad = self.pick([("o", "MOD", ("i", 1), zero), ("o", "/", ("i", 5), zero),
                         ("o", "+", ("i", MAXI), ("i", 1)), ("o", "^", ("i", 2), ("u", "-", ("i", 1))),
                         ("o", "<<", ("i", 1), ("u", "-", ("i", 3))), ("o", "-", ("u", "-", ("i", MAXI)), ("i", 2)),
                         ("o", "*", ("i", 65536), ("i", 65536))])
        if self.chance(0.3):
            bad = ("o", "+", self.expr(sc, "i", 2), bad)
        r = self.rng.random()
        arrs = self.arrays(sc, None)
        if r < 0.15 and arrs:
            n, (t, dims) = self.pick(arrs)
            subs = [("i", self.rng.randint(0, d - 1)) for d in dims]
            j = self.rng.randrange(len(subs))
            subs[j] = self.pick([("i", dims[j]), ("u", "-", ("i", 1)), ("i", dims[j] + 5), bad])
            if self.chance(0.5):
                return {"k": "leta", "n": n, "subs": subs, "e": self.num(sc, t, 1)}
            return {"k": "print", "items": [(("t", "<"), ";"), (("c", n, "", subs), "")]}
        if r < 0.3:
            subs = [n for n, (ret, ts) in self.calls.items() if ret == "" and "i" in ts and self.callable_ok(sc, n)
                    and n not in self.recursive and n != sc.owner]
            if subs:
                n = self.pick(subs)
                return {"k": "call", "n": n, "args": self.unlead(n, [bad if t == "i" else self.expr(sc, t, 1) for t in self.calls[n][1]])}
        if r < 0.45:
            vs = [v for v in self.scalars(sc, "i") if v not in sc.ro]
            if vs:
                return {"k": "let", "n": self.pick(vs), "e": bad}
        if r < 0.55:
            return {"k": "if", "br": [(("o", "=", bad, ("i", 0)), self.body(sc, 1, [])), (None, self.body(sc, 1, []))]}
        if r < 0.62:
            return {"k": "select", "e": bad, "cases": [([("is", "=", ("i", 1))], self.body(sc, 1, [])), ([], self.body(sc, 1, []))]}
        if r < 0.7:
            return {"k": "while", "g": ("o", ">", bad, ("i", 1)), "body": [{"k": "print", "items": [(("t", "w"), "")]}, {"k": "end", "e": None}]}
        if r < 0.76:
            return {"k": "end", "e": ("o", "+", ("i", 200), self.expr(sc, "i", 1))}
        return {"k": "print", "items": [(self.expr(sc, self.pick(ALLT), 1), ";"), (bad, "")]}

    # Programs.

    def scope_vars(self, sc, names, n):
        for _ in range(n):
            t = self.pick("iiidbtt" if True else "")
            pool = [x for x in names[t] if x not in sc.vars and x not in self.calls and x not in sc.arrs]
            if pool:
                self.define(sc, self.pick(pool), t)

    NAMES = {"i": ["A", "B", "C"], "d": ["X", "Y"], "b": ["P", "Q"], "t": ["S", "T"]}

    def make_array(self, sc, shared):
        pool = [x for x in (["GM", "GN"] if shared else ["M", "N", "O"]) if x not in sc.arrs and x not in sc.vars]
        if not pool:
            return None
        n = self.pick(pool)
        t = self.pick("iidbt")
        dims = [self.rng.randint(1, 4) for _ in range(self.pick([1, 1, 2, 3]))]
        (self.glob if shared else sc).arrs[n] = (t, dims)
        return {"k": "dima", "n": n, "t": t, "sh": shared, "dims": [("i", d) for d in dims]}

    def callable(self, main):
        """Defines one callable; returns the statements that declare and define it."""
        self.nsub += 1
        ret = self.pick(["", "", "i", "d", "b", "t"])
        n = ("FN" if ret else "PR") + str(self.nsub)
        sc = Scope(main, n)
        params = []
        rec = self.chance(0.25)
        for i in range(1 if rec else self.pick([0, 1, 1, 2, 3])):
            t = "i" if rec and i == 0 else self.pick("iidbt")
            # Parameters may hide the names of other variables.
            pool = [x for x in ["A", "B", "U", "V", "S"] + list(self.glob.vars) if x not in sc.vars and x != n]
            pn = self.pick(pool)
            style = self.pick(["suf", "as"]) if t != "i" else self.pick(["", "suf", "as"])
            params.append((pn, t, style))
            sc.vars[pn] = t
        types = [t for _, t, _ in params]
        self.order.append(n)
        self.calls[n] = (ret, types)
        decl = []
        head = {"n": n, "ret": ret, "params": params, "suf": self.chance(0.5)}
        if rec:
            self.recursive.add(n)
            sc.ro.add(params[0][0])
        if self.chance(0.2):
            decl = [dict(head, k="declare")]
        if ret:
            sc.vars[n] = ret
            sc.ro.add(n)
        pvars = set(sc.vars)
        self.scope_vars(sc, self.NAMES, self.rng.randint(0, 2))
        dims = []
        if self.chance(self.p.arrays * 0.5):
            d = self.make_array(sc, False)
            if d:
                dims.append(d)
        body = self.block(sc, self.rng.randint(1, 4), self.p.depth - 1, [])
        if rec:
            pn = params[0][0]
            arg = ("o", "-", ("v", pn, ""), ("i", 1))
            if ret:
                call = ("c", n, "", [arg])
                r = self.rng.random()
                if ret == "i":
                    e = ("o", "+", call, ("v", pn, "")) if r < 0.5 else ("o", "-", ("v", pn, ""), call)
                elif ret == "d":
                    e = ("o", "+", ("v", pn, ""), call)
                elif ret == "b":
                    e = ("u", "NOT", call)
                else:
                    e = ("o", "+", call, ("t", "r")) if r < 0.5 else ("o", "+", ("t", "l"), call)
                rc = [{"k": "let", "n": n, "e": e}]
            else:
                rc = [{"k": "call", "n": n, "args": [arg]}]
            tail = [{"k": "if", "br": [(("o", ">", ("v", pn, ""), ("i", 0)), rc + self.body(sc, 1, []))]}]
            body = body + tail if self.chance(0.7) else tail + body
        elif ret and self.chance(0.9):
            body.insert(self.rng.randint(0, len(body)), {"k": "let", "n": n, "e": self.tame(sc, ret)})
        full = self.finish(sc, dims, body)
        self.dsize += 1
        if self.static and self.chance(0.1):
            params2 = list(params)
            if params2:
                params2[-1] = params2[0]
                head = dict(head, params=params2)
        return decl, dict(head, k="sub", body=full)

    def finish(self, sc, dims, body):
        """Assembles the body of a scope."""
        out = sc.defs + dims + body
        sc.defs = []
        if sc.subs:
            fin = self.newlabel()
            out.append({"k": "goto", "n": fin})
            for _, b in sc.subs:
                # The bodies may have needed more definitions.
                out += b
            out.append({"k": "label", "n": fin})
            sc.subs = []
        return out

    def chunk(self, main):
        p = self.p
        pre, mid, post = [], [], []
        if self.chance(p.shared):
            n = self.pick(["G1", "G2", "G3"])
            if n not in self.glob.vars and n not in main.vars:
                t = self.pick(ALLT)
                self.glob.vars[n] = t
                pre.append({"k": "dim", "n": n, "t": t, "sh": True})
        if self.chance(p.arrays * 0.5):
            d = self.make_array(main, True)
            if d:
                pre.append(d)
        self.scope_vars(main, self.NAMES, self.rng.randint(2, 5))
        dims = []
        if self.chance(p.arrays):
            d = self.make_array(main, False)
            if d:
                dims.append(d)
        for _ in range(self.rng.randint(*p.callables)):
            decl, sub = self.callable(main)
            pre += decl
            # Definitions can appear after their uses only if they were declared.
            (post if decl and self.chance(0.5) else mid).append(sub)
        body = self.block(main, self.rng.randint(*p.stmts), p.depth, [])
        if self.chance(p.onerr):
            body.insert(0, {"k": "onerr", "m": "next"})
        if self.chance(p.err * 2):
            body.insert(self.rng.randint(0, len(body)), self.failing(main))
        if self.static and self.chance(0.3):
            body.insert(self.rng.randint(0, len(body)), self.badstmt(main))
        at = self.rng.randint(0, len(body))
        if self.chance(0.3):
            # Definitions may be intermixed with code.
            m = body[:at] if not any(s["k"] == "label" for s in body) else body
        defs = self.finish(main, dims, body)
        return pre + mid + defs + post

    def has_handler(self, body):
        return '"goto"' in json.dumps([s for s in body if s["k"] != "sub"])

    def light(self, main):
        """A chunk that does not define anything."""
        w = self.p.w
        self.p.w = {"let": 3, "print": 3, "call": 1, "if1": 1, "leta": 1, "onerr": 0.3, "data": 0.5, "end": 0.2}
        out = self.block(main, self.rng.randint(1, 4), 0, [])
        self.p.w = w
        if self.chance(self.p.err * 4):
            out.append(self.failing(main))
        return out

    def badstmt(self, sc):
        r = self.rng.random()
        if r < 0.15:
            return {"k": "label", "n": "L1"}
        if r < 0.3:
            n = self.pick(sorted(sc.vars) + sorted(self.calls) + sorted(self.glob.vars) + ["LEN", "PRINT"])
            return {"k": "dim", "n": n, "t": self.pick(ALLT), "sh": self.chance(0.4)}
        if r < 0.45:
            n = self.pick(sorted(sc.vars) + sorted(self.calls) + UNDEF)
            return {"k": "dima", "n": n, "t": self.pick(ALLT), "dims": [self.expr(sc, self.pick("idt"), 1)]}
        if r < 0.55:
            return {"k": self.pick(["goto", "gosub"]), "n": "NOWHERE"}
        if r < 0.7:
            n = self.pick(sorted(self.calls) + sorted(sc.vars) + ["PR9", "FN9"])
            return {"k": self.pick(["declare", "sub"]), "n": n, "ret": self.pick(["", "i", "t"]), "suf": self.chance(0.5),
                    "params": [("A", "i", "suf")] if self.chance(0.5) else [], "body": []}
        if r < 0.8:
            return {"k": "if", "br": [(("b", True), [{"k": "sub", "n": "PR8", "ret": "", "params": [], "body": []}])]}
        if r < 0.9:
            return {"k": "read", "vars": [self.pick(sorted(self.calls) + UNDEF + [n for n, _ in self.arrays(sc, None)] + ["PRINT"])]}
        return {"k": "onerr", "m": "goto", "n": "NOWHERE"}

    def session(self):
        import copy
        main = Scope()
        self.order, self.recursive, self.dsize = [], set(), 0
        bodies = []
        self.static = False
        self.jumpers = False
        for i in range(self.rng.randint(*self.p.chunks)):
            self.static = self.chance(self.p.serr)
            snap = copy.deepcopy((main, self.glob, self.calls, self.order, self.recursive)) if self.static else None
            self.first = i == 0
            if i and self.chance(0.25):
                body = self.light(main)
            else:
                body = self.chunk(main)
                if self.jumpers:
                    # Handlers left by other chunks must not run with variables that they do not know.
                    body.insert(0, {"k": "onerr", "m": self.pick(["none", "next"])})
                self.jumpers = self.jumpers or self.has_handler(body)
            if self.static:
                # Whether this compiles is not known here, so do not rely on what it defines.
                main, self.glob, self.calls, self.order, self.recursive = snap
                body = [s for s in body if s["k"] != "read"] if False else body
            brk = self.rng.randint(1, 12) if self.chance(self.p.brk) else 0
            bodies.append((body, brk))
        if self.chance(self.p.probe):
            bodies.append((self.probe(main), 0))
        self.bodies = bodies
        r = Render(self.rng, self.p.pad)
        for body, brk in bodies:
            r.add_chunk(body, brk)
        return r.program()

    def probe(self, main):
        """Shows the contents of all variables."""
        out = []
        for sc in (main, self.glob):
            for n in sc.vars:
                out.append({"k": "print", "items": [(("t", n), ";"), (("v", n, ""), "")]})
            for n, (t, dims) in sc.arrs.items():
                subs = [[]]
                for d in dims:
                    subs = [x + [("i", i)] for x in subs for i in range(d)]
                self.rng.shuffle(subs)
                out.append({"k": "print", "items": [(("t", n), ",")] + [(("c", n, "", x), ";") for x in subs[:8]]})
        self.rng.shuffle(out)
        return out + [{"k": "print", "items": [(("v", "ERRMSG", ""), "")]}]
