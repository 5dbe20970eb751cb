"""Conformance of programs around the capacity of the machine to spec/limits."""
import json
import os
import random
import re
import sys

import common

SPEC = os.path.join(common.VERIF, "spec", "limits")
KINDS = ["if", "else", "elseif", "goto", "onerr", "gosub", "gosubf", "case", "fn", "sub", "for", "forstep", "forexit", "while",
         "dowhile", "dountil", "loopwhile", "loopuntil", "doexit", "nest"]
LABELS = ("goto", "onerr", "gosub", "gosubf", "fn", "sub")


def v(i):
    return 7 * i + 1


class Scope:
    def __init__(self):
        self.n = 0
        self.kinds = []      # Per variable: "i", "t" or something that cannot be read.


class Session:
    """Builds a session; the source code of the chunks is made along with their items."""

    def __init__(self, rng):
        self.r = rng
        self.chunks = []
        self.uid = 0
        self.shared = 0
        self.params = 0
        self.ints = []
        self.texts = []
        self.funs = {}
        self.nsubs = 0
        self.consts = []
        self.nextc = 70000
        self.main = Scope()
        self.sc = self.main
        self.begin()

    def begin(self):
        self.lines = []
        self.items = []
        self.stack = []

    def end(self):
        self.chunks.append({"src": "\n".join(self.lines) + "\n", "items": self.items})
        self.begin()

    def names_after(self, safe):
        """Forgets the names that a chunk may have defined."""
        self.shared, self.ints, self.texts, self.funs = safe[0], list(safe[1]), list(safe[2]), dict(safe[3])

    def id(self):
        self.uid += 1
        return self.uid

    @property
    def line(self):
        return len(self.lines) + 1

    def put(self, *ls):
        self.lines.extend(ls)

    def item(self, **kw):
        kw.setdefault("line", self.line)
        self.items.append(kw)
        return kw

    # Items.

    def dshared(self, n, ty="i"):
        self.item(o="shared", n=n, ty=ty, first=self.shared + 1)
        for _ in range(n):
            self.shared += 1
            (self.texts if ty == "t" else self.ints).append(self.shared)
            self.put("DIM SHARED g%d AS %s" % (self.shared, "STRING" if ty == "t" else "INTEGER"))

    def vars(self, n, ty="i"):
        if n == 0:
            return
        self.item(o="vars", n=n, ty=ty)
        for _ in range(n):
            self.sc.n += 1
            i = self.sc.n
            self.sc.kinds.append(ty)
            nm = "v%d" % i
            if ty == "i":
                self.put("%s = %d" % (nm, v(i)))
            elif ty == "t":
                self.put('%s = "s%d"' % (nm, i))
            elif ty == "d":
                self.put("%s = %d.5" % (nm, i))
            elif ty == "b":
                self.put("%s = TRUE" % nm)
            elif ty == "n":
                self.put("DIM %s AS %s" % (nm, self.r.choice(["INTEGER", "STRING", "DOUBLE", "BOOLEAN"])))
            else:
                self.put("DIM %s(2)" % nm)

    def hidden(self, n):
        """Variables that an item creates for itself."""
        self.sc.n += n
        self.sc.kinds += ["h"] * n

    def readable(self, ty):
        return [i + 1 for i, k in enumerate(self.sc.kinds) if k == ty]

    def get(self, i, k):
        ty = self.sc.kinds[i - 1]
        self.item(o="get", i=i, k=k, ty="t" if ty == "t" else "i")
        self.put("g%d = v%d" % (k, i))

    def gets(self, n):
        """Copies some variables, mostly the last ones, to shared variables that nothing else uses."""
        for _ in range(n):
            ty = self.r.choice("iiit")
            c = self.readable(ty)
            ks = self.texts if ty == "t" else self.ints
            if c and ks:
                i = c[-1] if self.r.random() < 0.4 else c[0] if self.r.random() < 0.3 else self.r.choice(c)
                self.get(i, self.r.choice(ks))

    def leaf(self):
        c = self.readable("i")
        if c and self.r.random() < 0.6:
            return {"k": "v", "n": self.r.choice(c)}
        return {"k": "c", "n": self.r.choice([0, 1, 2, 3, 5, 40000, 100000, self.r.randrange(1000)])}

    def tree(self, depth):
        """An expression that needs about depth places."""
        r = self.r
        if depth <= 0:
            return self.leaf()
        x = r.random()
        fs = [f for f in self.funs if 1 < f <= depth]
        if fs and x < 0.25:
            f = max(fs) if r.random() < 0.6 else r.choice(fs)
            args = [self.leaf() for _ in range(f)]
            if depth > f + 2 and r.random() < 0.7:
                j = r.randrange(f)
                args[j] = self.tree(depth - j - 3)
            return {"k": "f", "a": args}
        if x < 0.35 and depth > 6:
            n = r.randrange(2, min(depth // 2, 12))
            args = [self.leaf() for _ in range(n)]
            j = r.randrange(n)
            args[j] = self.tree(depth - 2 * j - 4)
            return {"k": "m", "a": args}
        if x < 0.45 and depth > 1:
            return {"k": "u", "l": self.tree(depth - 1)}
        op = r.choice("+-")
        if r.random() < 0.2:
            return {"k": "o", "op": op, "l": self.tree(depth), "r": self.tree(r.randrange(2))}
        return {"k": "o", "op": op, "l": self.leaf(), "r": self.tree(depth - 1)}

    def show_tree(self, t, top=True):
        if t["k"] == "c":
            return str(t["n"])
        if t["k"] == "v":
            return "v%d" % t["n"]
        if t["k"] == "u":
            return "-(" + self.show_tree(t["l"]) + ")"
        if t["k"] == "o":
            s = self.show_tree(t["l"], t["l"]["k"] == "o") + " " + t["op"] + " "
            s += self.show_tree(t["r"]) if t["r"]["k"] != "o" and t["r"]["k"] != "u" else "(" + self.show_tree(t["r"]) + ")"
            return s
        if t["k"] == "f":
            return self.funs[len(t["a"])] + "(" + ", ".join(self.show_tree(a) for a in t["a"]) + ")"
        return "MAX(" + ", ".join(self.show_tree(a) for a in t["a"]) + ")"

    def expr(self, t, k):
        self.item(o="expr", t=t, k=k)
        self.put("g%d = %s" % (k, self.show_tree(t)))

    def arr(self, dims, k):
        u = self.id()
        n = self.r.randrange(1000)
        self.item(o="arr", d=dims, n=n, k=k)
        idx = ", ".join(str(self.r.randrange(d)) for d in dims)
        self.put("DIM z%d(%s)" % (u, ", ".join(map(str, dims))), "z%d(%s) = %d" % (u, idx, n), "g%d = z%d(%s)" % (k, u, idx))
        self.hidden(1)

    def big(self, dims):
        self.item(o="big", d=dims)
        self.put("DIM z%d(%s) AS %s" % (self.id(), ", ".join(map(str, dims)), self.r.choice(["INTEGER", "BOOLEAN", "DOUBLE"])))
        self.hidden(1)

    def lits(self, n, k, ty="i"):
        base = self.nextc
        self.nextc += n
        self.consts.append((base, n, ty))
        self.item(o="consts", n=n, base=base, ty=ty, k=k)
        self.put(*[("g%d = \"c%d\"" if ty == "t" else "g%d = %d") % (k, base + i) for i in range(1, n + 1)])

    def lit(self):
        base, n, ty = self.r.choice(self.consts)
        ks = self.texts if ty == "t" else self.ints
        k = self.r.choice(ks)
        i = self.r.choice([1, 2, n, self.r.randrange(1, n + 1)])
        self.item(o="const", base=base, i=i, ty=ty, k=k)
        self.put(("g%d = \"c%d\"" if ty == "t" else "g%d = %d") % (k, base + i))

    def block(self, kind, n, k):
        u = self.id()
        c, d, lb = "c%d" % u, "d%d" % u, "l%d" % u
        body = ["%s = 1" % d] * n
        it = self.item(o="block", kind=kind, n=n, k=k, vars=2)
        self.put("%s = 0" % c, "%s = 0" % d)
        inc = "%s = %s + 1" % (c, c)
        bad = "%s = 9" % c
        fin = ["g%d = %s" % (k, c)]
        if kind == "if":
            ls = ["IF FALSE THEN"] + body + [bad, "END IF"]
        elif kind == "else":
            ls = ["IF %s = 0 THEN" % c, inc, "ELSE"] + body + [bad, "END IF"]
        elif kind == "elseif":
            h = n // 2
            ls = ["IF %s = 5 THEN" % c] + body[:h] + [bad, "ELSEIF %s = 0 THEN" % c, inc, "ELSEIF %s = 1 THEN" % c] + body[h:] + [bad, "END IF"]
        elif kind == "goto":
            ls = ["GOTO @" + lb] + body + [bad, "@%s:" % lb]
        elif kind == "onerr":
            ls = ["ON ERROR GOTO @" + lb, "%s = 1 MOD %s" % (d, c)] + body + [bad, "@%s:" % lb, "ON ERROR GOTO 0"]
        elif kind == "gosub":
            ls = ["GOTO @o" + lb, "@%s:" % lb] + body + [inc, "RETURN", "@o%s:" % lb, "GOSUB @" + lb]
        elif kind == "gosubf":
            ls = ["GOTO @o" + lb] + body + ["@%s:" % lb, inc, "RETURN", "@o%s:" % lb, "GOSUB @" + lb]
        elif kind == "case":
            h = n // 2
            ls = ["SELECT CASE %s" % c, "CASE 1"] + body[:h] + [bad, "CASE 0", inc, "CASE ELSE"] + body[h:] + [bad, "END SELECT"]
        elif kind == "fn":
            ls = ["FUNCTION f%s(x)" % lb] + body + ["f%s = x + 1" % lb, "END FUNCTION", "%s = f%s(%s)" % (c, lb, c)]
        elif kind == "sub":
            ls = ["SUB s%s(x)" % lb] + body + ["g%d = x + 1" % k, "END SUB", "s%s %s" % (lb, c), "%s = g%d" % (c, k)]
        elif kind == "for":
            ls = ["FOR i%d = 1 TO 2" % u, inc] + body + ["NEXT"]
            it["vars"] = 3
        elif kind == "forstep":
            ls = ["FOR i%d = 5 TO 3 STEP -2" % u, inc] + body + ["NEXT"]
            it["vars"] = 3
        elif kind == "forexit":
            ls = ["FOR i%d = 1 TO 9" % u, inc, "IF %s = 2 THEN EXIT FOR" % c] + body + ["NEXT"]
            it["vars"] = 3
        elif kind == "while":
            ls = ["WHILE %s < 2" % c, inc] + body + ["WEND"]
        elif kind == "dowhile":
            ls = ["DO WHILE %s < 2" % c, inc] + body + ["LOOP"]
        elif kind == "dountil":
            ls = ["DO UNTIL %s = 2" % c, inc] + body + ["LOOP"]
        elif kind == "loopwhile":
            ls = ["DO", inc] + body + ["LOOP WHILE %s < 2" % c]
        elif kind == "loopuntil":
            ls = ["DO", inc] + body + ["LOOP UNTIL %s = 2" % c]
        elif kind == "nest":
            # The innermost statement runs once, whatever is around it.
            ls = [inc]
            for j in range(min(n, self.r.randrange(1, 100))):
                a, b = self.r.choice([("IF %s = 0 THEN" % c, ["END IF"]), ("IF %s > 0 THEN" % c, None), ("WHILE %s = 0" % c, ["WEND"]),
                                      ("DO", ["LOOP WHILE %s = 0" % c]), ("DO UNTIL %s <> 0" % c, ["LOOP"]),
                                      ("FOR i%d_%d = %d TO %d" % (u, j, j, j), ["NEXT"]), ("SELECT CASE %s" % c, ["END SELECT"])])
                if b is None:
                    ls = [a, bad, "ELSE"] + ls + ["END IF"]
                elif a.startswith("SELECT"):
                    ls = [a, "CASE 0"] + ls + ["CASE IS > 0", bad] + b
                else:
                    ls = [a] + ls + b
        else:
            ls = ["DO", inc, "IF %s = 2 THEN EXIT DO" % c] + body + ["LOOP"]
        if kind == "nest":
            it["vars"] = 2 + sum(l.startswith("FOR") for l in ls)
        self.put(*(ls + fin))
        it["last"] = self.line - 1
        self.hidden(it["vars"])

    def fun(self, n):
        name = "f%d" % self.id()
        self.item(o="fun", n=n)
        self.put("FUNCTION %s(%s)" % (name, ", ".join("a%d" % j for j in range(1, n + 1))),
                 "%s = %s" % (name, "".join((" - " if j % 2 == 0 else " + " if j > 1 else "") + "a%d" % j for j in range(1, n + 1))), "END FUNCTION")
        self.funs[n] = name

    def rec(self, n, k):
        name = "r%d" % self.id()
        it = self.item(o="rec", n=n, k=k, vars=0)
        self.put("FUNCTION %s(n)" % name, "IF n > 0 THEN", "%s = %s(n - 1) + 1" % (name, name), "ELSE", "%s = 0" % name,
                 "END IF", "END FUNCTION", "g%d = %s(%d)" % (k, name, n))
        it["last"] = self.line - 1

    def gosubs(self, n, k):
        u = self.id()
        it = self.item(o="gosubs", n=n, k=k, vars=1)
        self.put("c%d = 0" % u, "GOTO @o%d" % u, "@g%d:" % u, "c%d = c%d + 1" % (u, u), "IF c%d < %d THEN" % (u, n),
                 "GOSUB @g%d" % u, "END IF", "RETURN", "@o%d:" % u, "GOSUB @g%d" % u, "g%d = c%d" % (k, u))
        it["last"] = self.line - 1
        self.hidden(1)

    def open_sub(self, p):
        self.stack.append((self.items, self.sc))
        self.nsubs += 1
        it = self.item(o="sub", p=p, id=self.nsubs)
        self.put("SUB s%d%s" % (self.nsubs, "(%s)" % ", ".join("v%d" % j for j in range(1, p + 1)) if p else ""))
        self.items = it["items"] = []
        self.sc = Scope()
        self.sc.n = p
        self.sc.kinds = ["i"] * p
        self.params = p

    def close_sub(self):
        p = self.params
        self.items, self.sc = self.stack.pop()
        self.put("END SUB")
        return self.nsubs, p

    def call(self, sub, p):
        self.item(o="call", sub=sub, args=[v(j) for j in range(1, p + 1)])
        self.put("s%d %s" % (sub, ", ".join(str(v(j)) for j in range(1, p + 1))))

    def show(self, ks=None):
        for k in ks or sorted(self.ints + self.texts):
            self.item(o="show", k=k)
            self.put("PRINT g%d" % k)


def around(r, n, w=4):
    return r.randrange(n - w, n + w + 1)


def fill(s, target):
    """Variables up to a number of them in the scope."""
    r = s.r
    while s.sc.n < target:
        n = min(target - s.sc.n, r.choice([1, 3, 20, 60, 200]))
        s.vars(n, r.choice("iiiitdbna") if s.texts else r.choice("iiiidbn"))


def crowd(s):
    """Items for a scope that is full, or nearly."""
    r = s.r
    for _ in range(r.randrange(1, 5)):
        x = r.random()
        k = r.choice(s.ints)
        left = 192 - s.sc.n
        if x < 0.45:
            s.expr(s.tree(max(0, left - r.choice([3, 4, 5, 6, 10, r.randrange(0, 40), r.randrange(0, 190)]))), k)
        elif x < 0.55:
            s.expr(s.tree(around(r, max(left, 0) + 2, 4)), k)
        elif x < 0.65:
            s.arr([r.choice([1, 2]) for _ in range(r.choice([1, 2, 5, 10, 13, 14, 15, 16]) if r.random() < 0.5 else r.randrange(1, 16))], k)
        elif x < 0.75:
            kind = r.choice([b for b in KINDS if not (s.stack and b in LABELS)])
            s.block(kind, r.randrange(1, 40) if kind == "nest" else r.randrange(4), k)
        s.gets(r.randrange(1, 4))


def small(rng):
    """Sessions with full scopes.

    The first chunk is surely accepted; the others may be refused, so they only use what the first one and themselves
    define."""
    r = rng
    s = Session(rng)
    nsh = r.randrange(3, 20) if r.random() < 0.8 else r.randrange(50, 62)
    nt = r.randrange(0, nsh - 1)
    s.dshared(nsh - nt, "i")
    if nt:
        s.dshared(nt, "t")
    for _ in range(r.randrange(0, 3)):
        s.fun(r.choice([2, 3, 5, 20, r.randrange(2, 60), r.randrange(2, 180)]))
    fill(s, r.choice([0, 0, r.randrange(0, 20), r.randrange(0, 150), 187]))
    s.gets(4)
    s.show()
    s.end()
    safe = (s.shared, list(s.ints), list(s.texts), dict(s.funs))
    for _ in range(r.randrange(1, 4)):
        if r.random() < 0.2:
            add = max(1, around(r, 64 - safe[0], 2))
            s.dshared(add, r.choice("it"))
            s.gets(6)
            s.show()
            s.end()
            s.names_after(safe)
            if r.random() < 0.5:
                s.show()
                s.end()
            break
        for _ in range(r.choice([0, 0, 1])):
            s.fun(r.randrange(2, 193))
        p = r.choice([0, 0, 1, 2, 10, 100, r.randrange(0, 180), around(r, 190)])
        s.open_sub(p)
        if r.random() < 0.5:
            fill(s, r.randrange(0, 100))
            s.gets(2)
        fill(s, around(r, 190) if r.random() < 0.5 else around(r, 192, 1) if r.random() < 0.5 else r.randrange(10, 188))
        crowd(s)
        s.gets(r.randrange(0, 8))
        sub = s.close_sub()
        s.call(*sub)
        s.show()
        s.end()
        s.names_after(safe)
        if r.random() < 0.3:
            s.gets(2)
            s.show()
            s.end()
    else:
        if r.random() < 0.7:
            n = s.sc.n
            fill(s, max(s.sc.n, around(r, 186, 8) if r.random() < 0.5 else r.randrange(10, 190)))
            crowd(s)
            s.gets(r.randrange(0, 8))
            s.show()
            s.end()
            s.names_after(safe)
            s.sc.kinds = s.sc.kinds[:n]
            s.gets(2)
            s.show()
            s.end()
    return s


def large(rng):
    """Programs with many instructions or literals, deep calls or large arrays."""
    r = rng
    s = Session(rng)
    s.dshared(r.randrange(2, 6), "i")
    s.dshared(2, "t")
    s.end()
    for _ in range(r.randrange(1, 3)):
        x = r.random()
        k = r.choice(s.ints)
        if x < 0.5:
            n = r.choice([around(r, 65530, 12), around(r, 65530, 12), around(r, 32768, 20), r.randrange(0, 11000), r.randrange(20000, 75000)])
            if r.random() < 0.2:
                s.lits(5, k)
            s.block(r.choice(KINDS[:-1]), n, k)
            if r.random() < 0.3:
                s.block(r.choice(KINDS), r.randrange(4), k)
            s.show()
        elif x < 0.65:
            n = r.choice([around(r, 65536, 2), around(r, 65536, 2), around(r, 32768, 2), r.randrange(200, 60000)])
            h = r.randrange(1, n)
            s.lits(h, k)
            if r.random() < 0.5:
                s.lits(n - h, r.choice(s.texts), "t")
            else:
                s.lits(n - h, k)
            s.show()
            for _ in range(4):
                s.lit()
            s.show()
        elif x < 0.85:
            n = r.choice([r.randrange(1, 4000), around(r, 4096, 3), r.randrange(4097, 30000)])
            s.rec(n, k) if r.random() < 0.5 else s.gosubs(n, k)
            s.end()
            s.show()
        else:
            dims = r.choice([[r.randrange(1, 1000), r.randrange(1, 1000)], [4096, 4096], [4096, 4097], [65536, 65536], [2147483647] * 3,
                             [2147483647, 2147483647, 2], [46341, 46341], [16777216], [16777217], [256] * 8, [65536, 65536, 65536, 65536, 2],
                             [2, 8388608], [3, 8388608], [2147483647, 2147483647, 4, 3]])
            s.big(dims)
            s.end()
            s.show()
        s.end()
    return s


MSG = re.compile(r"^(\d+):(\d+): (.*)$", re.S)


def observe(r):
    a = {"k": r["k"], "out": r["out"], "m": r.get("m", ""), "line": 0}
    m = MSG.match(a["m"])
    if m:
        a["line"], a["m"] = int(m.group(1)), m.group(3)
    if re.match(r"^Jump/call target is \d+ which is too far$", a["m"]):
        a["m"] = "too far"
    return a


def check(v):
    work = common.workdir("A09")
    ns, nl = (3000, 320) if common.QUICK else (40000, 4000)
    sessions = []
    for i in range(ns):
        sessions.append(small(random.Random("A09/s/%d/%d" % (common.SEED, i))))
    for i in range(nl):
        sessions.append(large(random.Random("A09/l/%d/%d" % (common.SEED, i))))
    states = trans = chunks = 0
    outcomes, tags = {}, {}
    samples = []
    n = 0
    for b in range(0, len(sessions), 400):
        part = sessions[b:b + 400]
        jobs = [{"id": i, "chunks": [{"src": c["src"], "limit": 1 << 60} for c in s.chunks]} for i, s in enumerate(part)]
        reals = common.replay("lang", jobs, timeout=120)
        path = os.path.join(work, "sessions.ndjson")
        kept = []
        with open(path, "w") as f:
            for s, real in zip(part, reals):
                if real.get("k") == "skipped":
                    continue
                if "results" not in real:
                    v.add({"property": "A09", "why": "the machine %s" % real, "session": [c["src"][:20000] for c in s.chunks]})
                    continue
                acts = [observe(x) for x in real["results"]]
                if len(acts) != len(s.chunks):
                    v.add({"property": "A09", "why": "the machine stopped: %s" % acts[-1], "session": [c["src"][:20000] for c in s.chunks]})
                    continue
                kept.append((s, acts))
                f.write(json.dumps({"chunks": [{"items": c["items"], "act": a} for c, a in zip(s.chunks, acts)]}) + "\n")
        res = common.tlc(SPEC, "MCLimits", env={"JOBS": path}, work=work)
        common.tlc_ok(res, "MCLimits")
        if len(res.records) != len(kept):
            raise common.ToolError("TLC reported %d of %d sessions" % (len(res.records), len(kept)))
        states += res.distinct
        trans += res.states - len(kept)
        n += len(kept)
        for rec in res.records:
            s, acts = kept[rec["s"] - 1]
            for a in acts:
                k = a["k"] + ((": " + re.sub(r"\d+", "N", a["m"])) if a["m"] else "")
                outcomes[k] = outcomes.get(k, 0) + 1
                chunks += 1
            for t in rec["tags"]:
                tags[t] = tags.get(t, 0) + 1
            if rec["why"]:
                c = rec["c"] - 1
                v.add({"property": "A09", "why": "chunk %d: %s but got %s" % (c + 1, rec["why"][:1500], acts[c]),
                       "session": [x["src"][:200000] for x in s.chunks[:c + 1]]})
            elif len(samples) < 3 and rec["tags"]:
                samples.append({"source": s.chunks[0]["src"][:1500], "outcomes": acts[:2]})
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": n, "distinct_nontrivial": sum(1 for s in sessions if s.chunks),
           "chunks_compared": chunks, "outcomes": outcomes, "boundaries": tags,
           "rule": "sessions whose scopes, literals, code, calls or arrays are around the capacity of the machine; every one is "
                   "non-trivial because it fills some resource", "samples": samples}
    return "model_checking", cov, ["the number of partial results is only known up to a slack of %d places" % 3]


if __name__ == "__main__":
    common.main("A09", check)
