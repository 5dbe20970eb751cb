"""Generator of random EndBASIC sessions for the language specification.

A session is a list of chunks of source code.  The generator builds abstract programs, renders
them as text (tracking the position of every token) and produces the statement tables that
spec/lang/Lang.tla interprets.  The generator knows nothing about what the programs do.
"""
import random

PRIO = {"^": 6, "*": 4, "/": 4, "MOD": 4, "+": 3, "-": 3, "<<": 2, ">>": 2,
        "=": 1, "<>": 1, "<": 1, "<=": 1, ">": 1, ">=": 1, "AND": 0, "OR": 0, "XOR": 0}
SUF = {"b": "?", "d": "#", "i": "%", "t": "$", "": ""}
TNAME = {"b": "BOOLEAN", "d": "DOUBLE", "i": "INTEGER", "t": "STRING"}
MAXI = 2147483647


class Writer:
    """Accumulates source text while tracking positions."""

    def __init__(self, rng):
        self.buf = []
        self.line = 1
        self.col = 1
        self.rng = rng

    def put(self, s):
        pos = "%d:%d" % (self.line, self.col)
        self.buf.append(s)
        for ch in s:
            if ch == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1
        return pos

    def kw(self, s):
        r = self.rng.random()
        return self.put(s if r < 0.7 else s.lower() if r < 0.9 else s.capitalize())

    def text(self):
        return "".join(self.buf)

    # Expressions.

    def name(self, n, sf):
        d = n if self.rng.random() < 0.2 else n.lower()
        pos = self.put(d + SUF[sf])
        return d, pos

    def prio(self, e):
        return PRIO[e[1]] if e[0] == "o" else 5 if e[0] == "u" else 9

    def paren(self, e):
        self.put("(")
        if self.rng.random() < 0.1:
            self.put(" ")
        r = self.expr(e)
        self.put(")")
        return r

    def leads(self, e):
        """Whether the text of e starts with a parenthesis."""
        if e[0] != "o":
            return False
        need = 6 if e[1] == "^" else PRIO[e[1]]
        return self.prio(e[2]) < need or self.leads(e[2])

    def expr(self, e, low=-1, noparen=False):
        """Renders e; expressions that bind less tightly than `low` are put in parentheses.

        With noparen, there are no optional parentheses at the beginning."""
        if self.prio(e) < low or (not noparen and e[0] != "u" and self.rng.random() < 0.03):
            return self.paren(e)
        k = e[0]
        sp = "" if self.rng.random() < 0.1 else " "
        if k == "i":
            pos = self.put(str(e[1]))
            return ["i", e[1], pos]
        if k == "d":
            m, x = e[1], e[2]
            v = m / (2 ** x)
            s = "%.12f" % v
            s = s.rstrip("0")
            if s.endswith("."):
                s += "0"
            return ["d", m, x, self.put(s)]
        if k == "D":
            return ["D", 1, e[1], e[1], self.put(e[1] + ".0")]
        if k == "b":
            return ["b", e[1], self.kw("TRUE" if e[1] else "FALSE")]
        if k == "t":
            return ["t", e[1], self.put('"' + e[1].replace('\\', '\\\\').replace('"', '\\"') + '"')]
        if k == "v":
            d, pos = self.name(e[1], e[2])
            return ["v", e[1], e[2], d, pos]
        if k == "c":
            d, pos = self.name(e[1], e[2])
            self.put("(")
            args = []
            for i, a in enumerate(e[3]):
                if i:
                    self.put("," + sp)
                args.append(self.expr(a))
            self.put(")")
            return ["c", e[1], e[2], d, args, pos]
        if k == "u":
            if e[1] == "NOT":
                pos = self.kw("NOT")
                self.put(" ")
            else:
                pos = self.put("-")
            # A nested unary operator could read as a different operator ("--").
            sub = self.paren(e[2]) if e[2][0] == "u" else self.expr(e[2], 6)
            return ["u", e[1], sub, pos]
        assert k == "o"
        op = e[1]
        p = PRIO[op]
        left = self.expr(e[2], 6 if op == "^" else p, noparen)
        word = op.isalpha()
        self.put(" " if word else sp)
        pos = self.kw(op) if word else self.put(op)
        self.put(" " if word else sp)
        right = self.paren(e[3]) if e[3][0] == "u" and (op == "^" or sp == "") else self.expr(e[3], p + 1)
        return ["o", op, left, right, pos]


class Render:
    """Turns abstract chunks into source text and statement tables."""

    def __init__(self, rng, pad=0.0):
        self.rng = rng
        self.st = []
        self.chunk = 0
        self.chunks = []
        # Padding: variables, constants and code that no other statement refers to and that hence
        # change nothing, other than making the program bigger.  The specification ignores them.
        self.padding = rng.random() < pad if pad else False
        self.npad = self.nshared = self.ncode = 0

    def pad(self, owner, ind):
        r, w = self.rng, self.w
        if r.random() < 0.25:
            return
        names = []
        room = 60 if owner else 110 - self.npad
        for _ in range(min(room, r.choice([1, 3, 10, 40, 90]))):
            self.npad += 0 if owner else 1
            n = "pad%d_%d" % (self.chunk, self.uid())
            names.append(n)
            if not owner and self.nshared < 40 and r.random() < 0.15:
                self.nshared += 1
                w.put("DIM SHARED %s AS INTEGER\n" % n + "  " * ind)
            else:
                w.put("%s = %d\n" % (n, r.choice([0, 1, 200, 70000 + self.uid(), MAXI - self.uid()])) + "  " * ind)
        if not names:
            return
        budget = r.choice([0, 0, 20, 100, 300, 300, 2500])
        if budget > 300:
            budget = 0 if self.ncode else budget
        self.ncode += budget
        for _ in range(budget):
            a, b = r.choice(names), r.choice(names)
            k = r.random()
            if k < 0.4:
                w.put("%s = %s\n" % (a, b) + "  " * ind)
            elif k < 0.6:
                w.put("%s = %d.5\n" % (a, r.randrange(60000)) + "  " * ind)
            elif k < 0.8:
                w.put("IF %s = %s AND \"k%d\" = \"\" THEN %s = %d\n" % (a, b, self.uid(), a, r.randrange(100000)) + "  " * ind)
            else:
                w.put("%s = %d\n" % (a, r.randrange(200000)) + "  " * ind)

    def uid(self):
        self.ids = getattr(self, "ids", 0) + 1
        return self.ids

    def add_chunk(self, body, brk=0):
        self.chunk += 1
        self.data = []
        self.w = Writer(self.rng)
        if self.padding:
            self.pad("", 0)
        first = self.block(body, 0, "", 0, [])
        self.chunks.append({"first": first, "brk": brk, "data": self.data, "src": self.w.text()})

    def sep(self, ind):
        w = self.w
        r = self.rng.random()
        if w.col == 1:
            w.put("  " * ind)
            return
        if r < 0.15:
            w.put(": " if r < 0.1 else ":")
        else:
            if r < 0.2:
                w.put(" ' comment: PRINT 1")
            elif r < 0.22:
                w.put("\nREM x = 1")
            w.put("\n" * (2 if r > 0.95 else 1))
            w.put("  " * ind)

    def nl(self, ind):
        self.w.put("\n" + "  " * ind)

    def block(self, body, parent, owner, ind, loops):
        first = prev = 0
        for s in body:
            self.sep(ind)
            sid = self.stmt(s, parent, owner, ind, loops)
            if prev:
                self.st[prev - 1]["nx"] = sid
            else:
                first = sid
            prev = sid
        return first

    def stmt(self, s, parent, owner, ind, loops):
        w = self.w
        x = {"k": s["k"], "p": parent, "nx": 0, "ch": self.chunk, "ow": owner}
        self.st.append(x)
        sid = x["id"] = len(self.st)
        k = s["k"]
        if k == "let":
            x["n"], x["sf"] = s["n"], s.get("sf", "")
            x["d"], x["pos"] = w.name(x["n"], x["sf"])
            w.put(" = " if self.rng.random() < 0.8 else "=")
            x["e"] = w.expr(s["e"])
        elif k == "leta":
            x["n"], x["sf"] = s["n"], s.get("sf", "")
            x["d"], x["pos"] = w.name(x["n"], x["sf"])
            w.put("(")
            x["subs"] = self.exprs(s["subs"])
            w.put(") = ")
            x["e"] = w.expr(s["e"])
        elif k == "print":
            w.kw("PRINT")
            x["items"], x["seps"] = [], []
            items = list(s["items"])
            x["trail"] = bool(items) and bool(s.get("trail"))
            for i, (e, sep) in enumerate(items):
                if i == 0:
                    w.put(" ")
                    mark = len(w.buf)
                    save = (w.line, w.col)
                    r = w.expr(e, noparen=True)
                    if "".join(w.buf[mark:]).startswith("("):
                        # PRINT (a) ... could read as an assignment to an array.
                        del w.buf[mark:]
                        w.line, w.col = save
                        x["items"].append(["t", "", w.put('""')])
                        x["seps"].append(";")
                        w.put("; ")
                        r = w.expr(e, noparen=True)
                else:
                    r = w.expr(e)
                x["items"].append(r)
                if i + 1 < len(items) or x["trail"]:
                    w.put(sep + (" " if i + 1 < len(items) else ""))
                    x["seps"].append(sep)
                else:
                    x["seps"].append("")
        elif k == "if":
            x["br"] = []
            for i, (g, body) in enumerate(s["br"]):
                if g is None:
                    # An ELSE is a branch that is always taken.
                    pos = w.kw("ELSE")
                    guard = ["b", True, pos]
                else:
                    w.kw("IF" if i == 0 else "ELSEIF")
                    w.put(" ")
                    guard = w.expr(g)
                    w.put(" ")
                    w.kw("THEN")
                br = {"g": guard, "b": 0}
                x["br"].append(br)
                self.nl(ind + 1)
                br["b"] = self.block(body, sid, owner, ind + 1, loops)
                self.nl(ind)
            w.kw("END IF")
        elif k == "if1":
            # Single-line IF.
            x["k"] = "if"
            w.kw("IF")
            w.put(" ")
            guard = w.expr(s["g"])
            w.put(" ")
            w.kw("THEN")
            w.put(" ")
            x["br"] = [{"g": guard, "b": 0}]
            x["br"][0]["b"] = self.stmt(s["body"], sid, owner, ind, loops)
            if s.get("else"):
                w.put(" ")
                pos = w.kw("ELSE")
                w.put(" ")
                x["br"].append({"g": ["b", True, pos], "b": 0})
                x["br"][1]["b"] = self.stmt(s["else"], sid, owner, ind, loops)
        elif k == "while":
            w.kw("WHILE")
            w.put(" ")
            x["g"] = w.expr(s["g"])
            self.nl(ind + 1)
            x["b"] = self.block(s["body"], sid, owner, ind + 1, loops)
            self.nl(ind)
            w.kw("WEND")
        elif k == "do":
            x["dk"] = s["dk"]
            x["g"] = ["b", True, "0:0"]
            w.kw("DO")
            if s["dk"] in ("preu", "prew"):
                w.put(" ")
                w.kw("UNTIL" if s["dk"] == "preu" else "WHILE")
                w.put(" ")
                x["g"] = w.expr(s["g"])
            self.nl(ind + 1)
            x["b"] = self.block(s["body"], sid, owner, ind + 1, loops + [("DO", sid)])
            self.nl(ind)
            w.kw("LOOP")
            if s["dk"] in ("postu", "postw"):
                w.put(" ")
                w.kw("UNTIL" if s["dk"] == "postu" else "WHILE")
                w.put(" ")
                x["g"] = w.expr(s["g"])
        elif k == "for":
            w.kw("FOR")
            w.put(" ")
            x["n"], x["sf"] = s["n"], s.get("sf", "")
            x["d"], x["pos"] = w.name(x["n"], x["sf"])
            w.put(" = ")
            x["start"] = w.expr(s["start"])
            w.put(" ")
            topos = w.kw("TO")
            w.put(" ")
            end = w.expr(s["end"])
            step = s.get("step")
            x["dbl"] = False
            down = False
            if step is None:
                sn = ["i", 1, topos]
            else:
                w.put(" ")
                w.kw("STEP")
                w.put(" ")
                neg = step[1] < 0
                pos = "%d:%d" % (w.line, w.col)
                if neg:
                    w.put("-")
                lit = w.expr((step[0], abs(step[1])) + tuple(step[2:]), noparen=True)
                lit[1] = step[1]
                lit[-1] = pos
                sn = lit
                down = neg
                x["dbl"] = step[0] == "d"
            it = ["v", x["n"], x["sf"], x["d"], x["pos"]]
            x["cond"] = ["o", ">=" if down else "<=", it, end, topos]
            x["next"] = ["o", "+", it, sn, topos]
            self.nl(ind + 1)
            x["b"] = self.block(s["body"], sid, owner, ind + 1, loops + [("FOR", sid)])
            self.nl(ind)
            w.kw("NEXT")
        elif k == "select":
            w.kw("SELECT CASE")
            w.put(" ")
            x["e"] = w.expr(s["e"])
            x["cases"] = []
            for gs, body in s["cases"]:
                self.nl(ind + 1)
                w.kw("CASE")
                w.put(" ")
                c = {"gs": [], "b": 0}
                if not gs:
                    w.kw("ELSE")
                for i, g in enumerate(gs):
                    if i:
                        w.put(", ")
                    if g[0] == "is":
                        if g[1] != "=" or self.rng.random() < 0.2:
                            w.kw("IS")
                            w.put(" " + g[1] + " ")
                        c["gs"].append(["is", g[1], w.expr(g[2])])
                    else:
                        a = w.expr(g[1])
                        w.put(" ")
                        w.kw("TO")
                        w.put(" ")
                        c["gs"].append(["to", a, w.expr(g[2])])
                x["cases"].append(c)
                self.nl(ind + 2)
                c["b"] = self.block(body, sid, owner, ind + 2, loops)
            self.nl(ind)
            w.kw("END SELECT")
        elif k == "exit":
            x["what"] = s["what"]
            x["pos"] = w.kw("EXIT")
            w.put(" ")
            w.kw(s["what"])
            x["t"] = 0
            for what, t in loops:
                if what == s["what"]:
                    x["t"] = t
        elif k in ("goto", "gosub"):
            w.kw(k.upper())
            w.put(" ")
            x["n"], x["d"], x["tpos"] = self.label(s["n"])
        elif k == "label":
            x["n"], x["d"], x["pos"] = self.label(s["n"])
        elif k == "return":
            x["pos"] = w.kw("RETURN")
        elif k == "onerr":
            epos = w.kw("ON ERROR")
            w.put(" ")
            x["m"] = s["m"]
            x["n"], x["d"], x["tpos"] = "", "", ""
            if s["m"] == "none":
                w.kw("GOTO 0")
            elif s["m"] == "next":
                w.kw("RESUME NEXT")
            else:
                w.kw("GOTO")
                w.put(" ")
                x["n"], x["d"], _ = self.label(s["n"])
                x["tpos"] = epos
        elif k == "end":
            x["pos"] = w.kw("END")
            x["e"] = []
            if s.get("e") is not None:
                w.put(" ")
                x["e"] = [w.expr(s["e"])]
        elif k == "call":
            x["n"] = s["n"]
            d = s["n"] if self.rng.random() < 0.3 else s["n"].lower()
            x["pos"] = w.put(d)
            x["args"] = []
            for i, a in enumerate(s["args"]):
                w.put(" " if i == 0 else ", ")
                # A parenthesis after the name of a SUB reads as an assignment to an array.
                x["args"].append(w.expr(("i", 1) if i == 0 and w.leads(a) else a, noparen=i == 0))
        elif k == "data":
            w.kw("DATA")
            w.put(" ")
            for i, v in enumerate(s["vals"]):
                if i:
                    w.put(", ")
                if v is None:
                    self.data.append([])
                    continue
                neg = v[0] in ("i", "d") and v[1] < 0
                if neg:
                    w.put("-")
                    v = (v[0], -v[1]) + tuple(v[2:])
                n = w.expr(v, noparen=True)[:-1]
                if neg:
                    n[1] = -n[1]
                self.data.append(n)
        elif k == "read":
            w.kw("READ")
            w.put(" ")
            x["vars"] = []
            for i, v in enumerate(s["vars"]):
                if i:
                    w.put(", ")
                d, pos = w.name(v, "")
                x["vars"].append({"n": v, "sf": "", "d": d, "pos": pos})
        elif k == "restore":
            w.kw("RESTORE")
        elif k == "dim":
            w.kw("DIM")
            w.put(" ")
            x["sh"] = s.get("sh", False)
            if x["sh"]:
                w.kw("SHARED")
                w.put(" ")
            x["n"], x["t"] = s["n"], s["t"]
            x["d"], x["pos"] = w.name(x["n"], "")
            if s["t"] != "i" or self.rng.random() < 0.7:
                w.put(" ")
                w.kw("AS")
                w.put(" ")
                w.kw(TNAME[s["t"]])
        elif k == "dima":
            w.kw("DIM")
            w.put(" ")
            x["sh"] = s.get("sh", False)
            if x["sh"]:
                w.kw("SHARED")
                w.put(" ")
            x["n"], x["t"] = s["n"], s["t"]
            x["d"], x["pos"] = w.name(x["n"], "")
            w.put("(")
            x["dims"] = self.exprs(s["dims"])
            w.put(")")
            if s["t"] != "i" or self.rng.random() < 0.7:
                w.put(" ")
                w.kw("AS")
                w.put(" ")
                w.kw(TNAME[s["t"]])
        elif k in ("sub", "declare"):
            if k == "declare":
                w.kw("DECLARE")
                w.put(" ")
            x["n"], x["ret"] = s["n"], s["ret"]
            w.kw("FUNCTION" if s["ret"] else "SUB")
            w.put(" ")
            x["d"] = s["n"].lower()
            # The suffix of INTEGER functions is optional.
            suf = SUF[s["ret"]] if s["ret"] != "i" or s.get("suf") else ""
            x["pos"] = w.put(x["d"] + suf)
            x["pnames"], x["pkeys"], x["psf"], x["ptypes"] = [], [], [], []
            if s["params"]:
                w.put("(")
                for i, (n, t, style) in enumerate(s["params"]):
                    if i:
                        w.put(", ")
                    d = n.lower()
                    w.put(d)
                    if style == "suf":
                        w.put(SUF[t])
                    elif style == "as":
                        w.put(" ")
                        w.kw("AS")
                        w.put(" ")
                        w.kw(TNAME[t])
                    x["pnames"].append(d)
                    x["pkeys"].append(n)
                    x["ptypes"].append(t)
                    x["psf"].append("" if style == "" else t)
                w.put(")")
            x["b"] = 0
            if k == "sub":
                self.nl(ind + 1)
                if self.padding:
                    self.pad(x["n"], ind + 1)
                x["b"] = self.block(s["body"], sid, x["n"], ind + 1, [])
                self.nl(ind)
                w.kw("END FUNCTION" if s["ret"] else "END SUB")
        else:
            raise Exception(k)
        return sid

    def exprs(self, es):
        out = []
        for i, e in enumerate(es):
            if i:
                self.w.put(", ")
            out.append(self.w.expr(e))
        return out

    def label(self, n):
        # Labels may be written with or without their @ prefix only where they are defined.
        d = n if self.rng.random() < 0.3 else n.lower()
        pos = self.w.put("@" + d)
        return n, d, pos

    def program(self):
        return {"st": self.st, "chunks": self.chunks}
