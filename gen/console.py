"""Conformance of the console (C01 line reader, C03 screen) with spec/console/Console.tla."""
import json
import os
import random
import sys

import common

SPEC = os.path.join(common.VERIF, "spec", "console")
GW, GH = 4, 2
LETTERS = "abcdefgXYZ0123456789.,;-"
ODD = "éñ€"
KEYS = ["left", "right", "home", "end", "bs", "del", "up", "down", "eof", "tab", "pgup", "pgdn", "esc", "unk"]


DIM = {"o": "nop", "a": [], "t": "", "keys": [], "bas": "DIM vs AS STRING: DIM vi AS INTEGER: DIM vb AS BOOLEAN"}


def quote(t):
    return '"' + t + '"'


class Gen:
    def __init__(self, rnd, cw, ch, rm, bm, prop):
        self.r, self.cw, self.ch, self.rm, self.bm, self.prop = rnd, cw, ch, rm, bm, prop
        self.ops = [dict(DIM)]
        self.x = 0          # column, to respect what the line reader and move_within_line need
        self.y = 0
        self.vis = True
        self.alt = None
        self.plain = True   # whether the next line starts in the first column

    def text(self, lo, hi, odd=0.05, ctl=0.0):
        out = ""
        for _ in range(self.r.randint(lo, hi)):
            p = self.r.random()
            out += self.r.choice(ODD) if p < odd else self.r.choice("\t\r") if p < odd + ctl else self.r.choice(LETTERS + "  ")
        return out

    def put(self, n, nl):
        x = self.x + n
        if n:
            x = (x - 1) % self.cw + 1 if x > self.cw else x
        self.x = 0 if nl else x

    def keys(self, prompt, hist):
        n = self.r.choice([0, 2, 5, 9, 15, 25])
        ks = []
        burst = self.r.random() < 0.3
        for _ in range(n):
            p = self.r.random()
            if p < (0.85 if burst else 0.55):
                ks.append("=" + self.r.choice(LETTERS + ("é" if self.r.random() < 0.2 else "  ")))
            elif hist and p < 0.9 and self.r.random() < 0.5:
                ks.append(self.r.choice(["up", "up", "down"]))
            else:
                ks.append(self.r.choice(KEYS))
            if self.r.random() < 0.15:
                ks += [self.r.choice(["left", "bs", "right", "del"])] * self.r.randint(2, 8)
        ks.append(self.r.choice(["nl", "nl", "nl", "nl", "cr", "int"] + (["eof"] if self.r.random() < 0.3 else [])))
        if ks[-1] != "int":
            ks.append("int")
        return ks

    def readline(self):
        if not self.vis or (self.x and self.prop == "C01" and False):
            return None
        hist = self.r.random() < 0.6
        echo = hist or self.r.random() < 0.6
        if self.x:
            self.ops.append({"o": "print", "t": "", "a": []})
            self.put(0, True)
        prompt = self.text(0, self.r.choice([0, 2, 4, self.cw - 2, self.cw + 3]), odd=0)
        room = self.cw - len(prompt) - 1
        if room <= 0 and len(prompt) < self.cw or (len(prompt) >= self.cw and self.cw < 5):
            prompt = ""
        pre = ""
        if echo and self.r.random() < 0.3:
            pre = self.text(1, self.cw + 4)
        op = {"o": "readline", "prompt": prompt, "t": pre, "hist": hist and echo, "echo": echo, "keys": self.keys(prompt, hist and echo)}
        self.ops.append(op)
        self.x = None
        return op

    def basic(self):
        r = self.r
        k = r.choice(["cls", "color", "color", "locate", "locate", "printv", "printv", "printv", "printv", "input", "input", "inkey", "reset"])
        if k == "cls":
            return {"o": "cls", "bas": "CLS"}, lambda: self.put(-self.x, False)
        if k == "color":
            m = r.choice([0, 1, 2, 3, 4])
            f, b = r.choice([0, 1, 2, 4, 7, 15, 15, -1, 256]), r.choice([0, 0, 1, 2, 4, -1 if m > 1 else 7])
            b = b if b >= 0 else 300
            if m == 0:
                return {"o": "color", "a": [-1, -1], "bas": "COLOR"}, None
            if m == 1 or m == 2:
                if f == -1:
                    return {"o": "color", "a": [-2, -1], "bas": "COLOR -2"}, None
                return {"o": "color", "a": [f, -1], "bas": "COLOR %d" % f if m == 1 else "COLOR %d," % f}, None
            f = 3 if f in (-1, 256) else f
            if m == 3:
                return {"o": "color", "a": [-1, b], "bas": "COLOR ,%d" % b}, None
            return {"o": "color", "a": [f, b], "bas": "COLOR %d, %d" % (f, b)}, None
        if k == "locate":
            x, y = r.choice([0, 0, self.cw - 1, r.randrange(self.cw), self.cw, -1]), r.choice([self.ch - 1, r.randrange(self.ch), r.randrange(self.ch), self.ch, -3])
            if r.random() < 0.6:
                x, y = min(max(x, 0), self.cw - 1), min(max(y, 0), self.ch - 1)
            ok = 0 <= x < self.cw and 0 <= y < self.ch
            return {"o": "locate", "a": [x, y], "bas": "LOCATE %d, %d" % (x, y)}, (lambda: self.put(x - self.x, False)) if ok else None
        if k == "printv":
            items, src = [], ""
            n = r.randint(0, 4)
            for i in range(n):
                last = i == n - 1
                sep = "" if last and r.random() < 0.7 else r.choice([",", ";", ";"])
                kind = r.choice(["txt", "txt", "num", "var", "none"])
                if kind == "none" and (not sep or src.endswith(("; ", ", ")) and r.random() < 0.5):
                    kind = "txt"
                if kind == "txt":
                    t = self.text(0, r.choice([1, 4, self.cw, self.cw * 2]))
                    items.append({"k": "txt", "t": t, "sep": sep})
                    src += quote(t)
                elif kind == "num":
                    t = str(r.choice([0, 7, -12, 345]))
                    items.append({"k": "num", "t": t, "sep": sep})
                    src += t
                elif kind == "var":
                    v = r.choice("sib")
                    items.append({"k": "var", "t": v, "sep": sep})
                    src += {"s": "vs$", "i": "vi%", "b": "vb?"}[v]
                else:
                    items.append({"k": "none", "t": "", "sep": sep})
                src += sep + " "
            if not items or items[-1]["sep"]:
                items.append({"k": "none", "t": "", "sep": ""})
            return {"o": "printv", "items": items, "bas": "PRINT " + src}, "x"
        if k == "inkey":
            ks = [r.choice(KEYS + ["nl", "cr", "int", "=q", "=Z", "=é"]) for _ in range(r.choice([0, 1, 2]))]
            return {"o": "inkey", "keys": ks, "bas": 'PRINT "[" + INKEY + "]"'}, "x"
        if k == "reset":
            return {"o": "reset", "bas": "CLEAR"}, "reset"
        ty = r.choice("sib")
        prompt = self.text(0, r.choice([0, 3, 6]), odd=0)
        sep = r.choice([",", ";"])
        var = {"s": "vs$", "i": "vi%", "b": "vb?"}[ty]
        if len(prompt) + 3 >= self.cw:
            prompt = prompt[:2]
        if prompt == "" and r.random() < 0.5:
            src, sep = "INPUT " + var, ""
        elif prompt == "" and r.random() < 0.3:
            src = "INPUT " + sep + " " + var
        else:
            src = "INPUT " + quote(prompt) + sep + " " + var
        ks = []
        for _ in range(r.randint(1, 3)):
            ans = {"s": [self.text(0, 6)], "i": ["5", "-12", "+3", "007", "x", "1.5", "", "-"],
                   "b": ["true", "YES", "n", "No", "maybe", "falsE", ""]}[ty]
            a = r.choice(ans) + " " * r.choice([0, 0, 2])
            ks += ["=" + c for c in a]
            if r.random() < 0.3:
                ks += [r.choice(["left", "home", "bs", "bs", "right"])] * r.randint(1, 4)
            ks.append(r.choice(["nl", "nl", "cr"]))
            if r.random() < 0.5:
                ks += ["end"] + ["bs"] * 8
        ks += ["int"]
        return {"o": "input", "ty": ty, "sep": sep, "prompt": prompt, "keys": ks, "bas": src}, "line"

    def trait(self):
        r = self.r
        k = r.choice(["cls", "clrline", "clrprev", "clreol", "color", "enter", "leave", "hide", "show", "locate", "move", "print",
                      "print", "write", "write", "write", "sync", "syncnow"])
        op = {"o": k, "a": [], "t": ""}
        if self.prop == "C02" and k == "enter" and r.random() < 0.8:
            return None
        if k == "color":
            op["a"] = [r.choice([-1, 1, 2, 15, 0]), r.choice([-1, 0, 4, 2])]
        elif k == "locate":
            op["a"] = [r.randrange(self.cw), r.randrange(self.ch)]
            self.x = op["a"][0]
        elif k == "move":
            if self.x is None or self.x >= self.cw:
                return None
            n = r.randrange(self.cw) - self.x
            op["a"] = [n]
            self.x += n
        elif k in ("print", "write"):
            t = self.text(0, r.choice([1, 5, self.cw - 1, self.cw, self.cw + 2, self.cw * 3]), ctl=0.03)
            if r.random() < 0.3 and self.x is not None and self.x < self.cw:
                t = self.text(self.cw - self.x, self.cw - self.x)
            op["t"] = t
            if self.x is not None:
                self.put(len(t), k == "print")
        elif k == "sync":
            op["a"] = [r.random() < 0.6]
        elif k == "hide":
            self.vis = False
        elif k == "show":
            self.vis = True
        elif k == "cls":
            self.x = 0
        elif k == "clrline":
            self.x = 0
        elif k == "clreol" and (self.x is None or self.x >= self.cw):
            return None
        elif k == "clrprev":
            if self.x is None:
                return None
            self.x = max(self.x - 1, 0)
        elif k == "enter":
            if self.alt is None:
                self.alt = self.x
                self.alt = (self.x,)
                self.x = 0
        elif k == "leave":
            if self.alt is not None:
                self.x = self.alt[0]
                self.alt = None
        self.ops.append(op)
        return op

    def line_ready(self):
        """The line reader needs a visible cursor in the first column."""
        if not self.vis:
            self.ops.append({"o": "show", "a": [], "t": ""})
            self.vis = True
        self.ops.append({"o": "print", "t": "", "a": []})
        self.x = 0

    def program(self, odd=0.03):
        lines = []
        for _ in range(self.r.choice([0, 1, 2, 3, 5, 9])):
            ind = self.r.choice(["", "", "", "  ", "    ", "     ", "        ", "\t", " \t"])
            lines.append(ind + self.text(0, self.r.choice([0, 3, 8, self.cw, self.cw + 5]), odd))
        return lines

    def edkeys(self):
        ks = []
        for _ in range(self.r.choice([0, 3, 8, 15, 30])):
            p = self.r.random()
            if p < 0.25:
                ks.append("=" + self.r.choice(LETTERS + "   é"))
            elif p < 0.3:
                ks += ["=" + c for c in self.text(1, self.cw)]
            elif p < 0.85:
                ks.append(self.r.choice(["left", "right", "up", "down", "home", "end", "bs", "bs", "del", "nl", "tab", "up", "down"]))
            else:
                ks.append(self.r.choice(["pgup", "pgdn", "unk", "eof", "cr"]))
            if self.r.random() < 0.2:
                ks += [self.r.choice(["left", "right", "up", "down", "bs", "del", "tab", "nl", "="+self.r.choice("xyz ")])] * self.r.randint(1, 8)
        return ks + [self.r.choice(["esc", "esc", "int"])]

    def editing(self):
        p = self.r.random()
        name = self.r.choice(["", "X", "a.bas", "MEMORY:/LONG.BAS"])
        if p < 0.3:
            self.ops.append({"o": "load", "name": name, "lines": self.program(), "t": ""})
        elif p < 0.4:
            self.ops.append({"o": "setname", "t": name or "Q", "name": name or "Q"})
        else:
            self.ops.append({"o": "edit", "keys": self.edkeys()})
            if self.alt is None:
                self.vis = True

    def session(self, n):
        for _ in range(n):
            p = self.r.random()
            if self.prop == "C02":
                if p < 0.75:
                    self.editing()
                    continue
                p = (p - 0.75) * 4
            if self.prop == "C01":
                if p < 0.6:
                    if not self.vis or self.x != 0:
                        self.line_ready()
                    self.readline()
                    continue
                kind = "trait" if p < 0.75 else "basic"
            else:
                kind = "trait" if p < 0.55 else "basic"
            if kind == "trait":
                self.trait()
                continue
            b, after = self.basic()
            if after == "line" and (not self.vis or self.x != 0):
                self.line_ready()
            op = {"a": [], "keys": [], "t": ""}
            op.update(b)
            self.ops.append(op)
            if after == "reset":
                self.ops.append(dict(DIM))
                self.vis = True
                if self.alt is not None:
                    self.x = self.alt[0]
                    self.alt = None
            elif after in ("x", "line"):
                self.x = None
            elif after:
                if self.x is None:
                    self.x = 0
                after()
        return self.job()

    def job(self):
        return {"cw": self.cw, "ch": self.ch, "rm": self.rm, "bm": self.bm, "ops": self.ops}


def split(x):
    return list(x)


def spec_op(op):
    o = {"o": op["o"], "a": op.get("a", []), "t": split(op.get("t", "")), "keys": op.get("keys", [])}
    if "prompt" in op:
        o["prompt"] = split(op["prompt"])
    if "lines" in op:
        o["lines"] = [split(x) for x in op["lines"]]
    for k in ("hist", "echo", "ty", "sep", "name"):
        if k in op:
            o[k] = op[k]
    if "items" in op:
        o["items"] = [{"k": i["k"], "t": i["t"] if i["k"] == "var" else split(i["t"]), "sep": i["sep"]} for i in op["items"]]
    return o


def real_op(op):
    if "bas" in op:
        return {"o": "basic", "t": op["bas"], "keys": op.get("keys", [])}
    if op["o"] == "load":
        return {"o": "load", "name": op["name"] or None, "t": "".join(x + "\n" for x in op["lines"])}
    return op


def spec_job(job, alpha=(), depth=0):
    return {"cw": job["cw"], "ch": job["ch"], "rm": 1 if job["rm"] else 0, "bm": 1 if job["bm"] else 0,
            "ops": [spec_op(o) for o in job["ops"]], "alpha": [spec_op(o) for o in alpha], "depth": depth}


def real_job(i, job, ops):
    return {"id": i, "w": job["cw"] * GW + job["rm"], "h": job["ch"] * GH + job["bm"], "ops": [real_op(o) for o in ops]}


def interpret(jobs, work, name):
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    return common.tlc_ok(common.tlc(SPEC, "MCConsole", env={"JOBS": path}, work=work), "MCConsole " + name)


def compare(ops, res, real):
    if real.get("k") in ("died", "hang"):
        return "the console %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    for i, e in enumerate(res):
        if i >= len(real["results"]):
            return "operation %d did not run" % (i + 1)
        a, op = real["results"][i], real_op(ops[i])
        who = "operation %d (%s)" % (i + 1, json.dumps(op, ensure_ascii=False)[:200])
        if "panic" in a:
            return "%s panicked: %s" % (who, a["panic"])
        for n, (x, y) in enumerate(zip(e["frames"], a["frames"])):
            if x != y:
                return "%s: screen %d of %d:\n%s\nshould be\n%s" % (who, n + 1, len(e["frames"]), y, x)
        if len(e["frames"]) != len(a["frames"]):
            return "%s: %d screens instead of %d" % (who, len(a["frames"]), len(e["frames"]))
        err = a.get("err", "") or ""
        if op["o"] == "basic":
            err = "int" if err.endswith("Ctrl+C") else "eof" if err.endswith("EOF") else err.split(": ", 1)[-1] if err else ""
        if err != e["err"]:
            return "%s: error %r instead of %r" % (who, err, e["err"])
        if op["o"] == "readline" and a.get("line") != (e["ret"] if e["hasret"] else None):
            return "%s: returned %r instead of %r" % (who, a.get("line"), e["ret"] if e["hasret"] else None)
        if op["o"] == "edit" and not err and (a["text"] != e["text"] or a["dirty"] != e["dirty"]):
            return "%s: the program is %r (%smodified) instead of %r (%smodified)" % (
                who, a["text"], "" if a["dirty"] else "not ", e["text"], "" if e["dirty"] else "not ")
        if op["o"] == "sync" and json.dumps(a["prev"]) != e["ret"]:
            return "%s: previous syncing was %r instead of %s" % (who, a["prev"], e["ret"])
        if a["left"] != e["left"]:
            return "%s: %d keys were left instead of %d" % (who, a["left"], e["left"])
    return None


def make(prop, i):
    rnd = random.Random("%s/%d/%d" % (prop, common.SEED, i))
    if prop == "C02":
        cw, ch = rnd.choice([(8, 3), (12, 5), (16, 4), (10, 6), (5, 2), (45, 4), (60, 5)])
        return Gen(rnd, cw, ch, rnd.choice([0, 0, 1, 3]), rnd.choice([0, 0, 1]), prop).session(rnd.randint(4, 9))
    cw, ch = rnd.choice([(8, 3), (12, 4), (16, 3), (20, 5), (5, 2), (30, 4)])
    return Gen(rnd, cw, ch, rnd.choice([0, 0, 1, 3]), rnd.choice([0, 0, 1]), prop).session(rnd.randint(6, 16))


def T(o, *a, t="", **k):
    return dict({"o": o, "a": list(a), "t": t, "keys": []}, **k)


def alphabets(prop):
    """Operations to combine in every order, with the console they run on."""
    if prop == "C03":
        ops = [T("cls"), T("clreol"), T("clrprev"), T("color", 2, 4), T("enter"), T("leave"), T("hide"), T("show"), T("locate", 1, 1),
               T("print", t="ab"), T("write", t="x"), T("write", t="cdef"), T("sync", False), T("sync", True), T("syncnow")]
        return [(ops, {"cw": 4, "ch": 2, "rm": 0, "bm": 0, "ops": []}, 3 if common.QUICK else 5),
                (ops, {"cw": 3, "ch": 2, "rm": 2, "bm": 1, "ops": []}, 3 if common.QUICK else 4)]
    return []


def keyseqs(prop):
    """Every sequence of a few keys, after a line that fits and one that does not."""
    import itertools
    if prop == "C02":
        ks = ["=x", "bs", "del", "left", "right", "home", "end", "up", "down", "nl", "tab"]
        jobs = []
        texts = [["ab", "", "    c"], ["0123456789", "x"], ["      ab", "  "]]
        starts = [[], ["end"], ["down", "end"]] if common.QUICK else [[], ["end"], ["down"], ["down", "end"], ["down", "down", "end"], ["right", "right", "right", "right"]]
        for n in ((2,) if common.QUICK else (2, 3)):
            for text in texts:
                for start in starts:
                    ops = []
                    for seq in itertools.product(ks, repeat=n):
                        ops += [{"o": "load", "name": "", "lines": text, "t": ""}, {"o": "edit", "keys": start + list(seq) + ["esc"]}]
                    for i in range(0, len(ops), 40):
                        jobs.append({"cw": 8, "ch": 3, "rm": 0, "bm": 0, "ops": ops[i:i + 40]})
        return jobs
    if prop != "C01":
        return []
    ks = ["=x", "bs", "del", "left", "right", "home", "end", "up", "down"]
    jobs = []
    for n in ((3,) if common.QUICK else (3, 4)):
        for pre in ("ab", "abcdefghi"):
            ops = []
            for seq in itertools.product(ks, repeat=n):
                if n == 4 and random.Random(str(seq)).random() < 0.6:
                    continue
                ops.append(T("readline", t=pre, prompt="> ", hist=True, echo=True, keys=list(seq) + ["nl"]))
            for i in range(0, len(ops), 20):
                jobs.append({"cw": 8, "ch": 3, "rm": 0, "bm": 0, "ops": [T("readline", t="", prompt="", hist=True, echo=True, keys=["=1", "=2", "nl"])] + ops[i:i + 20]})
    return jobs


def run(prop, nq, nt, rule):
    def fn(v):
        work = common.workdir(prop)
        st = {"states": 0, "transitions": 0, "n": 0, "nt": 0, "frames": 0, "ops": {}, "exhaustive": 0}
        samples = []

        def judge(job, ops, res, real):
            d = compare(ops, res, real)
            st["n"] += 1
            st["frames"] += sum(len(r["frames"]) for r in res)
            for o in ops:
                st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
            if len(ops) >= 3:
                st["nt"] += 1
            if len(samples) < 2 and len(ops) > 5:
                samples.append({"input": [real_op(o) for o in ops[:4]], "expected": [r["frames"][-1] for r in res[:4]]})
            if d:
                v.add({"property": prop, "why": d, "job": real_job(0, job, ops), "expected": res, "actual": real})

        todo = 2 * nq if common.QUICK else nt
        for b in range(0, todo, 400):
            part = [make(prop, i) for i in range(b, min(b + 400, todo))] + (keyseqs(prop) if b == 0 else [])
            res = interpret([spec_job(j) for j in part], work, "sessions")
            st["states"] += res.distinct
            st["transitions"] += res.states - len(part)
            out = {r["p"] - 1: r["res"] for r in res.records}
            if len(out) != len(part):
                raise common.ToolError("TLC reported %d of %d sessions" % (len(out), len(part)))
            reals = common.replay("console", [real_job(i, j, j["ops"]) for i, j in enumerate(part)])
            for i, j in enumerate(part):
                judge(j, j["ops"], out[i], reals[i])
            if v.n > 10:
                break
        for alpha, job, depth in alphabets(prop):
            res = interpret([spec_job(job, alpha, depth)], work, "alphabet")
            st["states"] += res.distinct
            st["transitions"] += res.states - 1
            key = {json.dumps(spec_op(o), sort_keys=True): o for o in alpha}
            seqs = [[key[json.dumps(o, sort_keys=True)] for o in r["ops"]] for r in res.records]
            reals = common.replay("console", [real_job(i, job, s) for i, s in enumerate(seqs)])
            for s, r, real in zip(seqs, res.records, reals):
                st["exhaustive"] += 1
                judge(job, s, r["res"], real)
        cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"],
               "distinct_nontrivial": st["nt"], "screens_compared": st["frames"], "exhaustive_sequences": st["exhaustive"],
               "operations": st["ops"], "rule": rule, "samples": samples}
        return "model_checking", cov, ["the screen is the framebuffer of a simulated LCD with a font whose characters can be told apart"]
    common.main(prop, fn)


CHECKS = {
    "C01": (350, 6000, "random sequences of lines read with prompts, history, hidden input and previous text on small consoles, and every sequence of "
                       "3 keys (4 if thorough); non-trivial if at least 3 operations"),
    "C02": (300, 5000, "random editing sessions over programs of up to 9 lines on consoles of 5 to 60 columns, interleaved with console operations, and every "
                       "sequence of 2 keys (3 if thorough) out of 11 from several positions of 3 programs; non-trivial if at least 3 operations"),
    "C03": (450, 8000, "random sequences of console operations and BASIC console statements on small consoles with and without margins, and every "
                       "sequence of 3 operations (5 if thorough) out of 15; non-trivial if at least 3 operations"),
}

if __name__ == "__main__":
    run(sys.argv[1], *CHECKS[sys.argv[1]])
