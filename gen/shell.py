"""Conformance of the interactive shell (storage, stored program, REPL) to spec/shell."""
import glob
import json
import os
import random
import re
import sys

import common

SPEC = os.path.join(common.VERIF, "spec", "shell")
REPO = "/repo"

ANSWERS = ["y", "n", "Y", "yes", "no", "true", "maybe", "N"]
VARS = ["a", "b", "c"]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Sess:
    """Builds one session: text for the implementation, operations for the specification."""

    def __init__(self, rnd, weights):
        self.r = rnd
        self.w = weights
        self.lib = []
        self.ids = {}
        self.line_id("")

    # Statements: (text, op with columns relative to the start of the statement).
    def stmt(self, kind):
        r = self.r
        if kind == "let":
            v, n = r.choice(VARS), r.randint(-3, 40)
            return "%s = %d" % (v, n), {"o": "let", "a": v, "n": n}
        if kind == "inc":
            v, w = r.choice(VARS), r.choice(VARS)
            return "%s = %s + 1" % (v, w), {"o": "inc", "a": v, "b": w, "vc": len(v) + 3}
        if kind == "print":
            v = r.choice(VARS)
            return "PRINT %s" % v, {"o": "print", "b": v, "vc": 6}
        if kind == "say":
            t = r.choice(["hi", "one two", "x"]) + str(r.randint(0, 9))
            return 'PRINT "%s"' % t, {"o": "say", "a": t}
        if kind == "errmsg":
            return "PRINT ERRMSG", {"o": "errmsg"}
        if kind == "onnext":
            return "ON ERROR RESUME NEXT", {"o": "onnext"}
        if kind == "on0":
            return "ON ERROR GOTO 0", {"o": "on0"}
        if kind == "fail":
            return "PRINT 1 MOD 0", {"o": "fail", "a": "Modulo by zero", "vc": 8}
        if kind == "bad":
            n = r.choice(["FOO", "bar", "Nope"])
            return "%s 3" % n, {"o": "bad", "a": "Undefined symbol " + n.upper()}
        if kind == "end":
            n = r.choice([0, 0, 1, 3, 127])
            return ("END %d" % n, {"o": "end", "n": n}) if n or r.random() < 0.5 else ("END", {"o": "end", "n": 0})
        if kind == "rem":
            return "REM " + r.choice(["some text", "more: text", ""]), {"o": "nop"}
        if kind in ("clear", "run", "new", "list", "edit", "pwd"):
            t = kind.upper()
            return (t if r.random() < 0.8 else t.lower()), {"o": kind}
        if kind == "mount0":
            return "MOUNT", {"o": "mount0"}
        if kind == "dir0":
            return "DIR", {"o": "dir0"}
        if kind == "save0":
            return "SAVE", {"o": "save0"}
        if kind in ("load", "save", "kill"):
            p = self.path()
            return "%s %s" % (kind.upper(), q(p)), {"o": kind, "a": p}
        if kind == "copy":
            a, b = self.path(), self.path(dest=True)
            return "COPY %s, %s" % (q(a), q(b)), {"o": kind, "a": a, "b": b}
        if kind == "cd":
            p = self.where()
            return "CD %s" % q(p), {"o": "cd", "a": p}
        if kind == "dir":
            p = self.where()
            return "DIR %s" % q(p), {"o": "dir", "a": p}
        if kind == "mount":
            u = r.choice(["memory://", "file://d1", "file://d2", "demos://", "FILE://d1", "Memory://", "file://d1/sub",
                          "file://new", "file://new/deep", "file://", "memory://x", "demos://y", "nope://z", "://x",
                          "d1", "cloud://me", "file://d1/A.BAS", "a://b://c"] if r.random() < 0.5 else
                         ["file://d1", "file://d2", "memory://", "demos://"])
            n = self.drive(new=True)
            return "MOUNT %s AS %s" % (q(u), q(n)), {"o": "mount", "a": u, "b": n}
        if kind == "unmount":
            n = self.drive()
            return "UNMOUNT %s" % q(n), {"o": "unmount", "a": n}
        raise AssertionError(kind)

    def drive(self, new=False):
        r = self.r
        if r.random() < 0.06:
            return r.choice(["", "a.b", "a:b", "a/b", "x\\y", "zz"])
        return r.choice(["D1", "d1", "D1", "d1", "D2", "Dd", "x", "X", "memory", "MEMORY", "demos", "local", "é", "É"])

    def where(self):
        r = self.r
        if r.random() < 0.12:
            return r.choice(["", "/", "A.BAS", "D1:A.BAS", "..", "/..", "a:b:c", ":", ":/", "d.1:", "D1:/x/y", "D1:\\", "d1://"])
        return self.drive() + r.choice([":", ":/"])

    def path(self, dest=False):
        r = self.r
        if r.random() < 0.08:
            return r.choice(["..", ".", "/..", "/.", "../canary", "../canary.txt", "a/b", "sub/inner.bas", "//A.BAS", "a\\b", "",
                             "x:y:z", ":A.BAS", "D1:../canary", "D1:..", "d1:/..", "D1:sub/inner.bas", "/d1/A.BAS", "d.1:A"])
        n = r.choice(["A.BAS", "A.BAS", "A", "a", "b.bas", "b", "b", "FOO", "foo", "x.y", "/A.BAS", "/b", "sub", "bad.bas", "Mixed",
                      "AUTOEXEC.BAS", "AUTOEXEC", "...", "nofile", "crlf", "hello", "HELLO", "q?<>*", " sp ", ".bas", "é"])
        if dest and r.random() < 0.25:
            n = r.choice(["", "/"])
        if r.random() < 0.45:
            return self.drive() + ":" + n
        return n

    def line(self, kinds):
        """A line of input with several statements."""
        parts, ops, col = [], [], 1
        for k in kinds:
            t, o = self.stmt(k)
            o["c"] = col
            if "vc" in o:
                o["vc"] += col
            if k == "rem":
                parts.append(t)
                ops.append(o)
                break
            parts.append(t)
            ops.append(o)
            col += len(t) + 2
        return {"k": "line", "t": ": ".join(parts), "ops": ops}

    def line_id(self, text, ops=None):
        key = text
        if key not in self.ids:
            self.lib.append({"t": text, "b": len(text.encode()), "ops": ops or [], "ind": text[:1] in (" ", "\t"), "ch": 0})
            self.ids[key] = len(self.lib)
        return self.ids[key]

    def prog_line(self):
        r = self.r
        if r.random() < 0.06:
            return 1
        k = r.choices(list(self.w["prog"]), list(self.w["prog"].values()))[0]
        t, o = self.stmt(k)
        ind = r.choice(["", "", "", "", "  ", "    "]) if k not in ("rem",) else ""
        o["c"] = 1 + len(ind)
        if "vc" in o:
            o["vc"] += 1 + len(ind)
        return self.with_chop(ind + t, [o])

    def with_chop(self, text, ops):
        """A line together with what remains of it without its last character."""
        i = self.line_id(text, ops)
        if not self.lib[i - 1]["ch"]:
            self.lib[i - 1]["ch"] = self.line_id(text[:-1], [{"o": "opaque"}])
        return i

    def content(self):
        r = self.r
        ls = [self.prog_line() for _ in range(r.randint(0, 5))]
        nl = True
        if ls and self.lib[ls[-1] - 1]["t"] != "" and r.random() < 0.3:
            nl = False
        if not ls:
            nl = False
        return {"l": ls, "nl": nl}

    def text(self, c):
        if "bad" in c:
            return None
        t = "\n".join(self.lib[i - 1]["t"] for i in c["l"])
        return t + ("\n" if c["nl"] else "")

    def edit_ops(self):
        r = self.r
        out = []
        if r.random() < 0.4:
            # Small changes that are the only ones, most of the time.
            out.append(r.choice([{"o": "joinblank", "v": "up"}, {"o": "joinblank", "v": "down"}, {"o": "chop", "v": "back"},
                                 {"o": "chop", "v": "del"}]))
            if r.random() < 0.7:
                return out
        for _ in range(r.randint(0, 4)):
            o = r.choice(["append", "append", "append", "top", "top", "delfirst", "wander"])
            if o in ("append", "top"):
                for _ in range(9):
                    n = self.prog_line()
                    if not self.lib[n - 1]["ind"]:
                        break
                else:
                    n = 1
                if o == "top" and n != 1 and r.random() < 0.2:
                    n = 1
                out.append({"o": o, "n": n})
            else:
                out.append({"o": o})
        return out

    def group(self, kinds):
        r = self.r
        x = r.random()
        if x < self.w.get("edit", 0.1):
            return [self.line([r.choice(["say", "list"])] * (r.random() < 0.1) + ["edit"] + ["say"] * (r.random() < 0.2)),
                    {"k": "edit", "ops": self.edit_ops(), "int": r.random() < 0.15}]
        if x < self.w.get("edit", 0.1) + 0.04:
            g = [{"k": "auto"}]
        elif x < self.w.get("edit", 0.1) + 0.05:
            return [self.line(["edit"])]
        else:
            g = []
        for _ in range(r.randint(1, 4)):
            n = r.choice([1, 1, 1, 1, 2, 3])
            ks = r.choices(list(kinds), list(kinds.values()), k=n)
            g.append(self.line(ks))
            if r.random() < 0.05:
                g.append({"k": r.choice(["int", "int", "eof"])})
            if any(k in ("load", "new", "end", "run") for k in ks) and r.random() < 0.6:
                a = r.choice(ANSWERS)
                g.append({"k": "line", "t": a, "ops": [{"o": "bad", "a": "Undefined symbol " + a.upper(), "c": 1}]
                          if a != "true" else [{"o": "syn", "a": "Unexpected TRUE in statement", "c": 1}]})
        return g

    def session(self):
        r = self.r
        dirs = {"d1": {}, "d1/sub": {}, "d2": {}}
        for n in ["A.BAS", "b.bas", "FOO.BAS", "Mixed.bas"]:
            if r.random() < 0.7:
                dirs["d1"][n] = self.content()
        if r.random() < 0.4:
            dirs["d1"]["bad.bas"] = {"bad": 1}
        if r.random() < 0.4:
            dirs["d1"]["AUTOEXEC.BAS"] = self.content()
        if r.random() < 0.5:
            dirs["d1/sub"]["inner.bas"] = self.content()
        if r.random() < 0.4:
            dirs["d2"][r.choice(["A.BAS", "x.y", "a.bas"])] = self.content()
        demos = self.demos()
        groups = []
        first = []
        if r.random() < 0.85:
            u = r.choice(["file://d1", "file://d1", "file://d2", "file://d1/sub"])
            first.append({"k": "line", "t": 'MOUNT "%s" AS "D1"' % u, "ops": [{"o": "mount", "a": u, "b": "D1", "c": 1}]})
            if r.random() < 0.6:
                first.append({"k": "line", "t": 'CD "d1:"', "ops": [{"o": "cd", "a": "d1:", "c": 1}]})
        if r.random() < 0.3:
            first.append({"k": "line", "t": 'MOUNT "demos://" AS "DEMOS"', "ops": [{"o": "mount", "a": "demos://", "b": "DEMOS", "c": 1}]})
        if r.random() < 0.3:
            first.append({"k": "line", "t": 'MOUNT "memory://" AS "X"', "ops": [{"o": "mount", "a": "memory://", "b": "X", "c": 1}]})
        if first:
            groups.append(first)
        for _ in range(r.randint(6, 14)):
            groups.append(self.group(self.w["repl"]))
        return self.pack(groups, r.random() < 0.5, dirs, demos, lambda: r.randint(1, 6) if r.random() < self.w.get("brk", 0.03) else 0)

    def item(self, x):
        if x["k"] == "line":
            return {"t": x["t"]}
        if x["k"] == "auto":
            return {"auto": True}
        if x["k"] in ("int", "eof"):
            return {"key": x["k"]}
        return {"e": [[o["o"], self.lib[o["n"] - 1]["t"] if "n" in o else o.get("v", "")] for o in x["ops"]], "int": x["int"]}

    def pack(self, groups, inter, dirs, demos, brk=lambda: 0):
        """The session for the specification and for the implementation."""
        tree = {"canary": "keep me", "canary.txt": "me too"}
        for d, fs in dirs.items():
            tree[d + "/"] = ""
            for n, c in fs.items():
                tree[d + "/" + n] = self.text(c)
        gs = [(g, brk()) for g in groups]
        job = {"inter": inter, "tree": tree, "groups": [{"items": [self.item(x) for x in g], "brk": b} for g, b in gs]}
        spec = {"inter": inter, "lib": self.lib, "dirs": dirs, "demos": demos, "groups": [{"items": g, "brk": b} for g, b in gs]}
        return spec, job

    def demos(self):
        demos = {}
        for f in sorted(glob.glob(REPO + "/repl/examples/*.bas")):
            t = open(f, encoding="utf-8", newline="").read()
            nl = t.endswith("\n")
            ls = [self.line_id(x, [{"o": "opaque"}]) for x in (t[:-1] if nl else t).split("\n")]
            demos[os.path.basename(f).upper()] = {"l": ls, "nl": nl}
        return demos

    def typed(self, text, **op):
        return {"k": "line", "t": text, "ops": [dict(op, c=1)]}


def matrix(prop):
    """Sessions that go through all the ways to name the source and the destination of a command."""
    out = []

    def start():
        z = Sess(random.Random("%s/matrix/%d" % (prop, len(out))), PROFILES[prop])
        dirs = {"d1": {n: z.content() for n in ["A.BAS", "b.bas"]}, "d1/sub": {"inner.bas": z.content()}, "d2": {}}
        ini = [z.typed('MOUNT "file://d1" AS "D1"', o="mount", a="file://d1", b="D1"),
               z.typed('MOUNT "file://d2" AS "ñandú"'.replace("ú", "u"), o="mount", a="file://d2", b="ñandu"),
               z.typed('MOUNT "memory://" AS "X"', o="mount", a="memory://", b="X"),
               z.typed('MOUNT "demos://" AS "DEMOS"', o="mount", a="demos://", b="DEMOS"),
               z.typed('COPY "D1:A.BAS", "X:A.BAS"', o="copy", a="D1:A.BAS", b="X:A.BAS"),
               z.typed('COPY "D1:b.bas", "MEMORY:A.BAS"', o="copy", a="D1:b.bas", b="MEMORY:A.BAS"),
               z.typed('COPY "D1:b.bas", "Ñandu:A.BAS"', o="copy", a="D1:b.bas", b="Ñandu:A.BAS")]
        return z, dirs, z.demos(), [ini]

    if prop == "P02":
        # Stored programs that execute a command of the shell before they end in some way.
        cmds = {"LIST": {"o": "list"}, "DIR": {"o": "dir0"}, "SAVE": {"o": "save0"}, 'SAVE "X:q"': {"o": "save", "a": "X:q"},
                "CLEAR": {"o": "clear"}, "NEW": {"o": "new"}, 'LOAD "X:A"': {"o": "load", "a": "X:A"}, "RUN": None, "REM": {"o": "nop"},
                'KILL "X:none"': {"o": "kill", "a": "X:none"}, 'COPY "X:A.BAS", "X:B"': {"o": "copy", "a": "X:A.BAS", "b": "X:B"},
                'CD "X:"': {"o": "cd", "a": "X:"}}
        ends = {"END": {"o": "end", "n": 0}, "END 7": {"o": "end", "n": 7}, "PRINT 1 MOD 0": {"o": "fail", "a": "Modulo by zero", "vc": 9, "c": 1},
                "REM": {"o": "nop"}}
        for h in (None, "ON ERROR RESUME NEXT"):
            for cmd, cop in cmds.items():
                if cop is None:
                    continue
                z = Sess(random.Random(0), PROFILES[prop])
                fs, groups = {}, []
                for i, (end, eop) in enumerate(ends.items()):
                    ls = [z.line_id("a = 5", [{"o": "let", "a": "a", "n": 5, "c": 1}])]
                    if h:
                        ls.append(z.line_id(h, [{"o": "onnext", "c": 1}]))
                    ls.append(z.line_id(cmd, [dict(cop, c=1)]))
                    ls.append(z.line_id(end, [dict(eop, c=1)]))
                    fs["P%d.BAS" % i] = {"l": ls, "nl": True}
                groups.append([z.typed('MOUNT "file://d1" AS "D1"', o="mount", a="file://d1", b="D1"),
                               z.typed('MOUNT "memory://" AS "X"', o="mount", a="memory://", b="X"),
                               z.typed('COPY "D1:P1.BAS", "X:A.BAS"', o="copy", a="D1:P1.BAS", b="X:A.BAS"),
                               z.typed("b = 1", o="let", a="b", n=1)])
                for i in range(4):
                    n = "D1:P%d" % i
                    groups.append([z.typed("LOAD " + q(n), o="load", a=n), z.typed("c = 2", o="let", a="c", n=2)])
                    groups.append([z.typed("RUN", o="run"), z.typed("PRINT ERRMSG", o="errmsg"), z.typed("PRINT a", o="print", b="a", vc=7),
                                   z.typed("PRINT c", o="print", b="c", vc=7),
                                   z.typed("PRINT 1 MOD 0", o="fail", a="Modulo by zero", vc=9)])
                for x in groups:
                    for it in x:
                        for o in it["ops"]:
                            if o["o"] == "print":
                                o["vc"] = 7
                for inter in (False, True):
                    out.append(z.pack(groups, inter, {"d1": fs}, {}))
        return out
    srcs = ["A.BAS", "/A.BAS", "D1:A.BAS", "d1:/A.BAS", "x:A.BAS", "X:/A.BAS", "ñANDU:/A.BAS", "demos:/hello.bas"]
    dests = ["", "/", "D1:", "d1:/", "X:", "x:/", "ÑANDU:/", "Z", "/Z", "D1:Z", "d1:/Z", "X:/Z", "ñandu:Z"]
    for cur in ["MEMORY:", "d1:", "x:/", "Ñandu:"]:
        if prop in ("S01", "S02"):
            for a in srcs:
                z, dirs, demos, groups = start()
                groups.append([z.typed("CD " + q(cur), o="cd", a=cur)])
                for b in dests:
                    groups.append([z.typed("COPY %s, %s" % (q(a), q(b)), o="copy", a=a, b=b)])
                groups.append([z.typed("KILL " + q(a), o="kill", a=a), z.typed("DIR", o="dir0"), z.typed("MOUNT", o="mount0")])
                for n in ("d1", "X", "Memory", "ñAndu"):
                    groups.append([z.typed("UNMOUNT " + q(n), o="unmount", a=n)])
                groups.append([z.typed("PWD", o="pwd"), z.typed("MOUNT", o="mount0")])
                out.append(z.pack(groups, False, dirs, demos))
        else:
            z, dirs, demos, groups = start()
            groups.append([z.typed("CD " + q(cur), o="cd", a=cur)])
            for a in srcs + ["nofile", "D1:sub", "nodrive:A", "a", "/b", "D1:/b"]:
                n = z.prog_line()
                while z.lib[n - 1]["ind"]:
                    n = z.prog_line()
                groups.append([z.typed("LOAD " + q(a), o="load", a=a), z.typed("PRINT ERRMSG", o="errmsg")])
                if a.startswith("demos"):
                    groups.append([z.typed("NEW", o="new")])
                groups.append([z.typed("EDIT", o="edit"), {"k": "edit", "ops": [{"o": "top", "n": n}], "int": False}])
                groups.append([z.typed("SAVE " + q(a), o="save", a=a), z.typed("SAVE", o="save0")])
                groups.append([z.typed("NEW", o="new"), z.typed("y", o="bad", a="Undefined symbol Y")])
            out.append(z.pack(groups, True, dirs, demos))
    return out


BASE = {"let": 3, "inc": 1, "print": 3, "say": 1, "errmsg": 1, "onnext": 0.7, "on0": 0.4, "fail": 0.8, "bad": 0.4, "end": 0.6}
STORAGE = {"cd": 3, "pwd": 1, "mount": 3, "mount0": 1.5, "unmount": 1.5, "copy": 5, "kill": 3, "dir": 3, "dir0": 1.5}
PROGRAM = {"load": 5, "save": 4, "save0": 1.5, "new": 1.5, "run": 2, "list": 2, "clear": 0.7}
STORED = {"let": 3, "inc": 1, "print": 3, "say": 4, "errmsg": 1, "onnext": 1, "on0": 0.4, "fail": 0.6, "bad": 0.15, "end": 0.5,
          "rem": 1}


def mix(*parts):
    out = {}
    for f, d in parts:
        for k, v in d.items():
            out[k] = out.get(k, 0) + f * v
    return out


PROFILES = {
    "S01": {"repl": mix((0.1, BASE), (1, STORAGE), (0.15, PROGRAM)), "prog": mix((1, STORED)), "edit": 0.02},
    "S02": {"repl": mix((0.05, BASE), (0.6, STORAGE), (0.8, {"load": 4, "save": 6, "kill": 4, "copy": 6, "list": 1})),
            "prog": mix((1, STORED)), "edit": 0.1},
    "P01": {"repl": mix((0.2, BASE), (0.15, STORAGE), (1, PROGRAM)), "prog": mix((1, STORED), (0.05, STORAGE)), "edit": 0.3, "brk": 0.08},
    "P02": {"repl": mix((1.2, BASE), (0.05, STORAGE), (0.5, PROGRAM), (1, {"run": 3, "clear": 1.5})),
            "prog": mix((1.5, STORED), (0.06, STORAGE), (0.12, PROGRAM), (1, {"list": 1.5, "dir0": 1, "end": 1})), "edit": 0.15, "brk": 0.15},
}


def make(prop, i):
    rnd = random.Random("%s/%d/%d" % (prop, common.SEED, i))
    w = PROFILES[prop] if rnd.random() < 0.8 else PROFILES[rnd.choice(list(PROFILES))]
    return Sess(rnd, w).session()


def interpret(specs, work, name="sessions"):
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for s in specs:
            f.write(json.dumps(s) + "\n")
    res = common.tlc(SPEC, "MCShell", env={"SESSIONS": path}, work=work)
    common.tlc_ok(res, "MCShell")
    out = {r["p"] - 1: r for r in res.records}
    if len(out) != len(specs):
        raise common.ToolError("TLC reported %d of %d sessions" % (len(out), len(specs)))
    return out, res


def text_of(lib, c):
    if "bad" in c:
        return "\ufffdA"
    t = "\n".join(lib[i - 1]["t"] for i in c["l"])
    return t + ("\n" if c["nl"] else "")


def fmap(x):
    return x if isinstance(x, dict) else {}


def expected(spec, job, snap):
    lib = spec["lib"]
    e = {"out": snap["out"], "rc": int(snap["rc"]) if snap["rc"].lstrip("-").isdigit() else snap["rc"], "cwd": snap["cwd"],
         "mounted": {}, "files": {}, "disk": {k: v for k, v in job["tree"].items() if "/" not in k}, "alt": False,
         "name": snap["name"] or None, "text": "".join(lib[i - 1]["t"] + "\n" for i in snap["l"]), "dirty": snap["dirty"]}
    for d, v in fmap(snap["drives"]).items():
        e["mounted"][d] = v["u"]
        e["files"][d] = {n: ({"err": c} if isinstance(c, str) else text_of(lib, c)) for n, c in fmap(v["f"]).items()}
    for p, fs in fmap(snap["dirs"]).items():
        e["disk"][p + "/"] = ""
        for n, c in fmap(fs).items():
            e["disk"][p + "/" + n] = text_of(lib, c)
    return e


DATE = re.compile(r"(?m)^    \d{4}-\d\d-\d\d \d\d:\d\d    ")


# How wide a name is in a table is not of interest if it has letters of several bytes.
ROW = re.compile(r"(?m)^(    [^ \n]+) +(\w+:[^ \n]*|Target)$")


def compare(spec, job, rep, real):
    if real.get("k") in ("died", "hang"):
        return "the interpreter %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    got = real["results"]
    for i, snap in enumerate(rep["res"]):
        if i >= len(got):
            return "group %d did not run" % (i + 1)
        if "panic" in got[i]:
            return "group %d panicked: %s" % (i + 1, got[i]["panic"])
        e = expected(spec, job, snap)
        a = dict(got[i])
        a.pop("left")
        a["out"] = ROW.sub(r"\1 \2", DATE.sub("    DATE    ", a["out"]))
        e["out"] = ROW.sub(r"\1 \2", e["out"])
        for k in e:
            if a.get(k) != e[k]:
                return "group %d (%s): %s: expected %s but got %s" % (
                    i + 1, json.dumps(job["groups"][i]), k, json.dumps(e[k]), json.dumps(a.get(k)))
    for g in got:
        if "panic" in g:
            return "panic: " + g["panic"]
    return None


def run(prop, nq, nt, rule):
    def fn(v):
        work = common.workdir(prop)
        st = {"states": 0, "transitions": 0, "n": 0, "nt": 0, "groups": 0, "cut": {}, "ops": {}}
        samples = []
        todo = 2 * nq if common.QUICK else nt
        for b in range(0, todo, 300):
            part = [make(prop, i) for i in range(b, min(b + 300, todo))] + (matrix(prop) if b == 0 else [])
            reps, res = interpret([s for s, _ in part], work)
            st["states"] += res.distinct
            st["transitions"] += res.states - len(part)
            # What comes after the specification gives up is not run: it may never end.
            reals = common.replay("shell", [{"id": i, "inter": j["inter"], "tree": j["tree"], "groups": j["groups"][:len(reps[i]["res"])]}
                                            for i, (_, j) in enumerate(part)], jail=True)
            for i, (spec, job) in enumerate(part):
                d = compare(spec, job, reps[i], reals[i])
                st["n"] += 1
                st["groups"] += len(reps[i]["res"])
                if len(reps[i]["res"]) >= 5:
                    st["nt"] += 1
                    if len(samples) < 2:
                        samples.append({"input": job["groups"][:6], "expected": [expected(spec, job, x)["out"] for x in reps[i]["res"][:6]]})
                for g in spec["groups"][:len(reps[i]["res"])]:
                    for it in g["items"]:
                        for o in it.get("ops", []):
                            st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
                if reps[i]["st"] == "oom":
                    st["cut"][reps[i]["why"]] = st["cut"].get(reps[i]["why"], 0) + 1
                if d:
                    v.add({"property": prop, "why": d, "job": job, "expected": reps[i]["res"], "actual": reals[i]})
            if v.n > 10:
                break
        cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"],
               "distinct_nontrivial": st["nt"], "groups_compared": st["groups"], "cut_short": st["cut"], "operations": st["ops"],
               "rule": rule, "samples": samples}
        return "model_checking", cov, ["sessions are only compared up to the first read of an uninitialised variable, the "
                                       "execution of a demo program or an edit of indented lines"]
    common.main(prop, fn)


CHECKS = {
    "S01": (420, 6000, "random sessions dominated by CD, PWD, MOUNT, UNMOUNT, COPY, KILL and DIR over memory, directory and "
                       "demo drives with valid and invalid names; non-trivial if at least 5 groups of commands were compared"),
    "S02": (420, 6000, "random sessions dominated by SAVE, LOAD, COPY and KILL over directory drives, with paths that try to "
                       "leave them; non-trivial if at least 5 groups of commands were compared"),
    "P01": (420, 6000, "random sessions dominated by LOAD, SAVE, NEW, EDIT, RUN and END with answered and unanswered warnings; "
                       "non-trivial if at least 5 groups of commands were compared"),
    "P02": (420, 6000, "random sessions that mix lines of the interpreter, errors, error handlers and stored programs; "
                       "non-trivial if at least 5 groups of commands were compared"),
}

if __name__ == "__main__":
    run(sys.argv[1], *CHECKS[sys.argv[1]])
