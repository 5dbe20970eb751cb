"""Conformance of drawing (G01) with spec/gfx/Gfx.tla."""
import itertools
import json
import os
import random
import sys

import common

SPEC = os.path.join(common.VERIF, "spec", "gfx")
NAMES = {"pixel": "GFX_PIXEL", "line": "GFX_LINE", "rect": "GFX_RECT", "rectf": "GFX_RECTF", "circle": "GFX_CIRCLE", "circlef": "GFX_CIRCLEF",
         "poly": "GFX_POLY", "polyf": "GFX_POLYF", "tri": "GFX_TRI", "trif": "GFX_TRIF", "fill": "GFX_FILL"}
NARGS = {"pixel": 2, "line": 4, "rect": 4, "rectf": 4, "circle": 3, "circlef": 3, "tri": 6, "trif": 6, "fill": 2}
COLORS = list(range(16)) * 4 + list(range(16, 256))


def O(o, *a, t="", **k):
    return dict({"o": o, "a": list(a), "t": t, "shape": "", "pos": [], "src": None}, **k)


class Gen:
    def __init__(self, rnd, w, h):
        self.r, self.w, self.h = rnd, w, h
        self.cols, self.rows = w // 4, h // 2
        self.n = 0

    def coord(self, size):
        p = self.r.random()
        if p < 0.82:
            return self.r.randint(-3, size + 3)
        if p < 0.92:
            return self.r.randint(-40, size + 40)
        return self.r.choice([-32768, 32767, -32767, 20000, -20000, 1000, -1000, self.r.randint(-32768, 32767)])

    def pts(self, n):
        out = []
        for _ in range(n):
            out += [self.coord(self.w), self.coord(self.h)]
        return out

    def shape(self):
        r = self.r
        o = r.choice(list(NAMES) + ["polyf", "polyf", "trif", "trif", "circle", "circlef", "line", "rectf", "fill"])
        if o in ("poly", "polyf"):
            n = r.choice([0, 1, 2, 3, 4, 4, 5, 6, 8])
            a = self.pts(n)
            if n and r.random() < 0.15:
                a = a[:2] * n
            if n > 1 and r.random() < 0.2:
                a[-2:] = a[:2]
            # Huge polygons are slow to draw.
            if o == "polyf":
                a = [max(min(v, 3000), -3000) for v in a]
        elif o in ("circle", "circlef"):
            rad = r.choice([0, 1, 2, 3, 4, 5, 6, 8, r.randint(0, 14), r.randint(0, 60), 200])
            a = self.pts(1) + [rad]
            if rad > 60 and r.random() < 0.5 and o == "circle":
                a = [r.choice([-1, 1]) * rad + r.randint(0, self.w), r.randint(0, self.h), rad]
            if r.random() < 0.03:
                a[2] = r.choice([16384, 40000, 65535])
        else:
            a = self.pts(NARGS[o] // 2)
            if o == "trif":
                a = [max(min(v, 3000), -3000) if i % 2 else v for i, v in enumerate(a)]
            if o in ("tri", "trif") and r.random() < 0.1:
                a[4:] = a[:2]
            if o in ("line", "rect", "rectf") and r.random() < 0.15:
                a[r.choice([2, 3])] = a[0] if r.random() < 0.5 else a[1]
            if o == "fill":
                a = [r.randrange(self.w), r.randrange(self.h)] if r.random() < 0.9 else a
        return o, a

    def basic(self, o, a):
        """The command that draws a shape, with the position of its arguments."""
        r = self.r
        kind = ""
        if r.random() < 0.12 and a:
            i = r.randrange(len(a))
            a[i] = r.choice([32768, -32769, 70000, 2147483647]) if not (o.startswith("circle") and i == 2) else r.choice([-1, -70000, 65536, 65535])
        if o in ("poly", "polyf") and r.random() < 0.5:
            self.n += 1
            v = "p%d" % self.n
            n = len(a)
            shape = r.choice(["flat", "flat", "pairs", "pairs", "odd", "wrong", "double", "cube"])
            if n == 0:
                shape = "odd"
            if shape == "double":
                pre, kind = "DIM %s(2) AS DOUBLE" % v, "Expected an INTEGER array"
            elif shape == "cube":
                pre, kind = "DIM %s(2, 2, 2) AS INTEGER" % v, "Expected a flat array of coordinates or an Nx2 array of points"
            elif shape == "wrong":
                pre, kind = "DIM %s(2, 3) AS INTEGER" % v, "Expected a flat array of coordinates or an Nx2 array of points"
            elif shape == "odd":
                a = (a or [1])[:-1] if n > 1 else [1]
                pre = "DIM %s(%d) AS INTEGER" % (v, len(a))
                pre += "".join(": %s(%d) = %d" % (v, i, x) for i, x in enumerate(a))
                kind = "Expected an even number of coordinates"
            elif shape == "flat":
                pre = "DIM %s(%d) AS INTEGER" % (v, n) + "".join(": %s(%d) = %d" % (v, i, x) for i, x in enumerate(a))
            else:
                pre = "DIM %s(%d, 2) AS INTEGER" % (v, n // 2) + "".join(": %s(%d, %d) = %d" % (v, i // 2, i % 2, x) for i, x in enumerate(a))
            src = pre + "\n" + NAMES[o] + " " + v
            return O(o, *a, bas=True, src=src, pos=["2:%d" % (len(NAMES[o]) + 2)], shape=kind)
        if o in ("poly", "polyf") and len(a) > 2 and r.random() < 0.1:
            a = a[:-1]
        src, pos = NAMES[o], []
        for i, v in enumerate(a):
            src += " " if i == 0 else r.choice([", ", ","])
            pos.append("1:%d" % (len(src) + 1))
            src += str(v)
        return O(o, *a, bas=True, src=src, pos=pos)

    def op(self):
        r = self.r
        p = r.random()
        if p < 0.62:
            o, a = self.shape()
            return [self.basic(o, a)] if r.random() < 0.35 else [O(o, *a, bas=False)]
        if p < 0.76:
            f, b = r.choice(COLORS + [-1]), r.choice([-1, -1, 0, 1, 4, 15, 16, r.choice(COLORS)])
            if f >= 0 and r.random() < 0.3:
                return [O("color", f, b, bas=True, src="COLOR %d%s" % (f, "" if b < 0 else ", %d" % b))]
            return [O("color", f, b, bas=False)]
        if p < 0.82:
            n = r.choice([1, 3, self.cols, self.cols + 3])
            return [O(r.choice(["write", "print"]), t="".join(r.choice("abcxyzABC019.,:;!~ ") for _ in range(n)), bas=False)]
        if p < 0.85:
            return [O("locate", r.randrange(self.cols), r.randrange(self.rows), bas=False)]
        if p < 0.87:
            return [O("cls", bas=r.random() < 0.5, src="CLS")]
        if p < 0.89:
            return [O(r.choice(["enter", "leave"]), bas=False)]
        if p < 0.93:
            if r.random() < 0.3:
                on = r.random() < 0.6
                out = [O("sync", 1 if on else 0, bas=True, src="GFX_SYNC %s" % ("TRUE" if on else "FALSE"))]
                return out + ([O("hide", bas=False)] if on else [])
            return [O("sync", r.choice([0, 1, 1]), bas=False)]
        if p < 0.95:
            return [O("syncnow", bas=r.random() < 0.5, src="GFX_SYNC")]
        if p < 0.96:
            return [O("size", bas=True, src='PRINT LTRIM(STR(GFX_WIDTH)) + "," + LTRIM(STR(GFX_HEIGHT));')]
        x, y = self.coord(self.w), self.coord(self.h)
        if r.random() < 0.5:
            return [O("peek", x, y, bas=False)]
        if r.random() < 0.1:
            x = 40000
        src = "PRINT LTRIM(STR(GFX_PEEK("
        pos = ["1:%d" % (len(src) + 1), "1:%d" % (len(src) + 3 + len(str(x)))]
        return [O("peek", x, y, bas=True, src=src + "%d, %d)));" % (x, y), pos=pos)]


def session(rnd):
    w, h = rnd.choice([(9, 5), (12, 8), (16, 11), (24, 12), (30, 15), (40, 20), (13, 21)])
    g = Gen(rnd, w, h)
    ops = [O("hide", bas=False)]
    for _ in range(rnd.randint(6, 18)):
        ops += g.op()
    ops.append(O("sync", 1, bas=False))
    return {"w": w, "h": h, "ops": ops}


def exhaustive(rnd):
    """All the small shapes."""
    jobs = []

    def batch(w, h, ops):
        for i in range(0, len(ops), 60):
            part = [O("hide", bas=False)]
            for o in ops[i:i + 60]:
                part += [O("cls", bas=False), o]
            jobs.append({"w": w, "h": h, "ops": part})

    q = common.QUICK
    pts = list(itertools.product(range(-1, 7), range(-1, 5)))
    lines = [O("line", *(a + b), bas=False) for a in pts for b in pts]
    rects = [O(o, *(a + b), bas=False) for a in pts for b in pts for o in ("rect", "rectf")]
    tp = list(itertools.product(range(0, 8, 2), range(-1, 6, 2)))
    tris = [O(o, *(a + b + c), bas=False) for a in tp for b in tp for c in tp for o in ("tri", "trif")]
    pp = [(0, 0), (6, 0), (5, 5), (1, 4), (3, 2), (7, 3)]
    polys = [O("polyf", *sum(c, ()), bas=False) for c in itertools.product(pp, repeat=4)]
    if q:
        lines, rects, tris, polys = (rnd.sample(x, n) for x, n in ((lines, 500), (rects, 300), (tris, 500), (polys, 300)))
    batch(6, 4, lines)
    batch(6, 4, rects)
    batch(8, 6, tris)
    batch(8, 6, polys)
    batch(24, 24, [O(o, 11, 12, r, bas=False) for r in range(0, 13 if q else 40) for o in ("circle", "circlef")])
    # Shapes whose coordinates take the whole range, of which only a part can be seen.
    big = []
    for _ in range(30 if q else 300):
        e = [-32768, 32767, -32767, 32766, rnd.randint(-32768, 32767)]
        a = [rnd.choice(e) for _ in range(4)]
        big += [O("line", *a, bas=False), O("rect", *a, bas=False), O("rectf", *a, bas=False),
                O("tri", *(a + [rnd.randint(0, 9), rnd.randint(0, 9)]), bas=False),
                O("trif", rnd.choice(e), rnd.choice([-32768, -30000]), rnd.choice(e), rnd.choice([-32768, 0, 9]), rnd.choice(e), rnd.choice([9, 3]), bas=False) if rnd.random() < 0.1 else O("cls", bas=False),
                O("circle", rnd.choice(e), rnd.choice(e + [0, 5]), rnd.choice([2, 50, 900]), bas=False),
                O("circlef", rnd.choice(e), rnd.choice(e + [0, 5]), rnd.choice([2, 50, 300]), bas=False)]
    batch(10, 8, big)
    jobs.append({"w": 8, "h": 4, "ops": [O("hide", bas=False)] + sum(([O("color", k, -1, bas=False), O("fill", 3, 2, bas=False), O("peek", 1, 1, bas=False)]
                                                                     for k in rnd.sample(range(256), 256)), [])})
    return jobs


def spec_op(o):
    return {"o": o["o"], "a": o["a"], "t": [ord(c) for c in o["t"]], "bas": o["bas"], "pos": o["pos"], "shape": o["shape"]}


def real_op(o):
    if o["bas"]:
        return {"o": "basic", "t": o["src"]}
    if o["o"] == "sync":
        return {"o": "sync", "a": [o["a"][0] == 1]}
    return {"o": o["o"], "a": o["a"], "t": o["t"]}


def compare(job, res, real):
    if real.get("k") in ("died", "hang"):
        return "the console %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    for i, e in enumerate(res):
        a, op = real["results"][i], real_op(job["ops"][i])
        who = "operation %d (%s)" % (i + 1, json.dumps(op)[:200])
        if "panic" in a:
            return "%s panicked: %s" % (who, a["panic"])
        if e["frame"] != a["frames"][-1]:
            return "%s: the screen is\n%s\nand should be\n%s" % (who, a["frames"][-1], e["frame"])
        if (a.get("err") or "") != e["err"]:
            return "%s: error %r instead of %r" % (who, a.get("err"), e["err"])
        if op["o"] == "peek" and (a["peek"] if a["peek"] is not None else -1) != e["peek"]:
            return "%s: peeked %r instead of %r" % (who, a["peek"], e["peek"])
    return None


def run(v):
    work = common.workdir("G01")
    st = {"states": 0, "transitions": 0, "n": 0, "shapes": 0, "ex": 0, "ops": {}}
    samples = []
    todo = 640 if common.QUICK else 6000
    for b in range(0, todo, 600):
        part = [session(random.Random("G01/%d/%d" % (common.SEED, i))) for i in range(b, min(b + 600, todo))]
        if b == 0:
            ex = exhaustive(random.Random("G01/%d" % common.SEED))
            st["ex"] = len(ex)
            part += ex
        path = os.path.join(work, "jobs.ndjson")
        with open(path, "w") as f:
            for j in part:
                f.write(json.dumps({"w": j["w"], "h": j["h"], "ops": [spec_op(o) for o in j["ops"]]}) + "\n")
        res = common.tlc_ok(common.tlc(SPEC, "MCGfx", env={"JOBS": path}, work=work), "MCGfx")
        st["states"] += res.distinct
        st["transitions"] += res.states - len(part)
        out = {r["p"] - 1: r["res"] for r in res.records}
        if len(out) != len(part):
            raise common.ToolError("TLC reported %d of %d sessions" % (len(out), len(part)))
        reals = common.replay("console", [{"id": i, "w": j["w"], "h": j["h"], "pixels": True, "ops": [real_op(o) for o in j["ops"]]} for i, j in enumerate(part)])
        for i, j in enumerate(part):
            d = compare(j, out[i], reals[i])
            st["n"] += 1
            for o in j["ops"]:
                st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
                st["shapes"] += o["o"] in NAMES
            if len(samples) < 2:
                samples.append({"input": [real_op(o) for o in j["ops"][:5]], "expected": [r["frame"] for r in out[i][:5]]})
            if d:
                v.add({"property": "G01", "why": d, "job": [real_op(o) for o in j["ops"]], "size": [j["w"], j["h"]], "expected": out[i], "actual": reals[i]})
        if v.n > 10:
            break
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"], "distinct_nontrivial": st["n"],
           "shapes_drawn": st["shapes"], "operations": st["ops"], "samples": samples,
           "rule": "random drawing sessions on screens of 9x5 to 40x20 pixels, all small circles, and samples (all of them if thorough) of the lines, rectangles, triangles and "
                   "polygons over small grids, and shapes with coordinates of the whole range"}
    return "model_checking", cov, ["the screen is the framebuffer of a simulated LCD", "the cursor is hidden while drawing"]


if __name__ == "__main__":
    common.main("G01", run)
