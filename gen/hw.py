"""D01: consoles on the ST7735S LCD.  The driver runs on a simulated bus and pins; spec/hw/Panel.tla judges what it did."""
import json
import os
import random
import subprocess
import sys

import common

SPEC = os.path.join(common.VERIF, "spec", "hw")
EXE = os.path.join(common.BUILD, "debug", "vhw")
PINS = [6, 19, 5, 26, 13, 21, 20, 16]
SIZES = {"5x8": (25, 16), "16x16": (8, 8), "vga8x16": (16, 8)}


def build():
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness-hw && CARGO_TARGET_DIR=%s cargo build --offline 2>&1" % (common.VERIF, common.BUILD)
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise common.ToolError("harness-hw does not build")


def O(o, *a, **k):
    return dict({"o": o, "a": list(a), "t": "", "codes": [], "buttons": {}, "typed": []}, **k)


def number(text):
    """What a flag of 8 bits is worth, and the error if it is not a number."""
    t = text[1:] if text.startswith("+") and len(text) > 1 else text
    if text == "":
        return 0, "cannot parse integer from empty string"
    if not t.isascii() or not t.isdigit():
        return 0, "invalid digit found in string"
    if int(t) > 255:
        return 0, "number too large to fit in target type"
    return int(t), ""


def spec(r, only_spec):
    """A console specification: its text, its flags and what they are worth."""
    flags = []

    def kv(k, v):
        flags.append({"k": k, "v": v, "kv": True})

    bad = only_spec or r.random() < 0.1
    if r.random() < 0.6:
        kv("fg_color", str(r.choice([r.randrange(16), r.randrange(256)])))
    if r.random() < 0.5:
        kv("bg_color", r.choice(["4", "0", "15", "+9", "007", str(r.randrange(256)), "255"]))
    if r.random() < 0.7:
        kv("font", r.choice(list(SIZES)))
    if r.random() < 0.2:
        k = r.choice(["fg_color", "bg_color", "font"])
        kv(k, {"fg_color": "12", "bg_color": "3", "font": "16x16"}[k])
    if bad:
        p = r.random()
        if p < 0.4:
            kv(r.choice(["fg_color", "bg_color"]), r.choice(["256", "-1", "", "red", "1.5", "99999999999", "+", " 1"]))
        elif p < 0.6:
            kv("font", r.choice(["8x8", "", "5X8", "vga", "=5x8"]))
        else:
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.5:
                    flags.append({"k": r.choice(["fg_color", "fs", "fullscreen", "font", "zz"]), "v": "", "kv": False})
                else:
                    kv(r.choice(["resolution", "color", "Font", "fonts", "a"]), r.choice(["1", "a=b", ""]))
    r.shuffle(flags)
    driver = r.choice(["st7735s", "st7735s", "x"])
    text = driver
    if flags or r.random() < 0.3:
        text += ":" + ",".join(f["k"] + ("=" + f["v"] if f["kv"] else "") for f in flags)
        if r.random() < 0.1:
            text += ","
        if r.random() < 0.1:
            text = text.replace(":", ":,", 1)
    last = {}
    for f in flags:
        if f["kv"]:
            last[f["k"]] = f["v"]
    num = {}
    for k in ("fg_color", "bg_color"):
        v, e = number(last.get(k, "0"))
        num[k] = {"v": v, "err": e}
    unknown = sorted([k for k in last if k not in ("fg_color", "bg_color", "font")] + [k for k in {f["k"] for f in flags if not f["kv"]}])
    return text, driver, flags, num, unknown, last.get("font", "5x8")


class Gen:
    def __init__(self, r, font):
        self.r = r
        self.cols, self.rows = SIZES.get(font, SIZES["5x8"])

    def text(self, n):
        t = "".join(self.r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~" + "é€") for _ in range(n))
        return {"t": t, "codes": [ord(c) for c in t]}

    def color(self):
        r = self.r
        return O("color", r.choice([-1, r.randrange(16), r.randrange(256)]), r.choice([-1, r.randrange(16), r.randrange(256)]))

    def coord(self):
        r = self.r
        return r.choice([r.randint(0, 127), r.randint(0, 127), r.randint(0, 127), r.randint(-5, 132), 0, 127, 128, -1, -300, 32767, -32768])

    def op(self, draw):
        r = self.r
        p = r.random()
        if p < 0.2:
            return self.color()
        if p < 0.45:
            if draw:
                o = r.choice(["pixel", "line", "rectf", "rectf", "rectf"])
                a = [self.coord() for _ in range(2 if o == "pixel" else 4)]
                if o == "line":
                    i = r.randrange(2)
                    a[2 + i] = a[i]
                return O(o, *a)
            return O("locate", r.randrange(self.cols), r.randrange(self.rows))
        if p < 0.65:
            n = r.choice([0, 1, 2, 5, self.cols - 1, self.cols, self.cols + 2, 2 * self.cols])
            return O(r.choice(["write", "write", "print"]), **self.text(n))
        if p < 0.7:
            return O("locate", r.randrange(self.cols), r.choice([self.rows - 1, r.randrange(self.rows)]))
        if p < 0.75:
            return O("cls")
        if p < 0.8:
            return O(r.choice(["enter", "leave"]))
        if p < 0.86:
            return O("sync", r.choice([0, 1, 1]))
        if p < 0.9:
            return O("syncnow")
        if draw:
            return O("peek", self.coord(), self.coord())
        return O(r.choice(["hide", "show"]))

    def keys(self):
        r = self.r
        buttons, n = {}, 0
        length = r.randint(1, 8)
        for p in PINS:
            if r.random() < 0.4:
                b = [r.choice("000111111e" if r.random() < 0.5 else "01") for _ in range(length)]
                buttons[str(p)] = b
                n += b.count("0")
        typed = "".join(r.choice("abcxyzé+") for _ in range(r.choice([0, 0, 1, 3, 6])))
        return O("keys", n + len(typed), r.randrange(3), t=typed, buttons=buttons, typed=["=" + c for c in typed])

    def fault(self):
        r = self.r
        out = [O("hide"), O("sync", 1), O("fault", r.choice([0, 0, 1, 2, 3, 5, 8]))]
        o = r.choice(["write", "print", "pixel", "rectf", "cls", "locate"])
        if o in ("write", "print"):
            out.append(O(o, **self.text(r.choice([1, 5, self.cols + 3]))))
        elif o == "locate":
            # Moving the hidden cursor paints nothing.
            out += [O("locate", 0, 0), O("write", **self.text(3))]
        else:
            out.append(O(o, *[r.randint(0, 127) for _ in range({"pixel": 2, "rectf": 4, "cls": 0}[o])]))
        out += [self.color()] if r.random() < 0.5 else []
        # Whatever fails now, the first clear that succeeds shows everything again.
        return out + [O("fault", 1000000), O("cls"), O("write", **self.text(4)), O("rectf", 3, 50, 40, 70)]


def size(r):
    """A width or height, what it is worth and the error if it is not one."""
    t = r.choice([str(r.randint(1, 2000)), str(r.randint(1, 2000)), "+7", "007", "0", "", "-3", "a", "4294967296", "99999", " 1", "1.5"])
    v, e = number(t) if t != "4294967296" else (0, "number too large to fit in target type")
    if t == "99999" or (e and t.isdigit() and t != "4294967296") or t.lstrip("+").isdigit() and t != "4294967296":
        v, e = int(t), ""
        if v == 0:
            e = "number would be zero for non-zero type"
    return {"t": t, "v": v, "err": e}


def resolution(r):
    w, h, x, fs = size(r), size(r), r.random() < 0.8, r.random() < 0.4
    if x and r.random() < 0.05:
        h = {"t": "3x4", "v": 0, "err": "invalid digit found in string"}
    if not x and r.random() < 0.4:
        w = {"t": "", "v": 0, "err": "cannot parse integer from empty string"}
    return {"w": w, "h": h, "x": x, "fs": fs, "t": w["t"] + ("x" + h["t"] if x else "") + ("fs" if fs else "")}


def session(r, only_spec=False):
    text, driver, flags, num, unknown, font = spec(r, only_spec)
    g = Gen(r, font)
    ops = []
    draw = r.random() < 0.6
    if draw:
        ops.append(O("hide"))
    for _ in range(0 if only_spec else r.randint(3, 9)):
        p = r.random()
        if p < 0.08:
            ops.append(g.keys())
        elif p < 0.12:
            ops += g.fault()
            draw = True
        else:
            ops.append(g.op(draw))
    if r.random() < 0.7:
        ops.append(O("sync", 1))
    return {"spec": text, "driver": driver, "flags": flags, "num": num, "unknown": unknown, "ops": ops, "res": resolution(r),
            "max": r.choice([4, 5, 7, 32, 64, 100, 1000, 4096, 4096, 65536]), "partial": r.choice([[], [], [0, 3], [1, 0, 0], [2, 5, 0, 1], [100]])}


def run(v):
    build()
    work = common.workdir("D01")
    todo = 640 if common.QUICK else 4000
    st = {"n": 0, "states": 0, "transitions": 0, "events": 0, "rejected": 0, "ops": {}}
    samples = []
    for b in range(0, todo, 400):
        part = [session(random.Random("D01/%d/%d" % (common.SEED, i)), i % 5 < 2) for i in range(b, min(b + 400, todo))]
        reals = common.replay("lcd", [dict(j, id=i) for i, j in enumerate(part)], exe=EXE, shards=16)
        jobs, idx = [], []
        for i, (j, real) in enumerate(zip(part, reals)):
            st["n"] += 1
            for o in j["ops"]:
                st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
            if real.get("k") == "skipped":
                continue
            if real.get("k") in ("died", "hang") or "panic" in real:
                v.add({"property": "D01", "why": "the console stopped: %s" % (real.get("panic") or real["k"]), "job": j})
                continue
            if real["err"]:
                st["rejected"] += 1
                real.update({"driver": "", "bus": [0, 0, 0, 0], "size": [], "results": []})
            st["events"] += sum(len(x["events"]) for x in real["results"])
            real.pop("id")
            jobs.append(dict(j, real=real))
            idx.append(i)
        path = os.path.join(work, "jobs.ndjson")
        with open(path, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        res = common.tlc_ok(common.tlc(SPEC, "MCPanel", env={"JOBS": path}, work=work), "MCPanel")
        st["states"] += res.distinct
        st["transitions"] += res.states - len(jobs)
        verdict = {}
        for r in sorted(res.records, key=lambda r: r["n"]):
            p = r["p"] - 1
            if p not in verdict or not verdict[p]["why"]:
                verdict[p] = r
        if len(verdict) != len(jobs):
            raise common.ToolError("TLC judged %d of %d sessions" % (len(verdict), len(jobs)))
        for p, r in sorted(verdict.items()):
            if r["why"]:
                j = part[idx[p]]
                n = r["n"]
                op = j["ops"][n - 1] if 0 < n <= len(j["ops"]) else None
                v.add({"property": "D01", "why": "console %s, after operation %d (%s): %s" % (j["spec"], n, json.dumps(op and {k: op[k] for k in "oat"}, ensure_ascii=False), r["why"]),
                       "job": j, "actual": jobs[p]["real"].get("err") or jobs[p]["real"]["results"][n if n < len(jobs[p]["real"]["results"]) else -1]})
        if not samples:
            samples = [{"spec": j["spec"], "ops": [[o["o"]] + o["a"] for o in j["ops"]], "events": [len(x["events"]) for x in j["real"]["results"]]} for j in jobs[:3]]
        if v.n > 10:
            break
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"], "distinct_nontrivial": st["n"] - st["rejected"],
           "bus_and_pin_events": st["events"], "rejected_specifications": st["rejected"], "operations": st["ops"], "samples": samples,
           "rule": "random sessions of drawing, text, buttons and failing transfers on buses of several sizes, each recorded and judged by TLC pixel by pixel"}
    return "model_checking", cov, ["the bus and pins are simulated", "the cursor is hidden while drawing", "lines are horizontal or vertical"]


if __name__ == "__main__":
    common.main(sys.argv[1], {"D01": run}[sys.argv[1]])
