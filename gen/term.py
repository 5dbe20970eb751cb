"""T01: the console on a text terminal.  The real console runs on pseudo terminals (or pipes); spec/hw/Term.tla judges what it wrote and read."""
import concurrent.futures
import fcntl
import json
import os
import pty
import random
import re
import select
import signal
import struct
import subprocess
import sys
import termios
import time

import common
import hw

SPEC = os.path.join(common.VERIF, "spec", "hw")
BYTES = {"up": "\x1b[A", "down": "\x1b[B", "right": "\x1b[C", "left": "\x1b[D", "home": "\x1b[H", "home2": "\x1b[1~", "home3": "\x1bOH", "end": "\x1b[F",
         "end2": "\x1b[4~", "end3": "\x1bOF", "ups": "\x1bOA", "del": "\x1b[3~", "pgup": "\x1b[5~", "pgdn": "\x1b[6~", "ins": "\x1b[2~", "backtab": "\x1b[Z",
         "f1": "\x1bOP", "f5": "\x1b[15~", "f12": "\x1b[24~", "ctrlleft": "\x1b[1;5D", "bs": "\x7f", "tab": "\t", "esc": "\x1b", "enter": "\r", "ctrla": "\x01", "ctrlb": "\x02",
         "ctrlc": "\x03", "ctrld": "\x04", "ctrle": "\x05", "ctrlf": "\x06", "ctrlj": "\n", "ctrlm": "\r", "ctrln": "\x0e", "ctrlp": "\x10"}
PIPED = {"nl": "\n", "cr": "\r", "ctl": "\x01", "esc": "\x1b"}
CHARS = "abcXYZ019 ,.;:\"'()+-*/<=>?@[]{}|~é€ñЯ"


def O(o, *a, **k):
    return dict({"o": o, "a": list(a), "t": "", "codes": [], "keys": []}, **k)


class Gen:
    def __init__(self, r, w, h, tty):
        self.r, self.w, self.h, self.tty = r, w, h, tty
        self.x, self.wrap = 0, False
        self.alt = None
        self.color = (-1, -1)
        self.sync = True
        self.pending = 0

    def text(self, n):
        r = self.r
        t = "".join(r.choice(CHARS) for _ in range(n))
        if n and r.random() < 0.15:
            i = r.randrange(n)
            t = t[:i] + r.choice("\x07\x1b\t\n\r\x7f\x85") + t[i + 1:]
        return {"t": t, "codes": [ord(c) for c in t]}

    def keys(self):
        r = self.r
        n = r.choice([1, 2, 3, 6, 12])
        names = [k for k in BYTES if k != "esc"] * 1 + ["char"] * 25
        ks = [{"n": r.choice(names), "c": ""} for _ in range(n)]
        for k in ks:
            if k["n"] == "char":
                k["c"] = r.choice(CHARS + "\U00004e2d")
        if r.random() < 0.2:
            ks.append({"n": "esc", "c": ""})
        return O("keys", len(ks), r.randrange(2), 1 if r.random() < 0.3 else 0, keys=ks)

    def track(self, n):
        """Where the cursor goes after writing some characters."""
        for _ in range(n):
            if self.wrap:
                self.x, self.wrap = 0, False
            if self.x == self.w - 1:
                self.wrap = True
            else:
                self.x += 1

    def home(self, x):
        self.x, self.wrap = x, False

    def op(self):
        r = self.r
        out = []
        if self.pending > 600:
            self.pending = 0
            out.append(O("syncnow"))
        p = r.random()
        if p < 0.27:
            n = r.choice([0, 1, 2, 4, self.w - 1, self.w, self.w + 3, r.randint(0, 2 * self.w)])
            o = r.choice(["write", "write", "print"])
            out.append(O(o, **self.text(n)))
            self.track(n)
            if o == "print":
                self.home(0)
            self.pending += 3 * n
        elif p < 0.4:
            self.color = (r.choice([-1, self.color[0], r.randrange(16), r.randrange(256)]), r.choice([-1, self.color[1], r.randrange(16), r.randrange(256)]))
            out.append(O("color", *self.color))
        elif p < 0.5:
            x = r.choice([0, self.w - 1, r.randrange(self.w)])
            out.append(O("locate", x, r.choice([0, self.h - 1, r.randrange(self.h)])))
            self.home(x)
        elif p < 0.6:
            # Movements stay within the line.
            if self.wrap:
                out.append(O("locate", 0, 0))
                self.home(0)
            n = r.randint(-self.x, self.w - 1 - self.x)
            out.append(O("move", n))
            if n:
                self.home(self.x + n)
        elif p < 0.67:
            o = r.choice(["cls", "clrline", "clreol", "clrprev", "clrprev"])
            if o == "cls":
                self.home(0)
            elif self.wrap or (o == "clrprev" and self.x == 0):
                # The column past the last one is not a place to clear from.
                x = r.randrange(1, self.w)
                out.append(O("locate", x, r.randrange(self.h)))
                self.home(x)
            if o == "clrprev":
                self.home(self.x - 1)
            out.append(O(o))
        elif p < 0.72:
            out.append(O(r.choice(["hide", "show"])))
        elif p < 0.78:
            if self.alt is None:
                self.alt = (self.x, self.wrap, self.color)
                out.append(O("enter"))
            else:
                # Terminals differ in whether colors survive a change of screen: restore them.
                if self.color != self.alt[2]:
                    self.color = self.alt[2]
                    out.append(O("color", *self.color))
                self.x, self.wrap = self.alt[:2]
                self.alt = None
                out.append(O("leave"))
        elif p < 0.84:
            self.sync = r.random() < 0.6
            out.append(O("sync", int(self.sync)))
            self.pending = 0
        elif p < 0.87:
            out.append(O("syncnow"))
            self.pending = 0
        elif p < 0.88:
            out.append(O("beep"))
        elif p < 0.92 or not self.tty:
            out.append(O("size", self.w, self.h))
        else:
            out.append(self.keys())
        self.pending += 15
        return out


def session(r):
    tty = r.random() < 0.8
    w, h = r.choice([(10, 4), (20, 6), (7, 3), (40, 5), (13, 8), (300, 3)])
    g = Gen(r, w, h, tty)
    ops, stdin = [], ""
    if not tty:
        # Input which is not from a terminal comes in lines, and then ends.
        ks = []
        for _ in range(r.randint(0, 14)):
            k = r.choice(["char"] * 8 + ["nl", "nl", "cr", "ctl", "esc"])
            c = r.choice(CHARS) if k == "char" else ""
            ks.append({"n": k, "c": c})
            stdin += c or PIPED[k]
        n = sum(k["n"] != "cr" for k in ks)
        ks += [{"n": "eof", "c": ""}] * 2
        keys = O("keys", n + 2, r.randrange(2), 0, keys=ks)
    for _ in range(r.randint(6, 22)):
        ops += g.op()
    if not tty:
        ops.insert(r.randrange(len(ops) + 1), keys)
    # How the size of the screen is found: from the terminal, or from the environment.
    env = {}
    size = (w, h)
    if not tty or r.random() < 0.25:
        env = {"LINES": str(h), "COLUMNS": str(w)}
    elif r.random() < 0.4:
        k = r.choice(["LINES", "COLUMNS"])
        env[k] = r.choice([str(h if k == "LINES" else w), "x", ""])
    if env and tty and "LINES" in env and "COLUMNS" in env:
        size = (w, h)
    return {"w": w, "h": h, "tty": tty, "ops": ops, "env": env, "stdin": stdin, "size": list(size)}


TOKEN = re.compile(r"\x1b\](\d+)\x07|\x1b\[([?]?)([0-9;]*)([@-~])|([\x00-\x1a\x1c-\x1f\x7f-\x9f])|([^\x00-\x1f\x7f-\x9f]+)|(.)", re.S)


def tokens(data):
    """Splits what the console wrote into a list of tokens per operation."""
    out, cur = [], []
    for m in TOKEN.finditer(data.decode("utf-8", "replace")):
        if m.group(1) is not None:
            out.append(cur)
            cur = []
        elif m.group(4):
            p = [int(x) if x else -1 for x in m.group(3).split(";")] if m.group(3) else []
            cur.append({"k": "csi", "q": m.group(2), "p": p, "f": m.group(4), "s": [], "n": 0})
        elif m.group(5):
            cur.append({"k": "c0", "q": "", "p": [], "f": "", "s": [], "n": ord(m.group(5))})
        elif m.group(6):
            cur.append({"k": "text", "q": "", "p": [], "f": "", "s": [ord(c) for c in m.group(6)], "n": 0})
        else:
            cur.append({"k": "bad", "q": "", "p": [], "f": "", "s": [], "n": 0})
    out.append(cur)
    return out


def play(job, path):
    """Runs a session; returns what was observed."""
    with open(path, "w") as f:
        json.dump({"ops": job["ops"]}, f)
    env = {k: v for k, v in os.environ.items() if k not in ("LINES", "COLUMNS", "NO_COLOR")}
    env.update(job["env"])
    env["TERM"] = "xterm-256color"
    ops = job["ops"]
    data = b""
    raw, restored = [], True
    master = slave = None
    if job["tty"]:
        master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", job["h"], job["w"], 0, 0))
        before = termios.tcgetattr(slave)

        def own():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        p = subprocess.Popen([hw.EXE, "term", path], stdin=slave, stdout=slave, stderr=subprocess.DEVNULL, env=env, preexec_fn=own)
        out = master
    else:
        p = subprocess.Popen([hw.EXE, "term", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        p.stdin.write(job["stdin"].encode())
        p.stdin.close()
        out = p.stdout.fileno()
    try:
        seen, start = 0, time.monotonic()
        while time.monotonic() - start < 40:
            r, _, _ = select.select([out], [], [], 0.1)
            if r:
                try:
                    b = os.read(out, 65536)
                except OSError:
                    b = b""
                if not b:
                    break
                data += b
            elif p.poll() is not None:
                break
            n = len(re.findall(rb"\x1b\](\d+)\x07", data))
            while job["tty"] and seen < n:
                # The operation number seen is over: type what the next one reads.
                if seen < len(ops) and ops[seen]["o"] == "keys":
                    # The console waits for these keys, so this does not race with its end.
                    a = termios.tcgetattr(slave)
                    raw.append(not a[3] & (termios.ICANON | termios.ECHO) and not a[1] & termios.OPOST)
                    os.write(master, "".join(k["c"] or BYTES[k["n"]] for k in ops[seen]["keys"]).encode())
                seen += 1
        try:
            p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGKILL)
            p.wait()
            return {"k": "hang"}
        if job["tty"]:
            restored = termios.tcgetattr(slave) == before
    finally:
        for fd in (master, slave):
            if fd is not None:
                os.close(fd)
        if not job["tty"]:
            p.stdout.close()
    try:
        with open(path + ".out") as f:
            res = json.load(f)
    except OSError:
        return {"k": "died", "rc": p.returncode, "output": data.decode("utf-8", "replace")[-300:]}
    finally:
        os.remove(path)
        if os.path.exists(path + ".out"):
            os.remove(path + ".out")
    t = tokens(data)
    if len(t) != len(ops) + 2:
        return {"k": "died", "rc": p.returncode, "output": data.decode("utf-8", "replace")[-300:]}
    return {"res": res, "tokens": t, "raw": [all(raw)], "restored": restored}


def run(v):
    hw.build()
    work = common.workdir("T01")
    todo = 700 if common.QUICK else 6000
    st = {"n": 0, "states": 0, "transitions": 0, "tokens": 0, "keys": 0, "ops": {}}
    samples = []
    for b in range(0, todo, 500):
        part = [session(random.Random("T01/%d/%d" % (common.SEED, i))) for i in range(b, min(b + 500, todo))]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            reals = list(ex.map(lambda a: play(a[1], os.path.join(work, "job%d" % a[0])), enumerate(part)))
        jobs, idx = [], []
        for i, (j, real) in enumerate(zip(part, reals)):
            st["n"] += 1
            for o in j["ops"]:
                st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
                st["keys"] += len(o["keys"])
            if "k" in real:
                v.add({"property": "T01", "why": "the console %s" % {"hang": "did not stop", "died": "crashed"}[real["k"]], "job": j, "actual": real})
                continue
            st["tokens"] += sum(len(t) for t in real["tokens"])
            jobs.append(dict(j, real=real))
            idx.append(i)
        path = os.path.join(work, "jobs.ndjson")
        with open(path, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        res = common.tlc_ok(common.tlc(SPEC, "MCTerm", env={"JOBS": path}, work=work), "MCTerm")
        st["states"] += res.distinct
        st["transitions"] += res.states - len(jobs)
        verdict = {}
        for r in sorted(res.records, key=lambda r: r["n"]):
            p = r["p"] - 1
            if p not in verdict or not verdict[p]["why"]:
                verdict[p] = r
        if len(verdict) != len(jobs):
            raise common.ToolError("TLC judged %d of %d sessions" % (len(verdict), len(jobs)))
        for p, r in sorted(verdict.items()):
            if r["why"]:
                j, n = jobs[p], r["n"]
                op = j["ops"][n - 1] if 0 < n <= len(j["ops"]) else None
                v.add({"property": "T01", "why": "%s of %dx%d, after operation %d (%s): %s" % ("terminal" if j["tty"] else "pipe", j["w"], j["h"], n,
                       json.dumps(op and {k: op[k] for k in ("o", "a", "t", "keys")}, ensure_ascii=False), r["why"]),
                       "job": part[idx[p]], "actual": [j["real"]["res"][min(n, len(j["ops"]))], j["real"]["tokens"][n]]})
        if not samples:
            samples = [{"tty": j["tty"], "ops": [[o["o"]] + o["a"] + [o["t"]] for o in j["ops"][:8]]} for j in jobs[:3]]
        if v.n > 10:
            break
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"], "distinct_nontrivial": st["n"], "tokens_written": st["tokens"],
           "keys_typed": st["keys"], "operations": st["ops"], "samples": samples,
           "rule": "random sessions on pseudo terminals and pipes of several sizes; what was written is split into tokens which TLC interprets as a terminal would"}
    return "model_checking", cov, ["characters are one column wide", "an escape key is typed on its own", "the pseudo terminals are those of the kernel; the terminal is the one of the specification"]


if __name__ == "__main__":
    common.main(sys.argv[1], {"T01": run}[sys.argv[1]])
