"""M01: the command line.  spec/cli/Cli.tla says what every invocation of a scenario writes, leaves and returns; the real program is then run."""
import concurrent.futures
import fcntl
import http.server
import json
import os
import pty
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import termios
import threading
import time
import urllib.parse

import common

SPEC = os.path.join(common.VERIF, "spec", "cli")
EXE = os.path.join(common.BUILD, "debug", "endbasic")
DOCS, XDOCS, CWD = "@S/home/Documents/endbasic", "@S/xdocs/endbasic", "@S/cwd"
NAMES = ["a", "b", "prog"]
SHELL = ["pwd", "run", "new", "list", "cd", "load", "save", "kill"]


def build():
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd /repo && CARGO_TARGET_DIR=%s cargo build --offline -p endbasic 2>&1" % common.BUILD
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise common.ToolError("the program does not build")


# Programs.

def X(o, t="", n=0):
    return {"o": o, "t": t, "n": n}


def L(*xs, ind=0):
    return {"ind": ind, "xs": list(xs)}


def src(x):
    o, t, n = x["o"], x["t"], x["n"]
    if o in ("raw", "word"):
        return t
    return {"print": 'PRINT "%s"' % t, "pv": "PRINT " + t, "set": "%s = %d" % (t, n), "div": "PRINT 1 / 0", "syn": "PRINT )", "unk": "PRINT \u20ac",
            "end": "END" if n == -1 else "END %d" % n, "input": "INPUT a$: PRINT a$", "scr": "PRINT SCRCOLS; SCRROWS", "gpio": 'GPIO_SETUP 1, "OUT"', "loop": "WHILE TRUE: WEND", "ctrlc": t,
            "bad": 'PRINT "\udcff"'}.get(o) or (o.upper() if o in ("pwd", "run", "new", "list") else '%s "%s"' % (o.upper(), t))


def text(line):
    return " " * line["ind"] + ": ".join(src(x) for x in line["xs"])


def content(f):
    t = f["eol"].join(text(x) for x in f["lines"]) + (f["eol"] if f["lines"] and f["final"] else "")
    return t.encode("utf-8", "surrogateescape")


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def word(self):
        return self.r.choice(["nope", "hello", "zz", "endd"])

    def stmt(self, shell, tty, stored):
        """A statement; shell is how many of the interactive ones to use."""
        r = self.r
        p = r.random()
        if p < 0.25:
            return X("print", r.choice(["", "hi", "\u00e9\u00f1", "two words", "REM", "a: b", "' x", "x" * 70, str(r.randrange(100))]))
        if p < 0.25 + shell:
            o = r.choice(["pwd", "new", "list", "cd", "load", "load", "load", "save", "save", "kill"] + ([] if stored else ["run", "run", "run"]))
            if o == "cd":
                return X(o, r.choice(["local:", "memory:", "demos:", "MEMORY:", "nope:"]))
            if o in ("load", "save", "kill"):
                return X(o, r.choice(["", "", "", "local:", "memory:", "demos:", "MEMORY:"]) + r.choice(NAMES + NAMES + ["dd"]) + (".bas" if o == "kill" and self.chance(0.8) else ""))
            return X(o)
        p = r.random()
        if p < 0.1:
            return X("div")
        if p < 0.3:
            return X("end", n=r.choice([-1, 0, 1, 3, 42, 126, 127, 128, 255, 256]))
        if p < 0.42 and not tty:
            return X("input")
        if p < 0.5:
            return X("scr")
        if p < 0.58:
            return X("gpio")
        if p < 0.63:
            return X("pv", r.choice(["x", "y", "zz"]))
        if p < 0.66:
            return X("syn")
        if p < 0.69:
            return X("unk")
        if p < 0.74:
            return X("word", self.word())
        return X("print", "z")

    def lines(self, n, shell, tty=False, stored=False):
        r = self.r
        out = []
        if self.chance(0.3):
            # Before anything that may fail, so that whatever has a name has a value.
            v = r.choice(["x", "y"])
            out.append(L(X("set", v, r.randrange(100)), X("pv", v), ind=r.choice([0, 2])))
        for _ in range(n):
            if self.chance(0.08):
                out.append(L(X("raw", r.choice(["REM a comment", "' endbasic cli: console=sdl", "#!/bin/sh", "", "'"]))))
            else:
                out.append(L(*[self.stmt(shell, tty, stored) for _ in range(r.choice([1, 1, 1, 2, 3]))], ind=r.choice([0, 0, 0, 1, 4])))
        if n and self.chance(0.03):
            out.insert(r.randrange(len(out) + 1), L(X("bad")))
        return out

    def file(self, shell, head=False, stored=False, tty=False):
        r = self.r
        ls = self.lines(r.choice([0, 1, 2, 3, 5]), shell, tty, stored)
        if head and self.chance(0.5):
            # What may be in the first lines.
            first = r.choice(["#!/usr/bin/env endbasic", "#!", "#!/usr/bin/env endbasic", "# !x", "REM #!", "", "#! \u00e9"])
            pre = r.choice(["' ", "REM ", "rem ", "ReM ", "'", "''  ", "REM  ", "  ' ", "' "])
            what = r.choice(["endbasic cli: console=text", "endbasic cli: console=sdl", "endbasic cli: console=zz", "endbasic cli: console=", "endbasic cli: consol=text",
                             "endbasic cli: ", "endbasic cli:", "endbasic cli: console=text:fs", "endbasic  cli: console=sdl", "ENDBASIC CLI: console=sdl",
                             "endbasic cli: console=st7735s:font=x", "endbasic cli: console=text ", "endbasic cli: \u00e9", "", "\u00e9\u00e9"])
            second = r.choice([pre + what, pre + what, pre + what, "RE\u00e9\u00e9", "\u00e9", "re\u20ac x"])
            if not re.match("(?i) *('|rem )", second):
                second = "REM" if self.chance(0.5) else "' " + second
            ls = [L(X("raw", first))] + ([L(X("raw", second))] if self.chance(0.85) else []) + ls
            if self.chance(0.06):
                ls.insert(r.choice([0, 1]), L(X("bad")))
        return {"k": "ok", "lines": ls, "eol": r.choice(["\n", "\n", "\n", "\r\n"]), "final": self.chance(0.8) or not text(ls[-1]) if ls else True}

    def opt(self, name, val):
        return ["--%s=%s" % (name, val)] if self.chance(0.6) else ["--" + name, val]

    def args(self, mode, job):
        """Arguments that run something, unless they are wrong."""
        r = self.r
        groups = []
        if self.chance(0.25):
            groups.append(self.opt("console", r.choice(["text", "text", "text", "text:", "text:,,", "text:a", "text:a=b", "sdl", "st7735s", "zz", "", "Text", "text,", "sdl:fs", "zz:a"])))
        if self.chance(0.35):
            groups.append(self.opt("gpio-pins", r.choice(["mock", "mock", "mock", "noop", "rppal", "zz", "", "Mock"])))
        if self.chance(0.3 if mode != "script" else 0.15):
            groups.append(self.opt("local-drive", r.choice(["memory://", "demos://", "file://@S/d1", "file://@S/d1", "file://@S/d1/", "file://@S/new/deep", "file://@S/cwd/file.bas/sub", "foo://x", "cloud://u",
                                                            "nospec", "", "memory://x", "demos://x", "file://", "FILE://@S/d1"])))
        if mode == "cloud":
            groups.append(self.opt("service-url", "@U"))
        elif self.chance(0.15):
            groups.append(self.opt("service-url", r.choice(["http://127.0.0.1:9/", "http://127.0.0.1:9", "nope", "", "http://127.0.0.1:9/x", "http://127.0.0.1:9/x/y", "/"])))
        if mode in ("inter", "cloud") or self.chance(0.1):
            groups.append([r.choice(["-i", "--interactive", "--i"])])
        if mode == "cloud":
            groups.append(["cloud://" + r.choice(list(job["cloud"]) + ["u/none", "nobody", ""])])
        elif mode in ("inter", "script"):
            groups.append([r.choice(["s.bas", "s.bas", "s.bas", "t x.bas", "t x.bas", "@S/cwd/s.bas", "none.bas", "sub", "@S/cwd/none", "cloud://u/p" if mode == "script" else "s.bas", "empty.bas"])])
        r.shuffle(groups)
        if self.chance(0.14):
            groups.insert(r.randrange(len(groups) + 1), r.choice([["-h"], ["--help"], ["--version"], ["-i"], ["-zz"], ["--zz"], ["--con=x"], ["-"], ["--"], ["extra"], ["--help=1"], ["-ih"], ["-hz"],
                                                                  ["-hh"], ["--version", "--version"], ["--gpio-pins"], ["--console"], ["--local-drive"], ["-V"], ["--="], ["--interactive=yes"],
                                                                  ["--i=x"], ["---"], ["-i-"], ["--gpio-pins=mock", "--gpio-pins", "mock"], ["--console", "--help"], ["--", "-i"], ["--h"], ["-\u00e9"]]))
        out = [x for g in groups for x in g]
        # Nothing asks the real service, and the place of the other one is not shown.
        out = [x for x, y in zip(out, out[1:] + [""]) if x not in ("--console", "--gpio-pins", "--local-drive") or "@U" not in y]
        return ["none.bas" if x.startswith("cloud://") and not any("@U" in y for y in out) and any(y.startswith("-") for y in out) else x for x in out]

    def job(self, n):
        r = self.r
        job = {"id": n, "version": VERSION, "xdg": self.chance(0.25), "dirs": {}, "cloud": {}, "runs": []}
        cwd = {x: self.file(r.choice([0, 0, 0.3]), head=True) for x in ("s.bas", "t x.bas")}
        cwd["sub"] = {"k": "dir"}
        cwd["empty.bas"] = {"k": "ok", "lines": [], "eol": "\n", "final": False}
        cwd["file.bas"] = {"k": "ok", "lines": [L(X("print", "f"))], "eol": "\n", "final": True}
        job["dirs"][CWD] = cwd
        home = XDOCS if job["xdg"] else DOCS
        for d in [home, "@S/d1"]:
            if self.chance(0.7):
                fs = {}
                for x in NAMES:
                    if self.chance(0.6):
                        fs[x + ".bas"] = self.file(r.choice([0, 0, 0.3]), stored=True)
                if self.chance(0.4):
                    fs["dd.bas"] = {"k": "dir"}
                if self.chance(0.4):
                    fs["AUTOEXEC.BAS"] = {"k": "dir"} if self.chance(0.1) else self.file(r.choice([0, 0.3, 0.5]))
                elif self.chance(0.2):
                    fs[r.choice(["autoexec.bas", "AUTOEXEC.bas"])] = self.file(0)
                job["dirs"][d] = fs
        for x in ("u/p", "u/q.bas", "Joe/a b"):
            job["cloud"][x] = self.file(0.1, stored=True)
        for _ in range(r.choice([1, 2, 3, 4])):
            p = r.random()
            mode = "script" if p < 0.33 else "inter" if p < 0.53 else "cloud" if p < 0.63 else "repl"
            run = {"args": self.args(mode, job), "cols": r.choice([80, 80, 80, 50, 49, 30, 132]), "rows": r.choice([24, 24, 2, 50]), "tty": False, "stdin": []}
            n = r.choice([0, 1, 3, 5, 8])
            for _ in range(n):
                if self.chance(0.1):
                    run["stdin"].append(L(X("word", self.word())))
                else:
                    run["stdin"] += [x for x in self.lines(1, 0.45) if not any(y["o"] == "bad" for y in x["xs"])]
            job["runs"].append(run)
        # Interrupted programs, and conversations.
        if self.chance(0.15):
            f = self.file(0, tty=True)
            f["lines"] = [x for x in self.lines(r.choice([0, 1, 2]), 0, tty=True) if not any(y["o"] == "bad" for y in x["xs"])] + [L(X("loop")), L(X("print", "never"))]
            cwd["loop.bas"] = job["cloud"]["u/loop"] = f
            job["runs"].append({"args": r.choice([["loop.bas"], ["-i", "loop.bas"], ["-i", "--service-url=@U", "cloud://u/loop"]]), "cols": 200, "rows": 24, "tty": True, "stdin": []})
        if self.chance(0.12):
            run = {"args": self.args("repl", job), "cols": 250, "rows": r.choice([24, 100]), "tty": True, "stdin": []}
            for _ in range(r.choice([0, 1, 3, 6])):
                p = r.random()
                if p < 0.15:
                    run["stdin"].append(L(X("ctrlc", r.choice(["", "", "PRI", "a \u00e9"]))))
                elif p < 0.3:
                    run["stdin"].append(L(X("print", "go"), X("loop"), X("print", "never")))
                elif p < 0.4:
                    run["stdin"].append(L(X("word", self.word())))
                else:
                    run["stdin"] += [x for x in self.lines(1, 0.45) if not any(y["o"] == "bad" for y in x["xs"])]
            if self.chance(0.25) and "--local-drive" not in "".join(run["args"]):
                ls = self.lines(r.choice([0, 1]), 0, tty=True) + [L(X("loop"), X("print", "never"))]
                job["dirs"].setdefault(home, {}).pop("AUTOEXEC.BAS", None)
                job["dirs"][home]["AUTOEXEC.BAS"] = {"k": "ok", "lines": ls, "eol": "\n", "final": True}
                job["runs"] = []
            job["runs"].append(run)
        return job


VERSION = ""


def version():
    with open("/repo/cli/Cargo.toml") as f:
        return re.search(r'^version = "([^"]+)"', f.read(), re.M).group(1)


# The real program.

class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def __init__(self):
        self.files = {}
        super().__init__(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d/" % self.server_address[1]


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_GET(self):
        m = re.fullmatch("/api/users/([^/]+)/files/([^/]+)", self.path)
        data = m and self.server.files.get("/".join(urllib.parse.unquote(x) for x in m.groups()))
        body = b'{"message": "Not there"}' if data is None else data
        self.send_response(404 if data is None else 200)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)


def invoke(args, env, cwd, run, expected):
    if not run["tty"]:
        data = "".join(text(x) + "\n" for x in run["stdin"]).encode("utf-8", "surrogateescape")
        p = subprocess.Popen([EXE] + args, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(data, timeout=40)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None
        return out, err, p.returncode
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", run["rows"], run["cols"], 0, 0))
    p = subprocess.Popen([EXE] + args, cwd=cwd, env=env, stdin=slave, stdout=slave, stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
    # The slave stays open so that nothing is lost when the program ends.
    out, marks, start = b"", list(expected["marks"]), time.time()
    sent, last, over = start, None, 0
    while True:
        rd, _, _ = select.select([master], [], [], 0.01)
        now = time.time()
        if rd:
            try:
                b = os.read(master, 65536)
            except OSError:
                break
            if not b:
                break
            out += b
            sent, last = now, None
        elif over > 2:
            break
        elif p.poll() is not None:
            # What it wrote just before it ended may not have been seen.
            over += 1
        elif now - start < 15 and termios.tcgetattr(slave)[3] & termios.ISIG:
            # Until it takes the terminal over, an interruption ends it.
            sent = now
        elif now - sent > 4 and last == b"\x03":
            # It came too early, before the program was there to be interrupted.
            os.write(master, last)
            sent = now
        elif marks and now - sent > 0.05 and (plain(out).count(b"\n") >= marks[0]["n"] or now - sent > 5):
            last = KEYS.sub(lambda m: chr(ord(m.group(1)) - 64), marks.pop(0)["keys"]).encode()
            os.write(master, last)
            sent = now
        if now - start > 40:
            p.send_signal(signal.SIGKILL)
            p.wait()
            os.close(master)
            os.close(slave)
            return None
    os.close(master)
    os.close(slave)
    err = p.stderr.read()
    p.wait()
    return plain(out), err, p.returncode


KEYS = re.compile(r"\^([A-Z])")


def plain(b):
    return re.sub(rb"\x1b\[[0-9;?]*[A-Za-z]", b"", b).replace(b"\r", b"")


def populate(job, top):
    for d, fs in job["dirs"].items():
        path = d.replace("@S", top)
        os.makedirs(path, exist_ok=True)
        for n, f in fs.items():
            if f["k"] == "dir":
                os.mkdir(os.path.join(path, n))
            else:
                with open(os.path.join(path, n), "wb") as o:
                    o.write(content(f))
    os.makedirs(os.path.join(top, "home", ".config"), exist_ok=True)
    os.makedirs(os.path.join(top, "xdocs"), exist_ok=True)
    if job["xdg"]:
        with open(os.path.join(top, "home", ".config", "user-dirs.dirs"), "w") as o:
            o.write('XDG_DOCUMENTS_DIR="%s/xdocs"\n' % top)


def snapshot(top):
    """All the files and the directories that have to do with drives."""
    dirs, files = set(), {}
    for d, ds, fs in os.walk(top):
        name = "@S" + d[len(top):]
        dirs.add(name)
        for n in fs:
            if n == "user-dirs.dirs":
                continue
            with open(os.path.join(d, n), "rb") as f:
                t = f.read().decode("utf-8", "surrogateescape").replace("\r\n", "\n")
            files[name + "/" + n] = (t[:-1] if t.endswith("\n") else t).split("\n") if t else []
    return dirs, files


def play(job, expected, server):
    """Returns what went wrong, if anything did."""
    top = tempfile.mkdtemp(prefix="cli-")
    try:
        os.chmod(top, 0o755)
        populate(job, top)
        server.files = {k: content(f) for k, f in job["cloud"].items()}
        for i, (run, exp) in enumerate(zip(job["runs"], expected["runs"])):
            env = {"HOME": os.path.join(top, "home"), "PATH": os.environ.get("PATH", ""), "LINES": str(run["rows"]), "COLUMNS": str(run["cols"]), "TERM": "xterm", "LC_ALL": "C.UTF-8",
                   "no_proxy": "*", "NO_PROXY": "*"}
            args = [a.replace("@S", top).replace("@U", server.url) for a in run["args"]]
            got = invoke(args, env, os.path.join(top, "cwd"), run, exp)
            if got is None:
                return "run %d (%s) did not stop" % (i + 1, run["args"]), None
            out, err, rc = got
            out, err = (x.decode("utf-8", "backslashreplace").replace(top, "@S") for x in (out, err))
            actual = {"out": out, "err": err, "rc": rc}
            for what, t, e in (("prints", out, exp["out"]), ("complains", err, exp["err"])):
                lines = t.split("\n")
                if lines[-1] != "":
                    return "run %d (%s) ends with half a line" % (i + 1, run["args"]), actual
                lines = lines[:-1]
                if e == ["@help"]:
                    if not helpful(lines):
                        return "run %d (%s) gives no help" % (i + 1, run["args"]), actual
                    continue
                for k in range(max(len(lines), len(e))):
                    a = lines[k] if k < len(lines) else None
                    x = e[k] if k < len(e) else None
                    if not like(a, x):
                        return "run %d (%s) %s in line %d: %r instead of %r" % (i + 1, run["args"], what, k + 1, a, x), actual
            if rc != exp["rc"]:
                return "run %d (%s) exits with %s instead of %s" % (i + 1, run["args"], rc, exp["rc"]), actual
        dirs, files = snapshot(top)
        fs = expected["fs"] or {}
        edirs = set(expected["dirs"])
        for d in list(edirs) + ["@S/home/.config", "@S/xdocs", "@S/cwd"]:
            while d != "@S":
                edirs.add(d)
                d = os.path.dirname(d)
        efiles = {}
        for d in fs:
            for n, ls in (fs[d] or {}).items():
                if ls == ["@dir"]:
                    edirs.add(d + "/" + n)
                else:
                    efiles[d + "/" + n] = ls
        for f in sorted(set(files) | set(efiles)):
            a, x = files.get(f), efiles.get(f)
            if (a is None) != (x is None):
                return "the file %s %s" % (f, "is missing" if a is None else "should not be there"), files
            if a != x and not any("\udcff" in t for t in a):
                return "the file %s has %r instead of %r" % (f, a, x), files
        if dirs - {"@S"} != edirs:
            return "the directories are %s instead of %s" % (sorted(dirs), sorted(edirs)), files
        return "", None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def helpful(lines):
    t = "\n".join(lines)
    return lines and lines[0] == "Usage: endbasic [options] [program-file]" and all(
        x in t for x in ("-h, --help", "--version", "--console CONSOLE-SPEC", "--gpio-pins GPIO-PINS-SPEC", "-i, --interactive", "--local-drive URI", "--service-url URL"))


def like(a, x):
    """Whether a line is as expected; what follows a mark only has to start so."""
    if a is None or x is None:
        return False
    m = re.search("@(?!S/)", x)
    if not m:
        return a == x
    return a.startswith(x[:m.start()] + MARKS.get(x[m.start() + 1:], x[m.start() + 1:]))


MARKS = {"copyright": "Copyright ", "license": "License "}


def run(v):
    global VERSION
    build()
    VERSION = version()
    work = common.workdir("M01")
    todo = 2500 if common.QUICK else 12000
    st = {"n": 0, "runs": 0, "states": 0, "transitions": 0, "rc": {}, "modes": {}}
    samples = []
    pool = [Server() for _ in range(8)]
    local = threading.local()
    lock = threading.Lock()

    def one(a):
        if not hasattr(local, "server"):
            with lock:
                local.server = pool.pop()
        return play(a[0], a[1], local.server)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for b in range(0, todo, 750):
            part = [Gen("M01/%d/%d" % (common.SEED, i)).job(i) for i in range(b, min(b + 750, todo))]
            path = os.path.join(work, "jobs.ndjson")
            with open(path, "w") as f:
                for j in part:
                    f.write(json.dumps(j) + "\n")
            res = common.tlc_ok(common.tlc(SPEC, "MCCli", env={"JOBS": path}, work=work), "MCCli")
            st["states"] += res.distinct
            st["transitions"] += res.states - len(part)
            exp = {r["id"]: r for r in res.records}
            if len(exp) != len(part):
                raise common.ToolError("TLC finished %d of %d scenarios" % (len(exp), len(part)))
            for j, (why, actual) in zip(part, ex.map(one, [(j, exp[j["id"]]) for j in part])):
                st["n"] += 1
                st["runs"] += len(j["runs"])
                for x in exp[j["id"]]["runs"]:
                    st["rc"][str(x["rc"])] = st["rc"].get(str(x["rc"]), 0) + 1
                if why:
                    v.add({"property": "M01", "why": why, "job": j, "expected": exp[j["id"]]["runs"], "actual": actual})
            if not samples:
                samples = [[x["args"] for x in j["runs"]] for j in part[:4]]
            if v.n > 10:
                break
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["runs"], "distinct_nontrivial": st["n"], "scenarios": st["n"], "exit_codes": st["rc"], "samples": samples,
           "rule": "random scenarios of up to five invocations over the same directories; TLC runs the specification of each and the real program must print, leave and return the same"}
    return "model_checking", cov, ["the program is built with its default features", "only the first lines of some system errors are compared"]


if __name__ == "__main__":
    common.main(sys.argv[1], {"M01": run}[sys.argv[1]])
