"""Conformance of the client of the cloud service (R01, R02) with spec/cloud/Cloud.tla."""
import base64
import json
import os
import random
import subprocess
import sys
import urllib.parse

import common

SPEC = os.path.join(common.VERIF, "spec", "cloud")
TARGET = os.path.join(common.BUILD, "cloud")
EXE = os.path.join(TARGET, "debug", "vhc")
REASONS = {200: "OK", 201: "Created", 202: "Accepted", 206: "Partial Content", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 409: "Conflict",
           413: "Payload Too Large", 418: "I'm a teapot", 429: "Too Many Requests", 500: "Internal Server Error", 503: "Service Unavailable",
           507: "Insufficient Storage"}
USERS = ["u", "joe", "Joe", "a b", "ñu", "x%41", "q?x#y", "w+z"]
NAMES = ["a", "A", "a.bas", "b c.bas", "ñ.txt", "...", "%2e%2e", "a%41", "aA", "x?y", "z#w", "a&b=c;d", "+p+", "100%", ".hid", "[1]", "'q'", "a~b", "é", "{x}", "a|b", "<h>", "^", "end ", " lead", "end"]
PASSWORDS = ["secret12", "p:é", "", "longer password 1", "a:b:c", "x", " sp aced ", "tail "]
DATA = ["", "41", "48656c6c6f0a", "00ff80", "c328", "0d0a0d0a", "f09f9880", "7b7d"]
# Programs that anyone can run: their content, text once loaded and outcome.
LIB = [{"d": 'PRINT "hi"\nPRINT 3\n', "text": 'PRINT "hi"\nPRINT 3\n', "out": ["hi", " 3"], "err": "", "bad": ""},
       {"d": 'PRINT "one"\nx = 1 / 0', "text": 'PRINT "one"\nx = 1 / 0\n', "out": ["one"], "err": "2:7: Division by zero", "bad": ""},
       {"d": "a = \n", "text": "a = \n", "out": [], "err": "1:5: Missing expression in assignment", "bad": ""},
       {"d": "", "text": "", "out": [], "err": "", "bad": ""},
       {"d": "PRINT 1\r\nPRINT 2", "text": "PRINT 1\nPRINT 2\n", "out": [" 1", " 2"], "err": "", "bad": ""}]
BAD = {"d": "41ff", "text": "", "out": [], "err": "", "bad": "invalid utf-8 sequence of 1 bytes from index 1"}


def lib():
    out = [dict(p, d=p["d"].encode().hex()) for p in LIB]
    return out + [BAD]


def build():
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness-cloud && CARGO_TARGET_DIR=%s cargo build --offline 2>&1" % (common.VERIF, TARGET)
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise common.ToolError("harness-cloud does not build")


class Gen:
    def __init__(self, r, prop):
        self.r, self.prop = r, prop
        self.users = r.sample(USERS, r.choice([1, 2, 2, 3]))
        self.pw = {u: r.choice(PASSWORDS) for u in self.users}
        self.names = r.sample(NAMES, 6)
        # Names that are not ASCII cannot travel in headers.
        self.readers = [u for u in self.users if u.isascii()] + ["public", "Public", "other"]
        self.drives = ["MEMORY", "CLOUD", "X", "y", "AUTORUN"]
        self.user = ""
        # What probably is mounted, which makes most of the operations make sense.
        self.on = {"MEMORY": ""}
        self.mine = []
        self.files = {}
        for u in self.users:
            self.files[u] = {}
            for n in r.sample(self.names, r.choice([0, 1, 2, 3])):
                self.files[u][n] = {"d": self.data(), "mt": r.choice([0, 5, 951782399, 951782400, 1583020799, 1709164800, 2000000000]),
                                    "r": r.sample(["public", r.choice(self.readers[:-2])], r.choice([0, 0, 1, 2]))}

    def data(self):
        r = self.r
        if r.random() < 0.35:
            return r.choice(lib())["d"]
        if r.random() < 0.1:
            return bytes(r.randrange(256) for _ in range(r.choice([1, 50, 300]))).hex()
        return r.choice(DATA)

    def path(self, leaf=True):
        r = self.r
        d = r.choice(["", "MEMORY:", "CLOUD:", "CLOUD:", "cloud:", "CLOUD:", "X:", "X:", "x:", "AUTORUN:", "NO:"] + (["a/b:", "::"] if r.random() < 0.05 else []))
        if r.random() < 0.8:
            d = r.choice(list(self.on) + ["CLOUD"] * ("CLOUD" in self.on)) + ":"
        p = d + r.choice(["", "/"] if d else [""])
        if leaf:
            n = list(self.files.get(self.on.get(d[:-1], ""), self.mine)) + self.mine
            p += r.choice(n) if n and r.random() < 0.75 else r.choice(self.names)
            if r.random() < 0.04:
                p = r.choice([d, d + "/", d + "..", d + "/.", d + "a/b", "a:b:c", "", d + "x\\y"])
        elif r.random() < 0.08:
            p += r.choice(self.names)
        return p

    def faults(self, json_body=False, login=False):
        r = self.r
        if r.random() < 0.78:
            return []
        k = r.choice(["lost", "gone", "cut", "json", "json", "text"] + (["garbage", "garbage"] if json_body else []))
        st = r.choice([400, 401, 403, 404, 409, 413, 418, 429, 500, 503, 507] + [202, 206] + ([201] if login else []))
        t = r.choice(["", "no", "Sorry, try later", "two\nlines", "a\tb\r\nc", "ñ €", "{}", '{"message": 3}', "[]"]) if k in ("json", "text") else ""
        if k == "text" and t.startswith("{\"message\": \""):
            t = ""
        return [{"k": k, "st": st, "t": t}]

    def op(self, o, a="", b="", l=(), ask=False, keys=(), f=(), d="", repl=False):
        return {"o": o, "a": a, "b": b, "l": list(l), "ask": ask, "keys": list(keys), "f": list(f), "d": d, "repl": repl}

    def line(self, t):
        return {"k": "line", "t": t}

    def motd(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 3])):
            t = " " * r.choice([0, 0, 0, 2, 3, 70, 90]) + " ".join(r.choice(["Hello", "there.", "service.", "is", "down", "the", "Next", "ñandu", "x" * 30, "end.", "maintenance"])
                                                               for _ in range(r.choice([0, 1, 5, 20, 40])))
            out.append(t)
        return out

    def login(self):
        r = self.r
        u = r.choice(self.users)
        pw = self.pw[u]
        if r.random() < 0.15:
            u, pw = r.choice([(u, pw + "x"), ("nobody", "x"), (u.upper(), pw), ("", ""), (u, pw.upper())])
        ask = r.random() < 0.3
        keys = []
        if ask:
            keys = r.choice([[self.line(pw)]] * 6 + [[], [{"k": "int", "t": "ab"}], [self.line(pw), self.line("more")]])
        if not self.user and pw == self.pw.get(u):
            self.user = u
            self.on["CLOUD"] = u
        return self.op("login", u, "" if ask else pw, self.motd(), ask, keys, self.faults(True, True))

    def signup(self):
        r = self.r
        pw = r.choice(["longer12", "ñandu 2025", "abcdefg1", " Pad 1234 "])
        ks = [self.line(r.choice(USERS + ["new", "new2", "", " pad "]))]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            ks += r.choice([[self.line(r.choice(["short1", "", "onlyletters", "12345678", "!!!!!!!!!", "éééé", "ééé1", "€€12"]))],
                            [self.line(pw), self.line(pw + "x")], [self.line(pw), self.line("")]])
        ks += [self.line(pw), self.line(pw), self.line(r.choice(["a@b", "", "ñ@x y", "Joe.B@Example.COM", " a@B "]))]
        for yes in (0.5, 0.8):
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                ks.append(self.line(r.choice(["maybe", " ", "yess", "1", " y"])))
            ks.append(self.line(r.choice(["y", "Yes", "TRUE", "y ", "yes  "]) if r.random() < yes else r.choice(["", "n", "NO", "False", "n "])))
        if r.random() < 0.2:
            i = r.randrange(len(ks))
            ks = ks[:i] + ([{"k": "int", "t": r.choice(["", "par"])}] if r.random() < 0.7 else [])
        if r.random() < 0.1:
            ks.append(self.line("rest"))
        return self.op("signup", keys=ks, f=self.faults(login=True))

    def share(self):
        r = self.r
        acls = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            acls.append(r.choice(self.readers) + r.choice(["+r", "+r", "+R", "-r", "-R"]))
        if r.random() < 0.08:
            acls.insert(r.randint(0, len(acls)), r.choice(["+r", "", "x", "joe", "joe+w", "joe +r ", "ab€", "€+r"[1:], "é", "r+", "joe+rr"]))
        return self.op("share", self.path(), l=acls, f=self.faults())

    def one(self):
        r = self.r
        w = {"login": 4, "logout": 2, "signup": 1, "share": 6, "mount": 3, "unmount": 1, "cd": 2, "dir": 4, "put": 6, "get": 6, "copy": 5, "kill": 3, "autorun": 2}
        if self.prop == "R01":
            w.update(login=9, logout=5, signup=4, share=9, put=3, get=3, copy=2, kill=2, dir=3, autorun=1)
        if self.user:
            w["login"] /= 4
            w["logout"] /= 2
        else:
            w.update(logout=0.5, login=w["login"] * 2)
        o = r.choices(list(w), list(w.values()))[0]
        if o == "login":
            return self.login()
        if o == "signup":
            return self.signup()
        if o == "share":
            return self.share()
        if o == "logout":
            self.user = ""
            self.on.pop("CLOUD", None)
            return self.op("logout", f=self.faults(login=True))
        if o == "mount":
            u = r.choice(self.users + ["nobody"])
            d = r.choice(["X", "X", "y", "x", "Y", "CLOUD", "MEMORY", "AUTORUN"])
            uri = r.choice(["cloud", "cloud", "CLOUD", "Cloud"]) + "://" + u
            if r.random() < 0.1:
                uri, d = r.choice([("cloud://", d), ("bad://x", d), (uri, "a:b"), (uri, ""), ("cloud:" + u, d), ("://x", d), (u, d)])
            else:
                self.on.setdefault(d.upper(), u)
            return self.op("mount", uri, d)
        if o == "unmount":
            return self.op("unmount", r.choice(["X", "x", "Y", "CLOUD", "cloud", "MEMORY", "AUTORUN", "", "a:"]))
        if o == "cd":
            return self.op("cd", r.choice(["MEMORY:", "MEMORY:/", "CLOUD:", "cloud:/", "X:", "X:/", "/", "", "NO:", "AUTORUN:", self.path()]))
        if o == "dir":
            return self.op("dir", self.path(False), f=self.faults(True))
        if o == "put":
            p = self.path()
            self.mine.append(p.split(":")[-1].strip("/"))
            return self.op("put", p, d=self.data(), f=self.faults())
        if o == "get":
            return self.op("get", self.path(), f=self.faults())
        if o == "copy":
            b = self.path() if r.random() < 0.7 else r.choice(["CLOUD:", "CLOUD:/", "MEMORY:", "X:", "NO:"])
            f = self.faults()
            if f and r.random() < 0.5:
                f = [{"k": "", "st": 0, "t": ""}] + f
            return self.op("copy", self.path(), b, f=f)
        if o == "kill":
            return self.op("kill", self.path(), f=self.faults(login=True))
        t = r.choice(self.users + ["", "nobody"] if r.random() < 0.1 else self.users) + "/" + r.choice(self.names)
        if r.random() < 0.06:
            t = r.choice(["u", "", "u/", "/x", t + "/x"])
        return self.op("autorun", t, f=self.faults(), repl=r.random() < 0.5)

    def session(self):
        r = self.r
        ops = [self.login()] if r.random() < 0.7 else []
        if ops and r.random() < 0.5:
            ops.append(self.op("mount", "cloud://" + r.choice(self.users), "X"))
        ops += [self.one() for _ in range(r.randint(5, 14))]
        return {"users": self.pw, "files": self.files, "cols": r.choice([80, 80, 80, 60, 120, 49, 50]), "lib": lib(), "ops": ops}


def keys(op):
    out = ""
    for k in op["keys"]:
        out += k["t"] + ("\n" if k["k"] == "line" else "\u0003")
    return out


def q(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def real_op(op, reps):
    o = op["o"]
    replies = []
    for p in reps:
        if p["fate"] == "drop":
            replies.append({"drop": True})
            continue
        if p["k"] == "j":
            body = json.dumps(fix(p["j"]), ensure_ascii=False).encode().hex()
        elif p["k"] == "t":
            body = p["d"].encode().hex()
        else:
            body = p["d"]
        replies.append({"status": p["st"], "reason": REASONS[p["st"]], "headers": p["hs"] or [], "body": body, "cut": p["fate"] == "cut"})
    r = {"o": "basic", "keys": keys(op), "replies": replies}
    args = {"login": [op["a"]] + ([] if op["ask"] else [op["b"]]), "share": [op["a"]] + op["l"], "mount": [op["b"], op["a"]], "unmount": [op["a"]],
            "cd": [op["a"]], "copy": [op["a"], op["b"]], "kill": [op["a"]], "logout": [], "signup": []}
    if o in ("put", "get", "autorun"):
        r.update(o=o, t=op["a"], d=op["d"], repl=op["repl"])
    elif o == "dir":
        r["t"] = "DIR" + (" " + q(op["a"]) if op["a"] else "")
    elif o == "mount":
        r["t"] = "MOUNT %s AS %s" % (q(op["a"]), q(op["b"]))
    else:
        r["t"] = o.upper() + (" " if args[o] else "") + ", ".join(q(a) for a in args[o])
    return r


def fix(j):
    """TLC writes empty functions as empty sequences."""
    return {k: v for k, v in j.items()}


def auth_of(headers):
    a = [v for k, v in headers if k == "authorization"]
    if not a:
        return ""
    if len(a) > 1:
        return "several: %r" % a
    if a[0].startswith("Basic "):
        try:
            return "Basic " + base64.b64decode(a[0][6:], validate=True).decode()
        except Exception:
            return a[0]
    return a[0]


def compare_req(e, a):
    w = a["line"].split(" ")
    if len(w) != 3 or w[0] != e["v"] or not w[1].startswith("/") or "?" in w[1] or "#" in w[1]:
        return "requested %r" % a["line"]
    segs = [urllib.parse.unquote(x, errors="replace") for x in w[1][1:].split("/")]
    if segs != e["segs"]:
        return "requested %r instead of %r" % (a["line"], e["segs"])
    if auth_of(a["headers"]) != e["auth"]:
        return "authenticated the request for %r with %r instead of %r" % (a["line"], auth_of(a["headers"]), e["auth"])
    if not [1 for k, _ in a["headers"] if k == "x-endbasic-client-version"]:
        return "no version in the request for %r" % a["line"]
    hs = sorted([k, v.encode("latin-1", "replace").decode("utf-8", "replace")] for k, v in a["headers"]
                if k == "content-type" or (k.startswith("x-endbasic-") and k != "x-endbasic-client-version"))
    if hs != sorted(map(list, e["hs"] or [])):
        return "headers %r instead of %r" % (hs, e["hs"])
    if e["j"]:
        try:
            j = json.loads(bytes.fromhex(a["body"]))
        except ValueError:
            return "sent %r" % a["body"]
        if j != e["j"]:
            return "sent %r instead of %r" % (j, e["j"])
    elif a["body"] != e["body"]:
        return "sent %r instead of %r" % (a["body"], e["body"])
    return None


def compare(job, res, real):
    if real.get("k") in ("died", "hang"):
        return "the client %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    for i, e in enumerate(res):
        op = job["ops"][i]
        who = "operation %d (%s)" % (i + 1, json.dumps(real_op(op, e["reps"]), ensure_ascii=False)[:300])
        a = real["results"][i]
        if "panic" in a:
            return "%s panicked: %s" % (who, a["panic"])
        for n in range(max(len(e["reqs"]), len(a["reqs"]))):
            if n >= len(a["reqs"]):
                return "%s did not send %r" % (who, e["reqs"][n])
            if n >= len(e["reqs"]):
                return "%s should not send %r" % (who, a["reqs"][n])
            d = compare_req(e["reqs"][n], a["reqs"][n])
            if d:
                return "%s %s" % (who, d)
        if not (len(a["err"]) > 8 if e["err"].endswith("@") else a["err"] == e["err"]):
            return "%s: error %r instead of %r" % (who, a["err"], e["err"])
        left = op["keys"][len(op["keys"]) - e["left"]:]
        e = dict(e, left=sum(len(k["t"]) + 1 for k in left))
        for k in ("out", "prompts", "left", "user", "cwd"):
            if a[k] != e[k]:
                return "%s: %s %r instead of %r" % (who, k, a[k], e[k])
        if a["mounts"] != e["mounts"]:
            return "%s: mounts %r instead of %r" % (who, a["mounts"], e["mounts"])
        if a["logged"] != (e["in"]):
            return "%s: %slogged in" % (who, "" if a["logged"] else "not ")
        if op["o"] in ("get", "autorun") and not e["err"] and a["data"] != e["data"]:
            return "%s: data %r instead of %r" % (who, a["data"], e["data"])
        if (a["name"] or "") != e["name"] or a["text"] != e["text"]:
            return "%s: program %r %r instead of %r %r" % (who, a["name"], a["text"], e["name"], e["text"])
    return None


def run(prop):
    def fn(v):
        build()
        work = common.workdir(prop)
        st = {"states": 0, "transitions": 0, "n": 0, "reqs": 0, "faults": {}, "ops": {}, "errors": 0, "ok": 0}
        samples = []
        todo = 3000 if common.QUICK else 20000
        for b in range(0, todo, 1000):
            part = [Gen(random.Random("%s/%d/%d" % (prop, common.SEED, i)), prop).session() for i in range(b, min(b + 1000, todo))]
            path = os.path.join(work, "jobs.ndjson")
            with open(path, "w") as f:
                for j in part:
                    f.write(json.dumps(j) + "\n")
            res = common.tlc_ok(common.tlc(SPEC, "MCCloud", env={"JOBS": path}, work=work), "MCCloud")
            st["states"] += res.distinct
            st["transitions"] += res.states - len(part)
            out = {r["p"] - 1: r for r in res.records}
            if len(out) != len(part):
                raise common.ToolError("TLC reported %d of %d sessions" % (len(out), len(part)))
            jobs = [{"id": i, "cols": j["cols"], "ops": [real_op(o, e["reps"]) for o, e in zip(j["ops"], out[i]["res"])]} for i, j in enumerate(part)]
            env = {"no_proxy": "*", "NO_PROXY": "*", "http_proxy": "", "HTTP_PROXY": "", "all_proxy": "", "ALL_PROXY": ""}
            reals = common.replay("cloud", jobs, env=env, exe=EXE)
            for i, j in enumerate(part):
                d = compare(j, out[i]["res"], reals[i])
                st["n"] += 1
                for o, e in zip(j["ops"], out[i]["res"]):
                    st["ops"][o["o"]] = st["ops"].get(o["o"], 0) + 1
                    st["reqs"] += len(e["reqs"])
                    st["errors" if e["err"] else "ok"] += 1
                    for x in o["f"][:len(e["reqs"])]:
                        st["faults"][x["k"] or "none"] = st["faults"].get(x["k"] or "none", 0) + 1
                if len(samples) < 2:
                    samples.append({"input": j["ops"][:4], "expected": [{k: r[k] for k in ("err", "out", "reqs")} for r in out[i]["res"][:4]]})
                if d:
                    v.add({"property": prop, "why": d, "job": jobs[i], "session": j, "expected": out[i]["res"], "actual": reals[i]})
            if v.n > 10:
                break
        cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"], "distinct_nontrivial": st["n"],
               "requests_compared": st["reqs"], "failed_operations": st["errors"], "successful_operations": st["ok"], "faults": st["faults"],
               "operations": st["ops"], "samples": samples,
               "rule": "random sessions of 5 to 16 operations by users with files of special names and contents, in which a fifth of the requests get lost, truncated, rejected or answered with garbage"}
        return "model_checking", cov, ["the service is the one of the specification, behind a scripted HTTP server", "operations are run one at a time"]
    return fn


if __name__ == "__main__":
    common.main(sys.argv[1], run(sys.argv[1]))
