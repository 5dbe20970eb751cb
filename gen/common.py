"""Shared machinery of the checks: building the harness, running TLC, replaying, reporting."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
HARNESS = os.path.join(BUILD, "debug", "vh")


class ToolError(Exception):
    pass


def build():
    """Builds the harness against the current tree of /repo."""
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness && CARGO_TARGET_DIR=%s cargo build --offline 2>&1" % (VERIF, BUILD)
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise ToolError("harness does not build")


def workdir(name):
    d = os.path.join(WORK, "%s-%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.records = []
        self.out = ""


def tlc(module_dir, module, cfg=None, env=None, workers=8, timeout=840, args=(), work=None, heap="8g"):
    """Runs TLC; returns counts and the records that the specification printed (lines with @@)."""
    cfg = cfg or module + ".cfg"
    meta = os.path.join(work or workdir("tlc"), "states-%s-%d" % (module, time.time_ns()))
    os.makedirs(WORK, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + WORK, "-DTLA-Library=" + os.path.join(VERIF, "spec", "lang"), "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-deadlock"] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    res = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=module_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out")
    finally:
        subprocess.run(["rm", "-rf", meta])
        for d in os.listdir(WORK):
            if d.startswith("tlc-") and os.path.isdir(os.path.join(WORK, d)) and not os.listdir(os.path.join(WORK, d)):
                try:
                    os.rmdir(os.path.join(WORK, d))
                except OSError:
                    pass
    res.rc = p.returncode
    other = []
    for line in p.stdout.split("\n"):
        if line.startswith('"@@'):
            res.records.append(json.loads(json.loads(line)[2:]))
        else:
            other.append(line)
            w = line.split()
            if "states generated" in line and "distinct" in line and w[0].replace(",", "").isdigit():
                res.states = int(w[0].replace(",", ""))
                i = w.index("distinct")
                res.distinct = int(w[i - 1].replace(",", ""))
            elif line.startswith("The number of states generated:"):
                res.states = int(w[-1].replace(",", ""))
    res.out = "\n".join(other)
    return res


def tlc_ok(res, what):
    if res.rc != 0:
        i = max(res.out.find("Error:"), 0)
        tail = res.out[i:i + 400] + "\n...\n" + res.out[-900:]
        sys.stdout.write(tail + "\n")
        raise ToolError("TLC failed on %s (rc %d)" % (what, res.rc))
    return res


class HarnessDied(Exception):
    pass


def replay(kind, jobs, timeout=30, env=None, shards=8, jail=False, exe=None):
    """Runs jobs in the harness; returns one result per job.

    Crashes and hangs of the process are results too: {"k": "died"} and {"k": "hang"}.

    With jail, the harness runs as an unprivileged user in a scratch directory of its own, so that
    code under test that escapes from where it should stay cannot damage anything."""
    if jail:
        import shutil
        import tempfile
        box = tempfile.mkdtemp(prefix="vh-")
        try:
            os.chmod(box, 0o755)
            exe = os.path.join(box, "vh")
            shutil.copy(HARNESS, exe)
            os.chmod(exe, 0o755)
            home = os.path.join(box, "home")
            os.mkdir(home)
            os.chown(home, 65534, 65534)
            return _replay(kind, jobs, timeout, env, shards, exe, home)
        finally:
            shutil.rmtree(box, ignore_errors=True)
    return _replay(kind, jobs, timeout, env, shards, exe or HARNESS, None)


def _replay(kind, jobs, timeout, env, shards, exe, home):
    results = {}
    dead = [0]
    parts = [jobs[i::shards] for i in range(shards)]
    procs = []
    import threading

    def work(part):
        todo = list(part)
        while todo:
            if dead[0] >= 4:
                # Enough evidence: do not spend the whole time waiting for hangs.
                for j in todo:
                    results[j["id"]] = {"k": "skipped"}
                return
            done = run_part(kind, todo, results, timeout, env, exe, home)
            if done and results[todo[done - 1]["id"]].get("k") in ("hang", "died"):
                dead[0] += 1
            todo = todo[done:]

    ts = [threading.Thread(target=work, args=(p,)) for p in parts if p]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [results[j["id"]] for j in jobs]


def run_part(kind, jobs, results, timeout, env, exe, home):
    """Feeds the jobs one at a time so that the culprit of a crash or hang is known."""
    import select
    e = dict(os.environ)
    e.update(env or {})
    jail = {"user": 65534, "group": 65534, "extra_groups": []} if home else {}
    p = subprocess.Popen([exe, kind], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, env=e, cwd=home or WORK, **jail)
    n = 0
    fd = p.stdout.fileno()
    buf = b""
    try:
        for j in jobs:
            data = (json.dumps(j) + "\n").encode()
            try:
                p.stdin.write(data)
                p.stdin.flush()
            except BrokenPipeError:
                results[j["id"]] = {"k": "died", "rc": p.wait()}
                return n + 1
            end = time.monotonic() + timeout
            while b"\n" not in buf:
                left = end - time.monotonic()
                if left <= 0:
                    results[j["id"]] = {"k": "hang"}
                    return n + 1
                r, _, _ = select.select([fd], [], [], left)
                if r:
                    c = os.read(fd, 1 << 16)
                    if not c:
                        results[j["id"]] = {"k": "died", "rc": p.wait()}
                        return n + 1
                    buf += c
            line, buf = buf.split(b"\n", 1)
            results[j["id"]] = json.loads(line)
            n += 1
        return n
    finally:
        p.stdin.close() if not p.stdin.closed else None
        try:
            p.wait(timeout=2)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()


def load_known(prop):
    """Known findings of a property: list of {property, what, match}."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == prop:
                    out.append(k)
    return out


def report_known(prop):
    for k in load_known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))


class Violations:
    def __init__(self, prop):
        self.prop = prop
        self.n = 0

    def add(self, data):
        self.n += 1
        if self.n > 5:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, self.n))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if "why" in data:
            print("  " + str(data.get("tag", "")) + " " + str(data["why"])[:600])
        sys.stdout.flush()


def evidence(prop, level, coverage, t0, violations, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                   "level": level, "coverage": coverage, "assumptions": list(assumptions),
                   "wall_s": round(time.time() - t0, 1), "violations": violations}, f, indent=1)


def main(prop, fn):
    """Runs a check: fn(violations) returns (level, coverage, assumptions)."""
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    v = Violations(prop)
    try:
        build()
        level, coverage, assumptions = fn(v)
        evidence(prop, level, coverage, t0, v.n, assumptions)
    except ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    report_known(prop)
    print("%s: %s violations=%d wall=%.0fs" % (prop, {k: c for k, c in coverage.items() if isinstance(c, int)}, v.n, time.time() - t0))
    sys.exit(1 if v.n else 0)
