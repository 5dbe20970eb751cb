"""Conformance of the language implementation to spec/lang."""
import json
import os
import random
import sys

import common
import langfix
from langrand import Gen, Profile

SPEC = os.path.join(common.VERIF, "spec", "lang")


def interpret(programs, work, name="progs", timeout=800, env=None):
    """Interprets programs with TLC; returns the reports indexed by program."""
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for p in programs:
            q = {"st": p["st"], "chunks": [{k: c[k] for k in ("first", "brk", "data")} for c in p["chunks"]]}
            f.write(json.dumps(q) + "\n")
    e = {"PROGS": path}
    e.update(env or {})
    res = common.tlc(SPEC, "MCLang", env=e, timeout=timeout, work=work)
    common.tlc_ok(res, "MCLang")
    out = {r["p"] - 1: r for r in res.records}
    if len(out) != len(programs):
        raise common.ToolError("TLC reported %d of %d programs" % (len(out), len(programs)))
    return out, res


def jobs_of(programs):
    jobs = []
    for i, p in enumerate(programs):
        chunks = []
        for c in p["chunks"]:
            j = {"src": c["src"], "limit": 800}
            if c["brk"]:
                j["break_at"] = c["brk"]
            chunks.append(j)
        jobs.append({"id": i, "chunks": chunks})
    return jobs


def expected(r, yields):
    return {k: r[k] for k in ("k", "m", "c", "out") + (("y",) if yields else ())}


def actual(r, yields):
    a = {"k": r["k"], "m": r.get("m", ""), "c": r.get("c", 0), "out": r["out"]}
    if yields:
        a["y"] = r["yields"]
    return a


def compare(rep, real, yields=False):
    """Returns None or a description of the first difference; yields are only compared on request."""
    if real.get("k") in ("died", "hang"):
        return "the interpreter %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    got = real["results"]
    for i, x in enumerate(rep["res"]):
        if i >= len(got):
            return "chunk %d did not run" % (i + 1)
        a, b = expected(x, yields), actual(got[i], yields)
        if a != b:
            return "chunk %d: expected %s but got %s" % (i + 1, json.dumps(a), json.dumps(b))
    n = len(rep["res"])
    if rep["st"] == "oom" and rep["why"] != "scope":
        if n < len(got):
            if got[n]["k"] == "panic":
                return "chunk %d panicked: %s" % (n + 1, got[n]["m"])
            if not got[n]["out"].startswith(rep["out"]):
                return "chunk %d: expected output to start with %s but got %s" % (
                    n + 1, json.dumps(rep["out"]), json.dumps(got[n]["out"]))
        for g in got:
            if g["k"] == "panic":
                return "panic: " + g["m"]
    return None


def session_text(p):
    return "\n----\n".join(c["src"] for c in p["chunks"])


def run(prop, profiles, rule, nontrivial, extra=None, batch=400):
    """profiles: list of (Profile, quick count, thorough count)."""
    def fn(v):
        work = common.workdir(prop)
        stats = {"states": 0, "transitions": 0, "n": 0, "nt": 0, "kinds": {}, "chunks": 0}
        samples = []
        programs = []
        for k, (prof, nq, nt) in enumerate(profiles):
            for i in range(2 * nq if common.QUICK else nt):
                programs.append(Gen("%s/%d/%d/%d" % (prop, common.SEED, k, i), prof).session())
                programs[-1]["tag"] = "%s %d %d %d" % (prop, common.SEED, k, i)
        programs = extra() + programs if extra else programs
        for b in range(0, len(programs), batch):
            part = programs[b:b + batch]
            reps, res = interpret(part, work)
            stats["states"] += res.distinct
            stats["transitions"] += res.states - len(part)
            reals = common.replay("lang", jobs_of(part))
            for i, p in enumerate(part):
                d = compare(reps[i], reals[i])
                rep = reps[i]
                stats["n"] += 1
                if nontrivial(p, rep):
                    stats["nt"] += 1
                    if len(samples) < 3:
                        samples.append({"source": session_text(p)[:3000], "expected": rep["res"][:3]})
                for x in rep["res"]:
                    stats["chunks"] += 1
                    stats["kinds"][x["k"]] = stats["kinds"].get(x["k"], 0) + 1
                if rep["st"] == "oom":
                    w = "beyond-model: " + rep["why"]
                    stats["kinds"][w] = stats["kinds"].get(w, 0) + 1
                if d:
                    v.add({"property": prop, "why": d, "tag": p.get("tag", ""), "session": [c["src"] for c in p["chunks"]],
                           "breaks": [c["brk"] for c in p["chunks"]], "expected": rep, "actual": reals[i]})
            if v.n > 20:
                break
        cov = {"states": stats["states"], "transitions": stats["transitions"],
               "traces_validated_against_impl": stats["n"], "distinct_nontrivial": stats["nt"],
               "chunks_compared": stats["chunks"], "outcomes": stats["kinds"], "rule": rule, "samples": samples}
        return "model_checking", cov, ["DOUBLE values without a short binary expansion are beyond the specification; "
                                       "executions that produce them are only compared up to that point"]
    common.main(prop, fn)


CHECKS = {
    "A01": (
        [(Profile(stmts=(8, 16), depth=1, edepth=5, big=0.4, err=0.06, onerr=0.7, callables=(0, 0), probe=0.8,
                  w={"let": 6, "print": 10, "jump": 0, "gosub": 0, "data": 0, "onerr": 0, "call": 0, "while": 0.2,
                     "do": 0.2, "for": 0.3}), 900, 12000)],
        "random programs dominated by deep typed expressions over INTEGER boundary values, exact DOUBLEs, "
        "BOOLEANs and STRINGs; non-trivial if at least 6 statements ran",
        lambda p, r: r["n"] >= 6),
    "A02": (
        [(Profile(stmts=(5, 10), depth=3, edepth=2, callables=(0, 0), arrays=0.1, onerr=0.1, err=0.01,
                  w={"let": 3, "print": 4, "if": 3, "if1": 2, "while": 2, "do": 3, "for": 3, "select": 3, "exit": 2,
                     "jump": 2, "gosub": 1.5, "data": 0.1, "leta": 0.2, "onerr": 0.1, "end": 0.2, "return": 0.1}),
          900, 12000)],
        "random programs dominated by nested IF, SELECT CASE, WHILE, DO, FOR, EXIT, GOTO and GOSUB; "
        "non-trivial if at least 15 statements ran",
        lambda p, r: r["n"] >= 15),
    "A03": (
        [(Profile(stmts=(4, 9), depth=2, edepth=4, callables=(2, 5), arrays=0.3, shared=0.5, onerr=0.1, err=0.01,
                  probe=0.7, w={"call": 5, "let": 5, "exit": 1, "gosub": 0.5}), 900, 12000),
         (Profile(stmts=(3, 6), depth=2, edepth=3, callables=(1, 3), chunks=(2, 3), shared=0.6, err=0.04,
                  probe=0.7, w={"call": 5, "let": 5, "exit": 1, "onerr": 0.6}), 200, 3000)],
        "random programs with several SUBs and FUNCTIONs (recursive ones included), arguments with conversions, "
        "local, parameter and shared variables; non-trivial if a callable ran",
        lambda p, r: any(x["k"] == "sub" for x in p["st"]) and r["n"] >= 10),
    "A04": (
        [(Profile(stmts=(4, 9), depth=2, edepth=3, callables=(0, 3), onerr=0.5, err=0.15, arrays=0.5, probe=0.8,
                  w={"onerr": 4, "let": 4, "call": 2, "end": 0.2, "gosub": 0.5}), 900, 12000),
         (Profile(stmts=(3, 6), depth=2, edepth=3, callables=(0, 2), onerr=0.3, err=0.2, chunks=(2, 4), probe=0.8,
                  w={"onerr": 3, "let": 4, "call": 2}), 250, 3000)],
        "random programs full of failing statements under ON ERROR GOTO, RESUME NEXT and GOTO 0, at the top level "
        "and across callables; non-trivial if an error handler was installed",
        lambda p, r: any(x["k"] == "onerr" for x in p["st"]) and r["n"] >= 6),
    "A05": (
        [(Profile(stmts=(5, 11), depth=2, edepth=3, callables=(0, 2), arrays=1.6, shared=0.4, err=0.05, onerr=0.35,
                  probe=0.9, w={"leta": 6, "data": 4, "let": 3, "for": 2}), 900, 12000),
         (Profile(stmts=(3, 6), depth=1, edepth=2, callables=(0, 1), arrays=1.0, chunks=(2, 4), err=0.05, onerr=0.2,
                  probe=0.9, w={"leta": 3, "data": 7}), 200, 3000)],
        "random programs that fill and read multidimensional arrays of all types and consume DATA with READ and "
        "RESTORE; non-trivial if an array or DATA statement is present",
        lambda p, r: any(x["k"] in ("dima", "data") for x in p["st"]) and r["n"] >= 6),
    "A06": (
        [(Profile(stmts=(1, 5), depth=2, edepth=3, callables=(0, 2), arrays=0.4, shared=0.3, chunks=(3, 7), serr=0.3,
                  err=0.06, onerr=0.05, brk=0.1, probe=1.0, w={"jump": 0.8, "data": 1, "onerr": 0.4}), 700, 9000)],
        "random sequences of 3 to 7 chunks fed to one machine, some of which do not compile, fail or are interrupted, "
        "followed by a chunk that shows all variables; non-trivial if two chunks ran",
        lambda p, r: len(r["res"]) >= 2),
    "A08": (
        [(Profile(stmts=(2, 6), depth=2, edepth=3, callables=(0, 3), arrays=0.6, shared=0.4, chunks=(1, 2), serr=0.9,
                  err=0.03, probe=0.4), 1500, 20000)],
        "random programs with type errors, undefined symbols and labels, wrong arities, redefinitions and misplaced "
        "statements; non-trivial if a diagnostic is reported",
        lambda p, r: any(x["k"] == "cerr" for x in r["res"])),
}


def with_breaks(prop, v):
    """A07: interrupts each program at every point where it yields."""
    work = common.workdir(prop)
    prof = Profile(stmts=(3, 7), depth=2, edepth=2, callables=(0, 2), err=0.02, onerr=0.2, probe=1.0,
                   w={"while": 2, "do": 2, "for": 3, "gosub": 1.5, "jump": 1.5, "call": 2, "onerr": 0.4})
    handlers = Profile(stmts=(5, 9), depth=1, edepth=2, callables=(0, 1), err=0.2, onerr=0.8, probe=1.0,
                       w={"onerr": 4, "for": 2, "do": 1, "call": 1})
    n = 400 if common.QUICK else 2500
    cap = 6 if common.QUICK else 40
    base = [Gen("%s/%d/%d" % (prop, common.SEED, i), handlers if i % 4 == 3 else prof).session() for i in range(n)]
    stats = {"states": 0, "transitions": 0, "n": 0, "breaks": 0}
    samples = []
    check_batch(prop, langfix.tight(common.SEED), work, v, stats, samples)
    for b in range(0, len(base), 200):
        part = base[b:b + 200]
        reps, res = interpret(part, work)
        progs = list(part)
        for i, p in enumerate(part):
            ys = reps[i]["res"][0]["y"] if reps[i]["res"] else reps[i]["y"]
            points = list(range(1, ys + 1))
            if len(points) > cap:
                points = points[:2] + sorted(random.Random(i).sample(points[2:], cap - 2))
            for k in points:
                q = {"st": p["st"], "chunks": [dict(c) for c in p["chunks"]]}
                q["chunks"][0]["brk"] = k
                progs.append(q)
        for c in range(0, len(progs), 500):
            check_batch(prop, progs[c:c + 500], work, v, stats, samples)
        if v.n > 20:
            break
    cov = {"states": stats["states"], "transitions": stats["transitions"], "traces_validated_against_impl": stats["n"],
           "interruptions": stats["breaks"], "samples": samples,
           "rule": "random programs with loops, jumps and calls, each one run uninterrupted and then once per point "
                   "where it yields, with a break there and a later chunk that shows what is left"}
    return "model_checking", cov, []


def check_batch(prop, part, work, v, stats, samples):
    reps, res = interpret(part, work)
    stats["states"] += res.distinct
    stats["transitions"] += res.states - len(part)
    reals = common.replay("lang", jobs_of(part))
    for i, p in enumerate(part):
        d = compare(reps[i], reals[i], True)
        stats["n"] += 1
        stats["breaks"] += sum(1 for x in reps[i]["res"] if x["k"] == "break")
        if len(samples) < 3 and any(x["k"] == "break" for x in reps[i]["res"]):
            samples.append({"source": session_text(p)[:3000], "break_at": p["chunks"][0]["brk"], "expected": reps[i]["res"]})
        if d:
            v.add({"property": prop, "why": d, "session": [c["src"] for c in p["chunks"]],
                   "breaks": [c["brk"] for c in p["chunks"]], "expected": reps[i], "actual": reals[i]})


if __name__ == "__main__":
    which = sys.argv[1]
    if which == "A07":
        common.main(which, lambda v: with_breaks(which, v))
    else:
        profs, rule, nontrivial = CHECKS[which]
        extra = {"A01": lambda: langfix.operators(common.SEED, not common.QUICK),
                 "A02": lambda: langfix.loops(common.SEED, not common.QUICK)}.get(which)
        run(which, profs, rule, nontrivial, extra)
