"""Reduces a failing session: python3 shrink.py A03 SEED PROFILE INDEX [brk]"""
import copy
import random
import sys

import common
import lang
from langgen import Render
from langrand import Gen


def render(bodies):
    r = Render(random.Random(7))
    r.rng.random = lambda: 0.5    # plain style
    for b, brk in bodies:
        r.add_chunk(b, brk)
    return r.program()


def sub_blocks(s):
    k = s["k"]
    if k == "if":
        for i, (g, b) in enumerate(s["br"]):
            yield b, (lambda nb, i=i: s["br"].__setitem__(i, (s["br"][i][0], nb)))
    elif k in ("while", "do", "for", "sub"):
        yield s["body"], (lambda nb: s.__setitem__("body", nb))
    elif k == "select":
        for i, (g, b) in enumerate(s["cases"]):
            yield b, (lambda nb, i=i: s["cases"].__setitem__(i, (s["cases"][i][0], nb)))


def paths(body, pre=()):
    for i, s in enumerate(body):
        yield pre + (i,)
        for j, (b, _) in enumerate(sub_blocks(s)):
            yield from paths(b, pre + (i, j))


def edit(bodies, c, path, n, inline):
    nb = copy.deepcopy(bodies)
    body = nb[c][0]
    for k in range(0, len(path) - 1, 2):
        body = list(sub_blocks(body[path[k]]))[path[k + 1]][0]
    i = path[-1]
    if inline:
        bl = list(sub_blocks(body[i]))
        if not bl or body[i]["k"] == "sub":
            return None
        new = [x for b, _ in bl for x in b]
        body[i:i + 1] = new
    else:
        del body[i:i + n]
    return nb


def candidates(bodies):
    for c in range(len(bodies)):
        if len(bodies) > 1:
            yield bodies[:c] + bodies[c + 1:]
    for n in (8, 4, 2, 1):
        for c, (b, _) in enumerate(bodies):
            for p in paths(b):
                yield edit(bodies, c, p, n, False)
    for c, (b, _) in enumerate(bodies):
        for p in paths(b):
            yield edit(bodies, c, p, 1, True)
    # Simplify expressions.
    for c, (b, _) in enumerate(bodies):
        for p in paths(b):
            nb = copy.deepcopy(bodies)
            body = nb[c][0]
            for k in range(0, len(p) - 1, 2):
                body = list(sub_blocks(body[p[k]]))[p[k + 1]][0]
            s = body[p[-1]]
            if s["k"] == "print" and len(s["items"]) > 1:
                for i in range(len(s["items"])):
                    n2 = copy.deepcopy(nb)
                    body2 = n2[c][0]
                    for k in range(0, len(p) - 1, 2):
                        body2 = list(sub_blocks(body2[p[k]]))[p[k + 1]][0]
                    del body2[p[-1]]["items"][i]
                    yield n2
            if s["k"] == "print":
                for i, (e, sep) in enumerate(s["items"]):
                    for sub in subexprs(e):
                        n2 = copy.deepcopy(nb)
                        body2 = n2[c][0]
                        for k in range(0, len(p) - 1, 2):
                            body2 = list(sub_blocks(body2[p[k]]))[p[k + 1]][0]
                        body2[p[-1]]["items"][i] = (sub, sep)
                        yield n2
            if "e" in s and s["e"] is not None and s["k"] != "data":
                for sub in subexprs(s["e"]):
                    n2 = copy.deepcopy(nb)
                    body2 = n2[c][0]
                    for k in range(0, len(p) - 1, 2):
                        body2 = list(sub_blocks(body2[p[k]]))[p[k + 1]][0]
                    body2[p[-1]]["e"] = sub
                    yield n2


def subexprs(e):
    if e[0] == "o":
        return [e[2], e[3]]
    if e[0] == "u":
        return [e[2]]
    if e[0] == "c":
        return list(e[3])
    return []


def fails(cands, work, kind):
    progs = []
    for b in cands:
        progs.append(render(b))
    reps, _ = lang.interpret(progs, work)
    reals = common.replay("lang", lang.jobs_of(progs))
    for i in range(len(progs)):
        d = lang.compare(reps[i], reals[i])
        if d and ("panic" in d) == kind and "cerr" not in d:
            return i, d, progs[i]
    return None


def main():
    prop, seed, k, i = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    prof = lang.CHECKS[prop][0][k][0]
    g = Gen("%s/%s/%d/%d" % (prop, seed, k, i), prof)
    g.session()
    bodies = g.bodies
    work = common.workdir("shrink")
    r = fails([bodies], work, True) or fails([bodies], work, False)
    if not r:
        print("does not fail when rendered plainly")
        return
    kind = "panic" in r[1]
    while True:
        cs = [c for c in candidates(bodies) if c]
        hit = None
        for b in range(0, len(cs), 60):
            hit = fails(cs[b:b + 60], work, kind)
            if hit:
                bodies = cs[b + hit[0]]
                break
        if not hit:
            break
        last = hit
        print(len(cs), hit[1][:100], flush=True)
    print(lang.session_text(last[2]))
    print(last[1])


main()
