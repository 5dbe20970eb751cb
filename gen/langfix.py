"""Systematic programs: matrices of operators over boundary values, tight loops, FOR and SELECT CASE corners."""
import random

from langgen import MAXI, Render

RELS = ["=", "<>", "<", "<=", ">", ">="]
INTOPS = ["+", "-", "*", "/", "MOD", "^", "<<", ">>", "AND", "OR", "XOR"] + RELS
MIN = ("o", "-", ("u", "-", ("i", MAXI)), ("i", 1))


def ilit(n):
    if n == -MAXI - 1:
        return MIN
    return ("i", n) if n >= 0 else ("u", "-", ("i", -n))


def dlit(m, e):
    return ("d", m, e) if m >= 0 else ("u", "-", ("d", -m, e))


def pr(*es):
    return {"k": "print", "items": [(e, ";") for e in es[:-1]] + [(es[-1], "")]}


def let(n, e, sf=""):
    return {"k": "let", "n": n, "sf": sf, "e": e}


NEXT = {"k": "onerr", "m": "next"}


def session(rng, *bodies, brk=None):
    r = Render(rng)
    for i, b in enumerate(bodies):
        r.add_chunk(b, brk if brk and i == 0 else 0)
    return r.program()


def batches(stmts, n, head=()):
    return [list(head) + stmts[i:i + n] for i in range(0, len(stmts), n)]


def operators(seed, full):
    """Every binary operator over pairs of boundary values, with operands held in variables and literals."""
    rng = random.Random("ops/%s" % seed)
    ints = [-MAXI - 1, -MAXI, -65536, -46341, -33, -32, -31, -3, -2, -1, 0, 1, 2, 3, 5, 30, 31, 32, 33, 46340, 46341, 65536,
            MAXI - 1, MAXI]
    core = [-MAXI - 1, -MAXI, -1, 0, 1, MAXI, 31, 32, -32]
    dbls = [(-5, 1), (-1, 0), (-1, 1), (0, 0), (1, 2), (1, 1), (1, 0), (3, 1), (2, 0), (7, 0), (100, 0)]
    strs = ["", "a", "A", "ab", "b", "aa", "\u00e9", " "]
    out = []
    for op in INTOPS:
        pairs = [(a, b) for a in ints for b in ints]
        keep = [(a, b) for a in core for b in core]
        pick = pairs if full else keep + rng.sample(pairs, 90)
        st = []
        for a, b in pick:
            r = rng.random()
            ea, eb = ilit(a), ilit(b)
            if r < 0.6:
                st += [let("A", ea), let("B", eb), pr(("t", "v"), ("o", op, ("v", "A", ""), ("v", "B", "")))]
            elif r < 0.75:
                st += [let("A", ea), pr(("t", "w"), ("o", op, ("v", "A", ""), eb))]
            else:
                st += [pr(("t", "l"), ("o", op, ea, eb))]
        out += batches(st, 60, [NEXT])
    for op in ["+", "-", "*", "/", "MOD", "^"] + RELS:
        st = []
        for a in dbls:
            for b in dbls:
                if op in ("^",) and b[1] != 0:
                    continue
                k = rng.random()
                ea = dlit(*a) if k < 0.7 or a[1] else ilit(a[0])
                eb = dlit(*b) if k > 0.3 or b[1] else ilit(b[0])
                # Both operands must not be integers.
                if ea[0] != "d" and eb[0] != "d" and not (ea[0] == "u" and ea[2][0] == "d") and not (eb[0] == "u" and eb[2][0] == "d"):
                    ea = dlit(*a)
                st += [let("X", ea, "d"), pr(("o", op, ("v", "X", ""), eb)), pr(("o", op, ea, eb))]
        # Results that are not exact end the comparison of a program, so keep these short.
        out += batches(st, 60 if op in ("+", "-", "*") or op in RELS else 10, [NEXT])
    st = []
    for op in RELS + ["+"]:
        for a in strs:
            for b in strs:
                st += [let("S", ("t", a)), pr(("o", op, ("v", "S", ""), ("t", b)))]
    out += batches(st, 60)
    st = []
    for op in ["AND", "OR", "XOR", "=", "<>"]:
        for a in (True, False):
            for b in (True, False):
                st += [let("P", ("b", a)), pr(("o", op, ("v", "P", ""), ("b", b)), ("o", op, ("b", a), ("b", b)))]
    st += [let("P", ("b", True)), pr(("u", "NOT", ("v", "P", ""))), pr(("u", "NOT", ("u", "NOT", ("v", "P", ""))))]
    # Unary operators and conversions.
    for a in ints:
        st += [let("A", ilit(a)), pr(("u", "-", ("v", "A", ""))), pr(("u", "NOT", ("v", "A", ""))), let("X", ("v", "A", ""), "d"), pr(("v", "X", ""))]
    for m, e in [(1, 1), (3, 1), (5, 1), (-1, 1), (-3, 1), (-5, 1), (1, 2), (3, 2), (-1, 2), (-3, 2), (7, 2), (0, 0), (4294967295, 1),
                 (4294967293, 1), (4294967297, 2)]:
        if abs(m) > MAXI:
            continue
        st += [let("X", dlit(m, e), "d"), let("A", ("v", "X", ""), "i"), pr(("v", "A", "")), let("A", dlit(m, e), "i"), pr(("v", "A", ""))]
    # Conversions out of the range of INTEGER.
    for base in (MAXI, -MAXI - 1):
        for d in [(1, 2), (1, 1), (3, 2), (1, 0), (0, 0)]:
            for s in "+-":
                st += [let("X", ("o", s, ilit(base), dlit(*d)), "d"), pr(("v", "X", "")), let("A", ("v", "X", ""), "i"), pr(("v", "A", ""))]
    out += batches(st, 60, [NEXT, let("A", ("i", 0)), let("X", ("d", 0, 0), "d"), let("P", ("b", True))])
    return [tagged(session(rng, b), "operators") for b in out]


def tagged(p, t):
    p["tag"] = t
    return p


def loops(seed, full):
    """FOR over corner ranges and SELECT CASE over every kind of guard."""
    rng = random.Random("loops/%s" % seed)
    st = []
    M = MAXI
    ranges = []
    for s in [None, ("i", 1), ("i", 2), ("i", 3), ("i", -1), ("i", -2), ("i", 7), ("i", 1073741824)]:
        step = 1 if s is None else s[1]
        for a, b in [(0, 0), (0, 1), (1, 0), (0, 5), (5, 0), (-3, 3), (3, -3), (M - 2, M), (M, M), (-M, -M - 1), (-M - 1, -M), (-M - 1, -M - 1),
                     (M - 1, M - 1), (0, M), (-M, 1), (1, 6)]:
            n = (b - a) // step + 1 if (b - a) * step >= 0 else 0
            if n <= 9:
                ranges.append((a, b, s))
    body = []
    for a, b, s in ranges:
        f = {"k": "for", "n": "I", "start": ilit(a), "end": ilit(b), "body": [pr(("v", "I", ""))]}
        if s is not None:
            f["step"] = s
        body.append([f, pr(("t", "end"), ("v", "I", ""))])
    for a, b, s in [((0, 0), (2, 0), ("d", 1, 1)), ((2, 0), (0, 0), ("d", -1, 1)), ((1, 1), (5, 1), ("d", 1, 0)), ((0, 0), (1, 0), ("d", 1, 2)),
                    ((0, 0), (5, 1), ("i", 1)), ((1, 1), (3, 0), ("i", 2)), ((3, 0), (0, 0), ("d", -3, 2))]:
        f = {"k": "for", "n": "X", "sf": "d", "start": dlit(*a), "end": dlit(*b), "step": s, "body": [pr(("v", "X", ""))]}
        body.append([f, pr(("t", "end"), ("v", "X", ""))])
    out = [session(rng, [NEXT] + sum(body[i:i + 8], [])) for i in range(0, len(body), 8)]
    # SELECT CASE.
    pools = {"i": [ilit(x) for x in (-M - 1, -1, 0, 1, 2, M)], "d": [dlit(*x) for x in ((-1, 1), (0, 0), (1, 1), (1, 0), (2, 0))],
             "t": [("t", x) for x in ("", "a", "A", "ab", "b")], "b": [("b", True), ("b", False)]}
    body = []
    for t, pool in pools.items():
        for v in pool:
            gs = []
            for op in (RELS if t != "b" else RELS[:2]):
                for w in pool:
                    gs.append(("is", op, w))
                    if t == "i":
                        gs.append(("is", op, rng.choice(pools["d"])))
            if t != "b":
                for w in pool:
                    for u in rng.sample(pool, 2 if not full else len(pool)):
                        gs.append(("to", w, u))
            rng.shuffle(gs)
            for i in range(0, len(gs), 2):
                c = [([g], [pr(("t", "c%d" % j))]) for j, g in enumerate(gs[i:i + 2])]
                if rng.random() < 0.3 and len(c) == 2:
                    c = [(c[0][0] + c[1][0], c[0][1])]
                c.append(([], [pr(("t", "else"))]))
                body.append({"k": "select", "e": v, "cases": c})
    out += [session(rng, [NEXT] + body[i:i + 25]) for i in range(0, len(body), 25)]
    return [tagged(p, "loops") for p in out]


def tight(seed):
    """Loops without any room for a host that is not polled, interrupted at several points."""
    rng = random.Random("tight/%s" % seed)
    T = ("b", True)
    lab = lambda n: {"k": "label", "n": n}
    goto = lambda n: {"k": "goto", "n": n}
    inc = let("A", ("o", "+", ("v", "A", ""), ("i", 1)))
    one = [
        [lab("L"), goto("L")],
        [lab("L"), inc, goto("L")],
        [{"k": "while", "g": T, "body": []}],
        [{"k": "while", "g": T, "body": [inc]}],
        [{"k": "do", "dk": "inf", "g": T, "body": []}],
        [{"k": "do", "dk": "inf", "g": T, "body": [inc]}],
        [{"k": "do", "dk": "prew", "g": T, "body": []}],
        [{"k": "do", "dk": "preu", "g": ("b", False), "body": []}],
        [{"k": "do", "dk": "postw", "g": T, "body": []}],
        [{"k": "do", "dk": "postu", "g": ("b", False), "body": []}],
        [{"k": "do", "dk": "postw", "g": ("o", ">=", ("v", "A", ""), ("i", 0)), "body": [inc]}],
        [{"k": "for", "n": "I", "start": ("i", 0), "end": ("i", MAXI), "body": []}],
        [{"k": "for", "n": "I", "start": ("i", MAXI), "end": ("i", 0), "step": ("i", -1), "body": []}],
        [goto("F"), lab("B"), goto("F"), lab("F"), goto("B")],
        [lab("L"), {"k": "gosub", "n": "S"}, goto("L"), lab("S"), {"k": "return"}],
        [{"k": "while", "g": T, "body": [{"k": "gosub", "n": "S"}]}, lab("S"), {"k": "return"}],
        [lab("L"), {"k": "if", "br": [(T, [goto("L")])]}],
        [lab("L"), {"k": "if1", "g": T, "body": goto("L")}],
        [lab("L"), {"k": "select", "e": ("i", 1), "cases": [([("is", "=", ("i", 1))], [goto("L")])]}],
        [{"k": "while", "g": T, "body": [{"k": "do", "dk": "inf", "g": T, "body": [{"k": "exit", "what": "DO"}]}]}],
        [{"k": "while", "g": T, "body": [{"k": "for", "n": "I", "start": ("i", 0), "end": ("i", 5), "body": [{"k": "exit", "what": "FOR"}]}]}],
        [{"k": "onerr", "m": "goto", "n": "H"}, lab("H"), {"k": "onerr", "m": "goto", "n": "H"}, pr(("o", "/", ("i", 1), ("v", "Z", "")))],
        [{"k": "onerr", "m": "next"}, {"k": "while", "g": T, "body": [pr(("o", "/", ("i", 1), ("v", "Z", "")))]}],
        [{"k": "onerr", "m": "next"}, lab("L"), let("A", ("o", "/", ("i", 1), ("v", "Z", ""))), goto("L")],
        [{"k": "sub", "n": "PR1", "ret": "", "params": [], "body": []}, lab("L"), {"k": "call", "n": "PR1", "args": []}, goto("L")],
        [{"k": "sub", "n": "PR1", "ret": "", "params": [], "body": [{"k": "while", "g": T, "body": []}]}, {"k": "call", "n": "PR1", "args": []}],
        [{"k": "sub", "n": "FN1", "ret": "i", "params": [], "suf": True, "body": [{"k": "do", "dk": "inf", "g": T, "body": []}]},
         pr(("v", "FN1", ""))],
        [{"k": "sub", "n": "FN1", "ret": "b", "params": [], "suf": True, "body": [let("FN1", T)]}, {"k": "while", "g": ("v", "FN1", ""), "body": []}],
    ]
    out = []
    for body in one:
        pre = [let("A", ("i", 0)), {"k": "dim", "n": "Z", "t": "i"}]
        subs = [s for s in body if s["k"] == "sub"]
        rest = [s for s in body if s["k"] != "sub"]
        for brk in (1, 2, 3, 7):
            out.append(tagged(session(rng, subs + pre + rest, [pr(("v", "A", ""))], brk=brk), "tight"))
    return out
