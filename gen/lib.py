"""N01, H01: functions of numbers and strings, random numbers, clock, speaker and GPIO pins."""
import json
import math
import os
import random
import sys
from decimal import Decimal, getcontext

import common

getcontext().prec = 60
SPEC = os.path.join(common.VERIF, "spec", "lib")
# TLC cannot hold characters beyond the basic plane: these stand for them.
ASTRAL = {"\ue000": "\U0001f600", "\ue001": "\U0010ffff", "\ue002": "\U0001d11e"}


def real_text(t):
    for a, b in ASTRAL.items():
        t = t.replace(a, b)
    return t


STRS = ["", "a", "abc", "Hello world", "  x ", "aXbXc", "abab", "ééñ", "ß", "Straße", "12abc", "1.5e3", "-0", "+.5", ".", "-", "1e", "1e+", "0x10", "3,5", "1e400",
        "-1e-400", "1e-5", "007", "1.50", " 42", "TRUE", "\tq\t", "\u00a0n\u00a0", "\u200bz", "\u3000w\u2003", "\ue000", "a\ue000b", "€5", "Ωω", "яЯ", "İ", "ﬁ", "中x",
        "9999999999", "0.1", "123456.789", "99999e9", "-2.25", "1E2", "1d2", "e5", ".5.5", "--1", "+-1", "5 6", "0.000001", "2e-3", "\ue002", "in", "Out", "in-pull-up"]
CODES = [0, 7, 9, 10, 13, 27, 31, 32, 65, 97, 90, 122, 48, 126, 127, 133, 160, 215, 223, 233, 201, 305, 937, 8203, 8232, 8364, 12288, 20013, 55295, 55296, 57343, 57344, 65535,
         65536, 128512, 119070, 1114111, 1114112, 2147483647]
INTS = [0, 1, 2, 3, 4, 5, 7, 10, 12, 25, 50, 64, 99, 100, 150, 200, 255, 256, 500, 1000, 1001, 12345, 50000, 99999, 536870912]
DBLS = [(1, 1), (3, 1), (5, 1), (5, 2), (1, 2), (3, 2), (7, 3), (1, 3), (25, 1), (99, 1), (1001, 1), (2047, 4), (1, 12), (123, 2), (45, 1), (1025, 10), (12345, 3), (999, 1), (0, 0), (1, 0), (2, 0), (50000, 0)]
BIG = ["2147483648", "3000000000", "100000000000000000000", "9999999999999999999", "1000000000000000000000"]
RAD = ["0", "0.5", "-0.5", "1", "-1", "1.5", "2", "3", "-3", "10", "100", "-0.25", "0.125", "1000", "45"]
DEG = ["0", "30", "45", "60", "90", "120", "135", "180", "270", "360", "-30", "-45", "-90", "-180", "720", "22.5"]
UNIT = ["0", "0.5", "-0.5", "1", "-1", "0.25", "0.75", "-0.75"]
TABLE = {"ATN": UNIT + ["2", "-2", "10", "1000", "-1000"], "EXP": ["0", "1", "-1", "0.5", "-0.5", "2", "3", "10", "-10", "-1000", "1.5", "0.25", "710", "1000", "709.5"],
         "LOG": ["1", "2", "10", "0.5", "0.25", "100", "1000", "1000000", "3", "1.5", "0", "-1", "-0.5"], "ASIN": UNIT + ["1.0009765625", "-2", "1.5"],
         "ACOS": UNIT + ["1.0009765625", "-2", "1.5"]}


def dbl(m, e):
    while e > 0 and m % 2 == 0:
        m, e = m // 2, e - 1
    return ["d", m, e]


def num_text(m, e):
    t = format(Decimal(m) / (Decimal(2) ** e), "f")
    return t if "." in t else t + ".0"


class Gen:
    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.deg = False

    # Expressions: (kind, ...) trees, which render() turns into text and nodes with positions.
    def lit(self, v, text):
        return {"k": "lit", "v": v, "text": text}

    def num(self, t):
        """Number given by its text: an INTEGER or DOUBLE literal, perhaps negated."""
        neg = t.startswith("-")
        a = t[1:] if neg else t
        d = Decimal(a)
        if d >= 2147483648:
            t = format(Decimal(float(a)), "f")
            n = self.lit(["D", 1, t, t], a if "." in a else a + ".0")
        elif "." in a or (d <= 536870912 and self.r.random() < 0.5):
            e = 0
            while d != d.to_integral_value():
                d, e = d * 2, e + 1
            n = self.lit(dbl(int(d), e), a if "." in a else a + ".0")
        else:
            n = self.lit(["i", int(a)], a)
        return {"k": "un", "f": "-", "a": [n]} if neg else n

    def call(self, f, *a):
        return {"k": "call", "f": f, "a": list(a)}

    def str(self, d=0):
        r = self.r
        x = r.random()
        if d > 2 or x < 0.45:
            t = r.choice(STRS) if r.random() < 0.8 else "".join(r.choice("aAbB é ßX.1") for _ in range(r.randrange(8)))
            return self.lit(["t", t], '"' + t + '"')
        if x < 0.55:
            return {"k": "bin", "f": "+", "a": [self.str(d + 1), self.str(d + 1)]}
        f = r.choice(["LEFT", "RIGHT", "MID", "MID", "LCASE", "UCASE", "LTRIM", "RTRIM", "TRIM", "CHR", "CHR", "SPACE", "STR"])
        if f in ("LEFT", "RIGHT"):
            return self.call(f, self.str(d + 1), self.small(d + 1))
        if f == "MID":
            return self.call(f, self.str(d + 1), self.small(d + 1), *([self.small(d + 1)] if r.random() < 0.6 else []))
        if f == "CHR":
            return self.call(f, self.num(str(r.choice(CODES))) if r.random() < 0.8 else self.small(d + 1))
        if f == "SPACE":
            # Long text takes long.
            return self.call(f, self.num(str(r.choice([-2147483647, -1, 0, 1, 2, 3, 5, 9, 100, 200, 250]))))
        if f == "STR":
            return self.call(f, self.any(d + 1))
        return self.call(f, self.str(d + 1))

    def small(self, d=0):
        r = self.r
        x = r.random()
        if d > 3 or x < 0.6:
            return self.num(str(r.randrange(-1, 8)))
        if x < 0.7:
            return self.num(num_text(*r.choice([(1, 1), (3, 1), (5, 1), (7, 2), (-1, 1), (-1, 2), (-3, 1), (5, 2)])))
        if x < 0.74:
            return self.num(r.choice(["2147483647", "-3000000000.0", "100", "2147483648.0", "-2147483647"]) if r.random() < 0.7 else r.choice(["3", "250"]))
        return self.int(d + 1)

    def int(self, d=0):
        r = self.r
        x = r.random()
        if d > 2 or x < 0.3:
            return self.num(str(r.choice([1, 1, -1]) * r.choice(INTS)))
        f = r.choice(["LEN", "ASC", "INSTR", "INSTR", "SGN", "INT", "FIX", "CINT", "bin", "LEN"])
        if f == "bin":
            return {"k": "bin", "f": r.choice(["+", "-", "*", "MOD", "/"]), "a": [self.int(d + 1), self.int(d + 1)]}
        if f == "ASC":
            return self.call(f, self.call("CHR", self.num(str(r.choice(CODES)))) if r.random() < 0.4 else self.str(d + 1) if r.random() < 0.3 else self.lit(*(lambda t: (["t", t], '"' + t + '"'))(r.choice([s for s in STRS if len(s) == 1] + ["ab"]))))
        if f == "LEN":
            return self.call(f, self.str(d + 1))
        if f == "INSTR":
            s = self.str(d + 1)
            w = self.str(d + 1)
            if r.random() < 0.6 and s["k"] == "lit" and len(s["v"][1]) > 1:
                t = s["v"][1]
                i = r.randrange(len(t))
                t = t[i:i + r.randrange(3)]
                w = self.lit(["t", t], '"' + t + '"')
            return self.call(f, *([self.small(d + 1)] if r.random() < 0.5 else []), s, w)
        return self.call(f, self.dbl(d + 1))

    def dbl(self, d=0):
        r = self.r
        x = r.random()
        if d > 2 or x < 0.3:
            if r.random() < 0.12:
                return self.num(r.choice(["", "-"]) + r.choice(BIG) + ".0")
            m, e = r.choice(DBLS)
            return self.num(("-" if r.random() < 0.4 else "") + num_text(m, e))
        f = r.choice(["ABS", "ROUND", "ROUND", "ROUND", "MAX", "MIN", "SQR", "VAL", "VAL", "EXP", "LOG", "TRIG", "TRIG", "ARC", "bin", "inf", "int"])
        if d > 0 and f in ("EXP", "LOG", "TRIG", "ARC") and r.random() < 0.9:
            f = "ROUND"
        if f == "bin":
            return {"k": "bin", "f": r.choice(["+", "-", "*", "/"]), "a": [self.dbl(d + 1), self.dbl(d + 1)]}
        if f == "inf":
            q = {"k": "bin", "f": "/", "a": [self.num(r.choice(["1.0", "-1.0"])), self.num("0.0")]}
            return q if r.random() < 0.5 else self.call(r.choice(["ABS", "MAX", "MIN", "ROUND", "LOG", "SQR"]), q)
        if f == "int":
            return self.int(d + 1)
        if f == "ROUND":
            m = r.choice([r.randrange(10000), r.randrange(10 ** 6), r.choice([5, 15, 25, 35, 50, 150, 2500, 50000, 35000, 499999, 500000, 5000000])])
            e = r.choice([0, 0, 1, 2, 3, 4, 5])
            x = self.num(("-" if r.random() < 0.4 else "") + num_text(m, e)) if r.random() < 0.85 else self.dbl(d + 1)
            if r.random() < 0.25:
                return self.call(f, x)
            return self.call(f, x, self.num(str(r.choice([-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9, 12, 20, 300, 309, 400, -20, -309, -400, 2147483647, -2147483647]))))
        if f in ("MAX", "MIN"):
            return self.call(f, *[self.dbl(d + 1) if r.random() < 0.5 else self.num(("-" if r.random() < 0.5 else "") + num_text(*r.choice(DBLS))) for _ in range(r.randrange(1, 5))])
        if f == "SQR":
            return self.call(f, self.num(num_text(*r.choice([(4, 0), (9, 2), (2, 0), (3, 0), (1, 2), (25, 4), (144, 0), (10, 0), (1, 1), (9, 1), (1000000, 0), (65536 * 4, 0), (0, 0)]))) if r.random() < 0.8 else self.dbl(d + 1))
        if f == "VAL":
            return self.call(f, self.str(d + 1)) if r.random() < 0.4 else self.call(f, self.val())
        if f == "TRIG":
            if r.random() < 0.1:
                return self.call(r.choice(["SIN", "COS", "TAN"]), self.call("PI"))
            return self.call(r.choice(["SIN", "COS", "TAN"]), self.num(r.choice(DEG if self.deg else RAD)))
        if f == "ARC":
            f = r.choice(["ATN", "ASIN", "ACOS"])
        if f in TABLE:
            return self.call(f, self.num(r.choice(TABLE[f])) if r.random() < 0.85 else self.dbl(d + 1))
        return self.call(f, self.dbl(d + 1))

    def val(self):
        """Text that may begin with a number."""
        r = self.r
        t = r.choice(["", "", "", " ", "\t", "\u00a0"]) + r.choice(["", "", "", "-", "+", "- "])
        t += "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 1, 2, 3, 6])))
        if r.random() < 0.6:
            t += "." + "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 2, 3, 5])))
        if r.random() < 0.5:
            t += r.choice("eEeEdf") + r.choice(["", "", "-", "+"]) + "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        t += r.choice(["", "", "x", " 1", ".", "e1", "-", "%"])
        return self.lit(["t", t], '"' + t + '"')

    def bool(self, d=0):
        r = self.r
        x = r.random()
        if x < 0.5 or d > 2:
            v = r.random() < 0.5
            return self.lit(["b", v], "TRUE" if v else "FALSE")
        if x < 0.6:
            return {"k": "un", "f": "NOT", "a": [self.bool(d + 1)]}
        if x < 0.7 and self.prop == "H01":
            return self.call("GPIO_READ", self.pin())
        k = r.choice([self.int, self.str, self.dbl])
        return {"k": "bin", "f": r.choice(["=", "<>", "<", "<=", ">", ">="]), "a": [k(d + 1), k(d + 1)]}

    def any(self, d=0):
        r = self.r
        return r.choice([self.int, self.str, self.str, self.dbl, self.dbl, self.bool])(d)

    def pin(self):
        r = self.r
        x = r.random()
        if x < 0.8:
            return self.num(str(r.choice([0, 1, 2, 3, 4, 17, 200, 255])))
        if x < 0.9:
            return self.num(r.choice(["-1", "256", "1000", "2.5", "255.5", "-0.25", "2147483647", "3000000000.0", "-2"]))
        return self.int(1)

    def secs(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.num(r.choice(["0", "1", "2", "10", "0.5", "0.25", "0.125", "1.5", "3.001953125", "100", "86400", "0.001953125"]))
        if x < 0.82:
            return self.num(r.choice(["-1", "-0.5", "-0.001953125", "-3000000000.0"]))
        if x < 0.92:
            return self.num(r.choice(BIG) + ".0") if r.random() < 0.6 else {"k": "bin", "f": "/", "a": [self.num("1.0"), self.num("0.0")]}
        return self.dbl(1)

    def rnd(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.call("RND")
        return self.call("RND", self.num(r.choice(["1", "1", "0", "0", "-1", "-2", "-2", "5", "2147483647", "0.25", "-0.75", "1.5", "-7"])))

    # Statements.
    def stmt(self):
        r = self.r
        x = r.random()
        if self.prop == "N01":
            if x < 0.72:
                return "PRINT", [self.any()]
            if x < 0.82:
                return "PRINT", [self.rnd()]
            f = r.choice(["DEG", "RAD", "DEG", "RANDOMIZE", "RANDOMIZE", "CLEAR", "IGNORE", "NOTICE", "ERRMSG", "PRINT"])
            if f == "RANDOMIZE":
                return f, [self.num(r.choice(["1", "2", "-1", "-2", "0", "7", "2.5", "-2147483647", "2147483647"]))] if r.random() < 0.8 else []
            if f == "ERRMSG":
                return "PRINT", [{"k": "errmsg"}]
            if f == "PRINT":
                return f, [self.call("PI")]
            return f, []
        f = r.choice(["SLEEP", "SLEEP", "MONOTONIC", "MONOTONIC", "SOUND", "SOUND", "BEEP", "GPIO_SETUP", "GPIO_SETUP", "GPIO_CLEAR", "GPIO_CLEAR", "GPIO_READ", "GPIO_READ", "GPIO_WRITE", "GPIO_WRITE",
                      "MOCK", "MOCK", "TRACE", "CLEAR", "IGNORE", "NOTICE", "ERRMSG", "expr"])
        if f == "SLEEP":
            return f, [self.secs()]
        if f == "MONOTONIC":
            return "PRINT", [self.call(f)]
        if f == "SOUND":
            return f, [self.num(r.choice(["440", "1", "0", "-1", "20000", "2147483647", "0.5", "0.25", "3000000000.0", "88.5"])), self.secs()]
        if f in ("GPIO_SETUP",):
            m = r.choice(["IN", "OUT", "IN-PULL-UP", "IN-PULL-DOWN", "in", "Out", "In-Pull-Up", "in-pull-down", "", "INOUT", "IN ", "out-x", "IN-PULL"])
            return f, [self.pin(), self.lit(["t", m], '"' + m + '"') if r.random() < 0.9 else self.str(2)]
        if f == "GPIO_CLEAR":
            return f, [self.pin()] if r.random() < 0.65 else []
        if f == "GPIO_READ":
            e = self.call(f, self.pin())
            if r.random() < 0.2:
                e = {"k": "bin", "f": r.choice(["AND", "OR", "XOR"]), "a": [e, self.call(f, self.pin())]}
            return "PRINT", [e]
        if f == "GPIO_WRITE":
            return f, [self.pin(), self.bool()]
        if f == "MOCK":
            if self.pins != "mock":
                return "PRINT", [self.call("MONOTONIC")]
            return "GPIO_MOCK_INJECT", [self.num(str(r.choice([0, 1, 2, 3]))) if r.random() < 0.7 else self.pin(), self.bool()]
        if f == "TRACE":
            return "PRINT", [self.call("GPIO_MOCK_TRACE") if self.pins == "mock" else self.call("MONOTONIC")]
        if f == "ERRMSG":
            return "PRINT", [{"k": "errmsg"}]
        if f == "expr":
            return "PRINT", [self.any()]
        return f, []

    def session(self):
        r = self.r
        self.pins = r.choice(["mock", "mock", "chip", "chip", "chip", "noop"]) if self.prop == "H01" else "noop"
        ops = []
        for _ in range(r.randrange(6, 22)):
            f, a = self.stmt()
            if f in ("DEG", "RAD", "CLEAR"):
                self.deg = f == "DEG"
            op = {"f": f, "reps": [], "brk": False, "tick": ["d", r.choice([0, 0, 1, 3]), 0] if self.prop == "H01" else ["d", 0, 0]}
            if self.prop == "H01":
                op["reps"] = [{"err": r.choice(["Fire!", "Device busy: try later", "ñ"]) if r.random() < 0.15 else "", "v": r.random() < 0.5} for _ in range(3)]
                op["brk"] = f in ("SLEEP", "SOUND", "BEEP") and r.random() < 0.12
            render(op, a)
            if a and op["src"].startswith(f + " ("):
                continue  # The language takes this for an array.
            ops.append(op)
        return {"pins": self.pins, "audio": r.random() < 0.85, "ops": ops}


def render(op, args):
    """Gives the statement its text and its nodes their positions."""
    out = []

    def pos():
        col = 1
        for c in real_text("".join(out)):
            col = (col + 7) // 8 * 8 + 1 if c == "\t" else col + 1
        return "1:%d" % col

    def expr(e, top=True):
        # Returns the position where the expression starts, which leaves out opening parentheses.
        if e["k"] == "lit":
            p = pos()
            out.append(e["text"])
        elif e["k"] == "errmsg":
            p = pos()
            out.append("ERRMSG")
        elif e["k"] == "un":
            if not top:
                out.append("(")
            p = e["c"] = pos()
            out.append("NOT " if e["f"] == "NOT" else "-")
            if e["a"][0]["k"] == "un":
                out.append("(")
            expr(e["a"][0], e["a"][0]["k"] in ("lit", "call", "un"))
            if e["a"][0]["k"] == "un":
                out.append(")")
            if not top:
                out.append(")")
        elif e["k"] == "bin":
            if not top:
                out.append("(")
            p = expr(e["a"][0], False)
            out.append(" ")
            e["c"] = pos()
            out.append(e["f"] + " ")
            expr(e["a"][1], False)
            if not top:
                out.append(")")
        else:
            p = e["c"] = pos()
            out.append(e["f"])
            e["p"] = []
            if e["a"] or e["f"] == "RND":
                out.append("(")
                for i, x in enumerate(e["a"]):
                    if i:
                        out.append(", ")
                    e["p"].append(expr(x))
                out.append(")")
        e.pop("text", None)
        return p

    op["a"] = args
    op["p"] = []
    op["c"] = pos()
    out.append({"IGNORE": "ON ERROR RESUME NEXT", "NOTICE": "ON ERROR GOTO 0"}.get(op["f"], op["f"]))
    for i, x in enumerate(args):
        out.append(", " if i else " ")
        op["p"].append(expr(x))
    op["src"] = real_text("".join(out))


def nanos(t):
    return Decimal(t) * 10 ** 9


def near(a, b, tol):
    return abs(a - b) <= tol * max(1, abs(b))


def number(t):
    """Number that a program printed."""
    if not t.endswith("\n") or (t[:1] not in (" ", "-")):
        return None
    try:
        return Decimal(t[1:-1]) * (-1 if t[0] == "-" else 1)
    except ArithmeticError:
        return None


def compare_out(e, out, rnd):
    if not e:
        return None if out == "" else "printed %r" % out
    it = e[0]
    if it[0] == "x":
        return None if out == real_text(it[1]) + "\n" else "printed %r instead of %r" % (out, real_text(it[1]) + "\n")
    n = number(out)
    if n is None or not n.is_finite():
        return "printed %r instead of a number" % out
    if it[0] == "~":
        return None if near(n, Decimal(it[1]), Decimal("1e-9")) else "printed %r instead of about %s" % (out, it[1])
    if it[0] == "s":
        return None if n >= 0 and near(n * n, Decimal(it[1]), Decimal("1e-12")) else "printed %r instead of the square root of %s" % (out, it[1])
    k = (it[1], it[2])
    if not 0 <= n <= 1:
        return "printed the random number %r" % out
    if rnd.setdefault(k, n) != n:
        return "printed the random number %r, but number %d of the sequence of %s was %s before" % (out, it[2], it[1], rnd[k])
    if [1 for q, x in rnd.items() if q != k and x == n]:
        return "printed the random number %r again" % out
    return None


def compare_ev(e, a):
    if len(e) != len(a):
        return "asked the devices for %s instead of %s" % (json.dumps(a), json.dumps(e))
    for x, y in zip(e, a):
        if x[0] in ("tone", "sleep"):
            if x[:-1] != y[:-1] or abs(nanos(x[-1]) - Decimal(y[-1])) > max(1, nanos(x[-1]) * Decimal("1e-15")):
                return "asked the devices for %s instead of %s" % (json.dumps(y), json.dumps(x))
        elif x != y:
            return "asked the devices for %s instead of %s" % (json.dumps(y), json.dumps(x))
    return None


def compare(job, log, real, seeds):
    if real.get("k") in ("died", "hang"):
        return "the interpreter %s" % ("crashed" if real["k"] == "died" else "did not stop")
    if real.get("k") == "skipped":
        return None
    if "panic" in real:
        return "the harness panicked: " + real["panic"]
    rnd = {}
    for i, e in enumerate(log):
        who = "statement %d (%s)" % (i + 1, job["ops"][i]["src"])
        if i >= len(real["results"]):
            return "%s did not run" % who
        a = real["results"][i]
        if a["k"] == "panic":
            return "%s panicked: %s" % (who, a["m"])
        if e["k"] == "?":
            continue
        if a["k"] != e["k"] or a.get("m", "") != real_text(e["m"]):
            return "%s: %s %r instead of %s %r" % (who, a["k"], a.get("m", ""), e["k"], real_text(e["m"]))
        d = compare_out(e["out"], a["out"], rnd) or compare_ev(e["ev"], a["ev"])
        if d:
            return "%s %s" % (who, d)
    # The sequences of the same seed are the same in all machines.
    for k, n in rnd.items():
        if not k[0].startswith("fresh") and seeds.setdefault(k, n) != n:
            return "number %d of the sequence of %s is %s here and %s elsewhere" % (k[1], k[0], n, seeds[k])
    return None


def run(prop):
    def fn(v):
        work = common.workdir(prop)
        st = {"states": 0, "transitions": 0, "n": 0, "stmts": 0, "fns": {}, "res": {}, "cut": 0, "nums": 0, "ev": 0}
        samples = []
        seeds = {}
        todo = 8000 if common.QUICK else 60000
        for b in range(0, todo, 4000):
            part = [Gen(random.Random("%s/%d/%d" % (prop, common.SEED, i)), prop).session() for i in range(b, min(b + 4000, todo))]
            path = os.path.join(work, "jobs.ndjson")
            with open(path, "w") as f:
                for j in part:
                    f.write(json.dumps(j) + "\n")
            res = common.tlc_ok(common.tlc(SPEC, "MCLib", env={"JOBS": path}, work=work), "MCLib")
            st["states"] += res.distinct
            st["transitions"] += res.states - len(part)
            out = {r["p"] - 1: r for r in res.records}
            if len(out) != len(part):
                raise common.ToolError("TLC reported %d of %d sessions" % (len(out), len(part)))
            jobs = [{"id": i, "pins": j["pins"], "audio": j["audio"],
                     "chunks": [{"src": o["src"], "reps": o["reps"], "brk": o["brk"], "tick": int(nanos(o["tick"][1]))} for o in j["ops"][:len(out[i]["log"])]]}
                    for i, j in enumerate(part)]
            reals = common.replay("dev", jobs)
            for i, j in enumerate(part):
                log = out[i]["log"]
                d = compare(j, log, reals[i], seeds)
                st["n"] += 1
                st["cut"] += out[i]["st"] == "oom"
                for o, e in zip(j["ops"], log):
                    st["stmts"] += 1
                    st["ev"] += len(e["ev"])
                    st["res"][e["k"]] = st["res"].get(e["k"], 0) + 1
                    count(o, st["fns"])
                if len(samples) < 2 and len(log) > 4:
                    samples.append({"input": [o["src"] for o in j["ops"][:6]], "expected": log[:6]})
                if d:
                    v.add({"property": prop, "why": d, "job": jobs[i], "expected": log, "actual": reals[i]})
            if v.n > 10:
                break
        cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["n"], "distinct_nontrivial": st["n"],
               "statements": st["stmts"], "device_requests": st["ev"], "sessions_that_leave_the_model": st["cut"], "outcomes": st["res"], "functions": st["fns"], "samples": samples,
               "rule": "random sessions of 6 to 21 statements in one machine with nested calls of all functions, arguments at and beyond the limits of their domains, and devices that fail or get interrupted"}
        return "model_checking", cov, ["approximate functions are compared with reference values at tabulated points", "devices are stand-ins that record what they are asked"]
    return fn


def count(o, fns):
    if o["f"] != "PRINT":
        fns[o["f"]] = fns.get(o["f"], 0) + 1
    todo = list(o["a"])
    while todo:
        e = todo.pop()
        if e["k"] == "call":
            fns[e["f"]] = fns.get(e["f"], 0) + 1
        todo += e.get("a", [])


if __name__ == "__main__":
    common.main(sys.argv[1], run(sys.argv[1]))
