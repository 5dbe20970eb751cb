---------------------------------- MODULE Lib ----------------------------------
(* The functions of the language over numbers and strings, the generator of random numbers, and the commands that work   *)
(* with devices: the clock, the speaker and the GPIO pins.                                                               *)
(*                                                                                                                       *)
(* A session (Job) is a sequence of statements for one machine.  Expressions are trees: literals (v), operators (f, over  *)
(* a, at position c) and calls of functions (f, with arguments a that start at positions p, at position c).               *)
(* Beyond the values of the language, an expression may have these, which have no further operations:                    *)
(*   <<"x", text>>         a DOUBLE known by its text, such as minus zero or one tenth                                   *)
(*   <<"~", text>>         a DOUBLE that is close to the number in the text                                              *)
(*   <<"s", text>>         the square root of the number in the text, if it is not exact                                 *)
(*   <<"r", seed, index>>  a random number: the one at some place of the sequence that a seed begins                     *)
(* Errors are <<"E", message, position>>.                                                                                *)
EXTENDS Strs, Json, IOUtils, Functions

Jobs == ndJsonDeserialize(IOEnv.JOBS)
Unicode == ndJsonDeserialize("unicode.json")
Tables == ndJsonDeserialize("tables.json")

VARIABLES pi, s
vars == <<pi, s>>

Ops == Jobs[pi].ops

(********************************* Characters ******************************)

Rows == 1 .. Len(Unicode)
CharOf == [n \in {Unicode[i].n : i \in Rows} |-> (CHOOSE i \in Rows : Unicode[i].n = n)]
RowOf == [c \in {Unicode[i].c : i \in Rows} |-> (CHOOSE i \in Rows : Unicode[i].c = c)]
Known(t) == \A i \in 1 .. Len(t) : Ch(t, i) \in DOMAIN RowOf
White(c) == Unicode[RowOf[c]].w
Control(c) == Unicode[RowOf[c]].x
UpperC == [c \in DOMAIN RowOf |-> Unicode[RowOf[c]].u]
LowerC == [c \in DOMAIN RowOf |-> Unicode[RowOf[c]].l]
(* What the console shows: control characters cannot take effect. *)
Shown(t) == MapC(t, [c \in {c \in DOMAIN RowOf : Control(c)} |-> " "])

T(v) == <<"t", v>>
I(v) == <<"i", v>>
RECURSIVE TrimL(_)
TrimL(t) == IF t # "" /\ White(Ch(t, 1)) THEN TrimL(Rest(t, 2)) ELSE t
RECURSIVE TrimR(_)
TrimR(t) == IF t # "" /\ White(Ch(t, Len(t))) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Sub(t, a, b) == IF b < a THEN "" ELSE SubSeq(t, a, b)           \* from a to b, if any
Low(a, b) == IF a < b THEN a ELSE b

(* The first place of w in t, not before from. *)
Find(t, w, from) ==
  LET at == {i \in from .. Len(t) - Len(w) + 1 : SubSeq(t, i, i + Len(w) - 1) = w}
  IN IF from > Len(t) + 1 THEN 0 ELSE IF w = "" THEN from ELSE IF at = {} THEN 0 ELSE Min(at)

(********************************* Decimals ********************************)

Digit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Digits(_, _)
Digits(t, i) == IF i <= Len(t) /\ Digit(Ch(t, i)) THEN Ch(t, i) \o Digits(t, i + 1) ELSE ""
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE n \in 0 .. 9 : ToString(n) = c]
RECURSIVE NumOf(_)
NumOf(ds) == IF ds = "" THEN 0 ELSE 10 * NumOf(SubSeq(ds, 1, Len(ds) - 1)) + DigitVal[Ch(ds, Len(ds))]
RECURSIVE StripL(_)
StripL(ds) == IF ds # "" /\ Ch(ds, 1) = "0" THEN StripL(Rest(ds, 2)) ELSE ds
RECURSIVE StripR(_)
StripR(ds) == IF ds # "" /\ Ch(ds, Len(ds)) = "0" THEN StripR(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pow10(n) == 10 ^ n                                              \* n in 0..9

(* The number with the digits ds, of which the first n are before the point. *)
Decimal(neg, ds0, n0) ==
  LET ds == StripR(StripL(ds0))
      n == n0 - (Len(ds0) - Len(StripL(ds0)))
      sign == IF neg THEN "-" ELSE " "
      whole == IF n <= 0 THEN "0" ELSE IF n >= Len(ds) THEN ds \o Zeros(n - Len(ds)) ELSE SubSeq(ds, 1, n)
      frac == IF n <= 0 THEN Zeros(-n) \o ds ELSE IF n >= Len(ds) THEN "" ELSE Rest(ds, n + 1)
      val == NumOf(ds)
  IN IF ds = "" THEN (IF neg THEN <<"x", "-0">> ELSE <<"d", 0, 0>>)
     ELSE IF n > 309 THEN <<"D", IF neg THEN -1 ELSE 1, IF neg THEN "-inf" ELSE "inf", IF neg THEN "-inf" ELSE "inf">>
     ELSE IF n < -330 THEN (IF neg THEN <<"x", "-0">> ELSE <<"d", 0, 0>>)
     ELSE IF Len(ds) > 15 \/ n > 307 \/ n < -300 THEN Unk
     ELSE IF Len(ds) <= 5 /\ n >= Len(ds) /\ n <= 8
     THEN <<"d", (IF neg THEN -val ELSE val) * Pow10(n - Len(ds)), 0>>
     ELSE IF Len(ds) <= 5 /\ n <= Len(ds) /\ Len(ds) - n <= 5 /\ (val * 4096) % Pow10(Len(ds) - n) = 0
     THEN NormD(((IF neg THEN -val ELSE val) * 4096) \div Pow10(Len(ds) - n), 12)
     ELSE <<"x", sign \o whole \o (IF frac = "" THEN "" ELSE "." \o frac)>>

(* The number at the beginning of some text. *)
Val(t0) ==
  LET t == TrimL(t0)
      signed == t # "" /\ Ch(t, 1) \in {"+", "-"}
      i == IF signed THEN 2 ELSE 1
      whole == Digits(t, i)
      j == i + Len(whole)
      point == j <= Len(t) /\ Ch(t, j) = "."
      frac == IF point THEN Digits(t, j + 1) ELSE ""
      k == j + Len(frac) + (IF point THEN 1 ELSE 0)
      e == k <= Len(t) /\ Ch(t, k) \in {"e", "E"}
      es == e /\ k < Len(t) /\ Ch(t, k + 1) \in {"+", "-"}
      ed == IF e THEN Digits(t, k + (IF es THEN 2 ELSE 1)) ELSE ""
      mag == IF Len(StripL(ed)) > 4 THEN 9999 ELSE NumOf(StripL(ed))
      exp == IF es /\ Ch(t, k + 1) = "-" THEN -mag ELSE mag
  IN IF whole = "" /\ frac = "" THEN <<"d", 0, 0>>
     ELSE Decimal(signed /\ Ch(t, 1) = "-", whole \o frac, Len(whole) + exp)

(********************************** Numbers ********************************)

Zero == <<"d", 0, 0>>
IsD(v) == v[1] = "d"
Plain(v) == LET t == Fmt(v) IN IF Ch(t, 1) = " " THEN Rest(t, 2) ELSE t
Text(v) == IF v[1] = "x" THEN v[2] ELSE Fmt(v)
ToI(v) == CastTo(v, "i")
Floor(v) == v[2] \div Pow2(v[3])
Trunc(v) == Sgn(v[2]) * (Abs(v[2]) \div Pow2(v[3]))
Finite(v) == IF IsD(v) THEN TRUE ELSE v[3] \notin {"inf", "-inf"}

RECURSIVE Isqrt(_, _, _)                                        \* the largest r in lo..hi with r * r <= n
Isqrt(n, lo, hi) == IF lo = hi THEN lo
                    ELSE LET mid == (lo + hi + 1) \div 2
                         IN IF mid * mid <= n THEN Isqrt(n, mid, hi) ELSE Isqrt(n, lo, mid - 1)
Sqrt(v) ==
  LET odd == v[3] % 2 = 1
      m == IF odd THEN 2 * v[2] ELSE v[2]
      e == IF odd THEN v[3] + 1 ELSE v[3]
      r == Isqrt(m, 0, 32767)
  IN IF r * r = m THEN NormD(r, e \div 2) ELSE <<"s", Plain(v)>>

(* Rounds to n decimals, half away from zero. *)
RoundTo(v, n) ==
  LET a == Abs(v[2])
      p == Pow2(v[3])
      neg == v[2] < 0
      q == a * Pow10(n)                                         \* n decimals of the number, in units of 1/p
      r == q \div p + (IF 2 * (q % p) >= p THEN 1 ELSE 0)
      ds == ToString(r)
      w == a \div p
      h == Pow10(-n)
      z == w \div h + (IF w % h >= h \div 2 THEN 1 ELSE 0)
  IN IF n >= v[3] THEN v
     ELSE IF n >= 0 THEN (IF MulOv(a, Pow10(n)) THEN Unk ELSE Decimal(neg, ds, Len(ds) - n))
     ELSE IF n < -308 THEN Zero
     ELSE IF n < -9 THEN Decimal(neg, "0", 1)
     ELSE LET zs == ToString(z) IN Decimal(neg, zs, Len(zs) - n)

Best(f, vs) ==
  FoldLeft(LAMBDA b, v : IF IsUnk(b) THEN b
                         ELSE LET c == CmpD(v, b) IN IF c = 2 THEN Unk ELSE IF (f = "MAX" /\ c > 0) \/ (f = "MIN" /\ c < 0) THEN v ELSE b,
           vs[1], vs)

Keys == [i \in 1 .. Len(Tables) |-> <<Tables[i].f, Tables[i].m, Tables[i].k>>]
Approx(f, mode, v) ==
  LET k == <<f, mode, IF v[1] = "~" THEN v[2] ELSE Plain(v)>>
      at == {i \in DOMAIN Keys : Keys[i] = k}
  IN IF at = {} THEN Unk ELSE <<"~", Tables[Min(at)].v>>

(********************************* Functions *******************************)

Opaque(v) == v[1] \in {"x", "~", "s", "r"}
Sig(f, n) ==
  CASE f \in {"ASC", "LCASE", "UCASE", "LEN", "LTRIM", "RTRIM", "TRIM", "VAL"} -> <<"t">>
    [] f \in {"CHR", "SPACE", "GPIO_READ"} -> <<"i">>
    [] f \in {"LEFT", "RIGHT"} -> <<"t", "i">>
    [] f = "MID" -> IF n = 3 THEN <<"t", "i", "i">> ELSE <<"t", "i">>
    [] f = "INSTR" -> IF n = 3 THEN <<"i", "t", "t">> ELSE <<"t", "t">>
    [] f = "STR" -> <<"*">>
    [] f \in {"ABS", "SGN", "INT", "FIX", "CINT", "SQR", "EXP", "LOG", "SIN", "COS", "TAN", "ATN", "ASIN", "ACOS"} -> <<"d">>
    [] f = "ROUND" -> IF n = 2 THEN <<"d", "i">> ELSE <<"d">>
    [] f \in {"MAX", "MIN"} -> [i \in 1 .. n |-> "d"]
    [] f = "RND" -> IF n = 1 THEN <<"i">> ELSE <<>>
    [] f \in {"PI", "MONOTONIC", "GPIO_MOCK_TRACE"} -> <<>>
    [] f = "GPIO_SETUP" -> <<"i", "t">>
    [] f = "GPIO_CLEAR" -> IF n = 1 THEN <<"i">> ELSE <<>>
    [] f \in {"GPIO_WRITE", "GPIO_MOCK_INJECT"} -> <<"i", "b">>
    [] f = "SOUND" -> <<"i", "d">>
    [] f = "SLEEP" -> <<"d">>
    [] f = "RANDOMIZE" -> IF n = 1 THEN <<"i">> ELSE <<>>
    [] OTHER -> <<>>

(* Functions without effects, given their arguments.  Errors name the argument that is wrong. *)
Bad(i, msg) == <<"E", msg, i>>
CastBad(v) == IF IsErr(v) THEN Bad(1, v[2]) ELSE v
Domain(v) == CmpD(v, <<"d", -1, 0>>) >= 0 /\ CmpD(v, <<"d", 1, 0>>) \in {-1, 0}
Pure(f, a, deg) ==
  LET x == a[1]
      mode == IF deg THEN "d" ELSE "r"
  IN CASE f = "LEN" -> I(Len(x[2]))
       [] f = "ASC" -> IF Len(x[2]) = 1 THEN I(Unicode[RowOf[x[2]]].n)
                       ELSE Bad(1, "Input string \"" \o x[2] \o "\" must be 1-character long")
       [] f = "CHR" -> IF x[2] < 0 THEN Bad(1, "Character code " \o ToString(x[2]) \o " must be positive")
                       ELSE IF x[2] > 1114111 \/ x[2] \in 55296 .. 57343 THEN Bad(1, "Invalid character code " \o ToString(x[2]))
                       ELSE IF x[2] \in DOMAIN CharOf THEN T(Unicode[CharOf[x[2]]].c) ELSE Unk
       [] f = "LCASE" -> T(MapC(x[2], LowerC))
       [] f = "UCASE" -> T(MapC(x[2], UpperC))
       [] f = "LTRIM" -> T(TrimL(x[2]))
       [] f = "RTRIM" -> T(TrimR(x[2]))
       [] f = "TRIM" -> T(TrimR(TrimL(x[2])))
       [] f = "SPACE" -> IF x[2] < 0 THEN Bad(1, "n% cannot be negative") ELSE IF x[2] > 200 THEN Unk ELSE T(Spaces(x[2]))
       [] f = "LEFT" -> IF a[2][2] < 0 THEN Bad(2, "n% cannot be negative") ELSE T(Sub(x[2], 1, Low(a[2][2], Len(x[2]))))
       [] f = "RIGHT" -> IF a[2][2] < 0 THEN Bad(2, "n% cannot be negative")
                         ELSE T(Sub(x[2], Len(x[2]) - Low(a[2][2], Len(x[2])) + 1, Len(x[2])))
       [] f = "MID" -> IF a[2][2] < 0 THEN Bad(2, "start% cannot be negative")
                       ELSE IF Len(a) = 3 /\ a[3][2] < 0 THEN Bad(3, "length% cannot be negative")
                       ELSE LET from == Low(a[2][2], Len(x[2]))
                                left == Len(x[2]) - from
                            IN T(Sub(x[2], from + 1, from + (IF Len(a) = 3 THEN Low(a[3][2], left) ELSE left)))
       [] f = "INSTR" -> IF Len(a) = 2 THEN I(Find(x[2], a[2][2], 1))
                         ELSE IF x[2] <= 0 THEN Bad(1, "start% must be positive")
                         ELSE IF x[2] > Len(a[2][2]) + 1 THEN I(0) ELSE I(Find(a[2][2], a[3][2], x[2]))
       [] f = "STR" -> IF x[1] \in {"~", "s", "r"} THEN Unk ELSE T(Text(x))
       [] f = "VAL" -> Val(x[2])
       [] f = "PI" -> <<"~", "3.141592653589793">>
       [] f \in {"SIN", "COS", "TAN"} -> IF x[1] \in {"d", "~"} THEN Approx(f, mode, x) ELSE Unk
       [] Opaque(x) -> Unk
       [] f = "ABS" -> IF x[1] = "D" THEN (IF x[2] < 0 THEN NegBig(x) ELSE x) ELSE <<"d", Abs(x[2]), x[3]>>
       [] f = "SGN" -> I(Sgn(x[2]))
       [] f = "CINT" -> CastBad(ToI(x))
       [] f = "INT" -> IF IsD(x) THEN I(Floor(x)) ELSE CastBad(ToI(x))
       [] f = "FIX" -> IF IsD(x) THEN I(Trunc(x)) ELSE CastBad(ToI(x))
       [] f = "ROUND" -> IF ~IsD(x) THEN (IF Finite(x) THEN Unk ELSE x)
                         ELSE IF Len(a) = 2 THEN RoundTo(x, a[2][2]) ELSE RoundTo(x, 0)
       [] f \in {"MAX", "MIN"} -> IF \E i \in 1 .. Len(a) : Opaque(a[i]) THEN Unk ELSE Best(f, a)
       [] f = "SQR" -> IF x[2] < 0 THEN Bad(1, "Cannot take square root of a negative number") ELSE IF IsD(x) THEN Sqrt(x) ELSE IF Finite(x) THEN Unk ELSE x
       [] f = "EXP" -> IF CmpD(x, <<"d", 710, 0>>) >= 0 THEN Bad(1, "Cannot exponentiate " \o Plain(x) \o " due to overflow") ELSE Approx(f, "", x)
       [] f = "LOG" -> IF x[2] <= 0 THEN Bad(1, "Cannot take logarithm of zero or a negative number")
                       ELSE IF Finite(x) THEN Approx(f, "", x) ELSE x
       [] f = "ATN" -> Approx(f, mode, x)
       [] f = "ASIN" -> IF Domain(x) THEN Approx(f, mode, x) ELSE Bad(1, "Cannot take arc-sine of a number outside of [-1, 1]")
       [] f = "ACOS" -> IF Domain(x) THEN Approx(f, mode, x) ELSE Bad(1, "Cannot take arc-cosine of a number outside of [-1, 1]")

(********************************** Devices ********************************)

(* Asks something from a device: [m, err, v], the reply that the job has for it. *)
Ask(m, ev) ==
  LET i == Len(m.ev) + 1
      r == IF i <= Len(m.op.reps) THEN m.op.reps[i] ELSE [err |-> "", v |-> FALSE]
  IN [m |-> [m EXCEPT !.ev = Append(@, ev)], err |-> r.err, v |-> r.v]

Trace(m, n) == [m EXCEPT !.trace = Append(@, n)]
ModeOf(t) == IF t \in {"IN", "IN-PULL-UP", "IN-PULL-DOWN", "OUT"} THEN t ELSE ""
AsciiUp == [c \in {Ch(Lower, i) : i \in 1 .. 26} |-> UpMap[c]]
PinCode == [x \in {"IN"} |-> 1] @@ [x \in {"IN-PULL-DOWN"} |-> 2] @@ [x \in {"IN-PULL-UP"} |-> 3] @@ [x \in {"OUT"} |-> 4]
PinErr(n) == IF n < 0 THEN "Pin number " \o ToString(n) \o " must be positive"
             ELSE IF n > 255 THEN "Pin number " \o ToString(n) \o " is too large" ELSE ""
NoGpio == "GPIO backend not compiled in"
(* An operation on the pins that only has an outcome: the backends either record a number, get asked, or refuse. *)
PinOp(m, ev, code) ==
  CASE m.pins = "noop" -> [m |-> m, err |-> NoGpio, v |-> FALSE]
    [] m.pins = "mock" -> [m |-> Trace(m, code), err |-> "", v |-> FALSE]
    [] m.pins = "chip" -> Ask(m, ev)
ReadPin(m, n) ==
  IF m.pins # "mock" THEN PinOp(m, <<"read", n>>, 0)
  ELSE IF m.reads = <<>> THEN [m |-> m, err |-> "No mock read available for pin " \o ToString(n), v |-> FALSE]
  ELSE LET r == m.reads[1]
           m1 == [m EXCEPT !.reads = Tail(@)]
       IN IF r[1] # n
          THEN [m |-> m1, err |-> "Want to read pin " \o ToString(n) \o " but next mock read is for pin " \o ToString(r[1]), v |-> FALSE]
          ELSE [m |-> Trace(m1, n * 100 + (IF r[2] THEN 11 ELSE 10)), err |-> "", v |-> r[2]]
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o (IF Len(q) = 1 THEN "" ELSE " " \o Joined(Tail(q)))

(* Random numbers: the place in the sequence of the last one. *)
NextRnd(m) == [m EXCEPT !.rng = [@ EXCEPT !.i = @ + 1]]
Seed(m, n) == [m EXCEPT !.rng = [seed |-> ToString(n), i |-> 0]]
Rnd(m) == <<"r", m.rng.seed, m.rng.i>>

(******************************** Expressions ******************************)

R(m, v) == [m |-> m, v |-> v]
(* Text compares by the codes of its characters. *)
RECURSIVE TextCmp(_, _, _)
TextCmp(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
  ELSE LET x == Unicode[RowOf[Ch(a, i)]].n
           y == Unicode[RowOf[Ch(b, i)]].n
       IN IF x = y THEN TextCmp(a, b, i + 1) ELSE Sgn(x - y)
Bin(f, x, y) == IF x[1] = "t" /\ y[1] = "t" /\ f # "+" THEN RelOf(f, TextCmp(x[2], y[2], 1)) ELSE BinOp(f, x, y)
Call(m, f, a, p, c) ==
  CASE f = "RND" ->
         LET m1 == IF Len(a) = 0 THEN NextRnd(m) ELSE IF a[1][2] > 0 THEN NextRnd(m) ELSE IF a[1][2] = 0 THEN m ELSE Seed(m, a[1][2])
         IN R(m1, Rnd(m1))
    [] f = "MONOTONIC" -> R(m, IF IsUnk(m.clock) THEN Unk ELSE m.clock)
    [] f = "GPIO_MOCK_TRACE" -> R(m, T(Joined(m.trace)))
    [] f = "GPIO_READ" ->
         IF PinErr(a[1][2]) # "" THEN R(m, <<"E", PinErr(a[1][2]), p[1]>>)
         ELSE LET r == ReadPin(m, a[1][2]) IN R(r.m, IF r.err # "" THEN <<"E", r.err, c>> ELSE <<"b", r.v>>)
    [] OTHER -> LET v == Pure(f, a, m.deg) IN R(m, IF IsErr(v) THEN <<"E", v[2], p[v[3]]>> ELSE v)

(* The value of an argument of type t that starts at position p. *)
Arg(v, t, p) ==
  IF IsErr(v) \/ IsUnk(v) \/ t = "*" THEN v
  ELSE IF Opaque(v) THEN (IF t = "d" THEN v ELSE Unk)
  ELSE LET c == CastTo(v, t) IN IF IsErr(c) THEN <<"E", c[2], p>> ELSE c

RECURSIVE Eval(_, _), Args(_, _, _, _, _)
(* All the arguments from the i-th on, unless one of them fails: [m, v, a] *)
Args(m, n, ts, i, a) ==
  IF i > Len(n.a) THEN [m |-> m, v |-> <<"b", TRUE>>, a |-> a]
  ELSE LET r == Eval(m, n.a[i])
           v == Arg(r.v, ts[i], n.p[i])
       IN IF IsErr(v) \/ IsUnk(v) THEN [m |-> r.m, v |-> v, a |-> a] ELSE Args(r.m, n, ts, i + 1, Append(a, v))
Eval(m, n) ==
  CASE n.k = "lit" -> R(m, n.v)
    [] n.k = "errmsg" -> R(m, T(m.le))
    [] n.k = "un" ->
         LET r == Eval(m, n.a[1])
             v == IF n.f = "-" /\ r.v = Zero THEN <<"x", "-0">> ELSE UnOp(n.f, r.v)
         IN IF IsErr(r.v) \/ IsUnk(r.v) THEN r ELSE IF Opaque(r.v) THEN R(r.m, Unk) ELSE R(r.m, IF IsErr(v) THEN <<"E", v[2], n.c>> ELSE v)
    [] n.k = "bin" ->
         LET x == Eval(m, n.a[1])
             y == Eval(x.m, n.a[2])
             v == Bin(n.f, x.v, y.v)
         IN IF IsErr(x.v) \/ IsUnk(x.v) THEN x ELSE IF IsErr(y.v) \/ IsUnk(y.v) THEN y
            ELSE IF Opaque(x.v) \/ Opaque(y.v) THEN R(y.m, Unk) ELSE R(y.m, IF IsErr(v) THEN <<"E", v[2], n.c>> ELSE v)
    [] n.k = "call" ->
         LET r == Args(m, n, Sig(n.f, Len(n.a)), 1, <<>>)
         IN IF IsErr(r.v) \/ IsUnk(r.v) THEN R(r.m, r.v) ELSE Call(r.m, n.f, r.a, n.p, n.c)

(******************************** Statements *******************************)

Unknown == "@"                                                   \* some text of the system
Oom(m) == [m EXCEPT !.st = "oom"]
(* An error stops the statement, and the chunk unless errors are ignored. *)
Fail(m, pos, msg) == LET t == pos \o ": " \o msg IN [m EXCEPT !.le = t, !.res.k = IF m.ignore THEN "eof" ELSE "err", !.res.m = IF m.ignore THEN "" ELSE t]
(* Asks for something that takes a while, during which the user may interrupt. *)
Wait(m, ev, pos) ==
  LET r == Ask(m, ev)
  IN IF m.op.brk THEN [r.m EXCEPT !.res.k = "break", !.le = IF r.err = "" THEN @ ELSE Unknown, !.went = r.err = ""]
     ELSE IF r.err # "" THEN Fail(r.m, pos, r.err) ELSE [r.m EXCEPT !.went = TRUE]

(* Durations: how long the host can wait at most. *)
TooLong(v) == v[1] = "D" /\ (v[3] = "inf" \/ Len(v[3]) > 20)
Play(m, hz, d, pos) ==
  IF ~m.audio THEN Fail(m, m.op.c, "No audio support in this console")
  ELSE Wait(m, <<"tone", hz, Plain(d)>>, pos)
(* The clock only tells the exact time in steps of 1/512 of a second. *)
Later(t, d) == IF IsUnk(t) \/ d[1] = "D" THEN Unk ELSE LET c == AddD(t, d, FALSE) IN IF IsUnk(c) THEN Unk ELSE IF c[3] > 9 THEN Unk ELSE c

Cmd(m, f, a, p) ==
  CASE f = "DEG" -> [m EXCEPT !.deg = TRUE]
    [] f = "RAD" -> [m EXCEPT !.deg = FALSE]
    [] f = "IGNORE" -> [m EXCEPT !.ignore = TRUE]
    [] f = "NOTICE" -> [m EXCEPT !.ignore = FALSE]
    [] f = "RANDOMIZE" -> IF Len(a) = 1 THEN Seed(m, a[1][2])
                          ELSE [m EXCEPT !.fresh = @ + 1, !.rng = [seed |-> "fresh" \o ToString(m.fresh + 1), i |-> 0]]
    [] f = "CLEAR" -> [PinOp(m, <<"clearall">>, -1).m EXCEPT !.deg = FALSE, !.ignore = FALSE, !.le = ""]
    [] f = "BEEP" -> Play(m, 800, <<"d", 1, 2>>, m.op.c)
    [] f = "SOUND" -> IF a[1][2] <= 0 THEN Fail(m, p[1], "Pitch must be positive")
                      ELSE IF a[2][2] < 0 THEN Fail(m, p[2], "Duration must be positive")
                      ELSE IF TooLong(a[2]) THEN Fail(m, p[2], "Duration is too long")
                      ELSE Play(m, a[1][2], a[2], m.op.c)
    [] f = "SLEEP" -> IF a[1][2] < 0 THEN Fail(m, p[1], "Sleep time must be positive")
                      ELSE IF TooLong(a[1]) THEN Fail(m, p[1], "Sleep time is too long")
                      ELSE LET r == Wait(m, <<"sleep", Plain(a[1])>>, p[1])
                           IN IF r.went THEN [r EXCEPT !.clock = Later(@, a[1])] ELSE r
    [] f = "GPIO_MOCK_INJECT" -> IF PinErr(a[1][2]) # "" THEN Fail(m, p[1], PinErr(a[1][2]))
                                 ELSE [m EXCEPT !.reads = Append(@, <<a[1][2], a[2][2]>>)]
    [] OTHER ->
         LET n == IF Len(a) > 0 THEN a[1][2] ELSE 0
             mode == IF f = "GPIO_SETUP" THEN MapC(a[2][2], AsciiUp) ELSE ""
             r == CASE f = "GPIO_SETUP" -> PinOp(m, <<"setup", n, mode>>, n * 100 + PinCode[mode])
                    [] f = "GPIO_WRITE" -> PinOp(m, <<"write", n, a[2][2]>>, n * 100 + (IF a[2][2] THEN 21 ELSE 20))
                    [] f = "GPIO_CLEAR" -> IF Len(a) = 0 THEN PinOp(m, <<"clearall">>, -1) ELSE PinOp(m, <<"clear", n>>, n * 100 + 5)
         IN IF PinErr(n) # "" THEN Fail(m, p[1], PinErr(n))
            ELSE IF f = "GPIO_SETUP" /\ ModeOf(mode) = "" THEN Fail(m, p[2], "Unknown pin mode " \o mode)
            ELSE IF r.err # "" THEN Fail(r.m, m.op.c, r.err) ELSE r.m

Item(v) == CASE v[1] = "~" -> <<"~", v[2]>> [] v[1] = "s" -> <<"s", v[2]>> [] v[1] = "r" -> <<"r", v[2], v[3]>>
             [] OTHER -> <<"x", IF v[1] = "t" THEN Shown(v[2]) ELSE Text(v)>>
(* Whether evaluating an expression changes anything. *)
RECURSIVE Effects(_)
Effects(n) == IF n.k \in {"lit", "errmsg"} THEN FALSE ELSE IF n.f \in {"RND", "GPIO_READ"} THEN TRUE ELSE \E i \in 1 .. Len(n.a) : Effects(n.a[i])
(* The outcome of a statement without effects is not known, but that of the next ones is. *)
Skip(m) == [m EXCEPT !.le = Unknown, !.res.k = "?"]
Do(m) ==
  IF m.op.f = "PRINT"
  THEN LET r == Eval(m, m.op.a[1])
       IN IF IsErr(r.v) THEN Fail(r.m, r.v[3], r.v[2])
          ELSE IF IsUnk(r.v) \/ r.v = T(Unknown) THEN (IF Effects(m.op.a[1]) THEN Oom(r.m) ELSE Skip(m))
          ELSE [r.m EXCEPT !.res.out = <<Item(r.v)>>]
  ELSE LET r == Args(m, m.op, Sig(m.op.f, Len(m.op.a)), 1, <<>>)
       IN IF IsErr(r.v) THEN Fail(r.m, r.v[3], r.v[2])
          ELSE IF IsUnk(r.v) \/ \E i \in 1 .. Len(r.a) : Opaque(r.a[i]) THEN Oom(r.m)
          ELSE Cmd(r.m, m.op.f, r.a, m.op.p)

(********************************* Sessions ********************************)

NoRes == [k |-> "eof", m |-> "", out |-> <<>>, ev |-> <<>>]
InitState(p) ==
  LET j == Jobs[p]
  IN [i |-> 1, st |-> "run", op |-> j.ops[1], pins |-> j.pins, audio |-> j.audio, deg |-> FALSE, ignore |-> FALSE, le |-> "",
      rng |-> [seed |-> "fresh0", i |-> 0], fresh |-> 0, clock |-> Zero, reads |-> <<>>, trace |-> <<>>, ev |-> <<>>, went |-> FALSE, res |-> NoRes, log |-> <<>>]
Step(m) ==
  LET op == Ops[m.i]
      m1 == Do([m EXCEPT !.op = op, !.ev = <<>>, !.went = FALSE, !.res = NoRes, !.clock = Later(@, op.tick)])
  IN IF m1.st = "oom" THEN m1
     ELSE [m1 EXCEPT !.i = @ + 1, !.res.ev = m1.ev, !.log = Append(@, [m1.res EXCEPT !.ev = m1.ev]), !.st = IF m.i = Len(Ops) THEN "done" ELSE "run"]

Init == pi \in 1 .. Len(Jobs) /\ s = InitState(pi)
Next == s.st = "run" /\ s' = Step(s) /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars

(******************************** Properties *******************************)

GpioCmds == {"GPIO_SETUP", "GPIO_CLEAR", "GPIO_WRITE"}
(* Time never goes back, and statements other than SLEEP take none. *)
ClockOk == [][ IsUnk(s'.clock) \/ (CmpD(s.clock, s'.clock) <= 0 /\ (s'.op.f # "SLEEP" => s'.clock = Later(s.clock, s'.op.tick))) ]_vars
(* Failed statements do nothing beyond what they have asked from devices, and drawing numbers. *)
FailOk == [][ s'.res.k = "err" => s'.deg = s.deg /\ s'.res.out = <<>> /\ s'.clock = Later(s.clock, s'.op.tick) ]_vars
(* The angle mode is only changed by commands that say so. *)
ModeOk == [][ s'.deg # s.deg => s'.op.f \in {"DEG", "RAD", "CLEAR"} ]_vars
(* A statement sets up, writes or resets no more than one pin, and the one it names. *)
PinsOk == [][ s'.op.f \in GpioCmds => Cardinality({i \in 1 .. Len(s'.ev) : s'.ev[i][1] # "read"}) <= 1 /\ (s'.op.f # "GPIO_CLEAR" => \A i \in 1 .. Len(s'.ev) : s'.ev[i][1] # "clearall") ]_vars
(* Sequences of random numbers go forward or begin again. *)
RndOk == [][ s'.rng.seed = s.rng.seed => s'.rng.i >= s.rng.i \/ s'.rng.i = 0 \/ s'.op.f \in {"PRINT", "RANDOMIZE"} ]_vars
LogOk == Len(s.log) = s.i - 1
TraceOk == s.pins # "mock" => s.trace = <<>> /\ s.reads = <<>>
IgnoreOk == s.ignore => s.res.k # "err"

Emit == s.st \in {"done", "oom"} => PrintT("@@" \o ToJson([p |-> pi, st |-> s.st, log |-> s.log]))

(* Laws of the functions, for some values. *)
Strings == {"", "a", " ab", "abab ", "béé€", "x y"}
Numbers == {<<"d", m, e>> : m \in {-75, -15, -5, -3, -1, 1, 3, 5, 15, 25, 75, 1025}, e \in 0 .. 5}
Norm == {NormD(v[2], v[3]) : v \in Numbers}
ASSUME \A t \in Strings, n \in 0 .. 6 : Pure("LEFT", <<T(t), I(n)>>, FALSE)[2] \o Pure("MID", <<T(t), I(n)>>, FALSE)[2] = t
ASSUME \A t \in Strings, n \in 0 .. 6 : Pure("LEFT", <<T(t), I(n)>>, FALSE) = Pure("MID", <<T(t), I(0), I(n)>>, FALSE)
ASSUME \A t \in Strings, n \in 0 .. 6 : Len(Pure("RIGHT", <<T(t), I(n)>>, FALSE)[2]) = Low(n, Len(t))
ASSUME \A t, w \in Strings, n \in 1 .. 7 : LET i == Pure("INSTR", <<I(n), T(t), T(w)>>, FALSE)[2]
                                         IN i > 0 => i >= n /\ Pure("MID", <<T(t), I(i - 1), I(Len(w))>>, FALSE)[2] = w
ASSUME \A t \in Strings : Pure("TRIM", <<Pure("TRIM", <<T(t)>>, FALSE)>>, FALSE) = Pure("TRIM", <<T(t)>>, FALSE)
ASSUME \A v \in Norm : LET f == Pure("INT", <<v>>, FALSE)[2]
                     IN CmpD(<<"d", f, 0>>, v) <= 0 /\ CmpD(v, <<"d", f + 1, 0>>) < 0
ASSUME \A v \in Norm : Abs(Pure("FIX", <<v>>, FALSE)[2]) = Pure("INT", <<Pure("ABS", <<v>>, FALSE)>>, FALSE)[2]
ASSUME \A v \in Norm : LET t == Val(Fmt(v)) IN t = v \/ t = <<"x", Fmt(v)>>
ASSUME \A v \in Norm, n \in -3 .. 6 : LET r == RoundTo(v, n) IN IsD(r) => RoundTo(r, n) = r
ASSUME \A v \in Norm : LET q == MulD(v, v) IN Sqrt(q) = Pure("ABS", <<v>>, FALSE)
===============================================================================
