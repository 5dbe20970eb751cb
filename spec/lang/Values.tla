------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Typed values of the EndBASIC language and the operators over them.      *)
(*                                                                         *)
(* A value is a tuple whose first element is its type:                     *)
(*   <<"b", TRUE>>      BOOLEAN                                            *)
(*   <<"i", 5>>         INTEGER (32-bit two's complement)                  *)
(*   <<"d", m, e>>      DOUBLE with the exact value m / 2^e                *)
(*   <<"D", s, t, r>>   DOUBLE outside of the modelled range: s is its     *)
(*                      sign, t its text and r its text when rounded       *)
(*   <<"t", "abc">>     STRING                                             *)
(*   <<"a", ty, dims, data>>  an array                                     *)
(*   <<"?">>            unspecified contents                               *)
(* The result of an operator is a value, <<"E", message>> when it raises a *)
(* run time error, or Unk when the result is beyond what is modelled (for  *)
(* example, a DOUBLE that has no short exact binary expansion).            *)
(* All arithmetic is written so that no intermediate result leaves the     *)
(* range of the 32-bit integers of TLC.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

MaxInt == 2147483647
MinInt == -2147483647 - 1

Unk == <<"?">>
Err(m) == <<"E", m>>
IsErr(v) == v[1] = "E"
IsUnk(v) == v[1] = "?"

TypeOf(v) == IF v[1] = "D" THEN "d" ELSE v[1]
TypeName(t) == CASE t = "b" -> "BOOLEAN" [] t = "d" -> "DOUBLE"
                 [] t = "i" -> "INTEGER" [] t = "t" -> "STRING"
Default(t) == CASE t = "b" -> <<"b", FALSE>> [] t = "d" -> <<"d", 0, 0>>
                [] t = "i" -> <<"i", 0>> [] t = "t" -> <<"t", "">>
IsNum(t) == t \in {"i", "d"}

Abs(x) == IF x < 0 THEN -x ELSE x           \* not for MinInt
Pow2(n) == 2 ^ n                            \* n in 0..30
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

(************************** INTEGER arithmetic *****************************)

AddOv(a, b) == IF b > 0 THEN a > MaxInt - b ELSE a < MinInt - b
SubOv(a, b) == IF b > 0 THEN a < MinInt + b ELSE a > MaxInt + b

(* Whether a * b does not fit in 32 bits. *)
MulOv(a, b) ==
  IF a = 0 \/ b = 0 \/ a = 1 \/ b = 1 THEN FALSE
  ELSE IF a = MinInt \/ b = MinInt THEN TRUE
  ELSE LET x == Abs(a)
           y == Abs(b)
           q == MaxInt \div y
           r == MaxInt % y
       IN  IF x <= q THEN FALSE
           ELSE ~(x = q + 1 /\ r = y - 1 /\ Sgn(a) # Sgn(b))
(* The product when it fits. *)
Mul(a, b) == IF MulOv(a, b) THEN 0
             ELSE IF (a = MinInt \/ b = MinInt) THEN (IF a = 0 \/ b = 0 THEN 0 ELSE MinInt)
             ELSE LET x == Abs(a) y == Abs(b)
                  IN IF x > 0 /\ y > 0 /\ x > MaxInt \div y THEN MinInt ELSE a * b

(* Division truncated towards zero.  The caller excludes b = 0 and MinInt / -1. *)
RECURSIVE TDiv(_, _)
TDiv(a, b) ==
  IF b = MinInt THEN (IF a = MinInt THEN 1 ELSE 0)
  ELSE IF a = MinInt
       THEN IF b = 1 THEN MinInt
            ELSE TDiv(a + Abs(b), b) + (IF b > 0 THEN -1 ELSE 1)
       ELSE Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TMod(a, b) == IF b = MinInt THEN (IF a = MinInt THEN 0 ELSE a) ELSE a - b * TDiv(a, b)

RECURSIVE PowInt(_, _, _)
PowInt(base, n, acc) ==
  IF n = 0 THEN <<"i", acc>>
  ELSE IF MulOv(acc, base) THEN Err("Integer overflow")
  ELSE IF base \in {0, 1} THEN <<"i", base>>
  ELSE IF base = -1 THEN <<"i", IF n % 2 = 0 THEN acc ELSE -acc>>
  ELSE PowInt(base, n - 1, Mul(acc, base))

(* Bitwise operators on two's complement, one bit at a time.  \div rounds   *)
(* towards minus infinity and % is never negative, which is what we need.   *)
RECURSIVE BAnd(_, _)
BAnd(x, y) == IF x = 0 \/ y = 0 THEN 0
              ELSE IF x = -1 THEN y ELSE IF y = -1 THEN x
              ELSE 2 * BAnd(x \div 2, y \div 2) + (x % 2) * (y % 2)
BNot(x) == -1 - x
BOr(x, y) == BNot(BAnd(BNot(x), BNot(y)))
BXor(x, y) == BAnd(BOr(x, y), BNot(BAnd(x, y)))

(* Doubling with wrap around. *)
Dbl(x) == IF x >= 1073741824 THEN ((x - 1073741824) * 2 + MinInt)
          ELSE IF x < -1073741824 THEN ((x + 1073741824) * 2 + MaxInt + 1)
          ELSE 2 * x
RECURSIVE Shl(_, _)
Shl(x, n) == IF n = 0 THEN x ELSE IF n >= 32 THEN 0 ELSE Shl(Dbl(x), n - 1)
RECURSIVE Shr(_, _)
Shr(x, n) == IF n >= 32 THEN (IF x < 0 THEN -1 ELSE 0)
             ELSE IF n = 0 THEN x ELSE Shr(x \div 2, n - 1)

(*************************** DOUBLE arithmetic *****************************)

MaxExp == 12                               \* smallest modelled fraction is 2^-12
MaxMan == 536870912                        \* 2^29

RECURSIVE NormD(_, _)
NormD(m, e) == IF e > 0 /\ m % 2 = 0 THEN NormD(m \div 2, e - 1)
               ELSE IF e > MaxExp \/ m > MaxMan \/ m < -MaxMan THEN Unk
               ELSE <<"d", m, e>>

FitsShift(m, k) == k <= 28 /\ Abs(m) <= MaxMan \div Pow2(k)
ToD(v) == IF v[1] = "i"
          THEN IF v[2] > MaxMan \/ v[2] < -MaxMan THEN Unk ELSE <<"d", v[2], 0>>
          ELSE v

MaxOf(a, b) == IF a > b THEN a ELSE b

AddD(x, y, sub) ==
  LET e == MaxOf(x[3], y[3])
      ym == IF sub THEN -y[2] ELSE y[2]
  IN  IF FitsShift(x[2], e - x[3]) /\ FitsShift(y[2], e - y[3])
      THEN NormD(x[2] * Pow2(e - x[3]) + ym * Pow2(e - y[3]), e)
      ELSE Unk

MulD(x, y) ==
  IF x[2] = 0 \/ y[2] = 0
  THEN IF x[2] < 0 \/ y[2] < 0 THEN Unk ELSE <<"d", 0, 0>>   \* minus zero is not modelled
  ELSE IF MulOv(x[2], y[2]) THEN Unk ELSE NormD(Mul(x[2], y[2]), x[3] + y[3])

(* Splits m into <<odd part, number of trailing zero bits>>; m # 0. *)
RECURSIVE OddPart(_, _)
OddPart(m, k) == IF m % 2 = 0 THEN OddPart(m \div 2, k + 1) ELSE <<m, k>>

DivD(x, y) ==
  IF y[2] = 0
  THEN IF x[2] = 0 THEN Unk
       ELSE IF x[2] > 0 THEN <<"D", 1, "inf", "inf">> ELSE <<"D", -1, "-inf", "-inf">>
  ELSE IF x[2] = 0 THEN (IF y[2] < 0 THEN Unk ELSE <<"d", 0, 0>>)
  ELSE LET o == OddPart(y[2], 0)
           \* x/y = (xm / odd) * 2^(ye - xe - zeros)
           q == TDiv(x[2], o[1])
           k == y[3] - x[3] - o[2]
       IN  IF TMod(x[2], o[1]) # 0 THEN Unk
           ELSE IF k >= 0
                THEN IF FitsShift(q, k) THEN NormD(q * Pow2(k), 0) ELSE Unk
                ELSE NormD(q, -k)

ModD(x, y) ==
  IF y[2] = 0 THEN Unk
  ELSE LET e == MaxOf(x[3], y[3])
       IN  IF FitsShift(x[2], e - x[3]) /\ FitsShift(y[2], e - y[3])
           THEN LET r == TMod(x[2] * Pow2(e - x[3]), y[2] * Pow2(e - y[3]))
                IN  IF r = 0 /\ x[2] < 0 THEN Unk ELSE NormD(r, e)
           ELSE Unk

RECURSIVE PowDN(_, _, _)
PowDN(x, n, acc) == IF n = 0 \/ IsUnk(acc) THEN acc ELSE PowDN(x, n - 1, MulD(acc, x))
PowD(x, y) ==
  IF y[3] # 0 \/ Abs(y[2]) > 40 THEN Unk
  ELSE IF y[2] >= 0
       THEN IF x[2] = 0 /\ y[2] = 0 THEN <<"d", 1, 0>> ELSE PowDN(x, y[2], <<"d", 1, 0>>)
       ELSE IF x[2] = 0 THEN Unk
       ELSE LET p == PowDN(x, -y[2], <<"d", 1, 0>>)
            IN  IF IsUnk(p) THEN Unk ELSE DivD(<<"d", 1, 0>>, p)

NegD(x) == IF x[2] = 0 THEN Unk ELSE <<"d", -x[2], x[3]>>
NegBig(x) == <<"D", -x[2], IF x[2] > 0 THEN "-" \o x[3] ELSE SubSeq(x[3], 2, Len(x[3])),
                           IF x[2] > 0 THEN "-" \o x[4] ELSE SubSeq(x[4], 2, Len(x[4]))>>

(* Three-way comparison of doubles: -1, 0, 1, or 2 when unknown. *)
CmpD(x, y) ==
  IF x[1] = "D" \/ y[1] = "D"
  THEN IF x[1] = "D" /\ y[1] = "D" THEN (IF x[2] # y[2] THEN Sgn(x[2] - y[2]) ELSE IF x = y THEN 0 ELSE 2)
       ELSE IF x[1] = "D" THEN x[2] ELSE -y[2]
  ELSE LET e == MaxOf(x[3], y[3])
       IN IF FitsShift(x[2], e - x[3]) /\ FitsShift(y[2], e - y[3])
          THEN Sgn(x[2] * Pow2(e - x[3]) - y[2] * Pow2(e - y[3]))
          ELSE 2

(* Rounds half away from zero. *)
RoundD(x) == LET p == Pow2(x[3])
                 a == Abs(x[2])
                 q == a \div p
                 r == a % p
             IN  Sgn(x[2]) * (IF 2 * r >= p /\ r > 0 THEN q + 1 ELSE q)

(****************************** Conversions ********************************)

CastTo(v, t) ==
  IF IsErr(v) \/ IsUnk(v) THEN v
  ELSE IF TypeOf(v) = t THEN v
  ELSE IF t = "d" THEN ToD(v)
  ELSE IF t = "i" /\ v[1] = "d" THEN <<"i", RoundD(v)>>
  ELSE IF t = "i" /\ v[1] = "D" /\ v[4] = "-2147483648" THEN <<"i", MinInt>>
  ELSE IF t = "i" /\ v[1] = "D" THEN Err("Cannot cast " \o v[4] \o " to integer due to overflow")
  ELSE Unk

RECURSIVE FracDigits(_, _)
FracDigits(r, p) == IF r = 0 THEN "" ELSE ToString((r * 10) \div p) \o FracDigits((r * 10) % p, p)

(* Text of a value as the console shows it. *)
Fmt(v) ==
  CASE v[1] = "b" -> IF v[2] THEN "TRUE" ELSE "FALSE"
    [] v[1] = "i" -> IF v[2] >= 0 THEN " " \o ToString(v[2]) ELSE ToString(v[2])
    [] v[1] = "D" -> IF v[2] > 0 THEN " " \o v[3] ELSE v[3]
    [] v[1] = "t" -> v[2]
    [] v[1] = "d" -> LET p == Pow2(v[3])
                         a == Abs(v[2])
                         f == FracDigits(a % p, p)
                     IN  (IF v[2] < 0 THEN "-" ELSE " ") \o ToString(a \div p)
                         \o (IF f = "" THEN "" ELSE "." \o f)

(****************************** Text ordering ******************************)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {SubSeq(Ascii, i, i) : i \in 1 .. Len(Ascii)} |->
          CHOOSE i \in 1 .. Len(Ascii) : SubSeq(Ascii, i, i) = c]

RECURSIVE CmpT(_, _, _)
CmpT(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET x == SubSeq(a, i, i)
           y == SubSeq(b, i, i)
       IN  IF x = y THEN CmpT(a, b, i + 1)
           ELSE IF x \in DOMAIN Ord /\ y \in DOMAIN Ord THEN Sgn(Ord[x] - Ord[y])
           ELSE IF x \in DOMAIN Ord THEN -1          \* ASCII sorts before everything else
           ELSE IF y \in DOMAIN Ord THEN 1 ELSE 2

(******************************* Operators *********************************)

RelOps == {"=", "<>", "<", "<=", ">", ">="}

RelOf(op, c) == IF c = 2 THEN Unk
                ELSE <<"b", CASE op = "=" -> c = 0 [] op = "<>" -> c # 0 [] op = "<" -> c < 0
                             [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0>>

IntOp(op, a, b) ==
  CASE op = "+" -> IF AddOv(a, b) THEN Err("Integer overflow") ELSE <<"i", a + b>>
    [] op = "-" -> IF SubOv(a, b) THEN Err("Integer underflow") ELSE <<"i", a - b>>
    [] op = "*" -> IF MulOv(a, b) THEN Err("Integer overflow") ELSE <<"i", Mul(a, b)>>
    [] op = "/" -> IF b = 0 THEN Err("Division by zero")
                   ELSE IF a = MinInt /\ b = -1 THEN Err("Integer underflow")
                   ELSE <<"i", TDiv(a, b)>>
    [] op = "MOD" -> IF b = 0 THEN Err("Modulo by zero")
                     ELSE IF a = MinInt /\ b = -1 THEN Err("Integer underflow")
                     ELSE <<"i", TMod(a, b)>>
    [] op = "^" -> IF b < 0 THEN Err("Exponent " \o ToString(b) \o " cannot be negative")
                   ELSE IF b > 64 /\ a \notin {-1, 0, 1} THEN Err("Integer overflow")
                   ELSE IF b > 64 THEN <<"i", IF a = -1 /\ b % 2 = 0 THEN 1 ELSE a>>
                   ELSE PowInt(a, b, 1)
    [] op = "AND" -> <<"i", BAnd(a, b)>>
    [] op = "OR" -> <<"i", BOr(a, b)>>
    [] op = "XOR" -> <<"i", BXor(a, b)>>
    [] op = "<<" -> IF b < 0 THEN Err("Number of bits to << (" \o ToString(b) \o ") must be positive")
                    ELSE <<"i", Shl(a, b)>>
    [] op = ">>" -> IF b < 0 THEN Err("Number of bits to >> (" \o ToString(b) \o ") must be positive")
                    ELSE <<"i", Shr(a, b)>>

DblOp(op, x, y) ==
  IF IsUnk(x) \/ IsUnk(y) \/ x[1] = "D" \/ y[1] = "D" THEN Unk
  ELSE CASE op = "+" -> AddD(x, y, FALSE)
         [] op = "-" -> AddD(x, y, TRUE)
         [] op = "*" -> MulD(x, y)
         [] op = "/" -> DivD(x, y)
         [] op = "MOD" -> ModD(x, y)
         [] op = "^" -> PowD(x, y)

BoolOp(op, a, b) ==
  CASE op = "AND" -> <<"b", a /\ b>> [] op = "OR" -> <<"b", a \/ b>> [] op = "XOR" -> <<"b", a # b>>

(* Applies a binary operator to two values whose types were checked before. *)
BinOp(op, l, r) ==
  IF IsUnk(l) \/ IsUnk(r) THEN Unk
  ELSE IF op \in RelOps
  THEN IF l[1] = "b" THEN <<"b", IF op = "=" THEN l[2] = r[2] ELSE l[2] # r[2]>>
       ELSE IF l[1] = "t" THEN RelOf(op, CmpT(l[2], r[2], 1))
       ELSE IF l[1] = "i" /\ r[1] = "i"
            THEN RelOf(op, IF l[2] < r[2] THEN -1 ELSE IF l[2] = r[2] THEN 0 ELSE 1)
       ELSE LET x == ToD(l) y == ToD(r)
            IN IF IsUnk(x) \/ IsUnk(y) THEN Unk ELSE RelOf(op, CmpD(x, y))
  ELSE IF l[1] = "t" THEN (IF Len(l[2]) + Len(r[2]) > 300 THEN Unk ELSE <<"t", l[2] \o r[2]>>)
  ELSE IF l[1] = "b" THEN BoolOp(op, l[2], r[2])
  ELSE IF l[1] = "i" /\ r[1] = "i" THEN IntOp(op, l[2], r[2])
  ELSE DblOp(op, ToD(l), ToD(r))

UnOp(op, v) ==
  IF IsUnk(v) THEN Unk
  ELSE IF op = "NOT" THEN (IF v[1] = "b" THEN <<"b", ~v[2]>> ELSE <<"i", BNot(v[2])>>)
  ELSE IF v[1] = "i" THEN (IF v[2] = MinInt THEN Err("Integer overflow") ELSE <<"i", -v[2]>>)
  ELSE IF v[1] = "D" THEN NegBig(v) ELSE NegD(v)

(* Static result type of the operators, or "" if they cannot be applied. *)
BinType(op, l, r) ==
  IF op \in RelOps
  THEN IF l = r
       THEN IF l = "b" /\ op \notin {"=", "<>"} THEN "" ELSE "b"
       ELSE IF IsNum(l) /\ IsNum(r) THEN "b" ELSE ""
  ELSE IF op \in {"AND", "OR", "XOR"} THEN (IF l = r /\ l \in {"b", "i"} THEN l ELSE "")
  ELSE IF op \in {"<<", ">>"} THEN (IF l = "i" /\ r = "i" THEN "i" ELSE "")
  ELSE IF l = "t" /\ r = "t" THEN (IF op = "+" THEN "t" ELSE "")
  ELSE IF IsNum(l) /\ IsNum(r) THEN (IF l = "i" /\ r = "i" THEN "i" ELSE "d") ELSE ""
=============================================================================
