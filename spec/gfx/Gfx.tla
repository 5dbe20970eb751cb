-------------------------------- MODULE Gfx --------------------------------
(* Drawing on the graphical console: a grid of pixels on which shapes, text and fills paint.   *)
(*                                                                                             *)
(* A shape is a predicate over pixels, not an algorithm: clipping is implied because only the  *)
(* pixels of the screen are ever asked.  Arithmetic avoids products of more than 31 bits,      *)
(* because coordinates span 16 bits.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES pi, s
vars == <<pi, s>>

GW == 4
GH == 2
DefFg == 7
DefBg == 0
Abs(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Quotient and remainder of a * b by c, for non-negative numbers. *)
RECURSIVE MulDiv(_, _, _)
MulDiv(a, b, c) ==
  IF b = 0 THEN <<0, 0>>
  ELSE LET h == MulDiv(a, b \div 2, c)
           r == 2 * h[2] + (IF b % 2 = 1 THEN a ELSE 0)
       IN <<2 * h[1] + r \div c, r % c>>

(* Product of two numbers of 17 bits as a sign and two digits. *)
Prod(a, b) ==
  LET u == Abs(a)
      v == Abs(b)
      lo == (u % 256) * v
      p == <<(u \div 256) * v + lo \div 256, lo % 256>>
  IN <<IF p = <<0, 0>> THEN 0 ELSE Sign(a) * Sign(b), p[1], p[2]>>

(********************************* Shapes **********************************)

(* A line has one pixel per step of its longest dimension, the closest one to the real line; halfway, the one closer to
   the leftmost (or topmost) end. *)
OnLine(x, y, x1, y1, x2, y2) ==
  LET dx == Abs(x2 - x1)
      dy == Abs(y2 - y1)
      At(u, u1, v1, u2, v2, n, m) ==  \* u is the long dimension, of length n, and starts at u1
        LET q == MulDiv(u - u1, m, n)
        IN v1 + Sign(v2 - v1) * (q[1] + (IF 2 * q[2] > n THEN 1 ELSE 0))
  IN IF dx = 0 /\ dy = 0 THEN x = x1 /\ y = y1
     ELSE IF dy < dx
          THEN /\ x >= Min2(x1, x2) /\ x <= Max2(x1, x2)
               /\ y = IF x1 <= x2 THEN At(x, x1, y1, x2, y2, dx, dy) ELSE At(x, x2, y2, x1, y1, dx, dy)
          ELSE /\ y >= Min2(y1, y2) /\ y <= Max2(y1, y2)
               /\ x = IF y1 <= y2 THEN At(y, y1, x1, y2, x2, dy, dx) ELSE At(y, y2, x2, y1, x1, dy, dx)

(* Rectangles do not include their right and bottom sides, unless they are lines. *)
IsLine(a) == a[1] = a[3] \/ a[2] = a[4]
InRect(x, y, a) == /\ x >= Min2(a[1], a[3]) /\ x < Max2(a[1], a[3])
                   /\ y >= Min2(a[2], a[4]) /\ y < Max2(a[2], a[4])
OnRect(x, y, a) == InRect(x, y, a) /\ ~(InRect(x - 1, y, a) /\ InRect(x + 1, y, a) /\ InRect(x, y - 1, a) /\ InRect(x, y + 1, a))

(* Eighth of a circle: pairs of distances to the center. *)
RECURSIVE Octant(_, _, _, _, _, _, _)
Octant(d, x, y, tx, ty, e, acc) ==
  IF x < y THEN acc
  ELSE LET y2 == IF e <= 0 THEN y + 1 ELSE y
           e2 == IF e <= 0 THEN e + ty ELSE e
           ty2 == IF e <= 0 THEN ty + 2 ELSE ty
           tx3 == IF e2 > 0 THEN tx + 2 ELSE tx
       IN IF e2 > 0 THEN Octant(d, x - 1, y2, tx3, ty2, e2 + tx3 - d, acc \cup {<<x, y>>})
          ELSE Octant(d, x, y2, tx, ty2, e2, acc \cup {<<x, y>>})
Circle(r) ==
  IF r = 0 THEN {} ELSE IF r = 1 THEN {<<0, 0>>}
  ELSE LET o == Octant(2 * r, r - 1, 0, 1, 1, 1 - 2 * r, {}) IN o \cup {<<p[2], p[1]>> : p \in o}
(* The algorithm above is not obviously a circle: it is symmetric, has no gaps and its points are at the right distance.  *)
CircleOk(r) ==
  LET c == Circle(r)
  IN r >= 2 => /\ \A p \in c : <<p[2], p[1]>> \in c
               /\ \A p \in c : p[1] * p[1] + p[2] * p[2] \in (r - 1) * (r - 1) .. r * r
               /\ \A d \in 0 .. r - 1 : \E p \in c : p[1] = d
               /\ \A d \in 1 .. r - 1 : \E p, q \in c : p[1] = d /\ q[1] = d - 1 /\ Abs(p[2] - q[2]) <= 1

Edges(pts) == [i \in 1 .. Len(pts) |-> <<pts[i], pts[IF i = Len(pts) THEN 1 ELSE i + 1]>>]
OnEdges(x, y, pts) == \E i \in 1 .. Len(pts) : LET e == Edges(pts)[i] IN OnLine(x, y, e[1][1], e[1][2], e[2][1], e[2][2])
(* Where a row crosses the edges, rounded towards the start of each of them. *)
Crossings(y, pts) ==
  LET C(e) == LET a == e[1]
                  b == e[2]
              IN IF a[2] = b[2] \/ y < Min2(a[2], b[2]) \/ y >= Max2(a[2], b[2]) THEN <<>>
                 ELSE <<a[1] + Sign(b[1] - a[1]) * MulDiv(Abs(y - a[2]), Abs(b[1] - a[1]), Abs(b[2] - a[2]))[1]>>
  IN SortSeq(FoldLeft(LAMBDA acc, e : acc \o C(e), <<>>, Edges(pts)), LAMBDA u, v : u < v)
InsidePoly(x, xs) == \E i \in 1 .. Len(xs) : i % 2 = 1 /\ i < Len(xs) /\ x >= xs[i] /\ x <= xs[i + 1]

Flat(p) == LET A(u, v) == Prod(p[u][1] - p[1][1], p[v][2] - p[1][2]) IN A(2, 3) = A(3, 2)

(********************************* Colors **********************************)

Base == << <<0, 0, 0>>, <<128, 0, 0>>, <<0, 128, 0>>, <<128, 128, 0>>, <<0, 0, 128>>, <<128, 0, 128>>, <<0, 128, 128>>, <<192, 192, 192>>,
          <<128, 128, 128>>, <<255, 0, 0>>, <<0, 255, 0>>, <<255, 255, 0>>, <<0, 0, 255>>, <<255, 0, 255>>, <<0, 255, 255>>, <<255, 255, 255>> >>
Level == <<0, 95, 135, 175, 215, 255>>
Rgb == [k \in 0 .. 255 |->
          IF k < 16 THEN Base[k + 1]
          ELSE IF k < 232 THEN LET n == k - 16 IN <<Level[n \div 36 + 1], Level[((n \div 6) % 6) + 1], Level[(n % 6) + 1]>>
          ELSE LET v == 8 + 10 * (k - 232) IN <<v, v, v>>]
(* Several numbers may stand for the same color: pixels have the first one of them. *)
Same == [k \in 0 .. 255 |-> CHOOSE i \in 0 .. k : Rgb[i] = Rgb[k] /\ \A j \in 0 .. i - 1 : Rgb[j] # Rgb[k]]

(********************************* Screen **********************************)

Fg(c) == IF c.fg = -1 THEN DefFg ELSE Same[c.fg]
Bg(c) == IF c.bg = -1 THEN DefBg ELSE Same[c.bg]

Paint(c, In(_, _)) == [c EXCEPT !.g = [j \in 1 .. c.h |-> [i \in 1 .. c.w |-> IF In(i - 1, j - 1) THEN Fg(c) ELSE c.g[j][i]]]]
All(c, k) == [j \in 1 .. c.h |-> [i \in 1 .. c.w |-> k]]

Cols(c) == c.w \div GW
Rows(c) == c.h \div GH

NewScreen(w, h) ==
  LET c == [w |-> w, h |-> h, x |-> 0, y |-> 0, vis |-> TRUE, cc |-> DefFg, fg |-> -1, bg |-> -1, alt |-> <<>>, sync |-> TRUE, g |-> <<>>, shown |-> <<>>]
  IN [c EXCEPT !.g = All(c, DefBg)]
Frame(c) ==
  IF c.vis /\ c.x < Cols(c)
  THEN [j \in 1 .. c.h |-> [i \in 1 .. c.w |-> IF (i - 1) \div GW = c.x /\ (j - 1) \div GH = c.y THEN c.cc ELSE c.g[j][i]]]
  ELSE c.g
Show(c) == IF c.sync THEN [c EXCEPT !.shown = Frame(c)] ELSE c
Cursor(c) == IF c.vis THEN [c EXCEPT !.cc = Fg(c)] ELSE c
Update(c) == Show(Cursor(c))

OpenLine(c) ==
  IF c.y < Rows(c) - 1 THEN [c EXCEPT !.x = 0, !.y = @ + 1]
  ELSE [c EXCEPT !.x = 0, !.g = [j \in 1 .. c.h |-> IF j <= (Rows(c) - 1) * GH THEN c.g[j + GH] ELSE [i \in 1 .. c.w |-> Bg(c)]]]
Bit(k, b) == (k \div b) % 2 = 1
(* The character number k has its bits as pixels. *)
GlyphAt(k, i, j) == Bit(k, CASE i = 0 -> IF j = 0 THEN 128 ELSE 8 [] i = 1 -> IF j = 0 THEN 64 ELSE 4
                             [] i = 2 -> IF j = 0 THEN 32 ELSE 2 [] OTHER -> IF j = 0 THEN 16 ELSE 1)
Put(c, k) ==
  LET a == IF c.x = Cols(c) THEN OpenLine(c) ELSE c
      g == [j \in 1 .. a.h |-> [i \in 1 .. a.w |->
              IF (i - 1) \div GW = a.x /\ (j - 1) \div GH = a.y
              THEN IF GlyphAt(k - 32, (i - 1) % GW, (j - 1) % GH) THEN Fg(a) ELSE Bg(a)
              ELSE a.g[j][i]]]
  IN [a EXCEPT !.g = g, !.x = @ + 1]
Write(c, t) == FoldLeft(Put, c, t)

(* The pixels of the same color that can be reached from some pixel. *)
RECURSIVE Reach(_, _, _, _)
Reach(c, k, done, front) ==
  LET near == UNION { {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>} : p \in front }
      new == {p \in near : p[1] >= 0 /\ p[2] >= 0 /\ p[1] < c.w /\ p[2] < c.h /\ p \notin done /\ c.g[p[2] + 1][p[1] + 1] = k}
  IN IF new = {} THEN done ELSE Reach(c, k, done \cup new, new)
OnScreen(c, x, y) == x >= 0 /\ y >= 0 /\ x < c.w /\ y < c.h
Fill(c, x, y) ==
  IF ~OnScreen(c, x, y) THEN c
  ELSE LET k == c.g[y + 1][x + 1]
           r == Reach(c, k, {<<x, y>>}, {<<x, y>>})
       IN IF k = Fg(c) THEN c ELSE LET In(i, j) == <<i, j>> \in r IN Paint(c, In)

Points(a) == [i \in 1 .. Len(a) \div 2 |-> <<a[2 * i - 1], a[2 * i]>>]

Shape(c, o, a) ==
  CASE o = "pixel" -> LET In(x, y) == x = a[1] /\ y = a[2] IN Paint(c, In)
    [] o = "line" -> LET In(x, y) == OnLine(x, y, a[1], a[2], a[3], a[4]) IN Paint(c, In)
    [] o = "rect" -> LET In(x, y) == IF IsLine(a) THEN OnLine(x, y, a[1], a[2], a[3], a[4]) ELSE OnRect(x, y, a) IN Paint(c, In)
    [] o = "rectf" -> LET In(x, y) == IF IsLine(a) THEN OnLine(x, y, a[1], a[2], a[3], a[4]) ELSE InRect(x, y, a) IN Paint(c, In)
    [] o = "circle" -> LET r == Circle(a[3])
                           In(x, y) == <<Abs(x - a[1]), Abs(y - a[2])>> \in r
                       IN Paint(c, In)
    [] o = "circlef" -> LET r == Circle(a[3])
                            In(x, y) == \E p \in r : p[1] = Abs(x - a[1]) /\ p[2] >= Abs(y - a[2])
                        IN Paint(c, In)
    [] o \in {"poly", "polyf"} ->
         LET pts == Points(a)
             xs == [y \in 0 .. c.h - 1 |-> IF o = "polyf" THEN Crossings(y, pts) ELSE <<>>]
             In(x, y) == OnEdges(x, y, pts) \/ InsidePoly(x, xs[y])
         IN CASE Len(pts) = 0 -> c
              [] Len(pts) = 1 -> LET P(x, y) == <<x, y>> = pts[1] IN Paint(c, P)
              [] Len(pts) = 2 -> LET L(x, y) == OnLine(x, y, a[1], a[2], a[3], a[4]) IN Paint(c, L)
              [] Len(pts) = 3 /\ Flat(pts) -> c
              [] \A i \in 1 .. Len(pts) : pts[i] = pts[1] -> c
              [] OTHER -> Paint(c, In)
    [] o = "fill" -> Fill(c, a[1], a[2])

(******************************* Operations ********************************)

Shapes == {"pixel", "line", "rect", "rectf", "circle", "circlef", "poly", "polyf", "tri", "trif", "fill"}
Digit == [d \in 0 .. 9 |-> 48 + d]
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE IF n < 10 THEN <<Digit[n]>> ELSE Digits(n \div 10) \o <<Digit[n % 10]>>
Peek(c, x, y) == IF OnScreen(c, x, y) THEN c.g[y + 1][x + 1] ELSE -1

Coord(v) == v >= -32768 /\ v <= 32767
IsCircle(o) == o \in {"circle", "circlef"}

(* Errors of the commands, for arguments at given positions. *)
ArgError(op) ==
  LET a == op.a
      pos == op.pos
      bad == {i \in 1 .. Len(a) : IF IsCircle(op.o) /\ i = 3 THEN a[i] < 0 \/ a[i] > 65535 ELSE ~Coord(a[i])}
      i == CHOOSE k \in bad : \A m \in bad : k <= m
  IN IF op.shape # "" THEN pos[1] \o ": " \o op.shape
     ELSE IF op.o \in {"poly", "polyf"} /\ Len(a) % 2 = 1 THEN pos[Len(pos)] \o ": Expected an even number of coordinates"
     ELSE IF bad = {} THEN ""
     ELSE pos[IF Len(pos) = 1 THEN 1 ELSE i] \o ": " \o
          (IF IsCircle(op.o) /\ i = 3 THEN "Radius " \o ToString(a[i]) \o (IF a[i] < 0 THEN " must be positive" ELSE " out of range")
           ELSE "Coordinate " \o ToString(a[i]) \o " out of range")

Do(m, op) ==
  LET c == m.c
      a == op.a
      Done(d) == [m EXCEPT !.c = d]
      Fail(e) == [m EXCEPT !.err = e]
      e == IF op.bas THEN ArgError(op) ELSE ""
      name == IF op.o = "tri" THEN "poly" ELSE IF op.o = "trif" THEN "polyf" ELSE op.o
  IN CASE op.o \in Shapes ->
            IF e # "" THEN Fail(e)
            ELSE IF IsCircle(op.o) /\ a[3] > 16383 THEN Fail((IF op.bas THEN "1:1: " ELSE "") \o "Radius is too big")
            ELSE Done(Show(Shape(c, name, a)))
       [] op.o = "peek" -> IF e # "" THEN Fail(e)
                           ELSE IF op.bas THEN Done(Update(Write(c, Digits(Peek(c, a[1], a[2])))))
                           ELSE [m EXCEPT !.peek = Peek(c, a[1], a[2])]
       [] op.o = "size" -> Done(Update(Write(c, Digits(c.w) \o <<44>> \o Digits(c.h))))
       [] op.o = "cls" -> Done(Update([c EXCEPT !.g = All(c, Bg(c)), !.x = 0, !.y = 0]))
       [] op.o = "color" -> Done([c EXCEPT !.fg = a[1], !.bg = a[2]])
       [] op.o = "locate" -> Done(Update([c EXCEPT !.x = a[1], !.y = a[2]]))
       [] op.o = "write" -> Done(Update(Write(c, op.t)))
       [] op.o = "print" -> Done(Update(OpenLine(Write(c, op.t))))
       [] op.o = "enter" -> IF c.alt # <<>> THEN Fail("Cannot nest alternate screens")
                            ELSE Done(Update([c EXCEPT !.alt = <<c>>, !.g = All(c, Bg(c)), !.x = 0, !.y = 0]))
       [] op.o = "leave" -> IF c.alt = <<>> THEN Fail("Cannot leave alternate screen; not entered")
                            ELSE LET o == c.alt[1]
                                 IN Done(Update([c EXCEPT !.alt = <<>>, !.g = o.g, !.x = o.x, !.y = o.y, !.fg = o.fg, !.bg = o.bg]))
       [] op.o = "hide" -> Done(Show([c EXCEPT !.vis = FALSE]))
       [] op.o = "sync" ->
            IF op.bas
            THEN LET d == IF a[1] = 1 THEN (IF c.vis THEN c ELSE Cursor([c EXCEPT !.vis = TRUE])) ELSE Show([c EXCEPT !.vis = FALSE])
                 IN Done(Show([d EXCEPT !.sync = a[1] = 1]))
            ELSE Done(Show([c EXCEPT !.sync = a[1] = 1]))
       [] op.o = "syncnow" -> Done([c EXCEPT !.shown = Frame(c)])

(******************************** Behaviour ********************************)

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte == [v \in 0 .. 255 |-> Hex[v \div 16 + 1] \o Hex[(v % 16) + 1]]
HexColor == [k \in 0 .. 255 |-> HexByte[Rgb[k][1]] \o HexByte[Rgb[k][2]] \o HexByte[Rgb[k][3]]]
RowText(row) == FoldLeft(LAMBDA t, x : t \o HexColor[x], "", row)
Picture(g) == FoldLeft(LAMBDA t, row : IF t = "" THEN RowText(row) ELSE t \o "\n" \o RowText(row), "", g)

Init == /\ pi \in 1 .. Len(Jobs)
        /\ s = LET c == NewScreen(Jobs[pi].w, Jobs[pi].h) IN [c |-> [c EXCEPT !.shown = Frame(c)], n |-> 0, err |-> "", peek |-> -2, res |-> <<>>]
Next == /\ UNCHANGED pi
        /\ s.n < Len(Jobs[pi].ops)
        /\ LET m == Do([s EXCEPT !.err = "", !.peek = -2], Jobs[pi].ops[s.n + 1])
           IN s' = [m EXCEPT !.n = @ + 1, !.res = Append(@, [frame |-> Picture(m.c.shown), err |-> m.err, peek |-> m.peek])]
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

Op == Jobs[pi].ops[s.n]
(* With syncing, the user always sees everything. *)
SyncOk == s.c.sync => s.c.shown = Frame(s.c)
TypeOk == /\ Len(s.c.g) = s.c.h /\ \A j \in 1 .. s.c.h : Len(s.c.g[j]) = s.c.w
          /\ s.c.x \in 0 .. Cols(s.c) /\ s.c.y \in 0 .. Rows(s.c) - 1
(* Shapes only paint with the foreground color. *)
PaintOk == [][ (s'.n > 0 /\ Jobs[pi].ops[s'.n].o \in Shapes) =>
               \A j \in 1 .. s.c.h : \A i \in 1 .. s.c.w : s'.c.g[j][i] \in {s.c.g[j][i], Fg(s.c)} ]_vars
(* Filled shapes cover their outlines. *)
CoverOk == (s.n > 0 /\ Op.o \in {"rectf", "circlef", "trif", "polyf"} /\ s.err = "") =>
             Shape(s.c, CASE Op.o = "rectf" -> "rect" [] Op.o = "circlef" -> "circle" [] OTHER -> "poly", Op.a).g = s.c.g
(* Filling leaves no reachable pixel of the old color: filling again changes nothing. *)
FillOk == (s.n > 0 /\ Op.o = "fill" /\ s.err = "") => Fill(s.c, Op.a[1], Op.a[2]).g = s.c.g
CirclesOk == (s.n > 0 /\ IsCircle(Op.o) /\ Op.a[3] \in 2 .. 60) => CircleOk(Op.a[3])

Emit == s.n = Len(Jobs[pi].ops) => PrintT("@@" \o ToJson([p |-> pi, res |-> s.res]))
=============================================================================
