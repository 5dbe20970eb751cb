-------------------------------- MODULE Term --------------------------------
(* The console on a text terminal.                                                                                    *)
(*                                                                                                                    *)
(* Two state machines run side by side: the screen that the operations of a session ask for, and the terminal, driven *)
(* by what the real console wrote to it (a recorded trace, split into text, control characters and escape sequences). *)
(* The terminal must show the screen after every operation, and keys typed on it must be read as what they are.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES pi, s
vars == <<pi, s>>
J == Jobs[pi]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(********************************* Screens *********************************)

Cell(c, k) == <<k, c.fg, c.bg>>
Empty(c) == <<32, -1, c.bg>>
Row(c) == [i \in 1 .. c.w |-> Empty(c)]
NewScreen(w, h) == LET c == [w |-> w, h |-> h, x |-> 0, y |-> 0, wrap |-> FALSE, fg |-> -1, bg |-> -1, vis |-> TRUE, alt |-> <<>>, bells |-> 0, g |-> <<>>, bad |-> ""]
                   IN [c EXCEPT !.g = [j \in 1 .. h |-> Row(c)]]
(* Colors do not matter where nothing is written, except for the background. *)
Down(c) == IF c.y < c.h - 1 THEN [c EXCEPT !.y = @ + 1, !.wrap = FALSE]
           ELSE [c EXCEPT !.g = [j \in 1 .. c.h |-> IF j < c.h THEN c.g[j + 1] ELSE Row(c)], !.wrap = FALSE]
Put(c, k) ==
  LET a == IF c.wrap THEN [Down(c) EXCEPT !.x = 0] ELSE c
      b == [a EXCEPT !.g[a.y + 1][a.x + 1] = Cell(a, k)]
  IN IF b.x = b.w - 1 THEN [b EXCEPT !.wrap = TRUE] ELSE [b EXCEPT !.x = @ + 1]
Text(c, t) == FoldLeft(Put, c, t)
Home(c, x, y) == [c EXCEPT !.x = x, !.y = y, !.wrap = FALSE]
Right(c, n) == Home(c, Min2(c.x + n, c.w - 1), c.y)
Left(c, n) == Home(c, Max2(c.x - n, 0), c.y)
Erase(c, x1, x2) == [c EXCEPT !.g[c.y + 1] = [i \in 1 .. c.w |-> IF i - 1 >= x1 /\ i - 1 <= x2 THEN Empty(c) ELSE @[i]]]
EraseAll(c) == [c EXCEPT !.g = [j \in 1 .. c.h |-> Row(c)]]
EnterAlt(c) == IF c.alt # <<>> THEN c ELSE EraseAll([c EXCEPT !.alt = <<c>>])
LeaveAlt(c) == IF c.alt = <<>> THEN c ELSE LET o == c.alt[1] IN [c EXCEPT !.alt = <<>>, !.g = o.g, !.x = o.x, !.y = o.y, !.wrap = o.wrap]

(******************************** Terminal *********************************)

Bad(c, t) == IF c.bad = "" THEN [c EXCEPT !.bad = t] ELSE c
Arg(t, i, d) == IF Len(t.p) >= i /\ t.p[i] >= 0 THEN t.p[i] ELSE d
Count(t) == Max2(1, Arg(t, 1, 1))
RECURSIVE Sgr(_, _)
Sgr(c, p) ==
  IF p = <<>> THEN c
  ELSE CASE p[1] \in {0, -1} -> Sgr([c EXCEPT !.fg = -1, !.bg = -1], Tail(p))
         [] p[1] = 39 -> Sgr([c EXCEPT !.fg = -1], Tail(p))
         [] p[1] = 49 -> Sgr([c EXCEPT !.bg = -1], Tail(p))
         [] p[1] = 38 /\ Len(p) >= 3 /\ p[2] = 5 /\ p[3] \in 0 .. 255 -> Sgr([c EXCEPT !.fg = p[3]], SubSeq(p, 4, Len(p)))
         [] p[1] = 48 /\ Len(p) >= 3 /\ p[2] = 5 /\ p[3] \in 0 .. 255 -> Sgr([c EXCEPT !.bg = p[3]], SubSeq(p, 4, Len(p)))
         [] p[1] \in 30 .. 37 -> Sgr([c EXCEPT !.fg = p[1] - 30], Tail(p))
         [] p[1] \in 40 .. 47 -> Sgr([c EXCEPT !.bg = p[1] - 40], Tail(p))
         [] p[1] \in 90 .. 97 -> Sgr([c EXCEPT !.fg = p[1] - 82], Tail(p))
         [] p[1] \in 100 .. 107 -> Sgr([c EXCEPT !.bg = p[1] - 92], Tail(p))
         [] OTHER -> Bad(c, "unknown attribute")
Token(c, t) ==
  CASE t.k = "text" -> Text(c, t.s)
    [] t.k = "c0" -> (CASE t.n = 7 -> [c EXCEPT !.bells = @ + 1]
                        [] t.n = 8 -> Left(c, 1)
                        [] t.n = 10 -> IF J.tty THEN Down(c) ELSE [Down(c) EXCEPT !.x = 0]
                        [] t.n = 13 -> Home(c, 0, c.y)
                        [] OTHER -> Bad(c, "control character"))
    [] t.k = "csi" /\ t.q = "" ->
         (CASE t.f = "H" -> Home(c, Min2(Max2(1, Arg(t, 2, 1)), c.w) - 1, Min2(Max2(1, Arg(t, 1, 1)), c.h) - 1)
            [] t.f = "G" -> Home(c, Min2(Count(t), c.w) - 1, c.y)
            [] t.f = "C" -> Right(c, Count(t))
            [] t.f = "D" -> Left(c, Count(t))
            [] t.f = "J" /\ Arg(t, 1, 0) = 2 -> EraseAll(c)
            [] t.f = "K" -> (CASE Arg(t, 1, 0) = 0 -> Erase(c, c.x, c.w - 1)
                               [] Arg(t, 1, 0) = 1 -> Erase(c, 0, c.x)
                               [] OTHER -> Erase(c, 0, c.w - 1))
            [] t.f = "m" -> Sgr(c, IF t.p = <<>> THEN <<0>> ELSE t.p)
            [] OTHER -> Bad(c, "sequence"))
    [] t.k = "csi" /\ t.q = "?" ->
         (CASE t.f = "h" /\ t.p = <<25>> -> [c EXCEPT !.vis = TRUE]
            [] t.f = "l" /\ t.p = <<25>> -> [c EXCEPT !.vis = FALSE]
            [] t.f = "h" /\ t.p = <<1049>> -> EnterAlt(c)
            [] t.f = "l" /\ t.p = <<1049>> -> LeaveAlt(c)
            [] OTHER -> Bad(c, "mode"))
    [] OTHER -> Bad(c, "unknown output")

(********************************* Console *********************************)

(* Control characters are written as spaces. *)
Printable(t) == [i \in 1 .. Len(t) |-> IF t[i] < 32 \/ t[i] \in 127 .. 159 THEN 32 ELSE t[i]]
Op(c, op) ==
  LET a == op.a
  IN CASE op.o = "cls" -> Home(EraseAll(c), 0, 0)
       [] op.o = "clrline" -> Erase(c, 0, c.w - 1)
       [] op.o = "clreol" -> Erase(c, c.x, c.w - 1)
       [] op.o = "clrprev" -> LET d == Left(c, 1) IN [d EXCEPT !.g[d.y + 1][d.x + 1] = Cell(d, 32)]
       [] op.o = "color" -> [c EXCEPT !.fg = a[1], !.bg = a[2]]
       [] op.o = "enter" -> EnterAlt(c)
       [] op.o = "leave" -> LeaveAlt(c)
       [] op.o = "hide" -> [c EXCEPT !.vis = FALSE]
       [] op.o = "show" -> [c EXCEPT !.vis = TRUE]
       [] op.o = "locate" -> Home(c, a[1], a[2])
       [] op.o = "move" -> IF a[1] < 0 THEN Left(c, -a[1]) ELSE IF a[1] > 0 THEN Right(c, a[1]) ELSE c
       [] op.o = "write" -> Text(c, Printable(op.codes))
       [] op.o = "print" -> [Down(Text(c, Printable(op.codes))) EXCEPT !.x = 0]
       [] op.o = "beep" -> [c EXCEPT !.bells = @ + 1]
       [] OTHER -> c
(* Without syncing, what is written shows when asked for.  Ends of lines and bells ask for it. *)
Shows(sync, op) == CASE op.o = "sync" -> ~sync
                     [] op.o \in {"syncnow", "print", "beep"} -> TRUE
                     [] OTHER -> sync

(********************************** Keys ***********************************)

(* What typing a key means.  Some control characters are other keys; the rest of the keys that the console does not know are unknown. *)
Named == [up |-> "up", down |-> "down", left |-> "left", right |-> "right", home |-> "home", end |-> "end", del |-> "del", pgup |-> "pgup", pgdn |-> "pgdn",
          bs |-> "bs", tab |-> "tab", esc |-> "esc", enter |-> "nl", ins |-> "unk", backtab |-> "unk", f1 |-> "unk", f5 |-> "unk", f12 |-> "unk",
          ctrla |-> "home", ctrlb |-> "left", ctrlc |-> "int", ctrld |-> "eof", ctrle |-> "end", ctrlf |-> "right", ctrlj |-> "nl", ctrlm |-> "nl", ctrln |-> "down",
          ctrlp |-> "up", home2 |-> "home", end2 |-> "end", home3 |-> "home", end3 |-> "end", ups |-> "up", ctrlleft |-> "left",
          \* These are only for input which is not a terminal.
          nl |-> "nl", cr |-> "", ctl |-> "unk", eof |-> "eof"]
KeyOf(k) == IF k.n = "char" THEN "=" \o k.c ELSE Named[k.n]
KeysOf(ks) == SelectSeq([i \in 1 .. Len(ks) |-> KeyOf(ks[i])], LAMBDA k : k # "")
Breaks(ks) == Cardinality({i \in 1 .. Len(ks) : ks[i].n = "ctrlc"})

(******************************** Behaviour ********************************)

Init == /\ pi \in 1 .. Len(Jobs)
        /\ s = [n |-> 0, c |-> NewScreen(J.w, J.h), shown |-> NewScreen(J.w, J.h), term |-> FoldLeft(Token, NewScreen(J.w, J.h), J.real.tokens[1]), sync |-> TRUE, end |-> FALSE,
                why |-> IF J.real.res[1].tty # J.tty THEN "the terminal was not recognised" ELSE IF J.tty /\ ~J.real.raw[1] THEN "the terminal is not in raw mode" ELSE ""]

Judge(op, r, m, term, sync) ==
  CASE r.err # "" -> "error: " \o r.err
    [] term.bad # "" -> "wrote something wrong: " \o term.bad
    [] r.color # <<m.fg, m.bg>> -> "the colors are not those which were set"
    [] op.o = "size" /\ r.size # op.a -> "the size is wrong"
    [] op.o = "sync" /\ r.prev # sync -> "the previous state of syncing is wrong"
    [] op.o = "keys" /\ r.keys # KeysOf(op.keys) -> "keys should be " \o ToString(KeysOf(op.keys))
    [] op.o = "keys" /\ J.tty /\ r.breaks # Breaks(op.keys) -> "wrong number of breaks"
    [] OTHER -> ""
Next ==
  /\ UNCHANGED pi
  /\ ~s.end /\ s.why = ""
  /\ IF s.n < Len(J.ops)
     THEN LET op == J.ops[s.n + 1]
              r == J.real.res[s.n + 2]
              m == Op(s.c, op)
              term == FoldLeft(Token, s.term, J.real.tokens[s.n + 2])
          IN s' = [s EXCEPT !.n = @ + 1, !.c = m, !.term = term, !.sync = IF op.o = "sync" THEN op.a[1] = 1 ELSE @,
                            !.shown = IF Shows(s.sync, op) THEN m ELSE @, !.why = Judge(op, r, m, term, s.sync)]
     ELSE s' = [s EXCEPT !.n = @ + 1, !.end = TRUE, !.term = FoldLeft(Token, s.term, J.real.tokens[s.n + 2]), !.shown = s.c,
                         !.why = IF J.tty /\ ~J.real.restored THEN "the terminal was not restored" ELSE ""]
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

TypeOk == /\ s.c.x \in 0 .. J.w - 1 /\ s.c.y \in 0 .. J.h - 1
          /\ Len(s.c.g) = J.h /\ \A j \in 1 .. J.h : Len(s.c.g[j]) = J.w
(* With syncing, the user always sees everything. *)
SyncOk == (s.sync /\ ~s.end) => s.shown = s.c
(* The terminal shows what was asked for, with the same cursor and attributes. *)
Diff == LET t == s.term
            d == {p \in (1 .. J.w) \X (1 .. J.h) : t.g[p[2]][p[1]] # s.shown.g[p[2]][p[1]]}
            p == CHOOSE p \in d : \A q \in d : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1])
        IN CASE d # {} -> "cell " \o ToString(<<p[1] - 1, p[2] - 1>>) \o " is " \o ToString(t.g[p[2]][p[1]]) \o " and should be " \o ToString(s.shown.g[p[2]][p[1]])
             [] <<t.x, t.y, t.wrap>> # <<s.shown.x, s.shown.y, s.shown.wrap>> -> "the cursor is at " \o ToString(<<t.x, t.y>>) \o " and should be at " \o ToString(<<s.shown.x, s.shown.y>>)
             [] t.vis # s.shown.vis -> "the visibility of the cursor is wrong"
             [] (t.alt = <<>>) # (s.shown.alt = <<>>) -> "the wrong screen is active"
             [] t.bells # s.shown.bells -> "wrong number of bells"
             [] <<t.fg, t.bg>> # <<s.shown.fg, s.shown.bg>> -> "the colors of the terminal are wrong"
             [] OTHER -> ""
Verdict == IF s.why # "" THEN s.why ELSE Diff
Emit == (Verdict # "" \/ s.end) => PrintT("@@" \o ToJson([p |-> pi, n |-> s.n, why |-> Verdict]))
=============================================================================
