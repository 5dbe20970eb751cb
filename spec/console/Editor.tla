------------------------------- MODULE Editor -------------------------------
(* The program editor: the lines, the insertion point and the part of the text that is visible. *)
(* What the user sees is a function of this state.                                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sub(l, a, b) == SubSeq(l, a + 1, Min2(b, Len(l)))
Spaces(n) == [i \in 1 .. n |-> " "]
Chars(str) == [i \in 1 .. Len(str) |-> SubSeq(str, i, i)]
IsChar(k) == Len(k) > 1 /\ SubSeq(k, 1, 1) = "="
CharOf(k) == SubSeq(k, 2, Len(k))

Indent == 4

NewEd == [lines |-> <<>>, name |-> "", dirty |-> FALSE, ln |-> 0, col |-> 0, ic |-> 0, vl |-> 0, vc |-> 0]

Line(e) == e.lines[e.ln + 1]
RECURSIVE Leading(_, _)
(* Number of characters at the beginning of the line that are in the set. *)
Leading(l, set) == IF l # <<>> /\ l[1] \in set THEN 1 + Leading(Tail(l), set) ELSE 0

At(e, col) == [e EXCEPT !.col = col, !.ic = col]
SetLine(e, l) == [e EXCEPT !.lines[e.ln + 1] = l, !.dirty = TRUE]
Insert(e, t) == At(SetLine(e, Sub(Line(e), 0, e.col) \o t \o Sub(Line(e), e.col, Len(Line(e)))), e.col + Len(t))
(* Removes the characters between two columns. *)
Cut(e, a, b) == SetLine(e, Sub(Line(e), 0, a) \o Sub(Line(e), b, Len(Line(e))))
Join(e, n) == [e EXCEPT !.dirty = TRUE,
                        !.lines = SubSeq(@, 1, n) \o <<@[n + 1] \o @[n + 2]>> \o SubSeq(@, n + 3, Len(@))]
(* Vertical moves try to stay in the column of the last horizontal one. *)
GoLine(e, n) == LET l == Max2(0, Min2(n, Len(e.lines) - 1))
                IN [e EXCEPT !.ln = l, !.col = Min2(e.ic, Len(e.lines[l + 1]))]

EdKey(e, k, h) ==
  LET l == Line(e)
      n == Len(l)
      lead == Leading(l, {" "})
  IN CASE k = "up" -> GoLine(e, e.ln - 1)
       [] k = "down" -> GoLine(e, e.ln + 1)
       [] k = "pgup" -> GoLine(e, e.ln - (h - 2))
       [] k = "pgdn" -> GoLine(e, e.ln + (h - 2))
       [] k = "left" -> IF e.col > 0 THEN At(e, e.col - 1) ELSE e
       [] k = "right" -> IF e.col < n THEN At(e, e.col + 1) ELSE e
       [] k = "home" -> At(e, IF e.col = lead THEN 0 ELSE lead)
       [] k = "end" -> At(e, n)
       [] k = "bs" ->
            IF e.col > 0
            THEN LET to == IF lead >= e.col THEN ((e.col - 1) \div Indent) * Indent ELSE e.col - 1
                 IN At(Cut(e, to, e.col), to)
            ELSE IF e.ln > 0
            THEN At([Join(e, e.ln - 1) EXCEPT !.ln = @ - 1], Len(e.lines[e.ln]))
            ELSE At(e, e.col)
       [] k \in {"del", "eof"} ->
            IF e.col < n THEN Cut(e, e.col, e.col + 1)
            ELSE IF e.ln + 1 < Len(e.lines) THEN Join(e, e.ln)
            ELSE e
       [] k \in {"nl", "cr"} ->
            LET ind == Sub(l, 0, Leading(l, {" ", "\t"}))
            IN At([e EXCEPT !.lines = SubSeq(@, 1, e.ln) \o <<Sub(l, 0, e.col), ind \o Sub(l, e.col, n)>> \o SubSeq(@, e.ln + 2, Len(@)),
                            !.ln = @ + 1, !.dirty = TRUE], Len(ind))
       [] k = "tab" -> Insert(e, Spaces(Indent - (e.col % Indent)))
       [] IsChar(k) -> Insert(e, <<CharOf(k)>>)
       [] OTHER -> e

(* Scrolls as little as needed to have the insertion point on the screen; the last row has the status. *)
Scroll(e, w, h) ==
  [e EXCEPT !.vl = IF e.ln < @ THEN e.ln ELSE IF e.ln > @ + h - 2 THEN e.ln - (h - 2) ELSE @,
            !.vc = IF e.col < @ THEN e.col ELSE IF e.col >= @ + w THEN e.col - w + 1 ELSE @]

Status(e, w) ==
  LET pos(a, b) == Chars(a \o ToString(e.ln + 1) \o b \o ToString(e.col + 1) \o " ")
      keys == Chars(" ESC Exit ")
      name == IF e.name = "" THEN "<NO NAME>" ELSE e.name
      full == Chars(" | " \o name \o (IF e.dirty THEN "*" ELSE "")) \o pos(" | Ln ", ", Col ")
      short == pos(" ", ":")
  IN IF Len(keys) + Len(full) < w THEN keys \o Spaces(w - Len(keys) - Len(full)) \o full
     ELSE IF Len(short) < w THEN Spaces(w - Len(short)) \o short ELSE Sub(short, 0, w)

(* Characters of a row of the screen. *)
EdRow(e, i, w, h) ==
  LET t == IF i = h THEN Status(e, w)
           ELSE IF e.vl + i <= Len(e.lines) THEN Sub(e.lines[e.vl + i], e.vc, e.vc + w) ELSE <<>>
  IN t \o Spaces(w - Len(t))

EdText(e) == FoldLeft(LAMBDA a, l : a \o FoldLeft(LAMBDA b, x : b \o x, "", l) \o "\n", "", e.lines)

(* The insertion point is within the text and visible. *)
EdOk(e, w, h) == e.lines # <<>> =>
                 /\ e.ln \in 0 .. Len(e.lines) - 1 /\ e.col \in 0 .. Len(Line(e))
                 /\ e.vl <= e.ln /\ e.ln <= e.vl + h - 2
                 /\ e.vc <= e.col /\ e.col < e.vc + w
=============================================================================
