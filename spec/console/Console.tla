------------------------------ MODULE Console ------------------------------
(* The text console: a grid of cells with a cursor, colors, an alternate screen and video      *)
(* syncing, and the line reader on top of it.                                                  *)
(*                                                                                             *)
(* The state of the screen is what has been written; what the user sees is that plus the       *)
(* cursor.  Nothing here knows that the real console saves and restores what is behind the     *)
(* cursor, updates parts of the line or tracks damaged areas.                                  *)
EXTENDS Editor, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES pi, s
vars == <<pi, s>>

(********************************* Screen **********************************)

DefFg == 7
DefBg == 0
Fg(c) == IF c.fg = -1 THEN DefFg ELSE c.fg
Bg(c) == IF c.bg = -1 THEN DefBg ELSE c.bg

(* A cell shows a character with two colors, or only one if it is blank. *)
Blank(b) == <<" ", -1, b>>
Cell(ch, f, b) == IF ch = " " \/ f = b THEN Blank(b) ELSE <<ch, f, b>>

Grid(c, b) == [i \in 1 .. c.th |-> [j \in 1 .. c.tw |-> Blank(b)]]

(* The text area has w by h cells; there may be a margin at the right and the bottom. *)
NewScreen(w, h, rm, bm) ==
  LET c == [w |-> w, h |-> h, tw |-> w + rm, th |-> h + bm, x |-> 0, y |-> 0, vis |-> TRUE, cc |-> DefFg,
            fg |-> -1, bg |-> -1, alt |-> <<>>, sync |-> TRUE, g |-> <<>>, shown |-> <<>>]
      d == [c EXCEPT !.g = Grid(c, DefBg)]
  IN d

(* What the user should see: the cursor is a block unless it is past the end of the line. *)
Frame(c) == IF c.vis /\ c.x < c.w THEN [c.g EXCEPT ![c.y + 1][c.x + 1] = Blank(c.cc)] ELSE c.g

Show(c) == IF c.sync THEN [c EXCEPT !.shown = Frame(c)] ELSE c
(* The cursor takes the foreground color when it moves. *)
Cursor(c) == IF c.vis THEN [c EXCEPT !.cc = Fg(c)] ELSE c
Update(c) == Show(Cursor(c))

OpenLine(c) ==
  IF c.y < c.h - 1 THEN [c EXCEPT !.x = 0, !.y = @ + 1]
  ELSE [c EXCEPT !.x = 0, !.g = [i \in 1 .. c.th |-> IF i < c.h THEN c.g[i + 1] ELSE [j \in 1 .. c.tw |-> Blank(Bg(c))]]]

Put(c, ch) ==
  LET a == IF c.x = c.w THEN OpenLine(c) ELSE c
  IN [a EXCEPT !.g[a.y + 1][a.x + 1] = Cell(ch, Fg(a), Bg(a)), !.x = @ + 1]
Write(c, t) == FoldLeft(Put, c, t)
PrintT2(c, t) == OpenLine(Write(c, t))

Clear(c) == [c EXCEPT !.g = Grid(c, Bg(c)), !.x = 0, !.y = 0]
ClearCols(c, from) == [c EXCEPT !.g[c.y + 1] = [j \in 1 .. c.tw |-> IF j > from THEN Blank(Bg(c)) ELSE @[j]]]

EnterAlt(c) == Clear([c EXCEPT !.alt = <<[g |-> c.g, x |-> c.x, y |-> c.y, fg |-> c.fg, bg |-> c.bg]>>])
LeaveAlt(c) == LET a == c.alt[1] IN [c EXCEPT !.alt = <<>>, !.g = a.g, !.x = a.x, !.y = a.y, !.fg = a.fg, !.bg = a.bg]

(***************************** Reading a line ******************************)

NoLine == [on |-> FALSE]
Dots == <<".", ".", ".">>

(* The visible part of the line always has the cursor in it and only moves when it has to. *)
View(iw, pos, vs) == IF iw = 0 THEN 0 ELSE IF pos < vs THEN pos ELSE IF pos > vs + iw THEN pos - iw ELSE vs
Window(r) == LET t == Sub(r.line, r.vs, r.vs + r.iw) IN IF r.echo THEN t ELSE [i \in 1 .. Len(t) |-> "*"]

(* Shows the line and the cursor: whatever the line once covered is blank. *)
Render(c, r) ==
  LET w == r.pr \o Window(r)
      n == Max2(r.used, Len(w))
      row == [j \in 1 .. c.tw |->
                IF j <= r.x0 \/ j > r.x0 + n THEN c.g[c.y + 1][j]
                ELSE IF j - r.x0 <= Len(w) THEN Cell(w[j - r.x0], Fg(c), Bg(c)) ELSE Blank(Bg(c))]
  IN [c EXCEPT !.g[c.y + 1] = row, !.x = r.x0 + Len(r.pr) + r.pos - r.vs]
Used(r) == [r EXCEPT !.used = Max2(@, Len(r.pr) + Len(Window(r)))]

StartLine(m, prompt, text, hist, echo) ==
  LET w == m.c.w
      pr == IF Len(prompt) < w THEN prompt ELSE IF w >= 5 THEN Sub(prompt, 0, w - 5) \o Dots ELSE <<>>
      iw == Max2(w - Len(pr) - 1, 0)
      h == IF hist THEN Append(m.hist, text) ELSE m.hist
      r == [on |-> TRUE, pr |-> pr, iw |-> iw, line |-> text, pos |-> Len(text), vs |-> View(iw, Len(text), 0), echo |-> echo,
            hist |-> hist, hp |-> Len(h), used |-> 0, x0 |-> m.c.x, text |-> text]
      c == Update(Render(m.c, r))
  IN [m EXCEPT !.r = Used(r), !.hist = h, !.c = IF pr = <<>> /\ text = <<>> THEN @ ELSE [c EXCEPT !.shown = Frame(c)]]

(* What is left of the line reader after it returns. *)
EndLine(m, err) ==
  LET r == m.r
      n == Len(m.hist)
      h == IF ~r.hist THEN m.hist
           ELSE IF err # "" \/ r.line = <<>> THEN SubSeq(m.hist, 1, n - 1)
           ELSE [m.hist EXCEPT ![n] = r.line]
  IN [m EXCEPT !.r = NoLine, !.hist = h, !.err = err, !.ret = IF err = "" THEN <<r.line>> ELSE <<>>,
               !.c = IF err = "" THEN Update(OpenLine(@)) ELSE @]

Edit(m, line, pos) ==
  LET r == [m.r EXCEPT !.line = line, !.pos = pos, !.vs = View(m.r.iw, pos, @)]
  IN [m EXCEPT !.r = Used(r), !.c = Update(Render(@, r))]
Recall(m, hp) ==
  LET h == [m.hist EXCEPT ![m.r.hp] = m.r.line]
      l == h[hp]
      r == [m.r EXCEPT !.line = l, !.hp = hp, !.pos = Len(l), !.vs = View(m.r.iw, Len(l), 0)]
  IN [m EXCEPT !.r = Used(r), !.hist = h, !.c = Update(Render(@, r))]


LineKey(m, k) ==
  LET r == m.r
      l == r.line
      p == r.pos
      n == Len(l)
  IN CASE k \in {"nl", "cr"} -> EndLine(m, "")
       [] k = "int" -> EndLine(m, "int")
       [] k = "eof" /\ n = 0 -> EndLine(m, "eof")
       [] k \in {"eof", "del"} -> IF p < n THEN Edit(m, RemoveAt(l, p + 1), p) ELSE m
       [] k = "bs" -> IF p > 0 THEN Edit(m, RemoveAt(l, p), p - 1) ELSE m
       [] k = "left" -> IF p > 0 THEN Edit(m, l, p - 1) ELSE m
       [] k = "right" -> IF p < n THEN Edit(m, l, p + 1) ELSE m
       [] k = "home" -> IF p # 0 THEN Edit(m, l, 0) ELSE m
       [] k = "end" -> IF p # n THEN Edit(m, l, n) ELSE m
       [] k = "up" -> IF r.hist /\ r.hp > 1 THEN Recall(m, r.hp - 1) ELSE m
       [] k = "down" -> IF r.hist /\ r.hp < Len(m.hist) THEN Recall(m, r.hp + 1) ELSE m
       [] IsChar(k) -> IF r.iw = 0 THEN m ELSE Edit(m, InsertAt(l, p + 1, CharOf(k)), p + 1)
       [] OTHER -> m

(******************************* Statements ********************************)

KeyName(k) ==
  CASE IsChar(k) -> <<CharOf(k)>>
    [] k = "down" -> <<"D", "O", "W", "N">> [] k = "left" -> <<"L", "E", "F", "T">> [] k = "right" -> <<"R", "I", "G", "H", "T">>
    [] k = "up" -> <<"U", "P">> [] k = "bs" -> <<"B", "S">> [] k \in {"cr", "nl"} -> <<"E", "N", "T", "E", "R">> [] k = "del" -> <<"D", "E", "L">>
    [] k = "end" -> <<"E", "N", "D">> [] k = "eof" -> <<"E", "O", "F">> [] k = "esc" -> <<"E", "S", "C">> [] k = "home" -> <<"H", "O", "M", "E">>
    [] k = "int" -> <<"I", "N", "T">> [] k = "pgdn" -> <<"P", "G", "D", "O", "W", "N">> [] k = "pgup" -> <<"P", "G", "U", "P">>
    [] k = "tab" -> <<"T", "A", "B">> [] OTHER -> <<"?">>

(* The text of a PRINT: a comma moves to the next field of 14 columns after at least a space. *)
Pad(t) == LET u == Append(t, " ") IN u \o Spaces((14 - (Len(u) % 14)) % 14)
NumText(t) == IF t[1] = "-" THEN t ELSE <<" ">> \o t
ItemText(m, it) == IF it.k = "var" THEN IF it.t = "i" THEN NumText(m.vars.i) ELSE m.vars[it.t]
                   ELSE IF it.k = "num" THEN NumText(it.t) ELSE it.t
IsNum(m, it) == it.k = "num" \/ (it.k = "var" /\ it.t # "s")
PrintText(m, its) ==
  FoldLeft(LAMBDA t, it :
             LET u == IF it.k = "none" THEN t ELSE t \o ItemText(m, it)
             IN CASE it.sep = "," -> Pad(u)
                  [] it.sep = ";" -> IF it.k # "none" /\ IsNum(m, it) THEN Append(u, " ") ELSE u
                  [] OTHER -> u, <<>>, its)
PrintNl(its) == IF Len(its) = 1 THEN TRUE ELSE its[Len(its)].k # "none"

RECURSIVE TrimEnd(_)
TrimEnd(t) == IF t # <<>> /\ t[Len(t)] = " " THEN TrimEnd(SubSeq(t, 1, Len(t) - 1)) ELSE t

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[i] : i \in 1 .. 10}
RECURSIVE DropZeros(_)
DropZeros(t) == IF Len(t) > 1 /\ t[1] = "0" THEN DropZeros(Tail(t)) ELSE t
IsInt(t) == LET u == IF t # <<>> /\ t[1] \in {"-", "+"} THEN Tail(t) ELSE t
            IN u # <<>> /\ \A i \in 1 .. Len(u) : u[i] \in DigitSet
(* The literals are short, so they always fit. *)
NormInt(t) == LET neg == t[1] = "-"
                  u == DropZeros(IF t[1] \in {"-", "+"} THEN Tail(t) ELSE t)
              IN IF neg /\ u # <<"0">> THEN <<"-">> \o u ELSE u
Lower(t) == [i \in 1 .. Len(t) |->
               LET U == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
                   L == "abcdefghijklmnopqrstuvwxyz"
                   j == {k \in 1 .. 26 : SubSeq(U, k, k) = t[i]}
               IN IF j = {} THEN t[i] ELSE LET k == CHOOSE k \in j : TRUE IN SubSeq(L, k, k)]
Bools == [t |-> {<<"t", "r", "u", "e">>, <<"y", "e", "s">>, <<"y">>}, f |-> {<<"f", "a", "l", "s", "e">>, <<"n", "o">>, <<"n">>}]
True == <<"T", "R", "U", "E">>
False == <<"F", "A", "L", "S", "E">>

(* The value that an answer stands for, if any. *)
Parse(ty, t) ==
  CASE ty = "s" -> <<t>>
    [] ty = "i" -> IF IsInt(t) THEN <<NormInt(t)>> ELSE <<>>
    [] ty = "b" -> IF Lower(t) \in Bools.t THEN <<True>> ELSE IF Lower(t) \in Bools.f THEN <<False>> ELSE <<>>

Retry(ty, t) == Chars("Retry input: Invalid ") \o Chars(IF ty = "i" THEN "integer" ELSE "boolean") \o Chars(" literal ") \o t

(* What the editor shows. *)
EdGrid(c, e) == [i \in 1 .. c.th |->
                  LET t == IF i <= c.h THEN EdRow(e, i, c.w, c.h) ELSE <<>>
                  IN [j \in 1 .. c.tw |-> IF j > Len(t) THEN Blank(DefBg) ELSE IF i = c.h THEN Cell(t[j], 15, 4) ELSE Cell(t[j], DefFg, DefBg)]]
Redraw(m) ==
  LET e == Scroll(m.e, m.c.w, m.c.h)
      c == [m.c EXCEPT !.g = EdGrid(m.c, e), !.x = e.col - e.vc, !.y = e.ln - e.vl, !.vis = TRUE, !.cc = DefFg, !.fg = DefFg, !.bg = -1]
  IN [m EXCEPT !.e = e, !.c = [c EXCEPT !.shown = Frame(c)]]
EditorKey(m, k) ==
  IF k \in {"esc", "int"}
  THEN [m EXCEPT !.ed = FALSE, !.done = TRUE, !.c = Update(LeaveAlt([@ EXCEPT !.sync = m.sync0]))]
  ELSE Redraw([m EXCEPT !.e = EdKey(@, k, m.c.h)])

(* What to do with the line that the reader returned. *)
Answered(m, op) ==
  IF op.o # "input" \/ m.err # "" THEN [m EXCEPT !.done = TRUE]
  ELSE LET l == m.ret[1]
           t == TrimEnd(l)
           v == Parse(op.ty, t)
       IN IF v # <<>> THEN [m EXCEPT !.vars[op.ty] = v[1], !.ret = <<>>, !.done = TRUE]
          ELSE StartLine([m EXCEPT !.c = Update(PrintT2(@, Retry(op.ty, t)))], m.r0.prompt, l, FALSE, TRUE)

NoVars == [s |-> <<>>, i |-> <<"0">>, b |-> False]
InRange(v) == v >= 0 /\ v <= 255

Do(m, op) ==
  LET c == m.c
      a == op.a
      Done(d) == [m EXCEPT !.c = d, !.done = TRUE]
      Fail(e) == [m EXCEPT !.err = e, !.done = TRUE]
  IN CASE op.o = "nop" -> Done(c)
       [] op.o = "cls" -> Done(Update(Clear(c)))
       [] op.o = "clrline" -> Done(Update([ClearCols(c, 0) EXCEPT !.x = 0]))
       [] op.o = "clrprev" -> Done(Update(IF c.x > 0 THEN [c EXCEPT !.x = @ - 1, !.g[c.y + 1][c.x] = Blank(Bg(c))] ELSE c))
       [] op.o = "clreol" -> Done(Update(ClearCols(c, c.x)))
       [] op.o = "color" -> IF \A i \in 1 .. 2 : a[i] = -1 \/ InRange(a[i]) THEN Done([c EXCEPT !.fg = a[1], !.bg = a[2]])
                            ELSE Fail("Color out of range")
       [] op.o = "enter" -> IF c.alt = <<>> THEN Done(Update(EnterAlt(c))) ELSE Fail("Cannot nest alternate screens")
       [] op.o = "leave" -> IF c.alt # <<>> THEN Done(Update(LeaveAlt(c)))
                            ELSE Fail("Cannot leave alternate screen; not entered")
       [] op.o = "hide" -> Done(Show([c EXCEPT !.vis = FALSE]))
       [] op.o = "show" -> Done(IF c.vis THEN Show(c) ELSE Update([c EXCEPT !.vis = TRUE]))
       [] op.o = "locate" -> IF a[1] < 0 THEN Fail("Column out of range")
                             ELSE IF a[2] < 0 THEN Fail("Row out of range")
                             ELSE IF a[1] >= c.w THEN Fail("Column " \o ToString(a[1]) \o " exceeds visible range of " \o ToString(c.w - 1))
                             ELSE IF a[2] >= c.h THEN Fail("Row " \o ToString(a[2]) \o " exceeds visible range of " \o ToString(c.h - 1))
                             ELSE Done(Update([c EXCEPT !.x = a[1], !.y = a[2]]))
       [] op.o = "move" -> Done(Update([c EXCEPT !.x = Max2(0, Min2(c.w - 1, @ + a[1]))]))
       [] op.o = "print" -> Done(Update(PrintT2(c, op.t)))
       [] op.o = "write" -> Done(Update(Write(c, op.t)))
       [] op.o = "sync" -> LET d == [c EXCEPT !.sync = a[1]]
                           IN [Done(IF a[1] THEN Show(d) ELSE d) EXCEPT !.ret = <<IF c.sync THEN "true" ELSE "false">>]
       [] op.o = "syncnow" -> Done([c EXCEPT !.shown = Frame(c)])
       [] op.o = "readline" -> StartLine(m, op.prompt, op.t, op.hist, op.echo)
       [] op.o = "input" -> LET p == IF op.sep = ";" THEN op.prompt \o <<"?", " ">> ELSE op.prompt
                            IN StartLine([m EXCEPT !.r0 = [prompt |-> p]], p, <<>>, FALSE, TRUE)
       [] op.o = "load" -> [Done(c) EXCEPT !.e = [NewEd EXCEPT !.name = op.name, !.lines = op.lines]]
       [] op.o = "setname" -> [Done(c) EXCEPT !.e.name = op.name, !.e.dirty = FALSE]
       [] op.o = "edit" -> IF c.alt # <<>> THEN Fail("Cannot nest alternate screens")
                           ELSE Redraw([m EXCEPT !.ed = TRUE, !.sync0 = c.sync, !.e.lines = IF @ = <<>> THEN <<<<>>>> ELSE @,
                                                 !.c = [EnterAlt(c) EXCEPT !.sync = FALSE]])
       [] op.o = "inkey" -> IF m.keys = <<>> THEN Done(Update(PrintT2(c, <<"[", "]">>)))
                            ELSE [Done(Update(PrintT2(c, <<"[">> \o KeyName(m.keys[1]) \o <<"]">>))) EXCEPT !.keys = Tail(@)]
       [] op.o = "printv" -> LET t == PrintText(m, op.items)
                             IN Done(Update(IF PrintNl(op.items) THEN PrintT2(c, t) ELSE Write(c, t)))
       (* CLEAR restores what the console may have been left in. *)
       [] op.o = "reset" -> LET d == IF c.alt = <<>> THEN c ELSE Update(LeaveAlt(c))
                                e == [d EXCEPT !.fg = -1, !.bg = -1]
                                f == IF e.vis THEN Show(e) ELSE Update([e EXCEPT !.vis = TRUE])
                            IN [Done(Show([f EXCEPT !.sync = TRUE])) EXCEPT !.vars = NoVars]

(******************************** Behaviour ********************************)

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
(* The font does not have some characters. *)
Glyph(ch) == IF ch \in {"é", "ñ", "€", "Ω"} THEN "?" ELSE IF ch \in {"\t", "\n", "\r"} THEN " " ELSE ch
RowText(row) == FoldLeft(LAMBDA a, x : a \o Glyph(x[1]), "", row) \o "\n"
RowAttr(row) == FoldLeft(LAMBDA a, x : LET b == Glyph(x[1]) = " " IN a \o (IF b THEN "-" ELSE Hex[x[2] + 1]) \o Hex[x[3] + 1], "", row) \o "\n"
Picture(g) == FoldLeft(LAMBDA a, row : a \o RowText(row), "", g) \o FoldLeft(LAMBDA a, row : a \o RowAttr(row), "", g)

Str(t) == FoldLeft(LAMBDA a, x : a \o x, "", t)
OpResult(m, op) ==
  [frames |-> Append(m.frames, Picture(m.c.shown)), err |-> m.err, left |-> Len(m.keys),
   ret |-> IF m.ret = <<>> THEN "" ELSE IF op.o = "sync" THEN m.ret[1] ELSE Str(m.ret[1]),
   hasret |-> m.ret # <<>>, text |-> IF op.o = "edit" THEN EdText(m.e) ELSE "", dirty |-> m.e.dirty]

Alpha(p) == Jobs[p].alpha
Depth(p) == IF Alpha(p) = <<>> THEN Len(Jobs[p].ops) ELSE Jobs[p].depth

InitState(p) ==
  LET j == Jobs[p]
      c == NewScreen(j.cw, j.ch, j.rm, j.bm)
  IN [c |-> [c EXCEPT !.shown = Frame(c)], r |-> NoLine, r0 |-> [prompt |-> <<>>], hist |-> <<>>, e |-> NewEd, ed |-> FALSE, sync0 |-> TRUE, vars |-> NoVars, keys |-> <<>>, err |-> "", ret |-> <<>>,
      done |-> TRUE, frames |-> <<>>, ops |-> <<>>, res |-> <<>>, n |-> 0]

Begin(m, op) ==
  Do([m EXCEPT !.keys = op.keys, !.err = "", !.ret = <<>>, !.done = FALSE, !.frames = <<>>, !.ops = Append(@, op)], op)

(* Finishes the current operation or gives it one more key. *)
Run(m) ==
  LET op == m.ops[Len(m.ops)]
  IN IF ~m.r.on /\ ~m.ed THEN Answered(m, op)
     ELSE LET k == IF m.keys = <<>> THEN "eof" ELSE m.keys[1]
              Key(x) == IF m.ed THEN EditorKey(x, k) ELSE LineKey(x, k)
          IN Key([m EXCEPT !.frames = Append(@, Picture(m.c.shown)), !.keys = IF @ = <<>> THEN @ ELSE Tail(@)])

Record(m) == IF m.done THEN [m EXCEPT !.res = Append(@, OpResult(m, m.ops[Len(m.ops)]))] ELSE m

Init == pi \in 1 .. Len(Jobs) /\ s = InitState(pi)
Next == /\ UNCHANGED pi
        /\ IF ~s.done THEN s' = Record([Run(s) EXCEPT !.n = @ + 1])
           ELSE /\ Len(s.ops) < Depth(pi)
                /\ IF Alpha(pi) = <<>> THEN s' = Record([Begin(s, Jobs[pi].ops[Len(s.ops) + 1]) EXCEPT !.n = @ + 1])
                   ELSE \E i \in 1 .. Len(Alpha(pi)) : s' = Record([Begin(s, Alpha(pi)[i]) EXCEPT !.n = @ + 1])
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

(* The cursor is always on the screen or right after the end of a line. *)
CursorOk == s.c.x \in 0 .. s.c.w /\ s.c.y \in 0 .. s.c.h - 1
(* With syncing, the user always sees everything. *)
SyncOk == s.c.sync => s.c.shown = Frame(s.c) \/ (~s.done /\ s.r.on)
(* While a line is read, its cursor and the characters around it are visible. *)
LineOk == s.r.on => /\ s.r.pos \in 0 .. Len(s.r.line)
                    /\ s.r.iw > 0 => s.r.vs <= s.r.pos /\ s.r.pos <= s.r.vs + s.r.iw
                    /\ Len(s.r.pr) + s.r.iw < s.c.w \/ s.r.iw = 0
(* While a program is edited, the insertion point and the status are visible. *)
EditorOk == EdOk(s.e, s.c.w, s.c.h)
EditorShown == s.ed => s.c.shown = Frame(s.c)
(* Moving around changes nothing, and changes make the program dirty until it is saved. *)
MovesKeep == [][ (s.ed /\ s'.ed /\ s'.e.lines # s.e.lines) => s'.e.dirty ]_vars
(* Leaving the alternate screen shows what was there before entering it. *)
AltOk == [][ (s.c.alt # <<>> /\ s'.c.alt = <<>>) => s'.c.g = s.c.alt[1].g /\ s'.c.x = s.c.alt[1].x /\ s'.c.y = s.c.alt[1].y ]_vars
(* The history only grows by non-empty lines that were accepted. *)
HistOk == (~s.r.on) => \A i \in 1 .. Len(s.hist) : s.hist[i] # <<>> \/ \E j \in 1 .. Len(s.ops) : "up" \in {s.ops[j].keys[k] : k \in 1 .. Len(s.ops[j].keys)}

Emit == (s.done /\ Len(s.ops) = Depth(pi)) => PrintT("@@" \o ToJson([p |-> pi, ops |-> IF Alpha(pi) = <<>> THEN <<>> ELSE s.ops, res |-> s.res]))
=============================================================================
