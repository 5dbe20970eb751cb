------------------------------- MODULE Panel -------------------------------
(* A console on an LCD panel whose controller is an ST7735S, reached through an SPI bus and GPIO pins.                  *)
(*                                                                                                                      *)
(* Two state machines run side by side: the canvas that the user draws on, driven by the operations of a session, and   *)
(* the controller of the panel, driven by what the real driver did to its bus and pins (a recorded trace).  The panel   *)
(* must end up showing the canvas after every operation.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)
Fonts == ndJsonDeserialize("fonts.json")

VARIABLES pi, s
vars == <<pi, s>>

W == 128
H == 128
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

(********************************* Colors **********************************)

Base == << <<0, 0, 0>>, <<128, 0, 0>>, <<0, 128, 0>>, <<128, 128, 0>>, <<0, 0, 128>>, <<128, 0, 128>>, <<0, 128, 128>>, <<192, 192, 192>>,
          <<128, 128, 128>>, <<255, 0, 0>>, <<0, 255, 0>>, <<255, 255, 0>>, <<0, 0, 255>>, <<255, 0, 255>>, <<0, 255, 255>>, <<255, 255, 255>> >>
Level == <<0, 95, 135, 175, 215, 255>>
Rgb == [k \in 0 .. 255 |->
          IF k < 16 THEN Base[k + 1]
          ELSE IF k < 232 THEN LET n == k - 16 IN <<Level[n \div 36 + 1], Level[((n \div 6) % 6) + 1], Level[(n % 6) + 1]>>
          ELSE LET v == 8 + 10 * (k - 232) IN <<v, v, v>>]
(* The panel has 5, 6 and 5 bits for red, green and blue. *)
Enc == [k \in 0 .. 255 |-> (Rgb[k][1] \div 8) * 2048 + (Rgb[k][2] \div 4) * 32 + Rgb[k][3] \div 8]
(* Several numbers may have the same color on this panel: pixels read as the first one of them. *)
First(c) == CHOOSE k \in 0 .. 255 : Enc[k] = c /\ \A j \in 0 .. k - 1 : Enc[j] # c

(********************************* Canvas **********************************)

Font(name) == Fonts[CHOOSE i \in 1 .. Len(Fonts) : Fonts[i].name = name]
(* Characters that the fonts lack show as question marks. *)
Glyph(k) == IF k < 32 \/ k > 126 THEN 63 - 32 ELSE k - 32
GlyphAt(f, k, i, j) == (f.data[(Glyph(k) * f.h + j) * f.stride + i \div 8 + 1] \div Pow2[8 - (i % 8)]) % 2 = 1

Fg(c) == Enc[IF c.fg = -1 THEN c.dfg ELSE c.fg]
Bg(c) == Enc[IF c.bg = -1 THEN c.dbg ELSE c.bg]
Cols(c) == W \div c.font.w
Rows(c) == H \div c.font.h
All(k) == LET row == [i \in 1 .. W |-> k] IN [j \in 1 .. H |-> row]

NewCanvas(font, dfg, dbg) ==
  LET c == [font |-> font, dfg |-> dfg, dbg |-> dbg, x |-> 0, y |-> 0, vis |-> TRUE, cc |-> Enc[dfg], fg |-> -1, bg |-> -1, alt |-> <<>>, sync |-> TRUE,
            g |-> <<>>, shown |-> <<>>]
  IN [c EXCEPT !.g = All(Bg(c))]

(* Paints the pixels between two corners, both included, which are on the screen. *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Box(g, x1, y1, x2, y2, k) ==
  [j \in 1 .. H |-> IF j - 1 < y1 \/ j - 1 > y2 THEN g[j] ELSE [i \in 1 .. W |-> IF i - 1 >= x1 /\ i - 1 <= x2 THEN k ELSE g[j][i]]]

Frame(c) ==
  IF c.vis /\ c.x < Cols(c)
  THEN Box(c.g, c.x * c.font.w, c.y * c.font.h, c.x * c.font.w + c.font.w - 1, c.y * c.font.h + c.font.h - 1, c.cc)
  ELSE c.g
Show(c) == IF c.sync THEN [c EXCEPT !.shown = Frame(c)] ELSE c
Cursor(c) == IF c.vis THEN [c EXCEPT !.cc = Fg(c)] ELSE c
Update(c) == Show(Cursor(c))

OpenLine(c) ==
  IF c.y < Rows(c) - 1 THEN [c EXCEPT !.x = 0, !.y = @ + 1]
  ELSE LET blank == [i \in 1 .. W |-> Bg(c)]
       IN [c EXCEPT !.x = 0, !.g = [j \in 1 .. H |-> IF j <= (Rows(c) - 1) * c.font.h THEN c.g[j + c.font.h] ELSE blank]]
Put(c, k) ==
  LET a == IF c.x = Cols(c) THEN OpenLine(c) ELSE c
      f == a.font
      x0 == a.x * f.w
      y0 == a.y * f.h
      Row(j) == [i \in 1 .. W |-> IF i - 1 >= x0 /\ i - 1 < x0 + f.w THEN (IF GlyphAt(f, k, i - 1 - x0, j - 1 - y0) THEN Fg(a) ELSE Bg(a)) ELSE a.g[j][i]]
  IN [a EXCEPT !.g = [j \in 1 .. H |-> IF j - 1 >= y0 /\ j - 1 < y0 + f.h THEN Row(j) ELSE a.g[j]], !.x = @ + 1]
Write(c, t) == FoldLeft(Put, c, t)

OnScreen(x, y) == x >= 0 /\ y >= 0 /\ x < W /\ y < H
Peek(c, x, y) == IF OnScreen(x, y) THEN First(c.g[y + 1][x + 1]) ELSE -1

(* Rectangles do not include their right and bottom sides, unless they are lines; lines are horizontal or vertical here. *)
Rect(c, a) ==
  LET x1 == Min2(a[1], a[3])
      x2 == Max2(a[1], a[3])
      y1 == Min2(a[2], a[4])
      y2 == Max2(a[2], a[4])
      d == IF x1 = x2 \/ y1 = y2 THEN 0 ELSE 1
  IN [c EXCEPT !.g = Box(c.g, x1, y1, x2 - d, y2 - d, Fg(c))]

(* The state of a canvas and an error. *)
Op(c, op) ==
  LET a == op.a
      Ok(d) == [c |-> d, err |-> ""]
  IN CASE op.o = "cls" -> Ok(Update([c EXCEPT !.g = All(Bg(c)), !.x = 0, !.y = 0]))
       [] op.o = "color" -> Ok([c EXCEPT !.fg = a[1], !.bg = a[2]])
       [] op.o = "locate" -> Ok(Update([c EXCEPT !.x = a[1], !.y = a[2]]))
       [] op.o = "write" -> Ok(Update(Write(c, op.codes)))
       [] op.o = "print" -> Ok(Update(OpenLine(Write(c, op.codes))))
       [] op.o = "hide" -> Ok(Show([c EXCEPT !.vis = FALSE]))
       [] op.o = "show" -> Ok(IF c.vis THEN c ELSE Show(Cursor([c EXCEPT !.vis = TRUE])))
       [] op.o = "enter" -> IF c.alt # <<>> THEN [c |-> c, err |-> "Cannot nest alternate screens"]
                            ELSE Ok(Update([c EXCEPT !.alt = <<c>>, !.g = All(Bg(c)), !.x = 0, !.y = 0]))
       [] op.o = "leave" -> IF c.alt = <<>> THEN [c |-> c, err |-> "Cannot leave alternate screen; not entered"]
                            ELSE LET o == c.alt[1]
                                 IN Ok(Update([c EXCEPT !.alt = <<>>, !.g = o.g, !.x = o.x, !.y = o.y, !.fg = o.fg, !.bg = o.bg]))
       [] op.o = "sync" -> Ok(Show([c EXCEPT !.sync = a[1] = 1]))
       [] op.o = "syncnow" -> Ok([c EXCEPT !.shown = Frame(c)])
       [] op.o = "pixel" -> Ok(Show([c EXCEPT !.g = Box(c.g, a[1], a[2], a[1], a[2], Fg(c))]))
       [] op.o = "line" -> Ok(Show([c EXCEPT !.g = Box(c.g, Min2(a[1], a[3]), Min2(a[2], a[4]), Max2(a[1], a[3]), Max2(a[2], a[4]), Fg(c))]))
       [] op.o = "rectf" -> Ok(Show(Rect(c, a)))
       [] OTHER -> Ok(c)

(******************************* Controller ********************************)

CS == 8
RST == 27
DC == 25
BL == 24
(* The registers that this panel needs: frame rate, inversion, power, voltage and gamma. *)
Config == << <<177, <<1, 44, 45>> >>, <<178, <<1, 44, 45>> >>, <<179, <<1, 44, 45, 1, 44, 45>> >>, <<180, <<7>> >>, <<192, <<162, 2, 132>> >>, <<193, <<197>> >>,
             <<194, <<10, 0>> >>, <<195, <<138, 42>> >>, <<196, <<138, 238>> >>, <<197, <<14>> >>,
             <<224, <<15, 26, 15, 24, 47, 40, 32, 34, 31, 27, 35, 55, 0, 7, 2, 16>> >>,
             <<225, <<15, 27, 15, 23, 51, 44, 41, 46, 48, 48, 57, 63, 0, 7, 3, 16>> >>,
             <<240, <<1>> >>, <<246, <<0>> >>,
             \* 16 bits per pixel, and the orientation of the panel.
             <<58, <<5>> >>, <<54, <<104>> >> >>
Blank == [j \in 1 .. H |-> [i \in 1 .. W |-> -1]]
NewCtl == [mode |-> [p \in {} |-> ""], lvl |-> [p \in {} |-> FALSE], regs |-> [r \in {} |-> <<>>], reg |-> -1, awake |-> FALSE, on |-> FALSE, rst |-> "none",
           tr |-> 0, ts |-> -1, win |-> <<0, 0, 0, 0>>, ptr |-> 0, ram |-> Blank, bad |-> ""]
Bad(k, t) == IF k.bad = "" THEN [k EXCEPT !.bad = t] ELSE k
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Has(f, x, v) == x \in DOMAIN f /\ f[x] = v

RECURSIVE Expand(_, _, _)
Expand(r, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN [n \in 1 .. r[i][2] |-> r[i][1]] ELSE LET m == (i + j) \div 2 IN Expand(r, i, m) \o Expand(r, m + 1, j)
(* The pixels in a transfer. *)
Pixels(e) == IF e.rle # <<>> THEN Expand(e.rle, 1, Len(e.rle)) ELSE [n \in 1 .. Len(e.d) \div 2 |-> e.d[2 * n - 1] * 256 + e.d[2 * n]]

(* Memory is written within the window, row after row.  The panel shows the memory from column 1 and row 2. *)
WriteRam(k, e) ==
  LET x1 == k.win[1] - 1
      x2 == k.win[2] - 1
      y1 == k.win[3] - 2
      y2 == k.win[4] - 2
      w == x2 - x1 + 1
      px == Pixels(e)
      At(i, j) == LET n == (j - y1) * w + (i - x1) - k.ptr + 1 IN IF n \in 1 .. Len(px) THEN px[n] ELSE k.ram[j + 1][i + 1]
      r == [j \in 1 .. H |-> IF j - 1 < y1 \/ j - 1 > y2 THEN k.ram[j] ELSE [i \in 1 .. W |-> IF i - 1 < x1 \/ i - 1 > x2 THEN k.ram[j][i] ELSE At(i - 1, j - 1)]]
  IN IF x1 < 0 \/ y1 < 0 \/ x2 >= W \/ y2 >= H \/ x1 > x2 \/ y1 > y2 THEN Bad(k, "window out of the panel")
     ELSE IF e.n % 2 = 1 THEN Bad(k, "half a pixel")
     ELSE IF k.ptr + Len(px) > w * (y2 - y1 + 1) THEN Bad(k, "more pixels than the window has")
     ELSE [k EXCEPT !.ram = r, !.ptr = @ + Len(px)]

Command(k, r, t) ==
  LET a == [k EXCEPT !.reg = r]
  IN IF k.rst # "done" THEN Bad(k, "command before resetting")
     ELSE IF t - k.tr < 5 THEN Bad(k, "command too early after resetting")
     ELSE IF k.ts >= 0 /\ t - k.ts < 120 THEN Bad(k, "command too early after waking up")
     ELSE CASE r = 17 -> [a EXCEPT !.awake = TRUE, !.ts = t]
            [] r = 41 -> IF k.awake THEN [a EXCEPT !.on = TRUE] ELSE Bad(a, "turned on while asleep")
            [] r = 44 -> [a EXCEPT !.ptr = 0]
            [] OTHER -> a

Data(k, e) ==
  CASE k.reg \in {42, 43} ->
         IF Len(e.d) # 4 THEN Bad(k, "bad window")
         ELSE LET p == e.d[1] * 256 + e.d[2]
                  q == e.d[3] * 256 + e.d[4]
              IN [k EXCEPT !.win = IF k.reg = 42 THEN <<p, q, @[3], @[4]>> ELSE <<@[1], @[2], p, q>>]
    [] k.reg = 44 -> WriteRam(k, e)
    [] OTHER -> [k EXCEPT !.regs = Set(@, k.reg, e.d)]

Event(k, e) ==
  IF e.k \in {"in", "indown", "inup", "out", "clear"} THEN [k EXCEPT !.mode = Set(@, e.pin, e.k)]
  ELSE IF e.k = "pin"
  THEN LET a == [k EXCEPT !.lvl = Set(@, e.pin, e.v)]
       IN IF ~Has(k.mode, e.pin, "out") THEN Bad(k, "wrote to a pin that is not an output")
          ELSE IF e.pin = RST
          THEN IF e.v THEN IF k.rst # "low" THEN a
                           ELSE IF e.t - k.tr < 1 THEN Bad(a, "reset was too short")
                           ELSE [a EXCEPT !.rst = "done", !.tr = e.t]
               ELSE [a EXCEPT !.rst = "low", !.tr = e.t, !.regs = [r \in {} |-> <<>>], !.awake = FALSE, !.on = FALSE]
          ELSE a
  ELSE \* A transfer.
       IF ~Has(k.lvl, CS, FALSE) THEN Bad(k, "the chip was not selected")
       ELSE IF DC \notin DOMAIN k.lvl THEN Bad(k, "neither command nor data")
       ELSE IF e.v THEN Data(k, e)
       ELSE FoldLeft(LAMBDA a, r : Command(a, r, e.t), k, e.d)

Visible(k) == k.on /\ k.awake /\ Has(k.lvl, BL, TRUE)
Configured(k) == \A i \in 1 .. Len(Config) : Has(k.regs, Config[i][1], Config[i][2])

(********************************** Keys ***********************************)

Buttons == << <<"6", "up">>, <<"19", "down">>, <<"5", "left">>, <<"26", "right">>, <<"13", "nl">>, <<"21", "=1">>, <<"20", "=2">>, <<"16", "=3">> >>
ButtonPins == {6, 19, 5, 26, 13, 21, 20, 16}
(* Every sample of the buttons adds the keys of those which are pressed, that is, whose levels are low. *)
Pressed(b, n) == {Buttons[i][2] : i \in {i \in 1 .. Len(Buttons) : LET p == Buttons[i][1] IN p \in DOMAIN b /\ n <= Len(b[p]) /\ b[p][n] = "0"}}
Samples(b) == Max({0} \cup {Len(b[p]) : p \in DOMAIN b})
IsButton(k) == \E i \in 1 .. Len(Buttons) : Buttons[i][2] = k
(* The keys of the buttons, whatever their order within a sample. *)
RECURSIVE ButtonsOk(_, _, _)
ButtonsOk(ks, b, n) ==
  IF n > Samples(b) THEN ks = <<>>
  ELSE LET p == Pressed(b, n)
           m == Cardinality(p)
       IN Len(ks) >= m /\ {ks[i] : i \in 1 .. m} = p /\ ButtonsOk(SubSeq(ks, m + 1, Len(ks)), b, n + 1)
KeysOk(ks, op) ==
  LET mine == SelectSeq(ks, IsButton)
      typed == SelectSeq(ks, LAMBDA k : ~IsButton(k))
  IN ButtonsOk(mine, op.buttons, 1) /\ typed = op.typed

(*************************** Console specification ***************************)

(* Flags are settings, the last one of each key, or words.  What the driver does not know is an error. *)
Values(f, key) == LET m == {i \in 1 .. Len(f) : f[i].k = key /\ f[i].kv} IN IF m = {} THEN "" ELSE f[Max(m)].v
Given(f, key) == \E i \in 1 .. Len(f) : f[i].k = key /\ f[i].kv
Known == {"fg_color", "bg_color", "font"}
NumErr(f, key, num) == IF Given(f, key) /\ num[key].err # "" THEN "Invalid console flag " \o key \o ": " \o num[key].err ELSE ""
FontNames == <<"16x16", "5x8", "vga8x16">>
SpecErr(j) ==
  LET f == j.flags
      e1 == NumErr(f, "fg_color", j.num)
      e2 == NumErr(f, "bg_color", j.num)
      font == IF Given(f, "font") THEN Values(f, "font") ELSE "5x8"
  IN IF e1 # "" THEN e1 ELSE IF e2 # "" THEN e2
     ELSE IF \A i \in 1 .. 3 : FontNames[i] # font THEN "Unknown font: " \o font \o "; valid names are: 16x16, 5x8, vga8x16"
     ELSE IF \E i \in 1 .. Len(f) : ~f[i].kv \/ f[i].k \notin Known
     THEN "Console driver " \o j.driver \o " does not recognize flags: " \o FoldLeft(LAMBDA t, w : IF t = "" THEN w ELSE t \o ", " \o w, "", j.unknown)
     ELSE ""
(* The generator sorted the unknown flags; words and settings of the same name are told apart. *)
UnknownOk(j) == LET u == {<<j.flags[i].k, j.flags[i].kv>> : i \in {i \in 1 .. Len(j.flags) : ~j.flags[i].kv \/ j.flags[i].k \notin Known}}
                IN {p[1] : p \in u} = {j.unknown[i] : i \in 1 .. Len(j.unknown)} /\ Cardinality(u) = Len(j.unknown)

(* Resolutions of graphical consoles. *)
Res(v) ==
  LET Bad1(t) == <<"error", 0, 0, t>>
  IN IF ~v.x /\ v.fs /\ v.w.t = "" THEN <<"fs", 0, 0, "">>
     ELSE IF ~v.x THEN Bad1("Invalid resolution " \o v.t \o ": must be of the form [WIDTHxHEIGHT][fs]")
     ELSE IF v.w.err # "" THEN Bad1("Invalid width " \o v.w.t \o " in resolution " \o v.t \o ": " \o v.w.err)
     ELSE IF v.h.err # "" THEN Bad1("Invalid height " \o v.h.t \o " in resolution " \o v.t \o ": " \o v.h.err)
     ELSE <<IF v.fs THEN "full" ELSE "win", v.w.v, v.h.v, "">>

(******************************** Behaviour ********************************)

NumOf(j, key, d) == IF Given(j.flags, key) THEN j.num[key].v ELSE d
J == Jobs[pi]
Start ==
  IF J.real.resolution # Res(J.res) THEN [n |-> 0, why |-> "resolution should be " \o ToString(Res(J.res)), end |-> TRUE]
  ELSE IF SpecErr(J) # "" THEN [n |-> 0, why |-> IF J.real.err = SpecErr(J) THEN "" ELSE "should fail with: " \o SpecErr(J), end |-> TRUE]
  ELSE IF J.real.err # "" THEN [n |-> 0, why |-> "failed", end |-> TRUE]
  ELSE LET f == Font(IF Given(J.flags, "font") THEN Values(J.flags, "font") ELSE "5x8")
           c == Show(NewCanvas(f, NumOf(J, "fg_color", 7), NumOf(J, "bg_color", 0)))
           k == FoldLeft(Event, NewCtl, J.real.results[1].events)
       IN [n |-> 0, end |-> FALSE, c |-> c, k |-> k, armed |-> FALSE, stale |-> FALSE,
           why |-> IF J.real.driver # J.driver THEN "wrong driver"
                   ELSE IF J.real.bus[1] # 0 \/ J.real.bus[2] # 0 \/ J.real.bus[3] > 15000000 \/ J.real.bus[4] \notin {0, 3} THEN "wrong bus"
                   ELSE IF J.real.size # <<Cols(c), Rows(c), W, H, f.w, f.h>> THEN "wrong size"
                   ELSE IF ~(\A p \in ButtonPins : Has(k.mode, p, "inup")) THEN "buttons are not inputs"
                   ELSE ""]

Init == pi \in 1 .. Len(Jobs) /\ s = Start

Judge(c, k, r, op, fails, e) ==
  CASE r.err # e -> "error should be: " \o e
    [] ~fails /\ k.bad # "" -> k.bad
    [] op.o = "peek" /\ ~fails /\ r.peek # Peek(c, op.a[1], op.a[2]) -> "peeked wrong"
    [] op.o = "keys" /\ ~KeysOk(r.keys, op) -> "wrong keys"
    [] OTHER -> ""

Next ==
  /\ UNCHANGED pi
  /\ ~s.end /\ s.why = ""
  /\ LET r == J.real.results[s.n + 2]
         k == FoldLeft(Event, s.k, r.events)
     IN IF s.n < Len(J.ops)
        THEN LET op == J.ops[s.n + 1]
                 m == Op(s.c, op)
                 \* A transfer that fails is reported by the operation that needed it.  What the panel shows is unknown until it is all painted again.
                 fails == s.armed /\ r.err = "bus failed"
                 heals == ~fails /\ op.o = "cls" /\ m.c.sync
             IN s' = [s EXCEPT !.n = @ + 1, !.c = m.c, !.k = [k EXCEPT !.bad = IF fails THEN s.k.bad ELSE @], !.armed = IF op.o = "fault" THEN TRUE ELSE s.armed /\ ~fails,
                               !.stale = fails \/ (s.stale /\ ~heals),
                               !.why = Judge(m.c, k, r, op, fails, IF fails THEN "bus failed" ELSE m.err)]
        ELSE s' = [s EXCEPT !.n = @ + 1, !.k = k, !.end = TRUE, !.why = IF r.err # "" THEN r.err ELSE k.bad]
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

Running == s.why = "" /\ ~s.end
(* The driver did what the session needs and nothing else went wrong. *)
NoComplaint == s.why = ""
(* What was drawn is on the panel, lit, once the controller is set up. *)
ShownOk == (Running /\ ~s.stale) => s.k.ram = s.c.shown
LitOk == Running => Visible(s.k) /\ Configured(s.k)
(* With syncing, the user always sees everything. *)
SyncOk == (Running /\ s.c.sync) => s.c.shown = Frame(s.c)
(* The light goes off when the console is gone. *)
OffOk == (s.end /\ s.n > 0 /\ s.why = "") => ~Visible(s.k)
ChunksOk == (Running /\ s.n = 0) => \A i \in 1 .. Len(J.real.results) : \A e \in {J.real.results[i].events[x] : x \in 1 .. Len(J.real.results[i].events)} : e.longest <= J.max
GenOk == s.n = 0 => UnknownOk(J)

(* Where two pictures differ. *)
Diff == LET d == {p \in (1 .. W) \X (1 .. H) : s.k.ram[p[2]][p[1]] # s.c.shown[p[2]][p[1]]}
            p == CHOOSE p \in d : TRUE
        IN IF d = {} THEN <<>> ELSE <<Cardinality(d), p[1] - 1, p[2] - 1, s.k.ram[p[2]][p[1]], s.c.shown[p[2]][p[1]]>>
Verdict == IF s.why # "" THEN s.why
           ELSE IF ~ChunksOk THEN "transfers longer than the bus allows"
           ELSE IF ~LitOk THEN "the panel is not lit or set up"
           ELSE IF ~OffOk THEN "the panel is still lit"
           ELSE IF ~ShownOk THEN "pixels of the panel are wrong: " \o ToString(Diff)
           ELSE ""
Emit == (Verdict # "" \/ s.end) => PrintT("@@" \o ToJson([p |-> pi, n |-> s.n, why |-> Verdict]))
=============================================================================
