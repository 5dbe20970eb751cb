-------------------------------- MODULE Cli ---------------------------------
(* The command line: what one invocation of the interpreter does, from its arguments to its exit code.                *)
(*                                                                                                                    *)
(* A scenario is a sequence of invocations over the same directories.  Each is a state machine that goes through the  *)
(* phases of an invocation, one step per argument, phase and statement, writes to its outputs and leaves files behind.*)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES pi, s
vars == <<pi, s>>
J == Jobs[pi]
R == J.runs[s.ri]

Ch(t, i) == SubSeq(t, i, i)
Rest(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, Len(t))
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Find(t, p) == {i \in 1 .. Len(t) - Len(p) + 1 : SubSeq(t, i, i + Len(p) - 1) = p}
RECURSIVE Split(_, _)
Split(t, p) == IF Find(t, p) = {} THEN <<t>> ELSE LET i == Min(Find(t, p)) IN <<SubSeq(t, 1, i - 1)>> \o Split(Rest(t, i + Len(p)), p)
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE Upper(_)
Upper(t) == IF t = "" THEN ""
            ELSE LET i == {j \in 1 .. 26 : Ch(Lowers, j) = Ch(t, 1)} IN (IF i = {} THEN Ch(t, 1) ELSE Ch(Uppers, Min(i))) \o Upper(Rest(t, 2))
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE [k |-> "no"]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]

(******************************** Programs *********************************)

(* The text of a statement. *)
Src(x) ==
  CASE x.o = "print" -> "PRINT \"" \o x.t \o "\""
    [] x.o = "pv" -> "PRINT " \o x.t
    [] x.o = "set" -> x.t \o " = " \o ToString(x.n)
    [] x.o = "div" -> "PRINT 1 / 0"
    [] x.o = "syn" -> "PRINT )"
    [] x.o = "unk" -> "PRINT €"
    [] x.o \in {"word", "raw"} -> x.t
    [] x.o = "end" -> IF x.n = -1 THEN "END" ELSE "END " \o ToString(x.n)
    [] x.o = "input" -> "INPUT a$: PRINT a$"
    [] x.o = "scr" -> "PRINT SCRCOLS; SCRROWS"
    [] x.o = "gpio" -> "GPIO_SETUP 1, \"OUT\""
    [] x.o = "loop" -> "WHILE TRUE: WEND"
    [] x.o = "ctrlc" -> x.t
    [] x.o \in {"pwd", "run", "new", "list"} -> Upper(x.o)
    [] x.o \in {"cd", "load", "save", "kill"} -> Upper(x.o) \o " \"" \o x.t \o "\""
    [] OTHER -> ""
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN "" ELSE Src(xs[1]) \o (IF Len(xs) > 1 THEN ": " ELSE "") \o Join(Tail(xs))
LineText(l) == Spaces(l.ind) \o Join(l.xs)
Texts(ls) == [i \in 1 .. Len(ls) |-> LineText(ls[i])]
(* The statements of some lines, with their positions. *)
RECURSIVE Place(_, _, _)
Place(xs, l, c) == IF xs = <<>> THEN <<>> ELSE <<[x |-> xs[1], l |-> l, c |-> c]>> \o Place(Tail(xs), l, c + Len(Src(xs[1])) + 2)
Flat(ls) == FoldLeft(LAMBDA a, i : a \o Place(ls[i].xs, i, ls[i].ind + 1), <<>>, [i \in 1 .. Len(ls) |-> i])

Shell == {"pwd", "run", "new", "list", "cd", "load", "save", "kill"}
(* Why a statement does not compile, and how far into it. *)
Wrong(q, known, shell) ==
  LET x == q.x IN
  CASE x.o = "syn" -> <<6, "Expected comma, semicolon, or end of statement">>
    [] x.o = "unk" -> <<6, "Unknown character: €">>
    [] x.o = "word" -> <<0, "Undefined symbol " \o Upper(x.t)>>
    [] x.o = "raw" /\ Starts(x.t, "#") /\ (q.l > 1 \/ q.c > 1 \/ ~Starts(x.t, "#!")) -> <<0, "Unknown character: #">>
    [] x.o = "end" /\ x.n > 127 -> <<4, "Exit code must be in the 0..127 range">>
    [] x.o = "pv" /\ x.t \notin known -> <<6, "Undefined symbol " \o x.t>>
    [] x.o \in Shell /\ ~shell -> <<0, "Undefined symbol " \o Upper(x.o)>>
    [] x.o = "bad" -> <<0, "I/O error during compilation: stream did not contain valid UTF-8">>
    [] OTHER -> <<>>
Pos(q, d) == ToString(q.l) \o ":" \o ToString(q.c + d) \o ": "
RECURSIVE Check(_, _, _)
(* The first problem of a program and the names that it defines. *)
Check(qs, known, shell) ==
  IF qs = <<>> THEN [err |-> "", known |-> known]
  ELSE LET w == Wrong(qs[1], known, shell)
       IN IF w # <<>> THEN [err |-> Pos(qs[1], w[1]) \o w[2], known |-> known]
          ELSE Check(Tail(qs), IF qs[1].x.o = "set" THEN known \cup {qs[1].x.t} ELSE known, shell)

(******************************** Invocations ******************************)

Fresh(i, fs) ==
  [ri |-> i, ph |-> "parse", toks |-> J.runs[i].args, opts |-> <<>>, free |-> <<>>, dd |-> FALSE,
   fs |-> fs, stdin |-> J.runs[i].stdin, mode |-> "", con |-> "", at |-> "", drv |-> Empty, mem |-> Empty, cwd |-> "LOCAL",
   vars |-> Empty, prog |-> <<>>, code |-> <<>>, stored |-> FALSE, brk |-> FALSE, held |-> FALSE, marks |-> <<>>, out |-> <<>>, err |-> <<>>, rc |-> -1, done |-> <<>>]
Init == pi \in 1 .. Len(Jobs) /\ s = Fresh(1, J.dirs)

Say(m, t) == [m EXCEPT !.out = Append(@, t)]
(* Somebody types these keys, once everything up to here is on the screen. *)
Type(m, keys) == IF R.tty THEN [m EXCEPT !.marks = Append(@, [n |-> Len(m.out), keys |-> keys])] ELSE m
BreakMsg == "**** BREAK ****"
Ctrl(l) == Len(l.xs) = 1 /\ l.xs[1].o = "ctrlc"
Exit(m, rc) == [m EXCEPT !.rc = rc, !.ph = "exit"]
Usage(m, t) == Exit([m EXCEPT !.err = <<"Usage error: " \o t, "Type `endbasic --help` for more information">>], 2)
Fail(m, t) == Exit([m EXCEPT !.err = <<"endbasic: " \o t>>], 1)

(* Arguments. *)
Long(n) == CASE n \in {"h", "help"} -> "help" [] n \in {"i", "interactive"} -> "interactive" [] OTHER -> n
Valued == {"console", "gpio-pins", "local-drive", "service-url"}
Flags == {"help", "version", "interactive"}
Order == <<"help", "version", "console", "gpio-pins", "interactive", "local-drive", "service-url">>
RECURSIVE Cluster(_, _)
Cluster(m, t) ==
  IF t = "" THEN m
  ELSE IF Ch(t, 1) \notin {"h", "i"} THEN Usage(m, "Unrecognized option: '" \o Ch(t, 1) \o "'")
  ELSE Cluster([m EXCEPT !.opts = Append(@, <<Long(Ch(t, 1)), "">>)], Rest(t, 2))
Parse(m) ==
  LET t == m.toks[1]
      n == [m EXCEPT !.toks = Tail(@)]
  IN IF m.dd \/ t \in {"", "-"} \/ Ch(t, 1) # "-" THEN [n EXCEPT !.free = Append(@, t)]
     ELSE IF t = "--" THEN [n EXCEPT !.dd = TRUE]
     ELSE IF Starts(t, "--")
     THEN LET eq == Find(t, "=")
              name == IF eq = {} THEN Rest(t, 3) ELSE SubSeq(t, 3, Min(eq) - 1)
              val == IF eq = {} THEN "" ELSE Rest(t, Min(eq) + 1)
              o == Long(name)
          IN IF o \in Flags
             THEN IF eq # {} THEN Usage(n, "Option '" \o name \o "' does not take an argument") ELSE [n EXCEPT !.opts = Append(@, <<o, "">>)]
             ELSE IF o \notin Valued THEN Usage(n, "Unrecognized option: '" \o name \o "'")
             ELSE IF eq # {} THEN [n EXCEPT !.opts = Append(@, <<o, val>>)]
             ELSE IF n.toks = <<>> THEN Usage(n, "Argument to option '" \o name \o "' missing")
             ELSE [n EXCEPT !.opts = Append(@, <<o, n.toks[1]>>), !.toks = Tail(@)]
     ELSE Cluster(n, Rest(t, 2))
Times(m, o) == Cardinality({i \in 1 .. Len(m.opts) : m.opts[i][1] = o})
Given(m, o) == Times(m, o) > 0
Val(m, o) == m.opts[CHOOSE i \in 1 .. Len(m.opts) : m.opts[i][1] = o][2]
Twice(m) == {i \in 1 .. Len(Order) : Times(m, Order[i]) > 1}
(* The one-letter names are the ones that messages use, if they were given. *)
Parsed(m) ==
  IF Twice(m) # {} THEN Usage(m, "Option '" \o (LET o == Order[Min(Twice(m))] IN o) \o "' given more than once")
  ELSE IF Given(m, "help") THEN Exit([m EXCEPT !.out = <<"@help">>], 0)
  ELSE IF Given(m, "version") THEN Exit([m EXCEPT !.out = <<"EndBASIC " \o J.version, "@copyright", "@license">>], 0)
  ELSE IF Len(m.free) > 1 THEN Usage(m, "Too many arguments")
  ELSE IF m.free = <<>> THEN [m EXCEPT !.mode = "repl", !.ph = "console"]
  ELSE IF Given(m, "interactive") THEN [m EXCEPT !.mode = "inter", !.ph = "console"]
  ELSE [m EXCEPT !.mode = "script", !.ph = "prop"]

(* The files of the scenario, by path. *)
At(m, p) == LET d == {x \in DOMAIN m.fs : Starts(p, x \o "/") /\ Find(Rest(p, Len(x) + 2), "/") = {}}
            IN IF p \in DOMAIN m.fs THEN [k |-> "dir"]
               ELSE IF d = {} THEN [k |-> "no"]
               ELSE LET x == CHOOSE x \in d : TRUE IN Get(m.fs[x], Rest(p, Len(x) + 2))
Script(m) == At(m, IF Starts(m.free[1], "@S/") THEN m.free[1] ELSE "@S/cwd/" \o m.free[1])
OsErr(k) == CASE k = "no" -> "No such file or directory (os error 2)" [] OTHER -> "Is a directory (os error 21)"
Bad(l) == \E i \in 1 .. Len(l.xs) : l.xs[i].o = "bad"
PropLine(m) ==
  LET f == Script(m)
      Skip == [m EXCEPT !.ph = "console"]
  IN IF f.k # "ok" THEN Fail(m, OsErr(f.k))
     ELSE IF f.lines = <<>> THEN Skip
     ELSE IF Bad(f.lines[1]) THEN Fail(m, "stream did not contain valid UTF-8")
     ELSE IF ~Starts(LineText(f.lines[1]), "#!") \/ Len(f.lines) = 1 THEN Skip
     ELSE IF Bad(f.lines[2]) THEN Fail(m, "stream did not contain valid UTF-8")
     ELSE LET t == LineText(f.lines[2])
              c == IF Starts(t, "' ") THEN Rest(t, 3) ELSE IF Len(t) >= 4 /\ Upper(SubSeq(t, 1, 4)) = "REM " THEN Rest(t, 5) ELSE ""
          IN IF ~Starts(c, "endbasic cli: ") THEN Skip
             ELSE LET p == Rest(c, 15)
                  IN IF ~Starts(p, "console=") THEN Fail(m, "Invalid EndBASIC propline: " \o t)
                     ELSE IF p = "console=" THEN Fail(m, "Invalid EndBASIC propline: missing console specification")
                     ELSE [Skip EXCEPT !.con = Rest(p, 9)]
Console(m) ==
  LET c == IF Given(m, "console") THEN Val(m, "console") ELSE IF m.con # "" THEN m.con ELSE "text"
      i == Find(c, ":")
      d == IF i = {} THEN c ELSE SubSeq(c, 1, Min(i) - 1)
      fl == {x \in ToSet(IF i = {} THEN <<>> ELSE Split(Rest(c, Min(i) + 1), ",")) : x # ""}
      keys == {Split(x, "=")[1] : x \in fl}
  IN IF c = "" THEN Fail(m, "Invalid --console flag: missing console specification")
     ELSE IF d = "sdl" THEN Fail(m, "SDL support not compiled in")
     ELSE IF d = "st7735s" THEN Fail(m, "ST7735S support not compiled in")
     ELSE IF d # "text" THEN Fail(m, "Unknown console driver " \o d)
     ELSE IF fl # {} THEN Fail(m, "@Invalid --console flag: Console driver text does not recognize ")
     ELSE [m EXCEPT !.ph = "pins"]
Pins(m) ==
  LET p == IF Given(m, "gpio-pins") THEN Val(m, "gpio-pins") ELSE "noop"
  IN IF p = "rppal" THEN Usage(m, "--gpio-pins=rppal requires the rpi feature to be compiled in")
     ELSE IF p \notin {"mock", "noop"} THEN Usage(m, "Unknown --gpio-pins backend: " \o p)
     ELSE [m EXCEPT !.ph = IF m.mode = "script" THEN "open" ELSE "storage"]
Default == "file://" \o (IF J.xdg THEN "@S/xdocs/endbasic" ELSE "@S/home/Documents/endbasic")
(* Mounts a drive of this kind; its place is a directory or nothing, if it is not on disk. *)
Mount(m, kind, place) ==
  LET n == [m EXCEPT !.drv = [LOCAL |-> kind, MEMORY |-> "~mem", DEMOS |-> "~demos"], !.mem = [LOCAL |-> Empty, MEMORY |-> Empty], !.ph = "service"]
  IN IF place = "" \/ place \in DOMAIN m.fs THEN n ELSE [n EXCEPT !.fs = With(@, place, Empty)]
RECURSIVE Trim(_)
Trim(p) == IF Ch(p, Len(p)) = "/" THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
Storage(m) ==
  LET u == IF Given(m, "local-drive") THEN Val(m, "local-drive") ELSE Default
      i == Find(u, "://")
      sc == IF i = {} THEN "" ELSE SubSeq(u, 1, Min(i) - 1)
      tg == IF i = {} THEN "" ELSE Rest(u, Min(i) + 3)
  IN IF i = {} THEN Fail(m, "Mount URI must be of the form scheme://path")
     ELSE CASE Upper(sc) = "MEMORY" -> IF tg # "" THEN Fail(m, "Cannot specify a path to mount an in-memory drive") ELSE Mount(m, "~mem", "")
            [] Upper(sc) = "DEMOS" -> IF tg # "" THEN Fail(m, "Cannot specify a path to mount a demos drive") ELSE Mount(m, "~demos", "")
            [] Upper(sc) = "FILE" -> IF tg = "" THEN Fail(m, "Must specify a directory to mount a disk-backed drive")
                              ELSE LET p == Trim(tg) IN IF \E j \in Find(p, "/") : At(m, SubSeq(p, 1, j - 1)).k = "ok" THEN Fail(m, "Not a directory (os error 20)")
                                                        ELSE Mount(m, p, p)
            [] OTHER -> Fail(m, "Unknown mount scheme '" \o sc \o "'")
(* The address that the scenario serves is "@U". *)
Service(m) ==
  LET u == IF Given(m, "service-url") THEN Val(m, "service-url") ELSE "https://default"
      i == Find(u, "://")
      path == IF i = {} THEN "" ELSE LET r == Rest(u, Min(i) + 3) IN IF Find(r, "/") = {} THEN "" ELSE Rest(r, Min(Find(r, "/")) + 1)
  IN IF u # "@U" /\ i = {} THEN Fail(m, "Invalid base API address: relative URL without a base")
     ELSE IF path # "" THEN Fail(m, "Invalid base API address: cannot contain a path")
     ELSE [m EXCEPT !.ph = IF m.mode = "repl" THEN "welcome" ELSE "open"]

(* Running code. *)
Wipe(m) == [m EXCEPT !.vars = Empty]
Load(m, qs) == LET c == Check(qs, DOMAIN m.vars, m.mode # "script")
               IN IF c.err # "" THEN <<c.err, m>> ELSE <<"", [m EXCEPT !.code = qs, !.stored = FALSE]>>
Cloud(m) == m.mode = "inter" /\ Starts(m.free[1], "cloud://")
(* How the end of the code that runs shows, depending on who runs it. *)
Ended(m, how, t, rc) ==
  LET n == [m EXCEPT !.code = <<>>]
  IN CASE n.ph = "script" -> (CASE how = "err" -> Fail(n, t) [] how = "brk" -> Exit(n, 130) [] OTHER -> Exit(n, rc))
       [] n.ph = "cloud" -> LET o == Say(n, "")
                            IN (CASE how = "err" -> Exit(Say(o, "**** ERROR: " \o t \o " ****"), 1)
                                  [] how = "brk" -> Exit(Say(o, "**** Program stopped due to BREAK ****"), 130)
                                  [] OTHER -> Exit(Say(o, "**** Program exited due to EOF ****"), 0))
       [] n.ph = "auto" -> [(IF how = "brk" THEN Say(n, t \o "AUTOEXEC.BAS failed: Break") ELSE IF how = "err" THEN Say(n, "AUTOEXEC.BAS failed: " \o t) ELSE n) EXCEPT !.ph = "repl"]
       [] OTHER -> (CASE how = "err" -> [Say(n, "ERROR: " \o t) EXCEPT !.ph = "repl"]
                      [] how = "end" -> Exit(n, rc)
                      [] how = "brk" -> [Say(n, t \o BreakMsg) EXCEPT !.ph = "repl"]
                      [] OTHER -> [n EXCEPT !.ph = "repl"])
Err(m, q, d, t) == Ended(m, "err", Pos(q, d) \o t, 1)
Next1(m) == [m EXCEPT !.code = Tail(@)]
Drop(m) == [Wipe(m) EXCEPT !.code = <<>>, !.stored = FALSE]
WithExt(t) == t \o ".bas"
(* The drive and name of a file. *)
Loc(m, t) == LET i == Find(t, ":") IN IF i = {} THEN <<m.cwd, t>> ELSE <<Upper(SubSeq(t, 1, Min(i) - 1)), Rest(t, Min(i) + 1)>>
FileOf(m, d, n) ==
  CASE m.drv[d] = "~demos" -> [k |-> "no"]
    [] m.drv[d] = "~cloud" -> Get(J.cloud, m.at \o "/" \o n)
    [] m.drv[d] = "~mem" -> Get(m.mem[d], n)
    [] OTHER -> Get(m.fs[m.drv[d]], n)
NotThere == "Not there (server code: 404 Not Found)"
Missing(m, d) == IF m.drv[d] = "~demos" THEN "Demo not found" ELSE IF m.drv[d] = "~cloud" THEN NotThere ELSE IF m.drv[d] = "~mem" THEN "@Entry not found" ELSE OsErr("no")
Put(m, d, n, f) == IF m.drv[d] = "~mem" THEN [m EXCEPT !.mem[d] = With(@, n, f)] ELSE [m EXCEPT !.fs[m.drv[d]] = With(@, n, f)]
Del(m, d, n) == IF m.drv[d] = "~mem" THEN [m EXCEPT !.mem[d] = Without(@, n)] ELSE [m EXCEPT !.fs[m.drv[d]] = Without(@, n)]
Doable(f) == \A i \in 1 .. Len(f.lines) : ~Bad(f.lines[i])
Exec(m) ==
  LET q == m.code[1]
      x == q.x
      n == Next1(m)
      l == Loc(m, x.t)
      name == IF x.o = "kill" THEN l[2] ELSE WithExt(l[2])
      f == FileOf(m, l[1], name)
      ro == m.drv[l[1]] \in {"~demos", "~cloud"}
      denied == IF m.drv[l[1]] = "~demos" THEN "The demos drive is read-only" ELSE "Not logged in yet"
  IN CASE x.o = "print" -> Say(n, x.t)
       [] x.o = "pv" -> Say(n, (IF m.vars[x.t] < 0 THEN "" ELSE " ") \o ToString(m.vars[x.t]))
       [] x.o = "set" -> [n EXCEPT !.vars = With(@, x.t, x.n)]
       [] x.o = "div" -> Err(m, q, 8, "Division by zero")
       [] x.o = "end" -> (IF ~m.stored THEN Ended(m, "end", "", IF x.n = -1 THEN 0 ELSE x.n)
                          ELSE Ended(IF x.n > 0 THEN Say(m, "Program exited with code " \o ToString(x.n)) ELSE m, "eof", "", 0))
       [] x.o = "input" -> (IF m.stdin = <<>> THEN Err(Type(m, "^D"), q, 0, "EOF")
                            ELSE IF Ctrl(m.stdin[1]) THEN Ended([Type(m, LineText(m.stdin[1]) \o "^C") EXCEPT !.stdin = Tail(@), !.brk = TRUE], "brk", LineText(m.stdin[1]), 130)
                            ELSE LET t == LineText(m.stdin[1]) IN Say([(IF R.tty THEN Say(Type(n, t \o "^M"), t) ELSE n) EXCEPT !.stdin = Tail(@)], t))
       [] x.o = "scr" -> Say(n, " " \o ToString(R.cols) \o "  " \o ToString(R.rows))
       [] x.o = "gpio" -> (IF Given(m, "gpio-pins") /\ Val(m, "gpio-pins") = "mock" THEN n ELSE Err(m, q, 0, "GPIO backend not compiled in"))
       [] x.o = "loop" -> Ended([Type(m, "^C") EXCEPT !.brk = TRUE, !.held = TRUE], "brk", "", 130)
       [] x.o = "pwd" -> [n EXCEPT !.out = @ \o <<"", "    Working directory: " \o m.cwd \o ":/",
                                                   IF Ch(m.drv[m.cwd], 1) = "~" THEN "    No system location available" ELSE "    System location: " \o m.drv[m.cwd] \o "/", "">>]
       [] x.o = "cd" -> (IF Upper(SubSeq(x.t, 1, Len(x.t) - 1)) \in DOMAIN m.drv THEN [n EXCEPT !.cwd = Upper(SubSeq(x.t, 1, Len(x.t) - 1))]
                         ELSE Err(m, q, 0, "Drive '" \o Upper(SubSeq(x.t, 1, Len(x.t) - 1)) \o "' is not mounted"))
       [] x.o = "load" -> (CASE f.k = "no" -> Err(m, q, 0, Missing(m, l[1]))
                             [] f.k = "dir" -> Err(m, q, 0, OsErr("dir"))
                             [] ~Doable(f) -> Err(m, q, 0, "@Invalid file content: invalid utf-8")
                             [] OTHER -> [Drop(m) EXCEPT !.prog = f.lines])
       [] x.o = "new" -> [Drop(m) EXCEPT !.prog = <<>>]
       [] x.o = "run" -> (LET c == Check(Flat(m.prog), {}, m.mode # "script")
                          IN IF c.err # "" THEN Ended(Wipe(m), "err", c.err, 1)
                             ELSE [Wipe(m) EXCEPT !.code = Flat(m.prog), !.stored = TRUE])
       [] x.o = "list" -> [n EXCEPT !.out = @ \o Texts(m.prog)]
       [] x.o = "save" -> (IF ro THEN Err(m, q, 0, denied)
                           ELSE IF f.k = "dir" THEN Err(m, q, 0, OsErr("dir"))
                           ELSE Say(Put(n, l[1], name, [k |-> "ok", lines |-> m.prog]), "Saved as " \o l[1] \o ":" \o name))
       [] x.o = "kill" -> (IF ro THEN Err(m, q, 0, denied)
                           ELSE IF f.k = "no" THEN Err(m, q, 0, Missing(m, l[1]))
                           ELSE IF f.k = "dir" THEN Err(m, q, 0, OsErr("dir"))
                           ELSE Del(n, l[1], name))
       [] OTHER -> n
Start(m, ph, ls) ==
  LET n == [m EXCEPT !.ph = ph]
      c == Load(n, Flat(ls))
  IN IF c[1] # "" THEN Ended(n, "err", c[1], 1) ELSE c[2]
Open(m) ==
  IF Cloud(m)
  THEN LET p == Rest(m.free[1], 9)
           i == Find(p, "/")
       IN IF i = {} THEN Exit(Say(m, "Invalid program to run '" \o p \o "'; must be of the form 'username/path'"), 1)
          ELSE LET u == SubSeq(p, 1, Min(i) - 1)
                   n == Rest(p, Min(i) + 1)
                   o == [m EXCEPT !.out = <<"Mounting cloud://" \o u \o " as AUTORUN...", "Loading AUTORUN:/" \o n \o "...">>, !.cwd = "AUTORUN", !.drv = With(m.drv, "AUTORUN", "~cloud"), !.at = u]
                   f == Get(J.cloud, u \o "/" \o n)
               IN IF f.k = "no" THEN Fail(o, NotThere)
                  ELSE IF ~Doable(f) THEN Exit(Say(o, "@Invalid program to run 'AUTORUN:/" \o n \o "': invalid utf-8"), 1)
                  ELSE LET c == [o EXCEPT !.ph = "cloud", !.out = @ \o <<"Starting...", "">>, !.prog = f.lines, !.stored = TRUE]
                           k == Check(Flat(f.lines), {}, TRUE)
                       IN IF k.err # "" THEN Ended(c, "err", k.err, 1) ELSE [c EXCEPT !.code = Flat(f.lines)]
  ELSE LET f == Script(m) IN IF f.k = "no" THEN Fail(m, OsErr("no")) ELSE IF f.k = "dir" THEN Fail(m, "1:1: I/O error during compilation: " \o OsErr("dir")) ELSE Start(m, "script", f.lines)
Banner == IF R.cols < 50 THEN <<"EndBASIC " \o J.version, "">>
          ELSE <<"", "    EndBASIC " \o J.version, "@    Copyright", "", "    Type HELP for interactive usage information.", "">>
Welcome(m) ==
  LET n == [m EXCEPT !.out = Banner]
      f == FileOf(m, "LOCAL", "AUTOEXEC.BAS")
  IN CASE f.k = "ok" -> Start(n, "auto", f.lines)
       [] f.k = "dir" -> [Say(n, "AUTOEXEC.BAS exists but cannot be read: " \o OsErr("dir")) EXCEPT !.ph = "repl"]
       [] OTHER -> [n EXCEPT !.ph = "repl"]
Repl(m) ==
  LET n == IF R.tty THEN Say(m, "Ready") ELSE m
      l == m.stdin[1]
      t == LineText(l)
      o == [n EXCEPT !.stdin = Tail(@)]
  IN (* The key that interrupted a program is still there to be read. *)
     IF m.held THEN [Say(n, BreakMsg) EXCEPT !.held = FALSE]
     ELSE IF m.stdin = <<>> THEN Exit(Say(Type(n, "^D"), "End of input by CTRL-D"), 0)
     ELSE IF Ctrl(l) THEN Say(Type(o, l.xs[1].t \o "^C"), l.xs[1].t \o BreakMsg)
     ELSE Start(IF R.tty THEN Say(Type(o, t \o "^M"), t) ELSE o, "line", <<l>>)

Result(m) == [marks |-> m.marks, out |-> m.out, err |-> m.err, rc |-> m.rc]
Step(m) ==
  CASE m.ph = "parse" -> IF m.toks = <<>> THEN Parsed(m) ELSE Parse(m)
    [] m.ph = "prop" -> PropLine(m)
    [] m.ph = "console" -> Console(m)
    [] m.ph = "pins" -> Pins(m)
    [] m.ph = "storage" -> Storage(m)
    [] m.ph = "service" -> Service(m)
    [] m.ph = "open" -> Open(m)
    [] m.ph = "welcome" -> Welcome(m)
    [] m.ph = "repl" -> Repl(m)
    [] m.ph \in {"script", "cloud", "auto", "line"} -> IF m.code # <<>> THEN Exec(m) ELSE Ended(m, "eof", "", 0)
    [] m.ph = "exit" -> LET d == Append(m.done, Result(m))
                        IN IF m.ri = Len(J.runs) THEN [m EXCEPT !.ph = "over", !.done = d] ELSE [Fresh(m.ri + 1, m.fs) EXCEPT !.done = d]
FsOut(m) == [d \in DOMAIN m.fs |-> [n \in DOMAIN m.fs[d] |-> IF m.fs[d][n].k = "ok" THEN Texts(m.fs[d][n].lines) ELSE <<"@" \o m.fs[d][n].k>>]]
Next ==
  \/ s.ph # "over" /\ s' = Step(s) /\ UNCHANGED pi
     /\ (s'.ph = "over" => PrintT("@@" \o ToJson([id |-> J.id, runs |-> s'.done, dirs |-> DOMAIN s'.fs, fs |-> FsOut(s')])))
  \/ s.ph = "over" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(******************************** Properties *******************************)

(* What a run may leave: mistakes in the usage run nothing, and neither they nor scripts touch the drives. *)
UsageIsClean == s.rc = 2 /\ s.mode # "repl" => s.out = <<>>
QuietSuccess == s.ph = "exit" => (s.rc \in 0 .. 130 /\ (s.rc = 0 => s.err = <<>>) /\ (s.rc \in {1, 2} /\ s.err = <<>> => s.mode # ""))
StepPure == [][(s.ph \in {"parse", "prop", "console", "pins", "service", "open", "welcome", "repl"} \/ s.mode = "script") /\ s.ph # "exit" => s'.fs = s.fs]_vars
Keeps == [][s'.ri = s.ri => (IsPrefix(s.out, s'.out) /\ IsSuffix(s'.stdin, s.stdin))]_vars
=============================================================================
