------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* The interactive side of EndBASIC: the storage namespace (drives, paths, *)
(* files), the stored program, the state of the machine across lines of    *)
(* the interpreter, and the commands that connect them.                    *)
(*                                                                         *)
(* A session (Sess) has the initial contents of a scratch disk, a library  *)
(* of program lines and groups of input.  Programs and files are sequences *)
(* of line identifiers; a line stands for the statements in its ops.       *)
(***************************************************************************)
EXTENDS Strs, Json, IOUtils, Functions

Sessions == ndJsonDeserialize(IOEnv.SESSIONS)

VARIABLES pi, s
vars == <<pi, s>>

Lib == Sessions[pi].lib
Groups == Sessions[pi].groups
NoMap == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

DriveOf(m, l) == IF l.d = "" THEN m.cur ELSE l.d
WithExt(p) == IF Has(p, ".") THEN p
              ELSE p \o (IF ~\E i \in 1 .. Len(p) : Ch(p, i) \in {Ch(Lower, j) : j \in 1 .. 26} THEN ".BAS" ELSE ".bas")
(* The full name of a program file: [err, n]. *)
FullName(m, t) ==
  LET l == Loc(t)
  IN IF l.err # "" THEN [err |-> l.err, n |-> ""]
     ELSE IF l.leaf = "" THEN [err |-> "Missing file name in path '" \o t \o "'", n |-> ""]
     ELSE [err |-> "", n |-> DriveOf(m, l) \o ":" \o WithExt(l.p)]

(******************************** Stores ***********************************)
(* Contents are [l, nl] with the lines and whether the last one is         *)
(* terminated, or [bad] for files that are not text.                       *)

Size(c) == IF "bad" \in DOMAIN c THEN 2
           ELSE FoldSeq(LAMBDA x, n : n + Lib[x].b + 1, 0, c.l) - (IF c.nl \/ c.l = <<>> THEN 0 ELSE 1)

NoEnt == "No such file or directory (os error 2)"
NotDir == "Not a directory (os error 20)"
IsDirE == "Is a directory (os error 21)"
ReadOnly == "The demos drive is read-only"

IsSub(m, p, n) == (p \o "/" \o n) \in DOMAIN m.dirs

(* Where a directory drive leads to: a directory, a file or nothing. *)
Parents(p) == IF Has(p, "/") THEN {SubSeq(p, 1, i - 1) : i \in {j \in 1 .. Len(p) : Ch(p, j) = "/"}} ELSE {}
IsFile(m, p) == \E d \in DOMAIN m.dirs : \E n \in DOMAIN m.dirs[d] : p = d \o "/" \o n
DirKind(m, p) == IF p \in DOMAIN m.dirs THEN "dir" ELSE IF IsFile(m, p) THEN "file" ELSE "gone"
NoDir(m, p) == IF DirKind(m, p) = "file" THEN NotDir ELSE NoEnt

(* The outcomes of looking up, writing and deleting a name in a drive. *)
GetFile(m, d, n) ==
  LET v == m.drives[d]
  IN CASE v.k = "mem" -> IF n \in DOMAIN m.mem[v.p] THEN [err |-> "", c |-> m.mem[v.p][n]]
                         ELSE [err |-> "Entry not found"]
       [] v.k = "demos" -> IF ToUpper(n) \in DOMAIN m.demos THEN [err |-> "", c |-> m.demos[ToUpper(n)]]
                           ELSE [err |-> "Demo not found"]
       [] v.k = "dir" -> IF DirKind(m, v.p) # "dir" THEN [err |-> NoDir(m, v.p)]
                         ELSE IF IsSub(m, v.p, n) THEN [err |-> IsDirE]
                         ELSE IF n \in DOMAIN m.dirs[v.p] THEN [err |-> "", c |-> m.dirs[v.p][n]]
                         ELSE [err |-> NoEnt]
PutFile(m, d, n, c) ==
  LET v == m.drives[d]
  IN CASE v.k = "mem" -> [err |-> "", m |-> [m EXCEPT !.mem[v.p] = Put(@, n, c)]]
       [] v.k = "demos" -> [err |-> ReadOnly]
       [] v.k = "dir" -> IF DirKind(m, v.p) # "dir" THEN [err |-> NoDir(m, v.p)]
                         ELSE IF IsSub(m, v.p, n) THEN [err |-> IsDirE]
                         ELSE [err |-> "", m |-> [m EXCEPT !.dirs[v.p] = Put(@, n, c)]]
DelFile(m, d, n) ==
  LET v == m.drives[d]
  IN CASE v.k = "mem" -> IF n \in DOMAIN m.mem[v.p] THEN [err |-> "", m |-> [m EXCEPT !.mem[v.p] = Without(@, n)]]
                         ELSE [err |-> "Entry not found"]
       [] v.k = "demos" -> [err |-> ReadOnly]
       [] v.k = "dir" -> IF DirKind(m, v.p) # "dir" THEN [err |-> NoDir(m, v.p)]
                         ELSE IF IsSub(m, v.p, n) THEN [err |-> IsDirE]
                         ELSE IF n \in DOMAIN m.dirs[v.p] THEN [err |-> "", m |-> [m EXCEPT !.dirs[v.p] = Without(@, n)]]
                         ELSE [err |-> NoEnt]
Files(m, d) == LET v == m.drives[d]
               IN CASE v.k = "mem" -> m.mem[v.p] [] v.k = "demos" -> m.demos
                    [] v.k = "dir" -> IF v.p \in DOMAIN m.dirs THEN m.dirs[v.p] ELSE NoMap
NotMounted(d) == "Drive '" \o d \o "' is not mounted"

(* Resolves a path to a file: [err, d, n]. *)
FileAt(m, t) ==
  LET l == Loc(t)
  IN IF l.err # "" THEN [err |-> l.err]
     ELSE IF l.leaf = "" THEN [err |-> "Missing file name in path '" \o t \o "'"]
     ELSE IF DriveOf(m, l) \notin DOMAIN m.drives THEN [err |-> NotMounted(DriveOf(m, l))]
     ELSE [err |-> "", d |-> DriveOf(m, l), n |-> l.leaf]

(******************************** Machine **********************************)

Say(m, t) == [m EXCEPT !.out = @ \o t \o "\n"]
Oom(m, why) == [m EXCEPT !.st = "oom", !.why = why]
Wipe(m) == [m EXCEPT !.vars = NoMap, !.syms = {}, !.h = FALSE, !.le = ""]
NoRun == [ctx |-> ""]
Idle(m) == [m EXCEPT !.run = NoRun]

(* Compiles statements: [err, syms].  Statements are [line, op] pairs. *)
At(x, c) == ToString(x.line) \o ":" \o ToString(c)
RECURSIVE CompileFrom(_, _, _)
CompileFrom(xs, i, syms) ==
  IF i > Len(xs) THEN [err |-> "", syms |-> syms]
  ELSE LET x == xs[i] o == x.op
       IN CASE o.o = "bad" -> [err |-> At(x, o.c) \o ": " \o o.a, syms |-> syms]
            [] (o.o = "print" \/ (o.o = "inc" /\ o.a # o.b)) /\ o.b \notin syms ->
                 [err |-> At(x, o.vc) \o ": Undefined symbol " \o o.b, syms |-> syms]
            [] o.o \in {"let", "inc"} -> CompileFrom(xs, i + 1, syms \cup {o.a})
            [] OTHER -> CompileFrom(xs, i + 1, syms)
Syntax(xs) == LET b == {i \in 1 .. Len(xs) : xs[i].op.o = "syn"} IN
              IF b = {} THEN "" ELSE LET x == xs[Min(b)] IN At(x, x.op.c) \o ": " \o x.op.a
Compile(m, xs) == IF Syntax(xs) # "" THEN [err |-> Syntax(xs), syms |-> m.syms] ELSE CompileFrom(xs, 1, m.syms)

LineOps(line, ops) == [i \in 1 .. Len(ops) |-> [line |-> line, op |-> ops[i]]]
RECURSIVE TextOps(_, _)
TextOps(ls, i) == IF i > Len(ls) THEN <<>> ELSE LineOps(i, Lib[ls[i]].ops) \o TextOps(ls, i + 1)

(* Ctrl+C: a signal that the machine notices when an asynchronous command is over, in favour of  *)
(* its outcome and of what it asked the machine to do.  In a group with brk, the signal arrives   *)
(* with that many lines of output.                                                                *)
Async == {"clear", "run", "new", "load", "save", "save0", "list", "edit", "copy", "kill", "dir", "dir0"}
Fire(m) == IF m.brk > 0 /\ Count(m.out, "\n") >= m.brk THEN [m EXCEPT !.brk = 0, !.sig = TRUE] ELSE m
BreakMsg == "**** BREAK ****"

(* The end of an execution. *)
Finish(m0, k, msg, code) ==
  LET r == m0.run
      m == Idle(IF r.stored THEN [m0 EXCEPT !.h = FALSE] ELSE m0)
  IN IF k = "break" THEN Say([m EXCEPT !.sig = FALSE], IF r.ctx = "auto" THEN "AUTOEXEC.BAS failed: Break" ELSE BreakMsg)
     ELSE IF r.ctx = "auto" THEN (IF k = "err" THEN Say(m, "AUTOEXEC.BAS failed: " \o msg) ELSE m)
     ELSE IF k = "err" THEN Say(m, "ERROR: " \o msg)
     ELSE IF k = "end" /\ r.stored THEN (IF code # 0 THEN Say(m, "Program exited with code " \o ToString(code)) ELSE m)
     ELSE IF k = "end" THEN [m EXCEPT !.ask = "exit", !.code = code]
     ELSE m

Ok(m0) == LET m == Fire(m0)
          IN IF m.sig /\ m.run.xs[m.run.i].op.o \in Async THEN Finish(m, "break", "", 0) ELSE [m EXCEPT !.run.i = @ + 1]
Fail(m, x, msg) ==
  LET t == At(x, x.op.c) \o ": " \o msg
      m1 == [m EXCEPT !.le = t]
  IN IF m.sig /\ x.op.o \in Async THEN Finish(m1, "break", "", 0)
     ELSE IF m.h THEN Ok(m1) ELSE Finish(m1, "err", t, 0)
(* Clearing the machine also drops the rest of what it was doing. *)
Cleared(m) == IF m.sig THEN Finish(m, "break", "", 0) ELSE LET w == Wipe(m) IN [w EXCEPT !.run.xs = <<>>, !.run.i = 1]

SetProg(m, name, ls, dirty) == [m EXCEPT !.prog = [name |-> name, l |-> ls, dirty |-> dirty]]
TextOf(p) == [l |-> p.l, nl |-> p.l # <<>>]

(* LOAD once the user does not mind losing the current program. *)
DoLoad(m, x) ==
  LET f == FullName(m, x.op.a)
      g == FileAt(m, f.n)
  IN IF f.err # "" THEN Fail(m, x, f.err)
     ELSE IF g.err # "" THEN Fail(m, x, g.err)
     ELSE LET c == GetFile(m, g.d, g.n)
          IN IF c.err # "" THEN Fail(m, x, c.err)
             ELSE IF "bad" \in DOMAIN c.c
             THEN Fail(m, x, "Invalid file content: invalid utf-8 sequence of 1 bytes from index 0")
             ELSE Cleared(SetProg(m, f.n, c.c.l, FALSE))
DoNew(m) == Cleared(SetProg(m, "", <<>>, FALSE))

DoSave(m, x, t) ==
  LET f == FullName(m, t)
      g == FileAt(m, f.n)
  IN IF f.err # "" THEN Fail(m, x, f.err)
     ELSE IF g.err # "" THEN Fail(m, x, g.err)
     ELSE LET r == PutFile(m, g.d, g.n, TextOf(m.prog))
          IN IF r.err # "" THEN Fail(m, x, r.err)
             ELSE Ok(Say([r.m EXCEPT !.prog.name = f.n, !.prog.dirty = FALSE], "Saved as " \o f.n))

DoRun(m) ==
  LET xs == TextOps(m.prog.l, 1)
      w == Wipe(m)
      c == Compile(w, xs)
  IN IF m.sig THEN Finish(m, "break", "", 0)
     ELSE IF \E i \in 1 .. Len(xs) : xs[i].op.o = "opaque" THEN Oom(m, "opaque program")
     ELSE IF c.err # "" THEN Finish(w, "err", c.err, 0)
     ELSE [w EXCEPT !.syms = c.syms, !.run = [@ EXCEPT !.xs = xs, !.i = 1, !.stored = TRUE]]

DoCopy(m, x) ==
  LET a == Loc(x.op.a)
      b == Loc(x.op.b)
      s1 == FileAt(m, x.op.a)
      dd == DriveOf(m, b)
  IN IF a.err # "" THEN Fail(m, x, a.err)
     ELSE IF a.leaf = "" THEN Fail(m, x, "Missing file name in copy source path '" \o x.op.a \o "'")
     ELSE IF b.err # "" THEN Fail(m, x, b.err)
     ELSE IF s1.err # "" THEN Fail(m, x, s1.err)
     ELSE LET c == GetFile(m, s1.d, s1.n)
          IN IF c.err # "" THEN Fail(m, x, c.err)
             ELSE IF dd \notin DOMAIN m.drives THEN Fail(m, x, NotMounted(dd))
             ELSE LET r == PutFile(m, dd, IF b.leaf = "" THEN a.leaf ELSE b.leaf, c.c)
                  IN IF r.err # "" THEN Fail(m, x, r.err) ELSE Ok(r.m)

DoKill(m, x) ==
  LET f == FileAt(m, x.op.a)
  IN IF f.err # "" THEN Fail(m, x, f.err)
     ELSE LET r == DelFile(m, f.d, f.n) IN IF r.err # "" THEN Fail(m, x, r.err) ELSE Ok(r.m)

DoCd(m, x) ==
  LET l == Loc(x.op.a)
  IN IF l.err # "" THEN Fail(m, x, l.err)
     ELSE IF l.leaf # "" THEN Fail(m, x, "Cannot cd to a file")
     ELSE IF l.d # "" /\ l.d \notin DOMAIN m.drives THEN Fail(m, x, NotMounted(l.d))
     ELSE Ok([m EXCEPT !.cur = DriveOf(m, l)])

(* Mounting: what the scheme makes of the rest of the URI. *)
DoMount(m, x) ==
  LET u == x.op.a
      n == x.op.b
      e == {i \in SchemeEnd(u) : \A j \in SchemeEnd(u) : i <= j}
      i == CHOOSE j \in e : TRUE
      scheme == SubSeq(u, 1, i - 1)
      sl == ToLower(scheme)
      p == Rest(u, i + 3)
      made == IF sl # "file" \/ p = "" \/ IsFile(m, p) THEN m
              ELSE [m EXCEPT !.dirs = [q \in DOMAIN @ \cup {p} \cup Parents(p) |->
                                       IF q \in DOMAIN @ THEN @[q] ELSE NoMap]]
      k == ToUpper(n)
  IN IF e = {} \/ i = 1 THEN Fail(m, x, "Mount URI must be of the form scheme://path")
     ELSE IF sl \notin {"memory", "demos", "file"} THEN Fail(m, x, "Unknown mount scheme '" \o scheme \o "'")
     ELSE IF sl = "memory" /\ p # "" THEN Fail(m, x, "Cannot specify a path to mount an in-memory drive")
     ELSE IF sl = "demos" /\ p # "" THEN Fail(m, x, "Cannot specify a path to mount a demos drive")
     ELSE IF sl = "file" /\ p = "" THEN Fail(m, x, "Must specify a directory to mount a disk-backed drive")
     ELSE IF ~ValidDrive(n) THEN Fail(made, x, "Invalid drive name '" \o n \o "'")
     ELSE IF k \in DOMAIN m.drives THEN Fail(made, x, "Drive '" \o n \o "' is already mounted")
     ELSE IF sl = "memory"
     THEN Ok([m EXCEPT !.mem = Append(@, NoMap), !.drives = Put(@, k, [k |-> "mem", p |-> Len(m.mem) + 1, u |-> u])])
     ELSE Ok([made EXCEPT !.drives = Put(@, k, [k |-> IF sl = "file" THEN "dir" ELSE "demos", p |-> p, u |-> u])])
DoUnmount(m, x) ==
  LET n == x.op.a k == ToUpper(x.op.a)
  IN IF ~ValidDrive(n) THEN Fail(m, x, "Invalid drive name '" \o n \o "'")
     ELSE IF k \notin DOMAIN m.drives THEN Fail(m, x, NotMounted(n))
     ELSE IF k = m.cur THEN Fail(m, x, "Cannot unmount the current drive '" \o n \o "'")
     ELSE Ok([m EXCEPT !.drives = Without(@, k)])

MountList(m) ==
  LET names == SortNames(DOMAIN m.drives)
      w == Max({4} \cup {Len(n) : n \in DOMAIN m.drives})
      row(n) == "    " \o PadR(n, w) \o "    " \o m.drives[n].u \o "\n"
  IN "\n    " \o PadR("Name", w) \o "    Target\n"
     \o FoldLeft(LAMBDA t, n : t \o row(n), "", names)
     \o "\n    " \o ToString(Len(names)) \o " drive(s)\n\n"

DirList(m, d, canon) ==
  LET fs == Files(m, d)
      names == SortNames(DOMAIN fs)
      total == FoldLeft(LAMBDA a, n : a + Size(fs[n]), 0, names)
      row(n) == "    DATE    " \o PadL(ToString(Size(fs[n])), 6) \o "    " \o n \o "\n"
  IN "\n    Directory of " \o canon \o "\n\n    Modified              Size    Name\n"
     \o FoldLeft(LAMBDA t, n : t \o row(n), "", names)
     \o (IF names = <<>> THEN "" ELSE "\n")
     \o "    " \o ToString(Len(names)) \o " file(s), " \o ToString(total) \o " bytes\n"
     \o (IF m.drives[d].k = "demos" THEN "    0 of " \o ToString(total) \o " bytes free\n" ELSE "") \o "\n"
DoDir(m, x, t) ==
  LET l == Loc(t)
      d == DriveOf(m, l)
  IN IF l.err # "" THEN Fail(m, x, l.err)
     ELSE IF l.leaf # "" THEN Fail(m, x, "Location '" \o t \o "' is not a directory")
     ELSE IF d \notin DOMAIN m.drives THEN Fail(m, x, NotMounted(d))
     ELSE IF m.drives[d].k = "dir" /\ DirKind(m, m.drives[d].p) = "file" THEN Fail(m, x, NotDir)
     ELSE Ok([m EXCEPT !.out = @ \o DirList(m, d, d \o ":" \o l.p)])

Pwd(m) == "\n    Working directory: " \o m.cur \o ":/\n"
          \o (IF m.drives[m.cur].k = "dir" THEN "    System location: /S/" \o m.drives[m.cur].p \o "/\n"
              ELSE "    No system location available\n") \o "\n"

(* The editor: every operation works on the lines of the program. *)
Edited(p, e) ==
  LET ls == IF p.l = <<>> THEN <<1>> ELSE p.l
      p0 == [p EXCEPT !.l = ls]
  IN CASE e.o = "append" -> [p0 EXCEPT !.l = Append(ls, e.n), !.dirty = TRUE]
       [] e.o = "top" -> [p0 EXCEPT !.l = <<e.n>> \o ls, !.dirty = TRUE]
       [] e.o = "delfirst" ->
            IF Len(ls) > 1 THEN [p0 EXCEPT !.l = Tail(ls), !.dirty = TRUE]
            ELSE IF Lib[ls[1]].t # "" THEN [p0 EXCEPT !.l = <<1>>, !.dirty = TRUE] ELSE p0
       [] e.o = "joinblank" ->
            LET b == {i \in 2 .. Len(ls) : Lib[ls[i]].t = ""}
            IN IF b = {} THEN p0 ELSE [p0 EXCEPT !.l = SubSeq(ls, 1, Min(b) - 1) \o SubSeq(ls, Min(b) + 1, Len(ls)), !.dirty = TRUE]
       [] e.o = "chop" -> IF Lib[ls[1]].ch = 0 THEN p0 ELSE [p0 EXCEPT !.l = <<Lib[ls[1]].ch>> \o Tail(ls), !.dirty = TRUE]
       [] OTHER -> p0
IsOdd(p, e) == \/ (e.o = "append" /\ p.l # <<>> /\ Lib[p.l[Len(p.l)]].ind)
               \/ (e.o = "top" /\ Lib[e.n].t = "" /\ p.l # <<>> /\ Lib[p.l[1]].ind)
               \/ (e.o = "chop" /\ p.l # <<>> /\ Lib[p.l[1]].t # "" /\ Lib[p.l[1]].ch = 0)
               \/ (e.o = "delfirst" /\ p.l # <<>> /\ Lib[p.l[1]].ind)
RECURSIVE EditAll(_, _)
EditAll(m, es) == IF es = <<>> THEN m
                  ELSE IF IsOdd(m.prog, es[1]) THEN Oom(m, "indentation")
                  ELSE EditAll([m EXCEPT !.prog = Edited(@, es[1])], Tail(es))
DoEdit(m, x) ==
  LET m0 == [m EXCEPT !.prog = Edited(@, [o |-> "none"])]
  IN IF m.items = <<>> THEN Fail(m0, x, "EOF")
     ELSE IF m.items[1].k # "edit" THEN Oom(m, "text for the editor")
     ELSE LET r == EditAll([m0 EXCEPT !.items = Tail(@), !.sig = @ \/ m.items[1].int], m.items[1].ops)
          IN IF r.st = "oom" THEN r ELSE Ok(r)

(* Asks before discarding unsaved changes; the answer arrives in the next step. *)
Warn(m, what) ==
  Say([m EXCEPT !.ask = what],
      IF m.prog.name # "" THEN "Current program " \o m.prog.name \o " has unsaved changes!"
      ELSE "Current program has unsaved changes and has never been saved!")

Exec(m) ==
  LET x == m.run.xs[m.run.i]
      o == x.op
  IN CASE o.o = "let" -> Ok([m EXCEPT !.vars = Put(@, o.a, o.n)])
       [] o.o = "inc" -> IF o.b \in DOMAIN m.vars THEN Ok([m EXCEPT !.vars = Put(@, o.a, m.vars[o.b] + 1)])
                         ELSE Oom(m, "uninitialised")
       [] o.o = "print" -> IF o.b \in DOMAIN m.vars
                           THEN Ok(Say(m, (IF m.vars[o.b] < 0 THEN "" ELSE " ") \o ToString(m.vars[o.b])))
                           ELSE Oom(m, "uninitialised")
       [] o.o = "say" -> Ok(Say(m, o.a))
       [] o.o = "errmsg" -> Ok(Say(m, m.le))
       [] o.o = "onnext" -> Ok([m EXCEPT !.h = TRUE])
       [] o.o = "on0" -> Ok([m EXCEPT !.h = FALSE])
       [] o.o = "fail" -> Fail([m EXCEPT !.run.xs[m.run.i].op.c = o.vc], [x EXCEPT !.op.c = o.vc], o.a)
       [] o.o = "end" -> Finish(m, "end", "", o.n)
       [] o.o = "nop" -> Ok(m)
       [] o.o = "clear" -> Cleared(m)
       [] o.o = "run" -> DoRun(m)
       [] o.o = "new" -> IF m.prog.dirty THEN Warn(m, "new") ELSE DoNew(m)
       [] o.o = "load" -> IF m.prog.dirty THEN Warn(m, "load") ELSE DoLoad(m, x)
       [] o.o = "save" -> DoSave(m, x, o.a)
       [] o.o = "save0" -> IF m.prog.name = "" THEN Fail(m, x, "Unnamed program; please provide a filename")
                           ELSE DoSave(m, x, m.prog.name)
       [] o.o = "list" -> Ok([m EXCEPT !.out = FoldLeft(LAMBDA t, n : t \o Lib[n].t \o "\n", @, m.prog.l)])
       [] o.o = "edit" -> DoEdit(m, x)
       [] o.o = "cd" -> DoCd(m, x)
       [] o.o = "pwd" -> Ok([m EXCEPT !.out = @ \o Pwd(m)])
       [] o.o = "copy" -> DoCopy(m, x)
       [] o.o = "kill" -> DoKill(m, x)
       [] o.o = "dir0" -> DoDir(m, x, "")
       [] o.o = "dir" -> DoDir(m, x, o.a)
       [] o.o = "mount" -> DoMount(m, x)
       [] o.o = "mount0" -> Ok([m EXCEPT !.out = @ \o MountList(m)])
       [] o.o = "unmount" -> DoUnmount(m, x)

(* The user's answer to a warning: a line, an interruption or the end of the input. *)
Yes(t) == ToUpper(t) \in {"Y", "YES", "TRUE"}
AtEof(m) == m.items = <<>> \/ m.items[1].k = "eof"
Typed(m) == IF m.inter THEN Say(m, "") ELSE m
Answer(m0) ==
  LET w == m0.ask
      k == IF AtEof(m0) THEN "eof" ELSE m0.items[1].k
      m1 == [m0 EXCEPT !.ask = "", !.items = IF @ = <<>> THEN @ ELSE Tail(@), !.sig = @ \/ k = "int"]
      m == IF k = "line" THEN Fire(Typed(m1)) ELSE m1
      yes == k = "line" /\ Yes(m0.items[1].t)
      x == m.run.xs[m.run.i]
  IN IF k \notin {"line", "eof", "int"} THEN Oom(m, "no answer")
     ELSE IF w = "exit"
     THEN (IF k = "eof" \/ yes THEN [m EXCEPT !.rc = ToString(m.code), !.st = "group"]
           ELSE Say(IF k = "int" THEN Say(m, BreakMsg) ELSE m, "Exit aborted; resuming REPL loop."))
     ELSE IF k = "eof" THEN Fail(m, x, "EOF")
     ELSE IF k = "int" THEN Fail(m, x, "Ctrl+C")
     ELSE IF ~yes THEN Ok(Say(m, (IF w = "new" THEN "NEW" ELSE "LOAD") \o " aborted; use SAVE to save your current changes."))
     ELSE IF w = "new" THEN DoNew(m) ELSE DoLoad(m, x)

(* Starts running statements in the machine. *)
Start(m, ctx, xs) ==
  LET c == Compile(m, xs)
      r == [ctx |-> ctx, xs |-> xs, i |-> 1, stored |-> FALSE]
  IN IF \E i \in 1 .. Len(xs) : xs[i].op.o = "opaque" THEN Oom(m, "opaque program")
     ELSE IF c.err # "" THEN Finish([m EXCEPT !.run = r], "err", c.err, 0)
     ELSE [m EXCEPT !.syms = c.syms, !.run = r]

Autoexec(m) ==
  LET f == GetFile(m, m.cur, "AUTOEXEC.BAS")
  IN IF f.err # ""
     THEN IF f.err \in {"Entry not found", "Demo not found", NoEnt} THEN m
          ELSE Say(m, "AUTOEXEC.BAS exists but cannot be read: " \o f.err)
     ELSE IF "bad" \in DOMAIN f.c THEN Oom(m, "binary")
     ELSE Start(m, "auto", TextOps(f.c.l, 1))

(* Reads the next line of input. *)
ReadLine(m0) ==
  IF m0.items # <<>> /\ m0.items[1].k = "auto" THEN Autoexec([m0 EXCEPT !.items = Tail(@)])
  ELSE LET m == IF m0.inter THEN Say(m0, "Ready") ELSE m0
           m1 == [Fire(m) EXCEPT !.items = IF @ = <<>> THEN @ ELSE Tail(@), !.sig = FALSE]
           e == Say(m1, "End of input by CTRL-D")
       IN IF AtEof(m)
          THEN IF m.inter THEN [e EXCEPT !.ask = "exit", !.code = 0] ELSE [e EXCEPT !.rc = "0", !.st = "group"]
          ELSE CASE m.items[1].k = "line" -> Start([Fire(Typed(m1)) EXCEPT !.sig = FALSE], "repl", LineOps(1, m.items[1].ops))
                 [] m.items[1].k = "int" -> Say(m1, BreakMsg)
                 [] OTHER -> Oom(m, "keys for the interpreter")

(* What is visible between groups of input. *)
Snapshot(m) ==
  [out |-> m.out, rc |-> m.rc, cwd |-> m.cur \o ":/", left |-> Len(m.items),
   drives |-> [d \in DOMAIN m.drives |->
     [u |-> m.drives[d].u, f |-> IF m.drives[d].k = "dir" /\ DirKind(m, m.drives[d].p) = "file"
                                 THEN [x \in {"*"} |-> NotDir] ELSE Files(m, d)]],
   dirs |-> m.dirs, name |-> m.prog.name, l |-> m.prog.l, dirty |-> m.prog.dirty]

NextGroup(m) ==
  LET m1 == Idle([m EXCEPT !.sig = FALSE, !.res = Append(@, Snapshot(m)), !.out = "", !.rc = "", !.ask = "", !.gi = @ + 1])
  IN IF m1.gi > Len(Groups) THEN [m1 EXCEPT !.st = "done", !.items = <<>>]
     ELSE [m1 EXCEPT !.st = "run", !.items = Groups[m1.gi].items, !.brk = Groups[m1.gi].brk]

Step(m) ==
  Fire(CASE m.st = "group" -> NextGroup(m)
    [] m.ask # "" -> IF m.ask = "exit" /\ ~m.prog.dirty THEN [m EXCEPT !.rc = ToString(m.code), !.st = "group"]
                     ELSE IF m.ask = "exit" THEN Warn(m, "exit!")
                     ELSE IF m.ask = "exit!" THEN Answer([m EXCEPT !.ask = "exit"])
                     ELSE Answer(m)
    [] m.run.ctx = "" -> ReadLine(m)
    [] m.run.i > Len(m.run.xs) -> Finish(m, "eof", "", 0)
    [] OTHER -> Exec(m))

InitState(p) ==
  [st |-> "run", why |-> "", inter |-> Sessions[p].inter, gi |-> 1, items |-> Sessions[p].groups[1].items, brk |-> Sessions[p].groups[1].brk, sig |-> FALSE, run |-> NoRun, ask |-> "", code |-> 0,
   drives |-> [x \in {"MEMORY"} |-> [k |-> "mem", p |-> 1, u |-> "memory://"]], cur |-> "MEMORY",
   mem |-> <<NoMap>>, dirs |-> Sessions[p].dirs, demos |-> Sessions[p].demos,
   prog |-> [name |-> "", l |-> <<>>, dirty |-> FALSE], vars |-> NoMap, syms |-> {}, h |-> FALSE, le |-> "",
   out |-> "", rc |-> "", res |-> <<>>, n |-> 0]

Init == pi \in 1 .. Len(Sessions) /\ s = InitState(pi)
Next == /\ s.st \in {"run", "group"}
        /\ s' = IF s.n > 600 THEN Oom(s, "steps") ELSE LET r == Step(s) IN [r EXCEPT !.n = @ + 1]
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

(* There is always a current drive, and drives have canonical names. *)
DrivesOk == /\ s.cur \in DOMAIN s.drives
            /\ \A d \in DOMAIN s.drives : ValidDrive(d) /\ ToUpper(d) = d
(* Variables are always known to the compiler. *)
VarsOk == DOMAIN s.vars \subseteq s.syms
(* Directories exist with their parents, and no file name leads elsewhere. *)
TreeOk == /\ \A p \in DOMAIN s.dirs : Parents(p) \subseteq DOMAIN s.dirs
          /\ \A p \in DOMAIN s.dirs : \A n \in DOMAIN s.dirs[p] : n # "" /\ ~Has(n, "/") /\ n \notin {".", ".."}

(* Unsaved changes only go away when they are saved, edited or given up explicitly. *)
NotLost == [][ (s.prog.dirty /\ s'.prog.l # s.prog.l)
               => \/ s.run.ctx # "" /\ s.run.i <= Len(s.run.xs) /\ s.run.xs[s.run.i].op.o = "edit"
                  \/ s.ask \in {"new", "load"} /\ s.items # <<>> /\ Yes(s.items[1].t) ]_vars
(* Only SAVE cleans a program without replacing it, and then the file has its text. *)
SavedOk == [][ (s.prog.dirty /\ ~s'.prog.dirty /\ s'.prog.l = s.prog.l /\ s.ask = "")
               => LET f == FileAt(s', s'.prog.name)
                  IN f.err = "" /\ GetFile(s', f.d, f.n) = [err |-> "", c |-> TextOf(s'.prog)] ]_vars
(* One step touches at most one file of one store. *)
Changed(f, g) == {n \in DOMAIN f \cup DOMAIN g : n \notin DOMAIN f \/ n \notin DOMAIN g \/ (n \in DOMAIN f \cap DOMAIN g /\ f[n] # g[n])}
OneFile == [][ LET c == UNION {{<<i, n>> : n \in Changed(s.mem[i], s'.mem[i])} : i \in DOMAIN s.mem}
                        \cup UNION {{<<p, n>> : n \in Changed(s.dirs[p], s'.dirs[p])} : p \in DOMAIN s.dirs}
               IN Cardinality(c) <= 1 ]_vars
(* The demos never change. *)
DemosOk == [][ s'.demos = s.demos ]_vars

Emit == s.st \in {"done", "oom"} => PrintT("@@" \o ToJson([p |-> pi, st |-> s.st, why |-> s.why, res |-> s.res, n |-> s.n]))
=============================================================================
