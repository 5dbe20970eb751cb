-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Dynamic semantics of the EndBASIC language, as seen by an interactive   *)
(* session that feeds chunks of source code to one machine.                *)
(*                                                                         *)
(* Each step executes one statement, or the part of one statement up to    *)
(* the next call to a user-defined callable.  An expression is evaluated   *)
(* by a stack of pending tasks `ks` and a stack of values `vs`, so that a  *)
(* callable can interrupt it anywhere.                                     *)
(*                                                                         *)
(* pc is one of                                                            *)
(*   <<"s", id>>   about to execute statement id                           *)
(*   <<"g", id>>   about to test the guard at the head of loop id          *)
(*   <<"w", id>>   reached the end of the body of loop id                  *)
(*   <<"ret">>     reached the end of the body of a callable               *)
(*   <<"run">>     a callable returned: continue with the pending tasks    *)
(*   <<"eof">>     ran out of statements                                   *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils

(* The programs to interpret, one per line of a file. *)
Progs == ndJsonDeserialize(IOEnv.PROGS)

VARIABLES pi,                              \* which program
          s                                \* the state of the machine (a record)
vars == <<pi, s>>

MaxSteps == 1500
MaxFrames == 4096

St == Progs[pi].st
Chunks == Progs[pi].chunks

(*************************** Control structure *****************************)

RECURSIVE NextChunk(_, _)
NextChunk(m, c) == IF c > m.ci THEN <<"eof">>
                   ELSE IF c \in m.loaded /\ Chunks[c].first # 0 THEN <<"s", Chunks[c].first>>
                   ELSE NextChunk(m, c + 1)

(* What follows statement id. *)
RECURSIVE After(_, _)
After(m, id) ==
  LET x == St[id]
  IN IF x.nx # 0 THEN <<"s", x.nx>>
     ELSE IF x.p = 0 THEN NextChunk(m, x.ch + 1)
     ELSE CASE St[x.p].k \in {"if", "select"} -> After(m, x.p)
            [] St[x.p].k \in {"while", "do", "for"} -> <<"w", x.p>>
            [] St[x.p].k = "sub" -> <<"ret">>
(* The start of a body, which may be empty. *)
BodyOf(m, first, empty) == IF first = 0 THEN empty ELSE <<"s", first>>

(******************************* Variables *********************************)

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Unk
IsLocal(m, n) == Has(m.sy.loc[m.sc], n)
VarVal(m, n) == IF IsLocal(m, n) THEN Get(m.loc, n) ELSE Get(m.glob, n)
SetVar(m, n, v) == IF IsLocal(m, n) THEN [m EXCEPT !.loc = Put(@, n, v)]
                   ELSE [m EXCEPT !.glob = Put(@, n, v)]
VarType(m, n) == LookupVar(m.sy, m.sc, n).t

RECURSIVE Mentions(_, _)
RECURSIVE MentionsAny(_, _, _)
MentionsAny(es, n, i) == IF i > Len(es) THEN FALSE ELSE Mentions(es[i], n) \/ MentionsAny(es, n, i + 1)
Mentions(e, n) == CASE e[1] = "v" -> e[2] = n
                    [] e[1] = "u" -> Mentions(e[3], n)
                    [] e[1] = "o" -> Mentions(e[3], n) \/ Mentions(e[4], n)
                    [] e[1] = "c" -> MentionsAny(e[5], n, 1)
                    [] OTHER -> FALSE

(* The contents of a variable are unspecified after a failed assignment to it, unless the   *)
(* new value depends on the old one (or could be seen by a callable) or it comes from a call. *)
Spoiled(m, n, e) ==
  LET ty == VarType(m, n)
      calls == CallsOf(m.sy, m.sc, e) # <<>>
      isCall == (e[1] = "c" /\ IsCallable(m.sy, e[2]))
                \/ (e[1] = "v" /\ VarType(m, e[2]) = "")
  IN IF Mentions(e, n) \/ (~IsLocal(m, n) /\ calls /\ ~isCall) THEN ""
     ELSE IF isCall /\ TypeE(m.sy, m.sc, e)[2] = ty THEN ""
     ELSE n

Spoil(m) == IF m.pz = "" THEN m ELSE SetVar([m EXCEPT !.pz = ""], m.pz, Unk)

(**************************** Chunks and results ***************************)

Finish(m, k, msg, code) ==
  [m EXCEPT !.res = Append(@, [k |-> k, m |-> msg, c |-> code, out |-> m.out, y |-> m.y]),
            !.out = "", !.y = 0, !.ks = <<>>, !.vs = <<>>, !.pz = "", !.st = "next"]

(* Drops the innermost frame. *)
PopFrame(m) ==
  LET f == m.stk[Len(m.stk)]
      rest == SubSeq(m.stk, 1, Len(m.stk) - 1)
  IN IF f.k = "gosub" THEN [m EXCEPT !.stk = rest]
     ELSE [m EXCEPT !.stk = rest, !.sc = f.sc, !.loc = f.loc, !.ks = f.ks, !.vs = f.vs,
                    !.rn = f.rn, !.pz = f.pz]

(* Drops frames until reaching the innermost activation of scope sc. *)
RECURSIVE UnwindTo(_, _)
UnwindTo(m, sc) == IF m.sc = sc THEN m ELSE UnwindTo(Spoil(PopFrame(m)), sc)
IsActive(m, sc) == m.sc = sc \/ \E i \in 1 .. Len(m.stk) : m.stk[i].k = "call" /\ m.stk[i].sc = sc
RECURSIVE UnwindAll(_)
UnwindAll(m) == IF m.stk = <<>> THEN m ELSE UnwindAll(Spoil(PopFrame(m)))

(* Stops the chunk early. *)
Stop(m, k, msg, code) == Finish(UnwindAll(Spoil(m)), k, msg, code)

Raise(m0, pos, msg) ==
  LET text == pos \o ": " \o msg
      m == Spoil([m0 EXCEPT !.le = text, !.ks = <<>>, !.vs = <<>>])
  IN IF m.h.k = "next" THEN [m EXCEPT !.pc = m.rn]
     ELSE IF m.h.k = "jump" /\ ~m.h.active /\ IsActive(m, m.h.sc)
     THEN LET u == UnwindTo(m, m.h.sc)
          IN [u EXCEPT !.h.active = TRUE, !.pc = <<"s", m.h.id>>, !.ks = <<>>, !.vs = <<>>, !.pz = ""]
     ELSE Stop(m, "err", text, 0)

(* Gives up: the rest of this execution is outside of the model. *)
Oom(m, why) == [m EXCEPT !.st = "oom", !.why = why, !.ks = <<>>, !.vs = <<>>]

(* Execution yields to the host, which may interrupt it, before jumping to pc. *)
Yield(m, pc) ==
  LET y == m.y + 1
      m1 == [m EXCEPT !.y = y, !.pc = pc, !.ks = <<>>, !.vs = <<>>]
  IN IF y = Chunks[m.ci].brk THEN Stop(m1, "break", "", 0) ELSE m1
Jump(m, pc) == [m EXCEPT !.pc = pc, !.ks = <<>>, !.vs = <<>>, !.pz = ""]

DoReturn(m, pos) ==
  IF m.stk = <<>> THEN Raise(m, pos, "RETURN without GOSUB or FUNCTION call")
  ELSE LET f == m.stk[Len(m.stk)]
       IN IF f.k = "gosub" THEN Yield(PopFrame(m), f.pc)
          ELSE LET rv == Get(m.loc, m.sc)
                   u == PopFrame(m)
               IN IF f.fn /\ IsUnk(rv) THEN Oom(u, "result")
                  ELSE IF f.fn THEN [u EXCEPT !.vs = Append(@, rv), !.pc = <<"run">>]
                  ELSE [u EXCEPT !.pc = <<"run">>]

(******************************* Expressions *******************************)

RECURSIVE ArgTasks(_, _, _)
ArgTasks(args, types, i) ==
  IF i > Len(args) THEN <<>>
  ELSE <<<<"e", args[i]>>, <<"cast", types[i], StartPos(args[i])>>>> \o ArgTasks(args, types, i + 1)

IntTypes(n) == [i \in 1 .. n |-> "i"]

Top(m) == m.vs[Len(m.vs)]
Drop(m, n) == SubSeq(m.vs, 1, Len(m.vs) - n)
Last(m, n) == SubSeq(m.vs, Len(m.vs) - n + 1, Len(m.vs))
PushV(m, v) == IF IsUnk(v) THEN Oom(m, "value") ELSE [m EXCEPT !.vs = Append(@, v)]
(* Pushes the outcome v of an operator, once its operands are gone. *)
Result(m, n, v, pos) ==
  IF IsErr(v) THEN Raise(m, pos, v[2])
  ELSE IF IsUnk(v) THEN Oom(m, "value")
  ELSE [m EXCEPT !.vs = Append(Drop(m, n), v)]

(* Flat index of the subscripts, or an error. *)
RECURSIVE Flat(_, _, _, _, _)
Flat(dims, subs, i, mult, acc) ==
  IF i > Len(dims) THEN <<"i", acc>>
  ELSE LET v == subs[i][2]
       IN IF v < 0 THEN Err("Subscript " \o ToString(v) \o " cannot be negative")
          ELSE IF v >= dims[i]
          THEN Err("Subscript " \o ToString(v) \o " exceeds limit of " \o ToString(dims[i]))
          ELSE Flat(dims, subs, i + 1, mult * dims[i], acc + v * mult)

EnterCallable(m, n, nargs, pos) ==
  LET md == m.sy.call[n]
      sub == St[m.sy.def[n]]
      ps == [i \in 1 .. nargs |-> sub.pkeys[i]]
      args == Last(m, nargs)
      params == [x \in {ps[i] : i \in 1 .. nargs} |-> args[CHOOSE i \in 1 .. nargs : ps[i] = x]]
      l0 == IF md.ret = "" THEN params ELSE Put(params, n, Default(md.ret))
      f == [k |-> "call", fn |-> md.ret # "", sc |-> m.sc, loc |-> m.loc, ks |-> m.ks,
            vs |-> Drop(m, nargs), rn |-> m.rn, pz |-> m.pz, pc |-> <<"run">>]
  IN IF Len(m.stk) >= MaxFrames THEN Raise(m, pos, "Out of call stack space")
     ELSE [m EXCEPT !.stk = Append(@, f), !.sc = n, !.loc = l0, !.ks = <<>>, !.vs = <<>>, !.pz = "",
                    !.pc = BodyOf(m, sub.b, <<"ret">>)]

RECURSIVE Pad(_)
Pad(t) == IF Len(t) % 14 = 0 THEN t ELSE Pad(t \o " ")
RECURSIVE PrintText(_, _, _, _)
PrintText(vs, seps, i, acc) ==
  IF i > Len(vs) THEN acc
  ELSE LET t == acc \o Fmt(vs[i])
           sep == seps[i]
       IN PrintText(vs, seps, i + 1,
                    IF sep = "," THEN Pad(t \o " ")
                    ELSE IF sep = ";" /\ TypeOf(vs[i]) # "t" THEN t \o " " ELSE t)

RECURSIVE Total(_, _, _, _)
Total(dims, i, acc, max) ==
  IF i > Len(dims) THEN <<"i", acc>>
  ELSE LET d == dims[i][2]
       IN IF d <= 0 THEN Err("Dimension " \o ToString(i - 1) \o " must be positive")
          ELSE IF d > max \div acc THEN Err("Array is too big")
          ELSE Total(dims, i + 1, acc * d, max)

RECURSIVE ReadAll(_, _, _)
ReadAll(m, vars_, i) ==
  IF i > Len(vars_) THEN m
  ELSE LET v == vars_[i]
           t == VarType(m, v.n)
       IN IF m.di >= Len(m.data) THEN Raise(m, v.pos, "Out of data")
          ELSE LET d == m.data[m.di + 1]
                   val == IF d = <<>> THEN Default(t) ELSE d
                   m1 == [m EXCEPT !.di = @ + 1]
               IN IF ~(TypeOf(val) = t \/ (IsNum(TypeOf(val)) /\ IsNum(t)))
                  THEN Raise(m1, v.pos, "Cannot assign value of type " \o TypeName(TypeOf(val))
                                        \o " to variable of type " \o TypeName(t))
                  ELSE LET c == CastTo(val, t)
                       IN IF IsErr(c) THEN Raise(m1, v.pos, c[2])
                          ELSE ReadAll(SetVar(m1, v.n, c), vars_, i + 1)

(* Tasks that try the j-th guard of the i-th case of statement id. *)
CaseTasks(m, id, i, j) ==
  LET cs == St[id].cases
  IN IF i > Len(cs) THEN Jump(m, After(m, id))
     ELSE IF cs[i].gs = <<>> THEN Jump(m, BodyOf(m, cs[i].b, After(m, id)))
     ELSE IF j > Len(cs[i].gs) THEN [m EXCEPT !.ks = <<<<"case", id, i + 1, 1>>>>]
     ELSE LET g == cs[i].gs[j]
          IN IF g[1] = "is"
             THEN [m EXCEPT !.ks = <<<<"e", g[3]>>, <<"rel", g[2], 0>>, <<"when", id, i, j>>>>]
             ELSE [m EXCEPT !.ks = <<<<"e", g[2]>>, <<"rel", ">=", 0>>, <<"e", g[3]>>,
                                     <<"rel", "<=", 1>>, <<"both">>, <<"when", id, i, j>>>>]

RECURSIVE Run(_)
Task(m, t) ==
  CASE t[1] = "e" ->
         LET e == t[2]
         IN (CASE e[1] \in {"i", "b", "t"} -> PushV(m, <<e[1], e[2]>>)
              [] e[1] = "d" -> PushV(m, <<"d", e[2], e[3]>>)
              [] e[1] = "D" -> PushV(m, <<"D", e[2], e[3], e[4]>>)
              [] e[1] = "v" ->
                   IF VarType(m, e[2]) # "" THEN PushV(m, VarVal(m, e[2]))
                   ELSE IF Has(m.sy.call, e[2]) THEN EnterCallable(m, e[2], 0, Pos(e))
                   ELSE PushV(m, <<"t", m.le>>)                              \* ERRMSG
              [] e[1] = "u" -> [m EXCEPT !.ks = <<<<"e", e[3]>>, <<"u", e[2], Pos(e)>>>> \o @]
              [] e[1] = "o" -> [m EXCEPT !.ks = <<<<"e", e[3]>>, <<"e", e[4]>>, <<"o", e[2], Pos(e)>>>> \o @]
              [] e[1] = "c" ->
                   IF Has(m.sy.call, e[2])
                   THEN [m EXCEPT !.ks = ArgTasks(e[5], m.sy.call[e[2]].types, 1)
                                         \o <<<<"call", e[2], Len(e[5]), Pos(e)>>>> \o @]
                   ELSE IF e[2] = "LEN"
                   THEN [m EXCEPT !.ks = ArgTasks(e[5], <<"t">>, 1) \o <<<<"len">>>> \o @]
                   ELSE IF e[2] \in Bounds /\ VarType(m, e[2]) = ""
                   THEN [m EXCEPT !.ks = ArgTasks(Tail(e[5]), <<"i">>, 1) \o <<<<"bound", e>>>> \o @]
                   ELSE [m EXCEPT !.ks = ArgTasks(e[5], IntTypes(Len(e[5])), 1)
                                         \o <<<<"idx", e[2], Len(e[5]), Pos(e)>>>> \o @])
    [] t[1] = "u" -> Result(m, 1, UnOp(t[2], Top(m)), t[3])
    [] t[1] = "o" -> Result(m, 2, BinOp(t[2], Last(m, 2)[1], Last(m, 2)[2]), t[3])
    [] t[1] = "cast" -> Result(m, 1, CastTo(Top(m), t[2]), t[3])
    [] t[1] = "len" -> Result(m, 1, <<"i", Len(Top(m)[2])>>, "")
    [] t[1] = "bound" ->
         LET n == Len(t[2][5]) - 1
             a == VarVal(m, t[2][5][1][2])
             d == IF n = 0 THEN 1 ELSE Top(m)[2]
         IN IF IsUnk(a) THEN Oom(m, "array")
            ELSE IF n = 0 /\ Len(a[2]) > 1 THEN Raise(m, Pos(t[2][5][1]), "Requires a dimension for multidimensional arrays")
            ELSE IF d < 1 THEN Raise(m, StartPos(t[2][5][2]), "Dimension " \o ToString(d) \o " must be positive")
            ELSE IF d > Len(a[2]) THEN Raise(m, StartPos(t[2][5][2]), "Array has only " \o ToString(Len(a[2])) \o " dimensions but asked for " \o ToString(d))
            ELSE Result(m, n, <<"i", IF t[2][2] = "LBOUND" THEN 0 ELSE a[2][d] - 1>>, "")
    [] t[1] = "idx" ->
         LET a == VarVal(m, t[2])
         IN IF IsUnk(a) THEN Oom(m, "array")
            ELSE LET f == Flat(a[2], Last(m, t[3]), 1, 1, 0)
                 IN Result(m, t[3], IF IsErr(f) THEN f ELSE a[3][f[2] + 1], t[4])
    [] t[1] = "call" -> EnterCallable(m, t[2], t[3], t[4])
    [] t[1] = "set" -> Jump(SetVar(m, t[2], Top(m)), t[3])
    [] t[1] = "inc" -> Yield(SetVar([m EXCEPT !.pz = ""], t[2], Top(m)), t[3])
    [] t[1] = "seta" ->
         LET x == St[t[2]]
             a == VarVal(m, x.n)
             subs == Last(m, Len(x.subs))
             val == Last(m, Len(x.subs) + 1)[1]
         IN IF IsUnk(a) THEN Oom(m, "array")
            ELSE LET f == Flat(a[2], subs, 1, 1, 0)
                 IN IF IsErr(f) THEN Raise(m, x.pos, f[2])
                    ELSE Jump(SetVar(m, x.n, <<"a", a[2], [a[3] EXCEPT ![f[2] + 1] = val]>>), After(m, t[2]))
    [] t[1] = "print" ->
         LET x == St[t[2]]
             text == PrintText(m.vs, x.seps, 1, "")
         IN Jump([m EXCEPT !.out = @ \o text \o (IF x.trail THEN "" ELSE "\n")], After(m, t[2]))
    [] t[1] = "if" ->
         LET x == St[t[2]]
             i == t[3]
         IN IF Top(m)[2] THEN Jump(m, BodyOf(m, x.br[i].b, After(m, t[2])))
            ELSE IF i = Len(x.br) THEN Jump(m, After(m, t[2]))
            ELSE [m EXCEPT !.vs = <<>>, !.rn = BodyOf(m, x.br[i + 1].b, After(m, t[2])),
                           !.ks = <<<<"e", x.br[i + 1].g>>, <<"if", t[2], i + 1>>>>]
    [] t[1] = "test" ->                     \* leaves or enters a loop: <<"test", id, expected, yields>>
         LET x == St[t[2]]
             body == BodyOf(m, x.b, <<"w", t[2]>>)
         IN IF Top(m)[2] # t[3] THEN Jump(m, After(m, t[2]))
            ELSE IF t[4] THEN Yield(m, body) ELSE Jump(m, body)
    [] t[1] = "case" -> CaseTasks(m, t[2], t[3], t[4])
    [] t[1] = "rel" ->                      \* compares the value under t[3] others with the top
         LET n == Len(m.vs)
         IN Result(m, 1, BinOp(t[2], m.vs[n - 1 - t[3]], m.vs[n]), "")
    [] t[1] = "both" -> Result(m, 2, BoolOp("AND", Last(m, 2)[1][2], Last(m, 2)[2][2]), "")
    [] t[1] = "when" ->
         IF Top(m)[2] THEN Jump(m, BodyOf(m, St[t[2]].cases[t[3]].b, After(m, t[2])))
         ELSE CaseTasks([m EXCEPT !.vs = Drop(m, 1)], t[2], t[3], t[4] + 1)
    [] t[1] = "callsub" -> EnterCallable(m, t[2], t[3], t[4])
    [] t[1] = "goon" -> Jump(m, t[2])
    [] t[1] = "dima" ->
         LET x == St[t[2]]
             dims == m.vs
             tot == Total(dims, 1, 1, 16777216)
         IN IF IsErr(tot) THEN Raise(m, x.pos, tot[2])
            ELSE IF tot[2] > 2000 THEN Oom(m, "big array")
            ELSE LET a == <<"a", [i \in 1 .. Len(dims) |-> dims[i][2]], [i \in 1 .. tot[2] |-> Default(x.t)]>>
                     m1 == IF x.sh THEN [m EXCEPT !.glob = Put(@, x.n, a)]
                           ELSE [m EXCEPT !.loc = Put(@, x.n, a)]
                 IN Jump(m1, After(m, t[2]))
    [] t[1] = "end" ->
         LET c == Top(m)[2]
         IN IF c < 0 \/ c > 127 THEN Raise(m, St[t[2]].pos, "Exit code must be in the 0..127 range")
            ELSE Stop(m, "end", "", c)

Run(m) == IF m.ks = <<>> THEN m
          ELSE Run(Task([m EXCEPT !.ks = Tail(@)], Head(m.ks)))

(******************************* Statements ********************************)

(* Begins the evaluation of tasks; errors in them resume at rn. *)
Begin(m, rn, tasks) == Run([m EXCEPT !.rn = rn, !.vs = <<>>, !.pz = "", !.ks = tasks])

AssignTasks(m, n, e, last) ==
  <<<<"e", e>>, <<"cast", VarType(m, n), StartPos(e)>>, last>>

ExecStmt(m, id) ==
  LET x == St[id]
      af == After(m, id)
  IN CASE x.k = "let" -> Run([m EXCEPT !.rn = af, !.vs = <<>>, !.pz = Spoiled(m, x.n, x.e),
                                       !.ks = AssignTasks(m, x.n, x.e, <<"set", x.n, af>>)])
       [] x.k = "leta" -> Begin(m, af, <<<<"e", x.e>>, <<"cast", VarType(m, x.n), StartPos(x.e)>>>>
                                       \o ArgTasks(x.subs, IntTypes(Len(x.subs)), 1) \o <<<<"seta", id>>>>)
       [] x.k = "print" -> Begin(m, af, [i \in 1 .. Len(x.items) |-> <<"e", x.items[i]>>] \o <<<<"print", id>>>>)
       [] x.k = "if" -> Begin(m, BodyOf(m, x.br[1].b, af), <<<<"e", x.br[1].g>>, <<"if", id, 1>>>>)
       [] x.k = "while" -> Jump(m, <<"g", id>>)
       [] x.k = "do" -> IF x.dk \in {"preu", "prew"} THEN Jump(m, <<"g", id>>)
                        ELSE Jump(m, BodyOf(m, x.b, <<"w", id>>))
       [] x.k = "for" -> Run([m EXCEPT !.rn = <<"g", id>>, !.vs = <<>>, !.pz = Spoiled(m, x.n, x.start),
                                       !.ks = AssignTasks(m, x.n, x.start, <<"set", x.n, <<"g", id>>>>)])
       [] x.k = "select" ->
            Begin(m, IF x.cases = <<>> THEN af ELSE BodyOf(m, x.cases[1].b, af),
                  <<<<"e", x.e>>, <<"case", id, 1, 1>>>>)
       [] x.k = "exit" -> IF x.what \in {"SUB", "FUNCTION"} THEN Jump(m, <<"ret">>)
                          ELSE Jump(m, After(m, x.t))
       [] x.k = "goto" ->
            LET l == m.sy.labels[x.n]
            IN IF St[l].ow # m.sc THEN Oom(m, "scope")
               ELSE IF l < id THEN Yield(m, <<"s", l>>) ELSE Jump(m, <<"s", l>>)
       [] x.k = "gosub" ->
            IF St[m.sy.labels[x.n]].ow # m.sc THEN Oom(m, "scope")
            ELSE IF Len(m.stk) >= MaxFrames THEN Raise([m EXCEPT !.rn = af], x.tpos, "Out of call stack space")
            ELSE Jump([m EXCEPT !.stk = Append(@, [k |-> "gosub", pc |-> af])], <<"s", m.sy.labels[x.n]>>)
       [] x.k = "return" -> DoReturn([m EXCEPT !.rn = af], x.pos)
       [] x.k = "onerr" ->
            LET h == CASE x.m = "none" -> [k |-> "none", active |-> FALSE, id |-> 0, sc |-> ""]
                       [] x.m = "next" -> [k |-> "next", active |-> FALSE, id |-> 0, sc |-> ""]
                       [] x.m = "goto" -> [k |-> "jump", active |-> FALSE, id |-> m.sy.labels[x.n],
                                           sc |-> St[m.sy.labels[x.n]].ow]
                m1 == [m EXCEPT !.h = h, !.pz = ""]
            IN \* Leaving an error handler is another way to loop.
               IF m.h.active THEN Yield(m1, af) ELSE Jump(m1, af)
       [] x.k = "end" ->
            IF x.e = <<>> THEN Stop(m, "end", "", 0)
            ELSE Begin(m, af, <<<<"e", x.e[1]>>, <<"cast", "i", StartPos(x.e[1])>>, <<"end", id>>>>)
       [] x.k = "call" ->
            Begin(m, af, ArgTasks(x.args, m.sy.call[x.n].types, 1)
                         \o <<<<"callsub", x.n, Len(x.args), x.pos>>, <<"goon", af>>>>)
       [] x.k = "read" -> LET r == ReadAll([m EXCEPT !.rn = af, !.pz = ""], x.vars, 1)
                          IN IF r.st # "run" \/ r.pc # m.pc THEN r ELSE Jump(r, af)
       [] x.k = "restore" -> Jump([m EXCEPT !.di = 0], af)
       [] x.k = "dim" -> IF x.sh THEN Jump([m EXCEPT !.glob = Put(@, x.n, Default(x.t))], af)
                         ELSE Jump([m EXCEPT !.loc = Put(@, x.n, Default(x.t))], af)
       [] x.k = "dima" -> Begin(m, af, ArgTasks(x.dims, IntTypes(Len(x.dims)), 1) \o <<<<"dima", id>>>>)
       [] OTHER -> Jump(m, af)              \* label, data, declare, sub

(* The guard at the head of a loop. *)
ExecGuard(m, id) ==
  LET x == St[id]
      g == IF x.k = "for" THEN x.cond ELSE x.g
      want == ~(x.k = "do" /\ x.dk = "preu")
  IN Begin(m, BodyOf(m, x.b, <<"w", id>>), <<<<"e", g>>, <<"test", id, want, FALSE>>>>)

(* The end of the body of a loop. *)
ExecWrap(m, id) ==
  LET x == St[id]
  IN CASE x.k = "for" -> Begin(m, After(m, id), AssignTasks(m, x.n, x.next, <<"inc", x.n, <<"g", id>>>>))
       [] x.k = "while" -> Yield(m, <<"g", id>>)
       [] x.dk \in {"preu", "prew"} -> Yield(m, <<"g", id>>)
       [] x.dk = "inf" -> Yield(m, BodyOf(m, x.b, <<"w", id>>))
       [] OTHER -> Begin(m, After(m, id), <<<<"e", x.g>>, <<"test", id, x.dk = "postw", TRUE>>>>)

(* Compiles and starts the next chunk. *)
NextChunkStep(m) ==
  LET c == m.ci + 1
  IN IF c > Len(Chunks) THEN [m EXCEPT !.st = "done"]
     ELSE LET sy == CompileChunk(St, m.sy, Chunks[c].first)
              m1 == [m EXCEPT !.ci = c]
          IN IF sy.err # "" THEN Finish(m1, "cerr", sy.err, 0)
             ELSE LET m2 == [m1 EXCEPT !.sy = sy, !.loaded = @ \cup {c}, !.data = @ \o Chunks[c].data,
                                       !.st = "run"]
                  IN Jump(m2, NextChunk(m2, c))

InitMachine ==
  [ci |-> 0, sy |-> InitSy, loaded |-> {}, pc |-> <<"eof">>, ks |-> <<>>, vs |-> <<>>, rn |-> <<"eof">>,
   pz |-> "", loc |-> NoMap, glob |-> NoMap, sc |-> "", stk |-> <<>>,
   h |-> [k |-> "none", active |-> FALSE, id |-> 0, sc |-> ""], le |-> "", di |-> 0, data |-> <<>>,
   out |-> "", y |-> 0, res |-> <<>>, st |-> "next", why |-> "", n |-> 0]

Step(m) ==
  CASE m.st = "next" -> NextChunkStep(m)
    [] m.n > MaxSteps -> Oom(m, "steps")
    [] m.pc[1] = "s" -> ExecStmt(m, m.pc[2])
    [] m.pc[1] = "g" -> ExecGuard(m, m.pc[2])
    [] m.pc[1] = "w" -> ExecWrap(m, m.pc[2])
    [] m.pc[1] = "ret" -> DoReturn(m, "")
    [] m.pc[1] = "run" -> Run(m)
    [] m.pc[1] = "eof" -> Finish(m, "eof", "", 0)

Init == pi \in 1 .. Len(Progs) /\ s = InitMachine

Next == /\ s.st \in {"next", "run"}
        /\ s' = LET r == Step(s) IN [r EXCEPT !.n = @ + 1]
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars

(******************************* Properties ********************************)

(* Locals of the main program are only visible in the main program, and the stack of calls *)
(* ends with it.                                                                           *)
FramesOk == /\ (s.sc # "" => \E i \in 1 .. Len(s.stk) : s.stk[i].k = "call" /\ s.stk[i].sc = "")
            /\ DOMAIN s.loc \subseteq DOMAIN s.sy.loc[s.sc]
(* Variables only ever hold values of their declared types. *)
Typed(v, td) == v = Unk \/ (IF td.a THEN v[1] = "a" /\ Len(v[2]) = td.n
                                          /\ \A i \in DOMAIN v[3] : TypeOf(v[3][i]) = td.t
                            ELSE TypeOf(v) = td.t)
TypesOk == /\ \A n \in DOMAIN s.loc : Typed(s.loc[n], s.sy.loc[s.sc][n])
           /\ \A n \in DOMAIN s.glob : Typed(s.glob[n], s.sy.glob[n])
(* A chunk that is not running leaves no work behind. *)
IdleOk == s.st = "next" => s.ks = <<>> /\ s.vs = <<>> /\ s.sc = ""
ResultsOk == Len(s.res) <= s.ci

(* What a finished execution looks like to the driver. *)
Report == [p |-> pi, st |-> s.st, why |-> s.why, res |-> s.res, out |-> s.out, n |-> s.n, y |-> s.y]
Emit == s.st \in {"done", "oom"} => PrintT("@@" \o ToJson(Report))
=============================================================================
