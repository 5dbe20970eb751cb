--------------------------------- MODULE Limits ---------------------------------
(* What programs of any size do: the capacity of the machine, and what happens around it.                               *)
(*                                                                                                                       *)
(* The machine has a number of places for variables of each callable (and of the main program), for shared variables,    *)
(* for the partial results of expressions, for different literals, for nested calls, for subscripts and for elements of   *)
(* arrays, and for instructions that jumps can reach.  A program within the capacity has to run and to do what its text   *)
(* says, whatever its size is.  A program beyond the capacity is refused, at the place that does not fit, and leaves the  *)
(* machine as it was; if it runs nevertheless, it also has to do what its text says.                                      *)
(*                                                                                                                       *)
(* A session is a sequence of chunks of code for the same machine, and each of them a sequence of items.  An item stands  *)
(* for any number of lines, so that programs of any size are short here:                                                 *)
(*   shared n       n shared variables                          vars n        n variables, the i-th of the scope is V(i) *)
(*   get i          copies variable i to the shared variable k  expr t        copies the value of an expression           *)
(*   arr ds         an array, one element goes through it       big ds        an array that is not used                   *)
(*   consts n       n different literals; the last one stays    block n       a control structure around n statements      *)
(*   fun n          a function with n parameters                sub p, items  a SUB with p parameters                     *)
(*   rec n, gosubs n   n nested calls of functions or of GOSUB  call, show    calls a SUB; prints a shared variable        *)
(* The partial results that an expression needs depend on how it is compiled: there has to be room for at least as many  *)
(* as the obvious way of evaluating it needs (Need), up to a small slack.                                                 *)
(*                                                                                                                       *)
(* Chunks carry what the machine did with them (act), and the specification follows that: every chunk has to be one of    *)
(* the steps that are possible.                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Sessions == ndJsonDeserialize(IOEnv.JOBS)

MaxLocals == 192
MaxShared == 64
MaxDims == 15
MaxElements == 16 * 1024 * 1024
MaxLiterals == 65536
MaxCalls == 4096
MaxTarget == 65535
Slack == 3                                     \* places that the machine may use for purposes of its own
SureLines == 12000                             \* code that is surely within the reach of jumps
SureCalls == 4000
SureElements == 1024 * 1024
NShared == 400                                 \* names of shared variables

V(i) == 7 * i + 1
Max2(a, b) == IF a < b THEN b ELSE a
Num(n) == IF n < 0 THEN ToString(n) ELSE " " \o ToString(n)

(********************************* Expressions *****************************)
(* [c: literal], [v: variable], [o: operator, l, r], [u: 1, l], [f: function, a: arguments], [mx: arguments].             *)

RECURSIVE Val(_)
Val(t) ==
  CASE t.k = "c" -> t.n
    [] t.k = "v" -> V(t.n)
    [] t.k = "o" -> (CASE t.op = "+" -> Val(t.l) + Val(t.r) [] t.op = "-" -> Val(t.l) - Val(t.r))
    [] t.k = "u" -> -Val(t.l)
    [] t.k = "f" -> FoldLeft(LAMBDA acc, j : IF j % 2 = 0 THEN acc - Val(t.a[j]) ELSE acc + Val(t.a[j]), 0, [j \in 1 .. Len(t.a) |-> j])
    [] t.k = "m" -> FoldLeft(LAMBDA acc, j : Max2(acc, Val(t.a[j])), Val(t.a[1]), [j \in 1 .. Len(t.a) |-> j])

(* Places for partial results that an expression needs besides the one of its result. *)
RECURSIVE Need(_)
Need(t) ==
  CASE t.k \in {"c", "v"} -> 0
    [] t.k = "u" -> Need(t.l)
    [] t.k = "o" -> Max2(Need(t.l), 1 + Need(t.r))
    [] t.k = "f" -> FoldLeft(LAMBDA acc, j : Max2(acc, 1 + j + Need(t.a[j])), 1, [j \in 1 .. Len(t.a) |-> j])
    [] t.k = "m" -> FoldLeft(LAMBDA acc, j : Max2(acc, 2 + 2 * j + Need(t.a[j])), 1, [j \in 1 .. Len(t.a) |-> j])

(********************************* Items ***********************************)
(* The state: variables of the scope (nl), shared variables (ng), literals (nc), lines of code (code), what the shared    *)
(* variables hold (g), what each SUB does (subs), what was printed (out), and the refusals that are possible (refs):       *)
(* <<when, first line, last line, message>>.                                                                             *)

Empty == [nl |-> 0, ng |-> 0, nc |-> 0, code |-> 0, g |-> [k \in 1 .. NShared |-> ""], subs |-> <<>>, out |-> "",
          refs |-> {}, sets |-> <<>>, failed |-> [k \in 1 .. NShared |-> ""], tags |-> {}]

Refuse(st, c, from, to, m) == IF c THEN [st EXCEPT !.refs = @ \cup {<<"cerr", from, to, m>>}] ELSE st
Temps(st, n, from, to) == Refuse(st, st.nl + n > MaxLocals - Slack, from, to, "Out of temp registers")
Tag(st, c, t) == IF c THEN [st EXCEPT !.tags = @ \cup {t}] ELSE st

(* Stores text x in the shared variable k. *)
Store(st, k, x) == [st EXCEPT !.g[k] = x, !.sets = Append(@, <<k, x>>)]
Lines(st, n) == [st EXCEPT !.code = @ + n]

Shared(it, st) ==
  LET s1 == Refuse(st, st.ng + it.n > MaxShared, it.line + MaxShared - st.ng, it.line + MaxShared - st.ng, "Out of global registers")
      s2 == [s1 EXCEPT !.ng = @ + it.n,
                       !.g = [k \in DOMAIN @ |-> IF k \in it.first .. (it.first + it.n - 1) THEN (IF it.ty = "t" THEN "" ELSE " 0") ELSE @[k]]]
  IN Tag(Lines(s2, it.n), st.ng + it.n \in {MaxShared, MaxShared + 1}, "shared")

Vars(it, st) ==
  LET s1 == Refuse(st, st.nl + it.n > MaxLocals, it.line + MaxLocals - st.nl, it.line + MaxLocals - st.nl, "Out of local registers")
      s2 == IF it.ty = "a" /\ st.nl + it.n + 1 > MaxLocals - Slack
            THEN Refuse(s1, TRUE, it.line + MaxLocals - Slack - 1 - st.nl, it.line + it.n - 1, "Out of temp registers") ELSE s1
      s3 == [s2 EXCEPT !.nl = @ + it.n, !.nc = IF it.ty \in {"t", "d"} THEN @ + it.n ELSE @]
  IN Tag(Lines(s3, it.n), st.nl + it.n \in {MaxLocals, MaxLocals + 1}, "locals")

Get(it, st) == Lines(Store(st, it.k, IF it.ty = "t" THEN "s" \o ToString(it.i) ELSE Num(V(it.i))), 1)

Expr(it, st) ==
  LET n == 1 + Need(it.t)
  IN Lines(Store(Tag(Temps(st, n, it.line, it.line), st.nl + n \in (MaxLocals - 6) .. (MaxLocals + 6), "temps"), it.k, Num(Val(it.t))), 1)

Arr(it, st) ==
  LET d == Len(it.d)
      s1 == Refuse(st, d > MaxDims, it.line, it.line, "Array cannot have " \o ToString(d) \o " dimensions")
      s2 == Refuse(s1, st.nl + 1 > MaxLocals, it.line, it.line, "Out of local registers")
      s3 == Temps([s2 EXCEPT !.nl = @ + 1], d + 3, it.line, it.line + 2)
  IN Tag(Lines(Store(s3, it.k, Num(it.n)), 3), d \in {MaxDims, MaxDims + 1}, "dims")

RECURSIVE Product(_, _)
Product(d, i) == IF i > Len(d) THEN 1
                 ELSE LET p == Product(d, i + 1) IN IF p >= MaxElements + 1 \/ d[i] > ((MaxElements + 1) \div p) THEN MaxElements + 1 ELSE p * d[i]
Big(it, st) ==
  LET p == Product(it.d, 1)
      s1 == Temps([st EXCEPT !.nl = @ + 1], Len(it.d) + 3, it.line, it.line)
      s2 == Refuse(s1, st.nl + 1 > MaxLocals, it.line, it.line, "Out of local registers")
      s3 == IF p > SureElements THEN [s2 EXCEPT !.refs = @ \cup {<<"err", it.line, it.line, "Array is too big">>}] ELSE s2
  IN Tag(Lines([s3 EXCEPT !.failed = s3.g], 1), p > SureElements, "elements")

Literal(it, i) == IF it.ty = "t" THEN "c" \o ToString(it.base + i) ELSE Num(it.base + i)
Consts(it, st) ==
  LET nc == st.nc + it.n
  IN Tag(Lines(Store([st EXCEPT !.nc = nc], it.k, Literal(it, it.n)), it.n), nc > MaxLiterals - 100, "literals")
Const(it, st) == Lines(Store(st, it.k, Literal(it, it.i)), 1)

(* A control structure: v is what it leaves in the shared variable, as the kind of structure says. *)
Turns(kind) ==
  CASE kind \in {"if", "goto", "onerr"} -> 0
    [] kind \in {"else", "elseif", "gosub", "gosubf", "case", "fn", "sub", "nest"} -> 1
    [] OTHER -> 2
Block(it, st) ==
  LET s1 == Refuse([st EXCEPT !.nl = @ + it.vars], st.nl + it.vars + 4 > MaxLocals - Slack, it.line, it.last, "Out of temp registers")
      s2 == Refuse(s1, st.nl + it.vars > MaxLocals, it.line, it.last, "Out of local registers")
  IN Tag(Lines(Store(s2, it.k, Num(Turns(it.kind))), it.last - it.line + 1), it.n > MaxTarget \div 8, it.kind)

Fun(it, st) == Lines(Refuse(st, it.n + 4 > MaxLocals - Slack, it.line, it.line + 2, IF it.n + 1 > MaxLocals THEN "Out of local registers" ELSE "Out of temp registers"), 3)

(* Nested calls: the function of the item calls itself n times. *)
Calls(it, st) ==
  LET s1 == Temps(st, 4, it.line, it.last)
      s2 == IF it.n > SureCalls THEN [s1 EXCEPT !.refs = @ \cup {<<"err", it.line, it.last, "Out of call stack space">>}] ELSE s1
      s3 == [s2 EXCEPT !.failed = s2.g, !.nl = @ + it.vars]
      s4 == Refuse(s3, s3.nl > MaxLocals, it.line, it.last, "Out of local registers")
  IN Tag(Lines(Store(s4, it.k, Num(it.n)), it.last - it.line + 1), it.n > SureCalls, it.o)

Call(it, st) ==
  LET effects == st.subs[it.sub]
      s1 == Temps(st, Len(it.args) + 2, it.line, it.line)
  IN Lines(FoldLeft(LAMBDA acc, e : Store(acc, e[1], e[2]), s1, effects), 1)

Show(it, st) == Lines([Temps(st, 2, it.line, it.line) EXCEPT !.out = @ \o st.g[it.k] \o "\n"], 1)

Item(it, st) ==
  CASE it.o = "shared" -> Shared(it, st)
    [] it.o = "vars" -> Vars(it, st)
    [] it.o = "get" -> Get(it, st)
    [] it.o = "expr" -> Expr(it, st)
    [] it.o = "arr" -> Arr(it, st)
    [] it.o = "big" -> Big(it, st)
    [] it.o = "consts" -> Consts(it, st)
    [] it.o = "const" -> Const(it, st)
    [] it.o = "block" -> Block(it, st)
    [] it.o = "fun" -> Fun(it, st)
    [] it.o \in {"rec", "gosubs"} -> Calls(it, st)
    [] it.o = "call" -> Call(it, st)
    [] it.o = "show" -> Show(it, st)

(* A SUB has variables of its own; what it stores only happens when it is called. *)
Sub(it, st) ==
  LET in == Refuse([st EXCEPT !.nl = it.p, !.sets = <<>>], it.p > MaxLocals, it.line, it.line, "Out of local registers")
      end == FoldLeft(LAMBDA acc, x : Item(x, acc), in, it.items)
  IN [st EXCEPT !.subs = (it.id :> end.sets) @@ @, !.ng = end.ng, !.nc = end.nc, !.code = end.code + 2,
                !.refs = end.refs, !.tags = end.tags]

Chunk(c, st) ==
  LET end == FoldLeft(LAMBDA acc, it : IF it.o = "sub" THEN Sub(it, acc) ELSE Item(it, acc), [st EXCEPT !.refs = {}, !.out = ""], c.items)
      e1 == Refuse(end, end.code > SureLines, 0, 1000000000, "too far")
  IN Refuse(e1, end.nc > MaxLiterals - 100, 0, 1000000000, "Out of constants")         \* any literal may be the first of them

(********************************* Sessions ********************************)

VARIABLES si, ci, st, why

vars == <<si, ci, st, why>>

Init == si \in 1 .. Len(Sessions) /\ ci = 1 /\ st = Empty /\ why = ""

Chunks == Sessions[si].chunks
Act == Chunks[ci].act

(* The chunk ran. *)
Ran(n) == Act.k = "eof" /\ Act.out = n.out
(* The chunk was refused before it ran: nothing happened. *)
Refused(n) == /\ Act.k = "cerr" /\ Act.out = ""
              /\ \E r \in n.refs : r[1] = "cerr" /\ Act.line \in r[2] .. r[3] /\ Act.m = r[4]
(* The last statement of the chunk was refused when it was about to be executed. *)
Stopped(n) == /\ Act.k = "err" /\ Act.out = n.out
              /\ \E r \in n.refs : r[1] = "err" /\ Act.line \in r[2] .. r[3] /\ Act.m = r[4]

Report(w) == PrintT("@@" \o ToJson([s |-> si, c |-> ci, why |-> w, tags |-> SetToSeq(st.tags)]))

Step ==
  /\ ci <= Len(Chunks) /\ why = ""
  /\ LET n == Chunk(Chunks[ci], st)
     IN IF Ran(n) THEN st' = n /\ ci' = ci + 1 /\ why' = ""
        ELSE IF Refused(n) THEN st' = [st EXCEPT !.tags = n.tags] /\ ci' = ci + 1 /\ why' = ""
        ELSE IF Stopped(n) THEN st' = [n EXCEPT !.g = n.failed] /\ ci' = ci + 1 /\ why' = ""
        ELSE /\ why' = "expected output " \o ToString(n.out) \o " or one of the refusals " \o ToString(n.refs)
             /\ Report(why')
             /\ UNCHANGED <<st, ci>>
  /\ UNCHANGED si
Done == ci = Len(Chunks) + 1 /\ why = "" /\ Report("") /\ ci' = ci + 1 /\ UNCHANGED <<si, st, why>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* Whatever was accepted is within what the numbers of the machine can count. *)
TypeOK == st.nl >= 0 /\ st.ng >= 0 /\ st.nc >= 0 /\ st.code >= 0
===============================================================================
