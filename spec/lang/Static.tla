------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Static semantics of the EndBASIC language: which programs are accepted, *)
(* and which diagnostic is reported for the others.                        *)
(*                                                                         *)
(* Programs come from the generator as tables of statements (see           *)
(* gen/langgen.py for the exact layout).  The symbols known after          *)
(* compiling some chunks of code are a record:                             *)
(*   loc    scope -> (name -> type descriptor); the main program is ""     *)
(*   glob   name -> type descriptor                                        *)
(*   call   name -> [ret, names, types] of the declared callables          *)
(*   def    name -> statement of the callables that have a body            *)
(*   labels name -> statement of the known labels                          *)
(*   fx     references to labels and callables still to be resolved        *)
(*   err    the first diagnostic, or "" if there is none                   *)
(***************************************************************************)
EXTENDS Values

NoMap == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f

Scalar(t) == [a |-> FALSE, t |-> t, n |-> 0]
Array(t, n) == [a |-> TRUE, t |-> t, n |-> n]
None == [a |-> FALSE, t |-> "", n |-> 0]

InitSy == [loc |-> Put(NoMap, "", NoMap), glob |-> NoMap, call |-> NoMap, def |-> NoMap,
           labels |-> NoMap, fx |-> <<>>, err |-> ""]

Suffix(t) == CASE t = "b" -> "?" [] t = "d" -> "#" [] t = "i" -> "%" [] t = "t" -> "$" [] t = "" -> ""
Show(disp, sf) == disp \o Suffix(sf)
Bad(pos, m) == <<"err", pos \o ": " \o m>>
(* Mismatches are reported in a different manner when they happen in an assignment. *)
Mismatch(pos, f, t) == <<"err", pos \o ": Expected " \o TypeName(t) \o " but found " \o TypeName(f), pos, f, t>>
AssignErr(pos, f, t) == Bad(pos, "Cannot assign value of type " \o TypeName(f) \o " to variable of type " \o TypeName(t))
InAssign(r) == IF Len(r) = 5 THEN AssignErr(r[3], r[4], r[5]) ELSE r
Ok(t) == <<"ok", t>>

Pos(e) == e[Len(e)]
RECURSIVE StartPos(_)
StartPos(e) == IF e[1] = "o" THEN StartPos(e[3]) ELSE Pos(e)

(* Callables that are part of the runtime: name -> [ret, types, syntax]. *)
Bounds == {"LBOUND", "UBOUND"}
Builtins == [x \in {"ERRMSG", "LEN"} \cup Bounds |->
   CASE x = "ERRMSG" -> [ret |-> "t", types |-> <<>>, syn |-> "no arguments"]
     [] x = "LEN" -> [ret |-> "i", types |-> <<"t">>, syn |-> "expr$"]
     [] OTHER -> [ret |-> "i", types |-> <<"a">>, syn |-> "<array> | <array, dimension%>"]]
Commands == {"PRINT", "READ", "RESTORE", "CLEAR", "INPUT"}

LookupVar(sy, sc, n) == IF Has(sy.loc[sc], n) THEN sy.loc[sc][n]
                        ELSE IF Has(sy.glob, n) THEN sy.glob[n] ELSE None
IsCallable(sy, n) == Has(sy.call, n) \/ n \in DOMAIN Builtins \/ n \in Commands
CallOf(sy, n) == IF Has(sy.call, n) THEN sy.call[n] ELSE Builtins[n]

RECURSIVE Join(_, _, _)
Join(names, types, i) ==
  IF i > Len(names) THEN ""
  ELSE names[i] \o Suffix(types[i]) \o (IF i = Len(names) THEN "" ELSE ", " \o Join(names, types, i + 1))
SyntaxOf(sy, n) == IF ~Has(sy.call, n) THEN Builtins[n].syn
                   ELSE IF sy.call[n].types = <<>> THEN "no arguments"
                   ELSE Join(sy.call[n].names, sy.call[n].types, 1)
CallSyntax(sy, n, pos) == Bad(pos, n \o " expected " \o SyntaxOf(sy, n))

(* Whether a value of type f can be used where type t is expected. *)
Coerces(f, t) == f = t \/ (IsNum(f) /\ IsNum(t))
CoerceErr(pos, f, t) ==
  IF IsNum(t) THEN Bad(pos, TypeName(f) \o " is not a number")
  ELSE Mismatch(pos, f, t)

(* Type of an expression: <<"ok", type>> or <<"err", diagnostic>>. *)
RECURSIVE TypeE(_, _, _)
RECURSIVE TypeArgs(_, _, _, _, _)

TypeAs(sy, sc, e, t) ==
  LET r == TypeE(sy, sc, e)
  IN IF r[1] = "err" THEN r
     ELSE IF Coerces(r[2], t) THEN Ok(t) ELSE CoerceErr(StartPos(e), r[2], t)

TypeArgs(sy, sc, args, types, i) ==
  IF i > Len(args) THEN Ok("")
  ELSE LET r == TypeAs(sy, sc, args[i], types[i])
       IN IF r[1] = "err" THEN r ELSE TypeArgs(sy, sc, args, types, i + 1)

TypeE(sy, sc, e) ==
  CASE e[1] \in {"i", "b", "t"} -> Ok(e[1])
    [] e[1] \in {"d", "D"} -> Ok("d")
    [] e[1] = "v" ->
         LET n == e[2] sf == e[3] shown == Show(e[4], sf) td == LookupVar(sy, sc, n)
         IN IF td.t # "" 
            THEN IF sf # "" /\ sf # td.t
                 THEN Bad(Pos(e), "Incompatible type annotation in " \o shown \o " reference")
                 ELSE IF td.a THEN Bad(Pos(e), shown \o " is an array and requires subscripts")
                 ELSE Ok(td.t)
            ELSE IF ~IsCallable(sy, n) THEN Bad(Pos(e), "Undefined symbol " \o shown)
            ELSE IF n \in Commands \/ CallOf(sy, n).ret = ""
                 THEN Bad(Pos(e), shown \o " is not an array nor a function")
            ELSE IF sf # "" /\ sf # CallOf(sy, n).ret
                 THEN Bad(Pos(e), "Incompatible type annotation in " \o shown \o " reference")
            ELSE IF CallOf(sy, n).types # <<>> THEN CallSyntax(sy, n, Pos(e))
            ELSE Ok(CallOf(sy, n).ret)
    [] e[1] = "c" ->
         LET n == e[2] sf == e[3] shown == Show(e[4], sf) args == e[5]
         IN IF IsCallable(sy, n)
            THEN IF n \in Commands \/ CallOf(sy, n).ret = ""
                 THEN Bad(Pos(e), shown \o " is not an array nor a function")
                 ELSE IF sf # "" /\ sf # CallOf(sy, n).ret
                 THEN Bad(Pos(e), "Incompatible type annotation in " \o shown \o " reference")
                 ELSE IF n \in Bounds
                 THEN LET a == args[1]
                          ad == LookupVar(sy, sc, a[2])
                      IN IF Len(args) > 2 \/ a[1] # "v" THEN CallSyntax(sy, n, IF Len(args) > 2 THEN Pos(e) ELSE StartPos(a))
                         ELSE IF ad.t = "" THEN Bad(Pos(a), "Undefined symbol " \o Show(a[4], a[3]))
                         ELSE IF a[3] # "" /\ a[3] # ad.t
                         THEN Bad(Pos(a), "Incompatible type annotation in " \o Show(a[4], a[3]) \o " reference")
                         ELSE IF ~ad.a THEN CallSyntax(sy, n, Pos(a))
                         ELSE IF Len(args) = 1 THEN Ok("i") ELSE TypeAs(sy, sc, args[2], "i")
                 ELSE IF CallOf(sy, n).types = <<>> \/ Len(args) # Len(CallOf(sy, n).types)
                 THEN CallSyntax(sy, n, Pos(e))
                 ELSE LET r == TypeArgs(sy, sc, args, CallOf(sy, n).types, 1)
                      IN IF r[1] = "err" THEN r ELSE Ok(CallOf(sy, n).ret)
            ELSE LET td == LookupVar(sy, sc, n)
                 IN IF td.t = "" THEN Bad(Pos(e), "Undefined symbol " \o shown)
                    ELSE IF sf # "" /\ sf # td.t
                    THEN Bad(Pos(e), "Incompatible type annotation in " \o shown \o " reference")
                    ELSE IF ~td.a THEN Bad(Pos(e), shown \o " is not an array nor a function")
                    ELSE IF Len(args) # td.n
                    THEN Bad(Pos(e), "Array requires " \o ToString(td.n) \o " subscripts but got "
                                     \o ToString(Len(args)))
                    ELSE LET r == TypeArgs(sy, sc, args, [i \in 1 .. Len(args) |-> "i"], 1)
                         IN IF r[1] = "err" THEN r ELSE Ok(td.t)
    [] e[1] = "u" ->
         LET r == TypeE(sy, sc, e[3])
         IN IF r[1] = "err" THEN r
            ELSE IF e[2] = "NOT"
                 THEN IF r[2] \in {"b", "i"} THEN r
                      ELSE Mismatch(Pos(e), r[2], "i")
            ELSE IF IsNum(r[2]) THEN r ELSE Bad(Pos(e), TypeName(r[2]) \o " is not a number")
    [] e[1] = "o" ->
         LET l == TypeE(sy, sc, e[3])
         IN IF l[1] = "err" THEN l
            ELSE LET r == TypeE(sy, sc, e[4])
                 IN IF r[1] = "err" THEN r
                    ELSE LET t == BinType(e[2], l[2], r[2])
                         IN IF t # "" THEN Ok(t)
                            ELSE Bad(Pos(e), "Cannot " \o e[2] \o " " \o TypeName(l[2]) \o " and "
                                             \o TypeName(r[2]))

(* Names of the user-defined callables invoked by an expression, in evaluation order. *)
RECURSIVE CallsOf(_, _, _)
RECURSIVE CallsOfAll(_, _, _, _)
CallsOfAll(sy, sc, es, i) == IF i > Len(es) THEN <<>>
                             ELSE CallsOf(sy, sc, es[i]) \o CallsOfAll(sy, sc, es, i + 1)
CallsOf(sy, sc, e) ==
  CASE e[1] = "v" -> IF LookupVar(sy, sc, e[2]).t = "" /\ Has(sy.call, e[2])
                     THEN <<<<"call", e[2], Pos(e)>>>> ELSE <<>>
    [] e[1] = "c" -> CallsOfAll(sy, sc, e[5], 1)
                     \o (IF Has(sy.call, e[2]) THEN <<<<"call", e[2], Pos(e)>>>> ELSE <<>>)
    [] e[1] = "u" -> CallsOf(sy, sc, e[3])
    [] e[1] = "o" -> CallsOf(sy, sc, e[3]) \o CallsOf(sy, sc, e[4])
    [] OTHER -> <<>>

Fail(sy, b) == [sy EXCEPT !.err = b[2]]
Fx(sy, sc, es) == [sy EXCEPT !.fx = @ \o CallsOfAll(sy, sc, es, 1)]
AddLoc(sy, sc, n, td) == [sy EXCEPT !.loc[sc] = Put(@, n, td)]
Redefine(sy, pos, shown) == Fail(sy, Bad(pos, "Cannot redefine " \o shown))

(* An expression that must have type t. *)
NeedE(sy, sc, e, t) ==
  LET r == TypeAs(sy, sc, e, t) IN IF r[1] = "err" THEN Fail(sy, r) ELSE Fx(sy, sc, <<e>>)

RECURSIVE NeedAll(_, _, _, _, _)
NeedAll(sy, sc, es, t, i) ==
  IF i > Len(es) \/ sy.err # "" THEN sy ELSE NeedAll(NeedE(sy, sc, es[i], t), sc, es, t, i + 1)

(* Assignment of e to the variable n. *)
AssignTo(sy, sc, n, sf, disp, pos, e) ==
  LET td == LookupVar(sy, sc, n)
      shown == Show(disp, sf)
      known(t) == LET r == TypeE(sy, sc, e)
                  IN IF r[1] = "err" THEN Fail(sy, InAssign(r))
                     ELSE IF Coerces(r[2], t) THEN Fx(sy, sc, <<e>>)
                     ELSE Fail(sy, InAssign(CoerceErr(StartPos(e), r[2], t)))
  IN IF td.t # ""
     THEN IF sf # "" /\ sf # td.t
          THEN Fail(sy, Bad(pos, "Incompatible type annotation in " \o shown \o " reference"))
          ELSE IF td.a THEN Fail(sy, Bad(pos, shown \o " is an array and requires subscripts"))
          ELSE known(td.t)
     ELSE IF IsCallable(sy, n) THEN Redefine(sy, pos, shown)
     ELSE LET s1 == AddLoc(sy, sc, n, Scalar(IF sf = "" THEN "i" ELSE sf))
              r == TypeE(s1, sc, e)
          IN IF r[1] = "err" THEN Fail(s1, IF sf = "" THEN r ELSE InAssign(r))
             ELSE IF sf = "" THEN Fx(AddLoc(s1, sc, n, Scalar(r[2])), sc, <<e>>)
             ELSE IF Coerces(r[2], sf) THEN Fx(s1, sc, <<e>>)
             ELSE Fail(s1, InAssign(CoerceErr(StartPos(e), r[2], sf)))

Declare(sy, st) ==
  LET shown == Show(st.d, st.ret)
      md == [ret |-> st.ret, names |-> st.pnames, types |-> st.ptypes]
  IN IF Has(sy.glob, st.n) THEN Redefine(sy, st.pos, shown)
     ELSE IF Has(sy.call, st.n) /\ sy.call[st.n] # md THEN Redefine(sy, st.pos, shown)
     ELSE [sy EXCEPT !.call = Put(@, st.n, md)]

RECURSIVE AddParams(_, _, _, _)
AddParams(sy, sc, st, i) ==
  IF i > Len(st.pkeys) \/ sy.err # "" THEN sy
  ELSE IF Has(sy.loc[sc], st.pkeys[i]) THEN Redefine(sy, st.pos, Show(st.pnames[i], st.psf[i]))
  ELSE AddParams(AddLoc(sy, sc, st.pkeys[i], Scalar(st.ptypes[i])), sc, st, i + 1)

Dim(sy, sc, st, td) ==
  IF IsCallable(sy, st.n) THEN Redefine(sy, st.pos, st.d)
  ELSE IF st.sh
       THEN IF Has(sy.glob, st.n) THEN Redefine(sy, st.pos, st.d)
            ELSE [sy EXCEPT !.glob = Put(@, st.n, td)]
       ELSE IF Has(sy.loc[sc], st.n) THEN Redefine(sy, st.pos, st.d)
            ELSE AddLoc(sy, sc, st.n, td)

(* Guards of a CASE against a value of type t. *)
RECURSIVE CaseGuards(_, _, _, _, _)
RelCheck(sy, sc, t, op, e, pos) ==
  LET r == TypeE(sy, sc, e)
  IN IF r[1] = "err" THEN Fail(sy, r)
     ELSE IF BinType(op, t, r[2]) # "b"
     THEN Fail(sy, Bad(pos, "Cannot " \o op \o " " \o TypeName(t) \o " and " \o TypeName(r[2])))
     ELSE Fx(sy, sc, <<e>>)
CaseGuards(sy, sc, t, gs, i) ==
  IF i > Len(gs) \/ sy.err # "" THEN sy
  ELSE LET g == gs[i]
           s1 == IF g[1] = "is" THEN RelCheck(sy, sc, t, g[2], g[3], StartPos(g[3]))
                 ELSE LET a == RelCheck(sy, sc, t, ">=", g[2], StartPos(g[2]))
                      IN IF a.err # "" THEN a
                         ELSE RelCheck(a, sc, t, "<=", g[3], StartPos(g[2]))
       IN CaseGuards(s1, sc, t, gs, i + 1)
RECURSIVE Cases(_, _, _, _, _)
Cases(sy, sc, t, cs, i) == IF i > Len(cs) \/ sy.err # "" THEN sy
                           ELSE Cases(CaseGuards(sy, sc, t, cs[i].gs, 1), sc, t, cs, i + 1)

RECURSIVE AnyE(_, _, _, _)
AnyE(sy, sc, es, i) ==
  IF i > Len(es) \/ sy.err # "" THEN sy
  ELSE LET r == TypeE(sy, sc, es[i])
       IN IF r[1] = "err" THEN Fail(sy, r) ELSE AnyE(Fx(sy, sc, <<es[i]>>), sc, es, i + 1)

RECURSIVE ReadVars(_, _, _, _)
ReadVars(sy, sc, vs, i) ==
  IF i > Len(vs) THEN sy
  ELSE LET v == vs[i]
           td == LookupVar(sy, sc, v.n)
       IN IF td.t = "" /\ ~IsCallable(sy, v.n)
          THEN ReadVars(AddLoc(sy, sc, v.n, Scalar(IF v.sf = "" THEN "i" ELSE v.sf)), sc, vs, i + 1)
          ELSE ReadVars(sy, sc, vs, i + 1)
RECURSIVE ReadCheck(_, _, _, _)
ReadCheck(sy, sc, vs, i) ==
  IF i > Len(vs) \/ sy.err # "" THEN sy
  ELSE LET v == vs[i]
           td == LookupVar(sy, sc, v.n)
           shown == Show(v.d, v.sf)
       IN IF td.t = "" THEN Fail(sy, Bad(v.pos, shown \o " is not an array nor a function"))
          ELSE IF v.sf # "" /\ v.sf # td.t
          THEN Fail(sy, Bad(v.pos, "Incompatible type annotation in " \o shown \o " reference"))
          ELSE IF td.a THEN Fail(sy, Bad(v.pos, "READ expected vref1[, .., vrefN]"))
          ELSE ReadCheck(sy, sc, vs, i + 1)

(* Compiles a block of statements.  cx is the enclosing [do, for, kind] context. *)
RECURSIVE Block(_, _, _, _, _)
RECURSIVE Branches(_, _, _, _, _, _)
RECURSIVE Bodies(_, _, _, _, _, _)

Branches(st, sy, sc, br, i, cx) ==
  IF i > Len(br) \/ sy.err # "" THEN sy
  ELSE LET s1 == NeedE(sy, sc, br[i].g, "b")
       IN Branches(st, IF s1.err # "" THEN s1 ELSE Block(st, s1, sc, br[i].b, cx), sc, br, i + 1, cx)
Bodies(st, sy, sc, cs, i, cx) ==
  IF i > Len(cs) \/ sy.err # "" THEN sy
  ELSE Bodies(st, Block(st, sy, sc, cs[i].b, cx), sc, cs, i + 1, cx)

Stmt(st, s, sy, sc, cx) ==
  CASE s.k = "let" -> AssignTo(sy, sc, s.n, s.sf, s.d, s.pos, s.e)
    [] s.k = "leta" ->
         LET td == LookupVar(sy, sc, s.n)
             shown == Show(s.d, s.sf)
         IN IF td.t # "" /\ s.sf # "" /\ s.sf # td.t
            THEN Fail(sy, Bad(s.pos, "Incompatible type annotation in " \o shown \o " reference"))
            ELSE IF ~td.a THEN Fail(sy, Bad(s.pos, shown \o " is not an array"))
            ELSE IF Len(s.subs) # td.n
            THEN Fail(sy, Bad(s.pos, "Array requires " \o ToString(td.n) \o " subscripts but got "
                                     \o ToString(Len(s.subs))))
            ELSE LET s1 == NeedE(sy, sc, s.e, td.t)
                 IN IF s1.err # "" THEN s1 ELSE NeedAll(s1, sc, s.subs, "i", 1)
    [] s.k = "print" -> AnyE(sy, sc, s.items, 1)
    [] s.k = "if" -> Branches(st, sy, sc, s.br, 1, cx)
    [] s.k = "while" -> LET s1 == NeedE(sy, sc, s.g, "b")
                        IN IF s1.err # "" THEN s1 ELSE Block(st, s1, sc, s.b, cx)
    [] s.k = "do" ->
         LET cx1 == [cx EXCEPT !.do = TRUE]
         IN IF s.dk = "inf" THEN Block(st, sy, sc, s.b, cx1)
            ELSE IF s.dk \in {"preu", "prew"}
            THEN LET s1 == NeedE(sy, sc, s.g, "b")
                 IN IF s1.err # "" THEN s1 ELSE Block(st, s1, sc, s.b, cx1)
            ELSE LET s1 == Block(st, sy, sc, s.b, cx1)
                 IN IF s1.err # "" THEN s1 ELSE NeedE(s1, sc, s.g, "b")
    [] s.k = "for" ->
         LET known == LookupVar(sy, sc, s.n).t # ""
             s0 == IF s.dbl /\ s.sf = "" /\ ~known
                   THEN IF IsCallable(sy, s.n) THEN Redefine(sy, s.pos, Show(s.d, s.sf))
                        ELSE AddLoc(sy, sc, s.n, Scalar("d"))
                   ELSE sy
             s1 == IF s0.err # "" THEN s0 ELSE AssignTo(s0, sc, s.n, s.sf, s.d, s.pos, s.start)
             s2 == IF s1.err # "" THEN s1 ELSE NeedE(s1, sc, s.cond, "b")
             s3 == IF s2.err # "" THEN s2 ELSE Block(st, s2, sc, s.b, [cx EXCEPT !.for = TRUE])
         IN IF s3.err # "" THEN s3 ELSE AssignTo(s3, sc, s.n, s.sf, s.d, s.pos, s.next)
    [] s.k = "select" ->
         LET r == TypeE(sy, sc, s.e)
         IN IF r[1] = "err" THEN Fail(sy, r)
            ELSE LET s1 == Cases(Fx(sy, sc, <<s.e>>), sc, r[2], s.cases, 1)
                 IN IF s1.err # "" THEN s1 ELSE Bodies(st, s1, sc, s.cases, 1, cx)
    [] s.k = "exit" ->
         LET what == s.what
             ok == CASE what = "DO" -> cx.do [] what = "FOR" -> cx.for
                     [] what = "SUB" -> cx.kind = "sub" [] what = "FUNCTION" -> cx.kind = "function"
         IN IF ok THEN sy ELSE Fail(sy, Bad(s.pos, "EXIT " \o what \o " outside of " \o what))
    [] s.k \in {"goto", "gosub"} -> [sy EXCEPT !.fx = Append(@, <<"label", s.n, s.d, s.tpos>>)]
    [] s.k = "label" -> IF Has(sy.labels, s.n) THEN Fail(sy, Bad(s.pos, "Duplicate label " \o s.d))
                        ELSE [sy EXCEPT !.labels = Put(@, s.n, s.id)]
    [] s.k = "onerr" -> IF s.m = "goto" THEN [sy EXCEPT !.fx = Append(@, <<"label", s.n, s.d, s.tpos>>)]
                        ELSE sy
    [] s.k = "end" ->
         IF s.e = <<>> THEN sy
         ELSE LET e == s.e[1]
                  lit == IF e[1] = "i" THEN e[2]
                         ELSE IF e[1] = "u" /\ e[2] = "-" /\ e[3][1] = "i" THEN -e[3][2] ELSE 0
              IN IF lit < 0 \/ lit > 127
                 THEN Fail(sy, Bad(Pos(e), "Exit code must be in the 0..127 range"))
                 ELSE NeedE(sy, sc, e, "i")
    [] s.k = "call" ->
         IF ~IsCallable(sy, s.n) THEN Fail(sy, Bad(s.pos, "Undefined symbol " \o s.n))
         ELSE IF CallOf(sy, s.n).ret # ""
         THEN Fail(sy, Bad(s.pos, s.n \o " is not an array nor a function"))
         ELSE IF Len(s.args) # Len(CallOf(sy, s.n).types) THEN Fail(sy, CallSyntax(sy, s.n, s.pos))
         ELSE LET r == TypeArgs(sy, sc, s.args, CallOf(sy, s.n).types, 1)
              IN IF r[1] = "err" THEN Fail(sy, r)
                 ELSE [Fx(sy, sc, s.args) EXCEPT !.fx = Append(@, <<"call", s.n, s.pos>>)]
    [] s.k = "read" -> ReadCheck(ReadVars(sy, sc, s.vars, 1), sc, s.vars, 1)
    [] s.k = "dim" -> Dim(sy, sc, s, Scalar(s.t))
    [] s.k = "dima" -> LET s1 == Dim(sy, sc, s, Array(s.t, Len(s.dims)))
                       IN IF s1.err # "" THEN s1 ELSE NeedAll(s1, sc, s.dims, "i", 1)
    [] s.k = "declare" ->
         IF cx.kind # "" THEN Fail(sy, Bad(s.pos, "Cannot nest FUNCTION or SUB declarations nor definitions"))
         ELSE Declare(sy, s)
    [] s.k = "sub" ->
         LET s1 == Declare(sy, s)
         IN IF s1.err # "" THEN s1
            ELSE IF Has(sy.def, s.n) THEN Redefine(s1, s.pos, Show(s.d, s.ret))
            ELSE IF cx.kind # ""
            THEN Fail(s1, Bad(s.pos, "Cannot nest FUNCTION or SUB declarations nor definitions"))
            ELSE LET l0 == IF s.ret = "" THEN NoMap ELSE Put(NoMap, s.n, Scalar(s.ret))
                     s2 == AddParams([s1 EXCEPT !.loc = Put(@, s.n, l0)], s.n, s, 1)
                     s3 == IF s2.err # "" THEN s2
                           ELSE Block(st, s2, s.n, s.b,
                                      [do |-> FALSE, for |-> FALSE,
                                       kind |-> IF s.ret = "" THEN "sub" ELSE "function"])
                 IN IF s3.err # "" THEN s3 ELSE [s3 EXCEPT !.def = Put(@, s.n, s.id)]
    [] OTHER -> sy                         \* restore, return, data

Block(st, sy, sc, sid, cx) ==
  IF sid = 0 \/ sy.err # "" THEN sy
  ELSE LET s1 == Stmt(st, st[sid], sy, sc, cx)
       IN Block(st, s1, sc, st[sid].nx, cx)

RECURSIVE Resolve(_, _)
Resolve(sy, i) ==
  IF i > Len(sy.fx) THEN [sy EXCEPT !.fx = <<>>]
  ELSE LET f == sy.fx[i]
       IN IF f[1] = "label"
          THEN IF Has(sy.labels, f[2]) THEN Resolve(sy, i + 1)
               ELSE Fail(sy, Bad(f[4], "Unknown label " \o f[3]))
          ELSE IF Has(sy.def, f[2]) THEN Resolve(sy, i + 1)
               ELSE Fail(sy, Bad(f[3], "Undefined symbol " \o f[2]))

(* Compiles the chunk that starts at statement sid. *)
CompileChunk(st, sy, sid) ==
  LET s1 == Block(st, sy, "", sid, [do |-> FALSE, for |-> FALSE, kind |-> ""])
  IN IF s1.err # "" THEN s1 ELSE Resolve(s1, 1)
=============================================================================
