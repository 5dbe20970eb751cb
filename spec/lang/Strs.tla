-------------------------------- MODULE Strs --------------------------------
(* Text as sequences of characters, paths of files and words in paragraphs. *)
EXTENDS Values, FiniteSets, SequencesExt, FiniteSetsExt

(******************************** Text *************************************)

Ch(t, i) == SubSeq(t, i, i)
Rest(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, Len(t))
Count(t, c) == Cardinality({i \in 1 .. Len(t) : Ch(t, i) = c})
Has(t, c) == \E i \in 1 .. Len(t) : Ch(t, i) = c
Pos(t, c) == CHOOSE i \in 1 .. Len(t) : Ch(t, i) = c /\ \A j \in 1 .. i - 1 : Ch(t, j) # c
Lower == "abcdefghijklmnopqrstuvwxyzéñ"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉÑ"
Letters == 1 .. Len(Lower)
UpMap == [c \in {Ch(Lower, i) : i \in Letters} |-> Ch(Upper, Pos(Lower, c))]
LowMap == [c \in {Ch(Upper, i) : i \in 1 .. 26} |-> Ch(Lower, Pos(Upper, c))]
RECURSIVE MapC(_, _)
MapC(t, m) == IF t = "" THEN "" ELSE (IF Ch(t, 1) \in DOMAIN m THEN m[Ch(t, 1)] ELSE Ch(t, 1)) \o MapC(Rest(t, 2), m)
ToUpper(t) == MapC(t, UpMap)
ToLower(t) == MapC(t, LowMap)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadL(t, n) == Spaces(n - Len(t)) \o t
PadR(t, n) == t \o Spaces(n - Len(t))
SortNames(S) == SetToSortSeq(S, LAMBDA a, b : CmpT(a, b, 1) < 0)
(* The places where a URI separates its scheme from its path. *)
SchemeEnd(t) == {i \in 1 .. Len(t) - 2 : SubSeq(t, i, i + 2) = "://"}

(******************************** Paths ************************************)

ValidDrive(d) == d # "" /\ \A i \in 1 .. Len(d) : Ch(d, i) \notin {":", "\\", "/", "."}

(* A location: its drive ("" for the current one) and its path; or an error. *)
LocErr(m) == [err |-> m, d |-> "", leaf |-> ""]
PathLoc(t, d, p) ==
  IF p = "" THEN [err |-> "", d |-> d, leaf |-> "", p |-> "/"]
  ELSE IF Has(p, "\\") \/ p \in {".", "..", "/.", "/.."} THEN LocErr("Invalid path '" \o t \o "'")
  ELSE IF Count(p, "/") > 1 \/ (Count(p, "/") = 1 /\ Ch(p, 1) # "/")
  THEN LocErr("Too many / separators in path '" \o t \o "'")
  ELSE [err |-> "", d |-> d, leaf |-> IF Ch(p, 1) = "/" THEN Rest(p, 2) ELSE p, p |-> p]
Loc(t) ==
  IF Count(t, ":") > 1 THEN LocErr("Too many : separators in path '" \o t \o "'")
  ELSE IF Count(t, ":") = 1
  THEN LET i == Pos(t, ":")
           d == SubSeq(t, 1, i - 1)
       IN IF ~ValidDrive(d) THEN LocErr("Invalid drive name '" \o d \o "'")
          ELSE PathLoc(t, ToUpper(d), Rest(t, i + 1))
  ELSE PathLoc(t, "", t)

(******************************* Paragraphs ********************************)

(* Characters that take more than one byte. *)
Wide == [c \in {"é", "ñ", "É", "Ñ"} |-> 2] @@ [c \in {"€", "…"} |-> 3]
ByteLen(t) == FoldLeft(LAMBDA n, i : n + (IF Ch(t, i) \in DOMAIN Wide THEN Wide[Ch(t, i)] ELSE 1), 0, [i \in 1 .. Len(t) |-> i])
Blank(c) == c \in {" ", "\t", "\n", "\r"}
RECURSIVE Words(_, _, _)
Words(t, i, w) ==
  IF i > Len(t) THEN (IF w = "" THEN <<>> ELSE <<w>>)
  ELSE IF Blank(Ch(t, i)) THEN (IF w = "" THEN <<>> ELSE <<w>>) \o Words(t, i + 1, "")
  ELSE Words(t, i + 1, w \o Ch(t, i))
Indent(t) == LET b == {i \in 1 .. Len(t) : ~Blank(Ch(t, i))} IN IF b = {} THEN Len(t) ELSE Min(b) - 1

(* The words of a paragraph in lines of less than w characters, if they fit at all: sentences are two spaces apart. *)
Gap(line, word) == IF Ch(line, Len(line)) = "." /\ Ch(word, 1) \notin {Ch(Lower, j) : j \in 1 .. 26} THEN 2 ELSE 1
RECURSIVE Flow(_, _, _)
Flow(ws, line, w) ==
  IF ws = <<>> THEN (IF line = "" THEN <<>> ELSE <<line>>)
  ELSE IF line = "" THEN Flow(Tail(ws), ws[1], w)
  ELSE IF ByteLen(line) + ByteLen(ws[1]) + Gap(line, ws[1]) >= w THEN <<line>> \o Flow(Tail(ws), ws[1], w)
  ELSE Flow(Tail(ws), line \o Spaces(Gap(line, ws[1])) \o ws[1], w)
Paragraph(t, ind, cols) ==
  IF t = "" THEN <<"">>
  ELSE LET n == Indent(t)
           ls == Flow(Words(t, 1, ""), "", cols - 4 - Len(ind) - n)
       IN [i \in 1 .. Len(ls) |-> ind \o Spaces(n) \o ls[i]]
RECURSIVE Paragraphs(_, _, _)
Paragraphs(ts, ind, cols) ==
  IF ts = <<>> THEN <<>>
  ELSE Paragraph(ts[1], ind, cols) \o (IF Len(ts) > 1 THEN <<"">> ELSE <<>>) \o Paragraphs(Tail(ts), ind, cols)
=============================================================================
