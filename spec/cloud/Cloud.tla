------------------------------- MODULE Cloud -------------------------------
(* The client of the cloud service along with the service itself: accounts and sessions, files and who may read them,    *)
(* and the requests that travel between them, any of which may fail, be rejected or get lost before or after the service  *)
(* acts on it.                                                                                                            *)
(*                                                                                                                        *)
(* A session (Job) has the accounts and files that the service starts with and the operations of the user.  An            *)
(* operation lists the faults (f) of its requests in order.                                                               *)
EXTENDS Strs, Json, IOUtils, Functions

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES pi, s
vars == <<pi, s>>

NoMap == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ops == Jobs[pi].ops
Cols == Jobs[pi].cols
Narrow == Cols < 50
Say(m, t) == [m EXCEPT !.out = @ \o t \o "\n"]
SayAll(m, ts) == FoldLeft(Say, m, ts)
Refill(m, ts, ind) == SayAll(m, Paragraphs(ts, ind, Cols))
InSeq(x, q) == \E i \in 1 .. Len(q) : q[i] = x
Add(q, x) == IF InSeq(x, q) THEN q ELSE Append(q, x)
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)

(******************************** Requests *********************************)

(* A reply: its status, headers and body, which is text (t), data (d) or JSON (j). *)
Reply(st) == [st |-> st, hs |-> <<>>, k |-> "d", d |-> "", j |-> NoMap, fate |-> ""]
Json(st, j) == [Reply(st) EXCEPT !.k = "j", !.j = j]
Refuse(st, msg) == Json(st, [message |-> msg])
Reasons == [n \in {"200"} |-> "OK"] @@ [n \in {"201"} |-> "Created"] @@ [n \in {"202"} |-> "Accepted"] @@ [n \in {"206"} |-> "Partial Content"] @@ [n \in {"400"} |-> "Bad Request"]
           @@ [n \in {"401"} |-> "Unauthorized"] @@ [n \in {"403"} |-> "Forbidden"] @@ [n \in {"404"} |-> "Not Found"]
           @@ [n \in {"409"} |-> "Conflict"] @@ [n \in {"413"} |-> "Payload Too Large"] @@ [n \in {"418"} |-> "I'm a teapot"]
           @@ [n \in {"429"} |-> "Too Many Requests"] @@ [n \in {"500"} |-> "Internal Server Error"]
           @@ [n \in {"503"} |-> "Service Unavailable"] @@ [n \in {"507"} |-> "Insufficient Storage"]
Status(st) == ToString(st) \o " " \o Reasons[ToString(st)]

NoFault == [k |-> "", st |-> 0, t |-> ""]
(* Sends request q, to which the service would react with r = [srv, rep]: [m, rep]. *)
Http(m, q, r) ==
  LET i == Len(m.reqs) + 1
      f == IF i <= Len(m.op.f) THEN m.op.f[i] ELSE NoFault
      rep == CASE f.k = "" -> r.rep
               [] f.k \in {"lost", "gone"} -> [Reply(0) EXCEPT !.fate = "drop"]
               [] f.k = "cut" -> [r.rep EXCEPT !.fate = "cut"]
               [] f.k = "garbage" -> [Reply(200) EXCEPT !.d = "6e6f"]
               [] f.k = "json" -> Refuse(f.st, f.t)
               [] f.k = "text" -> [Reply(f.st) EXCEPT !.k = "t", !.d = f.t]
      acted == f.k \in {"", "gone", "cut"}
  IN [m |-> [m EXCEPT !.srv = IF acted THEN r.srv ELSE @, !.reqs = Append(@, q), !.reps = Append(@, rep)], rep |-> rep]

Clean(t) == MapC(t, [c \in {"\t", "\n", "\r"} |-> " "])
(* What the user gets to know about a failed request: its status and what the service said. *)
Unknown == "@"
Why(rep) ==
  IF rep.fate # "" THEN Unknown
  ELSE IF rep.k = "j" THEN Clean(rep.j.message) \o " (server code: " \o Status(rep.st) \o ")"
  ELSE IF rep.k = "t" THEN "HTTP request returned status " \o Status(rep.st) \o " with text '" \o Clean(rep.d) \o "'"
  ELSE Unknown

Bearer(m) == IF m.c.tok = "" THEN "" ELSE "Bearer " \o m.c.tok
Req(v, segs, auth) == [v |-> v, segs |-> <<"api">> \o segs, auth |-> auth, hs |-> <<>>, body |-> "", j |-> NoMap]
FileReq(m, v, u, n) == Req(v, <<"users", u, "files", n>>, Bearer(m))

(******************************** Service **********************************)

Files(srv, u) == IF u \in DOMAIN srv.files THEN srv.files[u] ELSE NoMap
Who(srv, tok) == IF tok # "" /\ tok \in DOMAIN srv.toks THEN srv.toks[tok] ELSE ""
CanRead(srv, who, u, n) == \/ who = u
                           \/ InSeq("public", srv.files[u][n].r)
                           \/ who # "" /\ InSeq(who, srv.files[u][n].r)

SrvLogin(srv, u, pw, motd) ==
  IF u \in DOMAIN srv.users /\ srv.users[u] = pw
  THEN LET tok == "token-" \o ToString(srv.n) IN
       [srv |-> [srv EXCEPT !.toks = Put(@, tok, u), !.n = @ + 1], rep |-> Json(200, [access_token |-> tok, motd |-> motd])]
  ELSE [srv |-> srv, rep |-> Refuse(401, "Invalid username or password")]
SrvLogout(srv, u, tok) ==
  IF Who(srv, tok) = u THEN [srv |-> [srv EXCEPT !.toks = Without(@, tok)], rep |-> Reply(200)]
  ELSE [srv |-> srv, rep |-> Refuse(403, "Not your session")]
SrvSignup(srv, j) ==
  IF j.username \in DOMAIN srv.users THEN [srv |-> srv, rep |-> Refuse(400, "Username is taken")]
  ELSE [srv |-> [srv EXCEPT !.users = Put(@, j.username, j.password), !.files = Put(@, j.username, NoMap)], rep |-> Reply(200)]
SrvFiles(srv, tok, u) ==
  LET who == Who(srv, tok)
      fs == Files(srv, u)
      ns == SortNames({n \in DOMAIN fs : CanRead(srv, who, u, n)})
      \* The order in which the service lists files is its own.
      es == Reverse([i \in 1 .. Len(ns) |-> [filename |-> ns[i], mtime |-> fs[ns[i]].mt, length |-> Len(fs[ns[i]].d) \div 2]])
  IN IF u \notin DOMAIN srv.users THEN [srv |-> srv, rep |-> Refuse(404, "No such user")]
     ELSE [srv |-> srv, rep |-> Json(200, [files |-> es] @@ (IF who = u THEN [disk_quota |-> [bytes |-> 10000, files |-> 20],
                                                                           disk_free |-> [bytes |-> 10000 - Len(es), files |-> 20 - Len(es)]]
                                                           ELSE NoMap))]
Found(srv, tok, u, n) == u \in DOMAIN srv.users /\ n \in DOMAIN Files(srv, u) /\ CanRead(srv, Who(srv, tok), u, n)
SrvGet(srv, tok, u, n) ==
  [srv |-> srv, rep |-> IF Found(srv, tok, u, n) THEN [Reply(200) EXCEPT !.d = srv.files[u][n].d] ELSE Refuse(404, "File not found")]
Owned(srv, tok, u) == u # "" /\ Who(srv, tok) = u
SrvAcls(srv, tok, u, n) ==
  [srv |-> srv, rep |-> IF ~Owned(srv, tok, u) THEN Refuse(403, "Not your file")
                        ELSE IF ~Found(srv, tok, u, n) THEN Refuse(404, "File not found")
                        ELSE [Reply(200) EXCEPT !.hs = [i \in 1 .. Len(srv.files[u][n].r) |-> <<"X-EndBASIC-Reader", srv.files[u][n].r[i]>>]]]
SrvPut(srv, tok, u, n, d) ==
  IF ~Owned(srv, tok, u) THEN [srv |-> srv, rep |-> Refuse(403, "Not your file")]
  ELSE LET new == n \notin DOMAIN Files(srv, u)
           e == [d |-> d, mt |-> srv.clock, r |-> IF new THEN <<>> ELSE srv.files[u][n].r]
       IN [srv |-> [srv EXCEPT !.files[u] = Put(@, n, e), !.clock = @ + 86399], rep |-> Reply(IF new THEN 201 ELSE 200)]
SrvShare(srv, tok, u, n, add, rem) ==
  IF ~Owned(srv, tok, u) THEN [srv |-> srv, rep |-> Refuse(403, "Not your file")]
  ELSE IF ~Found(srv, tok, u, n) THEN [srv |-> srv, rep |-> Refuse(404, "File not found")]
  ELSE [srv |-> [srv EXCEPT !.files[u][n].r = FoldLeft(Add, FoldLeft(Del, @, rem), add)], rep |-> Reply(200)]
SrvDel(srv, tok, u, n) ==
  IF ~Owned(srv, tok, u) THEN [srv |-> srv, rep |-> Refuse(403, "Not your file")]
  ELSE IF ~Found(srv, tok, u, n) THEN [srv |-> srv, rep |-> Refuse(404, "File not found")]
  ELSE [srv |-> [srv EXCEPT !.files[u] = Without(@, n)], rep |-> Reply(200)]

(********************************* Drives **********************************)

(* The end of an operation: the error of a statement has its position. *)
IsBasic(o) == o.o \notin {"put", "get", "autorun"}
End(m) == [m EXCEPT !.st = "end"]
Fail(m, t) == [m EXCEPT !.st = "end", !.err = IF IsBasic(m.op) THEN "1:1: " \o t ELSE t]
NotOk(m, rep) == Fail(m, Why(rep))
Bad(m) == Fail(m, Unknown)

DriveOf(m, l) == IF l.d = "" THEN m.cur ELSE l.d
NotMounted(d) == "Drive '" \o d \o "' is not mounted"
FileAt(m, t) ==
  LET l == Loc(t)
  IN IF l.err # "" THEN [err |-> l.err]
     ELSE IF l.leaf = "" THEN [err |-> "Missing file name in path '" \o t \o "'"]
     ELSE IF DriveOf(m, l) \notin DOMAIN m.drives THEN [err |-> NotMounted(DriveOf(m, l))]
     ELSE [err |-> "", d |-> DriveOf(m, l), n |-> l.leaf]
NotLogged == "Not logged in yet"

(* Reading and writing files: [m, err, d]. *)
Read(m, d, n) ==
  LET v == m.drives[d]
  IN IF v.k = "mem"
     THEN IF n \in DOMAIN m.mem THEN [m |-> m, err |-> "", d |-> m.mem[n].d] ELSE [m |-> m, err |-> "Entry not found", d |-> ""]
     ELSE LET h == Http(m, FileReq(m, "GET", v.p, n), SrvGet(m.srv, m.c.tok, v.p, n))
          IN IF h.rep.fate # "" THEN [m |-> h.m, err |-> Unknown, d |-> ""]
             ELSE IF h.rep.st = 200 THEN [m |-> h.m, err |-> "", d |-> h.rep.d]
             ELSE [m |-> h.m, err |-> Why(h.rep), d |-> ""]
Write(m, d, n, x) ==
  LET v == m.drives[d]
  IN IF v.k = "mem"
     THEN [m |-> [m EXCEPT !.mem = Put(@, n, [d |-> x, r |-> IF n \in DOMAIN @ THEN @[n].r ELSE <<>>])], err |-> ""]
     ELSE IF m.c.tok = "" THEN [m |-> m, err |-> NotLogged]
     ELSE LET q == [FileReq(m, "PATCH", v.p, n) EXCEPT !.hs = << <<"content-type", "application/octet-stream">>, <<"x-endbasic-patchcontent", "true">> >>,
                                                       !.body = x]
              h == Http(m, q, SrvPut(m.srv, m.c.tok, v.p, n, x))
          IN IF h.rep.fate # "cut" /\ h.rep.st \in {200, 201} THEN [m |-> h.m, err |-> ""]
             \* Nobody reads the body of a good reply.
             ELSE IF h.rep.fate = "cut" /\ h.rep.st \in {200, 201} THEN [m |-> h.m, err |-> ""]
             ELSE [m |-> h.m, err |-> Why(h.rep)]

DoPut(m) ==
  LET f == FileAt(m, m.op.a)
  IN IF f.err # "" THEN Fail(m, f.err)
     ELSE LET w == Write(m, f.d, f.n, m.op.d) IN IF w.err # "" THEN Fail(w.m, w.err) ELSE End(w.m)
DoGet(m) ==
  LET f == FileAt(m, m.op.a)
  IN IF f.err # "" THEN Fail(m, f.err)
     ELSE LET r == Read(m, f.d, f.n) IN IF r.err # "" THEN Fail(r.m, r.err) ELSE End([r.m EXCEPT !.data = r.d])
DoCopy(m) ==
  LET a == Loc(m.op.a)
      b == Loc(m.op.b)
      f == FileAt(m, m.op.a)
      dd == DriveOf(m, b)
  IN IF a.err # "" THEN Fail(m, a.err)
     ELSE IF a.leaf = "" THEN Fail(m, "Missing file name in copy source path '" \o m.op.a \o "'")
     ELSE IF b.err # "" THEN Fail(m, b.err)
     ELSE IF f.err # "" THEN Fail(m, f.err)
     ELSE LET r == Read(m, f.d, f.n)
          IN IF r.err # "" THEN Fail(r.m, r.err)
             ELSE IF dd \notin DOMAIN m.drives THEN Fail(r.m, NotMounted(dd))
             ELSE LET w == Write(r.m, dd, IF b.leaf = "" THEN a.leaf ELSE b.leaf, r.d)
                  IN IF w.err # "" THEN Fail(w.m, w.err) ELSE End(w.m)
DoKill(m) ==
  LET f == FileAt(m, m.op.a)
      v == m.drives[f.d]
  IN IF f.err # "" THEN Fail(m, f.err)
     ELSE IF v.k = "mem"
     THEN IF f.n \in DOMAIN m.mem THEN End([m EXCEPT !.mem = Without(@, f.n)]) ELSE Fail(m, "Entry not found")
     ELSE IF m.c.tok = "" THEN Fail(m, NotLogged)
     ELSE LET h == Http(m, FileReq(m, "DELETE", v.p, f.n), SrvDel(m.srv, m.c.tok, v.p, f.n))
          IN IF h.rep.st = 200 THEN End(h.m) ELSE NotOk(h.m, h.rep)

DoMount(m) ==
  LET u == m.op.a
      e == {i \in SchemeEnd(u) : \A j \in SchemeEnd(u) : i <= j}
      i == CHOOSE j \in e : TRUE
      scheme == SubSeq(u, 1, i - 1)
      p == Rest(u, i + 3)
      k == ToUpper(m.op.b)
  IN IF e = {} \/ i = 1 THEN Fail(m, "Mount URI must be of the form scheme://path")
     ELSE IF ToLower(scheme) # "cloud" THEN Fail(m, "Unknown mount scheme '" \o scheme \o "'")
     ELSE IF p = "" THEN Fail(m, "Must specify a username to mount a cloud-backed drive")
     ELSE IF ~ValidDrive(m.op.b) THEN Fail(m, "Invalid drive name '" \o m.op.b \o "'")
     ELSE IF k \in DOMAIN m.drives THEN Fail(m, "Drive '" \o m.op.b \o "' is already mounted")
     ELSE End([m EXCEPT !.drives = Put(@, k, [k |-> "cloud", p |-> p, u |-> u])])
DoUnmount(m) ==
  LET n == m.op.a k == ToUpper(m.op.a)
  IN IF ~ValidDrive(n) THEN Fail(m, "Invalid drive name '" \o n \o "'")
     ELSE IF k \notin DOMAIN m.drives THEN Fail(m, NotMounted(n))
     ELSE IF k = m.cur THEN Fail(m, "Cannot unmount the current drive '" \o n \o "'")
     ELSE End([m EXCEPT !.drives = Without(@, k)])
DoCd(m) ==
  LET l == Loc(m.op.a)
  IN IF l.err # "" THEN Fail(m, l.err)
     ELSE IF l.leaf # "" THEN Fail(m, "Cannot cd to a file")
     ELSE IF l.d # "" /\ l.d \notin DOMAIN m.drives THEN Fail(m, NotMounted(l.d))
     ELSE End([m EXCEPT !.cur = DriveOf(m, l)])

(* The date of a number of seconds since 1970. *)
Two(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
DateOf(t) ==
  LET z == t \div 86400 + 719468
      era == z \div 146097
      doe == z - (era * 146097)
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      d == doy - (((153 * mp) + 2) \div 5) + 1
      mo == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + (era * 400) + (IF mo <= 2 THEN 1 ELSE 0)
  IN ToString(y) \o "-" \o Two(mo) \o "-" \o Two(d) \o " " \o Two((t % 86400) \div 3600) \o ":" \o Two((t % 3600) \div 60)
MemDate == 1588757875

(* A listing of entries [n, mt, len], with the space of the drive if known. *)
Listing(m, canon, es, quota) ==
  LET total == FoldLeft(LAMBDA a, e : a + e.len, 0, es)
      tail == IF es = <<>> THEN <<>> ELSE <<"">>
  IN <<"", "    Directory of " \o canon, "">>
     \o (IF Narrow THEN [i \in 1 .. Len(es) |-> "    " \o es[i].n] \o tail \o <<"    " \o ToString(Len(es)) \o " file(s)">>
         ELSE <<"    Modified              Size    Name">>
              \o [i \in 1 .. Len(es) |-> "    " \o DateOf(es[i].mt) \o "    " \o PadL(ToString(es[i].len), 6) \o "    " \o es[i].n]
              \o tail \o <<"    " \o ToString(Len(es)) \o " file(s), " \o ToString(total) \o " bytes">>
              \o (IF quota = NoMap THEN <<>> ELSE <<"    " \o ToString(quota.free) \o " of " \o ToString(quota.all) \o " bytes free">>))
     \o <<"">>
DoDir(m) ==
  LET l == Loc(m.op.a)
      d == DriveOf(m, l)
      canon == d \o ":" \o l.p
      v == m.drives[d]
  IN IF l.err # "" THEN Fail(m, l.err)
     ELSE IF l.leaf # "" THEN Fail(m, "Location '" \o m.op.a \o "' is not a directory")
     ELSE IF d \notin DOMAIN m.drives THEN Fail(m, NotMounted(d))
     ELSE IF v.k = "mem"
     THEN LET ns == SortNames(DOMAIN m.mem)
          IN End(SayAll(m, Listing(m, canon, [i \in 1 .. Len(ns) |-> [n |-> ns[i], mt |-> MemDate, len |-> Len(m.mem[ns[i]].d) \div 2]], NoMap)))
     ELSE LET h == Http(m, Req("GET", <<"users", v.p, "files">>, Bearer(m)), SrvFiles(m.srv, m.c.tok, v.p))
          IN IF h.rep.fate # "" THEN Bad(h.m)
             ELSE IF h.rep.st # 200 THEN NotOk(h.m, h.rep)
             ELSE IF h.rep.k # "j" THEN Bad(h.m)
             ELSE LET js == Reverse(h.rep.j.files)
                      q == IF "disk_quota" \in DOMAIN h.rep.j THEN [free |-> h.rep.j.disk_free.bytes, all |-> h.rep.j.disk_quota.bytes] ELSE NoMap
                  IN End(SayAll(h.m, Listing(m, canon, [i \in 1 .. Len(js) |-> [n |-> js[i].filename, mt |-> js[i].mtime, len |-> js[i].length]], q)))

(******************************** Accounts *********************************)

(* Typed answers: [m, k, t] where k is "line", "int" or "eof".  A line shows up after its prompt. *)
RECURSIVE Stars(_)
Stars(n) == IF n = 0 THEN "" ELSE "*" \o Stars(n - 1)
Ask(m, prompt, secret) ==
  LET m0 == [m EXCEPT !.prompts = @ \o prompt]
      n == IF m.keys = <<>> THEN [k |-> "eof", t |-> ""] ELSE m.keys[1]
      m1 == [m0 EXCEPT !.prompts = @ \o (IF secret THEN Stars(Len(n.t)) ELSE n.t), !.keys = IF @ = <<>> THEN @ ELSE Tail(@)]
  IN [m |-> IF n.k = "line" THEN Say(m1, "") ELSE m1, k |-> n.k, t |-> n.t]
Stop(k) == IF k = "int" THEN "Ctrl+C" ELSE "EOF"

DoLogin(m) ==
  LET u == m.op.a
      a == IF m.op.ask THEN Ask(m, "Password: ", TRUE) ELSE [m |-> m, k |-> "line", t |-> m.op.b]
      q == Req("POST", <<"login">>, "Basic " \o u \o ":" \o a.t)
      h == Http(a.m, q, SrvLogin(m.srv, u, a.t, m.op.l))
      in == [h.m EXCEPT !.c = [user |-> u, tok |-> h.rep.j.access_token]]
      said == IF Narrow \/ h.rep.j.motd = <<>> THEN in
              ELSE SayAll(FoldLeft(LAMBDA x, t : Refill(x, <<t>>, ""), SayAll(in, <<"", "----- BEGIN SERVER MOTD -----">>), h.rep.j.motd),
                          <<"-----  END SERVER MOTD  -----", "">>)
  IN IF m.c.tok # "" THEN Fail(m, "Cannot LOGIN again before LOGOUT")
     ELSE IF a.k # "line" THEN Fail(a.m, Stop(a.k))
     ELSE IF h.rep.fate # "" THEN Bad(h.m)
     ELSE IF h.rep.st # 200 THEN NotOk(h.m, h.rep)
     ELSE IF h.rep.k # "j" THEN Bad(h.m)
     ELSE IF u = "" THEN Fail(said, "Must specify a username to mount a cloud-backed drive")
     ELSE IF "CLOUD" \in DOMAIN m.drives THEN Fail(said, "Drive 'CLOUD' is already mounted")
     ELSE End([said EXCEPT !.drives = Put(@, "CLOUD", [k |-> "cloud", p |-> u, u |-> "cloud://" \o u])])

DoLogout(m) ==
  LET had == "CLOUD" \in DOMAIN m.drives
      m1 == [m EXCEPT !.drives = Without(@, "CLOUD")]
      h == Http(m1, Req("POST", <<"users", m.c.user, "logout">>, Bearer(m)), SrvLogout(m.srv, m.c.user, m.c.tok))
      bye == <<"">> \o (IF had THEN <<"    Unmounted CLOUD drive">> ELSE <<>>) \o <<"    Good bye!", "">>
  IN IF m.c.tok = "" THEN Fail(m, "Must LOGIN first")
     ELSE IF had /\ m.cur = "CLOUD" THEN Fail(m, "Cannot log out while the CLOUD drive is active")
     ELSE IF h.rep.st = 200 THEN End(SayAll([h.m EXCEPT !.c = [user |-> "", tok |-> ""]], bye))
     ELSE NotOk(h.m, h.rep)

(* Changes to who can read a file: [err, add, rem]. *)
RECURSIVE Acls(_, _, _)
Acls(ls, add, rem) ==
  IF ls = <<>> THEN [err |-> 0, add |-> add, rem |-> rem]
  ELSE LET t == ls[1]
           u == SubSeq(t, 1, Len(t) - 2)
           c == Rest(t, Len(t) - 1)
       IN IF Len(t) < 3 \/ c \notin {"+r", "+R", "-r", "-R"} THEN [err |-> Len(add) + Len(rem) + 1, add |-> add, rem |-> rem]
          ELSE IF Ch(c, 1) = "+" THEN Acls(Tail(ls), Append(add, u), rem) ELSE Acls(Tail(ls), add, Append(rem, u))
DoShare(m) ==
  LET f == FileAt(m, m.op.a)
      acl == Acls(m.op.l, <<>>, <<>>)
      v == m.drives[f.d]
      \* The columns of the arguments of SHARE "a", "b", "c".
      col == 9 + Len(m.op.a) + Count(m.op.a, "\\") + FoldLeft(LAMBDA n, i : n + Len(m.op.l[i]) + 4, 2, [i \in 1 .. acl.err - 1 |-> i])
      show(x, rs) == SayAll(x, IF rs = <<>> THEN <<"", "    No ACLs on " \o m.op.a, "">>
                               ELSE <<"", "    Reader ACLs on " \o m.op.a \o ":">> \o [i \in 1 .. Len(rs) |-> "    " \o rs[i]] \o <<"">>)
      told(x) == IF ~(\E i \in 1 .. Len(acl.add) : ToLower(acl.add[i]) = "public") \/ m.c.user = "" THEN x
                 ELSE Say(Refill(Say(x, ""), <<"You have made the file publicly readable.  As a result, other people can now auto-run your public file by visiting:",
                                               "https://repl.example/?run=" \o m.c.user \o "/" \o f.n>>, "    "), "")
      hs == << <<"content-type", "application/octet-stream">>, <<"x-endbasic-patchcontent", "false">> >>
            \o [i \in 1 .. Len(acl.add) |-> <<"x-endbasic-addreader", acl.add[i]>>]
            \o [i \in 1 .. Len(acl.rem) |-> <<"x-endbasic-removereader", acl.rem[i]>>]
  IN IF acl.err > 0
     THEN [m EXCEPT !.st = "end", !.err = "1:" \o ToString(col) \o ": Invalid ACL '" \o m.op.l[acl.err]
                                        \o "': must be of the form \"username+r\" or \"username-r\""]
     ELSE IF f.err # "" THEN Fail(m, f.err)
     ELSE IF m.op.l = <<>>
     THEN IF v.k = "mem"
          THEN IF f.n \in DOMAIN m.mem THEN End(show(m, SortNames(ToSet(m.mem[f.n].r)))) ELSE Fail(m, "Entry not found")
          ELSE LET q == [FileReq(m, "GET", v.p, f.n) EXCEPT !.hs = << <<"x-endbasic-getcontent", "false">>, <<"x-endbasic-getreaders", "true">> >>]
                   h == Http(m, q, SrvAcls(m.srv, m.c.tok, v.p, f.n))
               IN IF h.rep.fate # "" THEN Bad(h.m)
                  ELSE IF h.rep.st # 200 THEN NotOk(h.m, h.rep)
                  ELSE End(show(h.m, [i \in 1 .. Len(h.rep.hs) |-> h.rep.hs[i][2]]))
     ELSE IF v.k = "mem"
     THEN IF f.n \in DOMAIN m.mem
          THEN End(told([m EXCEPT !.mem[f.n].r = FoldLeft(Add, FoldLeft(Del, @, acl.rem), acl.add)])) ELSE Fail(m, "Entry not found")
     ELSE IF m.c.tok = "" THEN Fail(m, NotLogged)
     ELSE LET h == Http(m, [FileReq(m, "PATCH", v.p, f.n) EXCEPT !.hs = hs], SrvShare(m.srv, m.c.tok, v.p, f.n, acl.add, acl.rem))
          IN IF h.rep.st \in {200, 201} THEN End(told(h.m)) ELSE NotOk(h.m, h.rep)

(* Creating an account: a dialog.  An answer of the form [m, k, t] that is not a line ends it. *)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsLetter(c) == \E j \in Letters : c = Ch(Lower, j) \/ c = Ch(Upper, j)
Weak(p) == IF ByteLen(p) < 8 THEN "Must be at least 8 characters long"
           ELSE IF ~(\E i \in 1 .. Len(p) : IsLetter(Ch(p, i))) \/ ~(\E i \in 1 .. Len(p) : Ch(p, i) \in Digit)
           THEN "Must contain letters and numbers" ELSE ""
RECURSIVE AskPassword(_)
AskPassword(m) ==
  LET a == Ask(m, "Password: ", TRUE)
      b == Ask(a.m, "Retype password: ", TRUE)
  IN IF a.k # "line" THEN a
     ELSE IF Weak(a.t) # "" THEN AskPassword(Say(a.m, "Invalid password: " \o Weak(a.t) \o "; try again."))
     ELSE IF b.k # "line" THEN b
     ELSE IF a.t # b.t THEN AskPassword(Say(b.m, "Passwords do not match; try again."))
     ELSE b
RECURSIVE TrimR(_)
TrimR(t) == IF t # "" /\ Blank(Ch(t, Len(t))) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE AskBool(_, _)
AskBool(m, prompt) ==
  LET a == Ask(m, prompt, FALSE)
      w == ToUpper(TrimR(a.t))
  IN IF a.k # "line" \/ a.t = "" THEN a
     ELSE IF w \in {"TRUE", "YES", "Y"} THEN [a EXCEPT !.t = "y"]
     ELSE IF w \in {"FALSE", "NO", "N"} THEN [a EXCEPT !.t = ""]
     ELSE AskBool(Say(a.m, "Invalid input; try again."), prompt)
Box(m, ts) == Say(Refill(Say(m, ""), ts, "    "), "")
DoSignup(m) ==
  LET u == Ask(Box(m, <<"Let's gather some information to create your cloud account.",
                        "You can abort this process at any time by hitting Ctrl+C and you will be given a chance to review your inputs before creating the account.">>),
               "Username: ", FALSE)
      p == AskPassword(u.m)
      e == Ask(Box(p.m, <<"We also need your email address to activate your account.",
                          "Your email address will be kept on file in case we have to notify you of important service issues and will never be made public.  You will be asked if you want to receive promotional email messages (like new release announcements) or not, and your selection here will have no adverse impact in the service you receive.">>),
               "Email address: ", FALSE)
      b == AskBool(e.m, "Receive promotional email (y/N)? ")
      review == SayAll(Box(b.m, <<"We are ready to go. Please review your answers before proceeding.">>),
                       <<"Username: " \o u.t, "Email address: " \o e.t, "Promotional email: " \o (IF b.t = "y" THEN "yes" ELSE "no")>>)
      c == AskBool(review, "Continue (y/N)? ")
      j == [username |-> u.t, password |-> p.t, email |-> e.t, promotional_email |-> b.t = "y"]
      q == [Req("POST", <<"signup">>, "") EXCEPT !.hs = << <<"content-type", "application/json">> >>, !.j = j]
      h == Http(c.m, q, SrvSignup(m.srv, j))
  IN IF u.k # "line" THEN Fail(u.m, Stop(u.k))
     ELSE IF p.k # "line" THEN Fail(p.m, Stop(p.k))
     ELSE IF e.k # "line" THEN Fail(e.m, Stop(e.k))
     ELSE IF b.k # "line" THEN Fail(b.m, Stop(b.k))
     ELSE IF c.k # "line" THEN Fail(c.m, Stop(c.k))
     ELSE IF c.t # "y" THEN End(c.m)
     ELSE IF h.rep.st # 200 THEN NotOk(h.m, h.rep)
     ELSE End(Box(h.m, <<"Your account has been created and is pending activation.",
                         "Check your email now and look for a message from the EndBASIC Service.  Follow the instructions in it to activate your account.  Make sure to check your spam folder.",
                         "Once your account is activated, come back here and use LOGIN to get started!",
                         "If you encounter any problems, please contact support@endbasic.dev.">>))

(* Runs a public program: the programs that can be run have known outcomes. *)
DoAutorun(m) ==
  LET t == m.op.a
      i == Pos(t, "/")
      u == SubSeq(t, 1, i - 1)
      n == Rest(t, i + 1)
      uri == "cloud://" \o u
      path == "AUTORUN:/" \o n
      m1 == Say(m, "Mounting " \o uri \o " as AUTORUN...")
      m2 == Say([m1 EXCEPT !.drives = Put(@, "AUTORUN", [k |-> "cloud", p |-> u, u |-> uri]), !.cur = "AUTORUN"], "Loading " \o path \o "...")
      f == FileAt(m2, path)
      r == Read(m2, f.d, f.n)
      known == {x \in DOMAIN Jobs[pi].lib : Jobs[pi].lib[x].d = r.d}
      x == Jobs[pi].lib[CHOOSE y \in known : TRUE]
      ran == Say(SayAll([r.m EXCEPT !.prog = [name |-> path, text |-> x.text]], <<"Starting...", "">> \o x.out), "")
      over == IF x.err = "" THEN Say([ran EXCEPT !.data = "0"], "**** Program exited due to EOF ****")
              ELSE Say([ran EXCEPT !.data = "1"], "**** ERROR: " \o x.err \o " ****")
      dropped == Say(Refill(Say(over, ""), <<"You are now being dropped into the EndBASIC interpreter.",
                            "The program you asked to run is still loaded in memory and you can interact with it now.  Use LIST to view the source code, EDIT to launch an editor on the source code, and RUN to execute the program again.",
                            "Type HELP for interactive usage information.">>, "   "), "")
  IN IF ~Has(t, "/")
     THEN End(Say([m EXCEPT !.data = "1"], "Invalid program to run '" \o t \o "'; must be of the form 'username/path'"))
     ELSE IF u = "" THEN Fail(m1, "Must specify a username to mount a cloud-backed drive")
     ELSE IF "AUTORUN" \in DOMAIN m.drives THEN Fail(m1, "Drive 'AUTORUN' is already mounted")
     ELSE IF f.err # "" THEN Fail(m2, f.err)
     ELSE IF r.err # "" THEN Fail(r.m, r.err)
     ELSE IF known = {} THEN [r.m EXCEPT !.st = "oom"]
     ELSE IF x.bad # "" THEN End(Say([r.m EXCEPT !.data = "1"], "Invalid program to run '" \o path \o "': " \o x.bad))
     ELSE End(IF m.op.repl THEN dropped ELSE over)

Do(m) ==
  CASE m.op.o = "login" -> DoLogin(m)
    [] m.op.o = "logout" -> DoLogout(m)
    [] m.op.o = "signup" -> DoSignup(m)
    [] m.op.o = "share" -> DoShare(m)
    [] m.op.o = "mount" -> DoMount(m)
    [] m.op.o = "unmount" -> DoUnmount(m)
    [] m.op.o = "cd" -> DoCd(m)
    [] m.op.o = "dir" -> DoDir(m)
    [] m.op.o = "put" -> DoPut(m)
    [] m.op.o = "get" -> DoGet(m)
    [] m.op.o = "copy" -> DoCopy(m)
    [] m.op.o = "kill" -> DoKill(m)
    [] m.op.o = "autorun" -> DoAutorun(m)

(********************************* Sessions ********************************)

Snapshot(m) ==
  [in |-> m.c.tok # "", err |-> m.err, out |-> m.out, prompts |-> m.prompts, left |-> Len(m.keys), reqs |-> m.reqs, reps |-> m.reps, user |-> m.c.user,
   mounts |-> [d \in DOMAIN m.drives |-> m.drives[d].u], cwd |-> m.cur \o ":/", data |-> m.data, name |-> m.prog.name, text |-> m.prog.text]
InitState(p) ==
  LET j == Jobs[p]
  IN [i |-> 1, st |-> "run", op |-> j.ops[1], c |-> [user |-> "", tok |-> ""],
      drives |-> [x \in {"MEMORY"} |-> [k |-> "mem", p |-> "", u |-> "memory://"]], cur |-> "MEMORY", mem |-> NoMap,
      srv |-> [users |-> j.users, files |-> j.files, toks |-> NoMap, n |-> 1, clock |-> 1700000000],
      prog |-> [name |-> "", text |-> ""], reqs |-> <<>>, reps |-> <<>>, keys |-> <<>>, out |-> "", prompts |-> "", err |-> "", data |-> "", res |-> <<>>]
Step(m) ==
  LET m1 == Do([m EXCEPT !.op = Ops[m.i], !.reqs = <<>>, !.reps = <<>>, !.keys = Ops[m.i].keys, !.out = "", !.prompts = "", !.err = "", !.data = ""])
  IN IF m1.st = "oom" THEN m1
     ELSE [m1 EXCEPT !.i = @ + 1, !.res = Append(@, Snapshot(m1)), !.st = IF m.i = Len(Ops) THEN "done" ELSE "run"]

Init == pi \in 1 .. Len(Jobs) /\ s = InitState(pi)
Next == s.st = "run" /\ s' = Step(s) /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars

(******************************** Properties *******************************)

(* There is a session exactly if there is a token. *)
SessionOk == s.c.user = "" => s.c.tok = "" \/ s.op.o = "login"
DrivesOk == s.cur \in DOMAIN s.drives /\ \A d \in DOMAIN s.drives : ValidDrive(d) /\ ToUpper(d) = d
(* Requests only carry the token of the session they are made in, and passwords only travel to log in and sign up. *)
AuthOk == [][ \A i \in 1 .. Len(s'.reqs) :
                LET q == s'.reqs[i]
                IN /\ q.auth \in {"", "Bearer " \o s.c.tok} \/ (q.segs = <<"api", "login">> /\ s.c.tok = "")
                   /\ q.j # NoMap => q.segs = <<"api", "signup">>
                   /\ q.v # "GET" /\ q.segs[2] = "users" => q.auth # "" ]_vars
(* Once logged out, nothing else than logging in starts a session. *)
StartOk == [][ s.c.tok = "" /\ s'.c.tok # "" => s'.op.o = "login" ]_vars
(* Only the owner of a file changes it or who may read it. *)
OwnerOk == [][ \A u \in DOMAIN s.srv.files : s'.srv.files[u] # s.srv.files[u] => s.c.user = u ]_vars
(* What was stored without errors is what the service has; what failed before the service got to act has no effects. *)
StoredOk == [][ (s'.op.o = "put" /\ s'.err = "" /\ Len(s'.reqs) = 1)
                => LET f == FileAt(s, s'.op.a) IN s'.srv.files[s.drives[f.d].p][f.n].d = s'.op.d ]_vars
QuietOk == [][ (s'.err # "" /\ s'.reqs = <<>>) => s'.srv = s.srv ]_vars
NoFaults(op) == \A i \in 1 .. Len(op.f) : op.f[i].k = ""
FailedOk == [][ (s'.err # "" /\ NoFaults(s'.op)) => s'.srv.files = s.srv.files ]_vars

Emit == s.st \in {"done", "oom"} => PrintT("@@" \o ToJson([p |-> pi, st |-> s.st, res |-> s.res]))
=============================================================================
