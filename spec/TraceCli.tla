------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Validates what the ofx tool sent, or printed in a dry run.  Events:     *)
(* {"op":"ask","cmd","f": flags,"doc": the request,"lo","hi": bounds of    *)
(*   the time it was made}                                                 *)
(* {"op":"try","f","i": number of the request,"doc","lo","hi"}             *)
(* {"op":"detect","f","accept": the request that was accepted (0: none),   *)
(*   "tries": <<id, appver, version, indented, user, password>> of every   *)
(*   request,"exit","lines","id","appver","ver","noindent": what it says}  *)
(***************************************************************************)
EXTENDS OfxWire, OfxCli, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)
MapIs(x) == IF DOMAIN x = {} THEN NoMap ELSE x
SplitAt(v) == FindAny(v, {":"})
InstantOf(v) == LET i == SplitAt(v) IN <<NatOf(SubSeq(v, 1, i - 1)), NatOf(SubSeq(v, i + 1, Len(v)))>>
Within(v, lo, hi) == LET x == InstantOf(v)  Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) IN Le(lo, x) /\ Le(x, hi)
Leaf(p, t) == LET I == {i \in 1..Len(p) : p[i][1] = "L" /\ p[i][2] = t} IN IF I = {} THEN "" ELSE Trim(p[CHOOSE i \in I : TRUE][3])

\* Does document d, made between lo and hi, spell request m0 in version ver with this layout?
Judge(d, m0, ver, indent, cr, lo, hi) ==
  LET p == NoHollow(Parts(d.toks, 1))  dt == Leaf(p, "DTCLIENT")  v == Parse("date", dt)  uid == Leaf(p, "TRNUID") IN
  IF ~d.clean THEN "not a sequence of tags and text"
  ELSE IF ~HeadFor(d.head, ToString(ver), cr) THEN "header"
  ELSE IF dt = "" \/ v.st # "ok" \/ SplitAt(v.v) < 2 THEN "DTCLIENT " \o dt
  ELSE IF ~Within(v.v, lo, hi) THEN "DTCLIENT is " \o v.v \o ", made between " \o ToString(lo) \o " and " \o ToString(hi)
  ELSE IF ~LenIn(uid, 1, 36) THEN "TRNUID " \o uid
  ELSE IF ~Ended(d.toks, cr) THEN "line ends"
  ELSE IF indent /\ ~LaidOut(d.toks, cr) THEN "not indented"
  ELSE IF ~indent /\ ~Compact(d.toks) THEN "white space"
  ELSE LET U == {k \in DOMAIN m0 : HasSuffix(k, ".TrnUID")}
           m == [k \in U |-> uid] @@ ("Signon.DtClient" :> v.v) @@ m0
           c == NoHollow(Content("rq", m))  n == Differ(p, c, ver >= 200)
       IN IF n = 0 THEN ""
          ELSE "item " \o ToString(n) \o " is " \o (IF n > Len(p) THEN "missing" ELSE ToString(p[n])) \o ", must be " \o (IF n > Len(c) THEN "the end" ELSE ToString(c[n]))

\* ---- detect-settings
Pairs_ == AppPairs
Profile == ("Prof#" :> "1") @@ ("Prof[0]@" :> "ProfileRequest/PROFTRNRQ/PROFMSGSRQV1") @@ ("Prof[0].TrnUID" :> "u") @@ ("Prof[0].DtProfUp" :> "0:0")
Login(f, n, what) == IF n % 2 = 0 THEN Flag(f, what, "") ELSE Anonymous
Attempt(pairs, f, n) == LET k == Candidate(pairs, n \div 2) IN <<k.id, k.appver, ToString(k.ver), IF k.indent THEN "yes" ELSE "no", Login(f, n, "username"), Login(f, n, "password")>>
WhyDetect(e, f, pairs) ==
  LET all == 2 * NumCandidates
      due == IF e.accept = 0 THEN all ELSE e.accept
      B == {i \in 1..Min(Len(e.tries), due) : e.tries[i] # Attempt(pairs, f, i - 1)}
      last == Candidate(pairs, (due - 1) \div 2)
  IN IF B # {} THEN LET i == CHOOSE i \in B : \A j \in B : i <= j IN "request " \o ToString(i) \o " is " \o ToString(e.tries[i]) \o ", must be " \o ToString(Attempt(pairs, f, i - 1))
     ELSE IF Len(e.tries) # due THEN ToString(Len(e.tries)) \o " requests instead of " \o ToString(due)
     ELSE IF e.accept = 0
     THEN IF e.exit = 0 THEN "reports success" ELSE IF e.lines # 0 THEN "reports settings" ELSE ""
     ELSE IF e.exit # 0 THEN "reports failure"
     ELSE IF e.lines # 4 \/ <<e.id, e.appver, e.ver, e.noindent>> # <<last.id, last.appver, ToString(last.ver), IF last.indent THEN "false" ELSE "true">>
     THEN "reports " \o ToString(<<e.lines, e.id, e.appver, e.ver, e.noindent>>) \o " instead of " \o ToString(last) ELSE ""

Why(e) ==
  LET f == MapIs(e.f) IN
  CASE e.op = "ask" -> Judge(e.doc, Request(e.cmd, f), NatOf(VersionText(f)), ~On(f, "noindent"), On(f, "carriagereturn"), e.lo, e.hi)
    [] e.op = "try" -> LET k == Candidate(Pairs_, e.i \div 2) IN
                       Judge(e.doc, Given(SignonOf(Login(f, e.i, "username"), Login(f, e.i, "password"), f, k.id, k.appver) @@ Profile), k.ver, k.indent, FALSE, e.lo, e.hi)
    [] e.op = "detect" -> LET pairs == Pairs_ IN WhyDetect(e, f, pairs)
Init == vLine = 1
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ LET w == Why(Trace[vLine]) IN IF w = "" THEN TRUE ELSE Emit([line |-> vLine, event |-> [op |-> Trace[vLine].op, why |-> w, id |-> Trace[vLine].at]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
