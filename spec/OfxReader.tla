----------------------------- MODULE OfxReader -----------------------------
(***************************************************************************)
(* The reader of OFX response documents as a transition system over        *)
(* tokens.  A token is a string: "+TAG" (start), "-TAG" (end), "=text"     *)
(* (character data).  The reader keeps a stack of open elements and the    *)
(* response read so far as a projection: a function from API paths         *)
(* (Bank[0].BankTranList.Transactions[3].Payee.Name) to canonical values,  *)
(*    path     the value of a leaf, absent when it is its type's zero      *)
(*             (present anyway when the API field is a pointer)            *)
(*    path!    "1" when the pointer to an aggregate is set                 *)
(*    path#    length of a non-empty list                                  *)
(*    path@    Go type and reported name(s) of an entry of a list           *)
(* st: "run" while reading, "ok" after </OFX>, "err" when the document     *)
(* must be rejected, "free" when the properties leave the outcome open.    *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxSchema

\* ---- constant tables derived from the schema
Idx(n) == IF n = 0 THEN "[0]" ELSE "[" \o ToString(n) \o "]"
J(pre, f) == IF f = "" THEN pre ELSE IF pre = "" THEN f ELSE pre \o "." \o f

TagsOf == [a \in DOMAIN Schema |-> {Schema[a][i].t : i \in 1..Len(Schema[a])} \ {""}]
ElemIx == [a \in DOMAIN Schema |-> [t \in TagsOf[a] |-> CHOOSE i \in 1..Len(Schema[a]) : Schema[a][i].t = t]]
MixName == [a \in DOMAIN Schema |-> IF \E i \in 1..Len(Schema[a]) : Schema[a][i].k = "mix"
              THEN Schema[a][CHOOSE i \in 1..Len(Schema[a]) : Schema[a][i].k = "mix"].a ELSE ""]
MixTags == [m \in DOMAIN Mix |-> {Mix[m][i].t : i \in 1..Len(Mix[m])}]
MixIx   == [m \in DOMAIN Mix |-> [t \in MixTags[m] |-> CHOOSE i \in 1..Len(Mix[m]) : Mix[m][i].t = t]]
LeafTags == UNION {{Schema[a][i].t : i \in {j \in 1..Len(Schema[a]) : Schema[a][j].k \notin {"agg", "mix"}}} : a \in DOMAIN Schema}
AggTags  == (UNION {{Schema[a][i].t : i \in {j \in 1..Len(Schema[a]) : Schema[a][j].k = "agg"}} : a \in DOMAIN Schema})
            \cup UNION {MixTags[m] : m \in DOMAIN Mix}
SetTags  == {RsSets[i].set : i \in 1..Len(RsSets)}
SetIx    == [t \in SetTags |-> CHOOSE i \in 1..Len(RsSets) : RsSets[i].set = t]
SchemaSane == LeafTags \cap AggTags = {} /\ "" \notin LeafTags

\* What an entry says about itself: its Go type, its name, and for messages its message set.
MsgType(a, tag, set) == a \o "/" \o tag \o "/" \o set
SonSet == "SIGNONMSGSRSV1"
RqSonSet == "SIGNONMSGSRQV1"

\* ---- reader state
Frame(k, t, a, pre) == [k |-> k, t |-> t, a |-> a, pre |-> pre, seen |-> {}, txt |-> "", kind |-> "", ptr |-> FALSE]
NoMap == [x \in {} |-> ""]
NoCnt == [x \in {} |-> 0]
Start0(sgml) == [st |-> "run", sgml |-> sgml, stk |-> <<Frame("top", "", "", "")>>, proj |-> NoMap, cnt |-> NoCnt]

TopF(r)     == r.stk[Len(r.stk)]
Pop(r)      == [r EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Push(r, f)  == [r EXCEPT !.stk = Append(@, f)]
Fail(r)     == [r EXCEPT !.st = "err"]
Leave(r)    == [r EXCEPT !.st = "free"]
Set(r, p, v) == [r EXCEPT !.proj = (p :> v) @@ @]
Seen(r, t)  == [r EXCEPT !.stk[Len(r.stk)].seen = @ \cup {t}]
Count(r, p) == IF p \in DOMAIN r.cnt THEN r.cnt[p] ELSE 0
Bump(r, p)  == LET n == Count(r, p) + 1 IN
               [r EXCEPT !.cnt = (p :> n) @@ @, !.proj = (p \o "#" :> ToString(n)) @@ @]

\* A leaf element is complete: its text becomes the value.
Finish(r) ==
  LET f == TopF(r)
      p == Parse(f.kind, Unescape(f.txt))
  IN IF f.k = "skip" THEN Pop(r)
     ELSE IF Contains(Trim(f.txt), "\r") THEN Leave(r)             \* line ends inside a value
     ELSE IF p.st = "bad" THEN Fail(r)
     ELSE IF p.st = "free" THEN Leave(r)
     ELSE IF p.v = ZeroOf(f.kind) /\ ~f.ptr THEN Pop(r)
     ELSE Set(Pop(r), f.pre, p.v)

\* A child element of an open aggregate.
Child(r, tag) ==
  LET f == TopF(r)  a == f.a  m == MixName[a] IN
  IF tag \in TagsOf[a]
  THEN LET e  == Schema[a][ElemIx[a][tag]]
           lp == J(f.pre, e.f)
           n  == Count(r, lp)
           p  == IF e.c = "*" THEN lp \o Idx(n) ELSE lp
           r1 == Seen(IF e.c = "*" THEN Bump(r, lp) ELSE r, tag)
           r2 == IF e.k = "agg" /\ e.p THEN Set(r1, p \o "!", "1") ELSE r1
           r3 == IF e.a = "MessageSet" THEN Set(r2, J(p, "Name"), tag) ELSE r2
       IN IF e.c # "*" /\ tag \in f.seen THEN Leave(r)          \* a single element given twice
          ELSE IF e.k = "agg" THEN Push(r3, Frame("agg", tag, e.a, p))
          ELSE Push(r3, [Frame("leaf", tag, "", p) EXCEPT !.kind = e.k, !.ptr = e.p])
  ELSE IF m # "" /\ tag \in MixTags[m]
  THEN LET e  == Mix[m][MixIx[m][tag]]
           lp == J(f.pre, e.f)
           p  == lp \o Idx(Count(r, lp))
           r1 == Bump(r, lp)
           r2 == IF e.ty = "" THEN r1 ELSE Set(r1, p \o "@", e.ty \o "/" \o tag)
       IN Push(r2, Frame("agg", tag, e.a, p))
  ELSE IF m = "MessageSetList" \/ HasPrefix(a, "MsgSet_") THEN Leave(r)
  ELSE IF m # "" THEN Fail(r)                                    \* a stranger in a list of alternatives
  ELSE Push(r, Frame("skip", tag, "", ""))                       \* not supported: skipped

RECURSIVE OnStart(_, _)
OnStart(r, tag) ==
  LET f == TopF(r) IN
  CASE f.k = "top" -> IF tag = "OFX" THEN Push(r, Frame("ofx", "OFX", "", "")) ELSE Fail(r)
    [] f.k = "ofx" ->
         IF SonSet \notin f.seen
         THEN IF tag = SonSet THEN Push(Seen(r, SonSet), Frame("sonset", tag, "", "")) ELSE Fail(r)
         ELSE IF tag \in SetTags THEN Push(r, Frame("set", tag, "", "")) ELSE Fail(r)
    [] f.k = "sonset" ->
         IF tag = "SONRS" /\ "SONRS" \notin f.seen
         THEN Push(Seen(r, "SONRS"), Frame("agg", tag, "SignonResponse", "Signon"))
         ELSE Fail(r)
    [] f.k = "set" ->
         LET s  == RsSets[SetIx[f.t]]
             ms == {i \in 1..Len(s.msgs) : s.msgs[i].t = tag}
         IN IF ms = {} THEN Fail(r)
            ELSE LET a == s.msgs[CHOOSE i \in ms : TRUE].a
                     p == s.slot \o Idx(Count(r, s.slot))
                 IN Push(Set(Bump(r, s.slot), p \o "@", MsgType(a, tag, f.t)), Frame("agg", tag, a, p))
    [] f.k = "agg"  -> Child(r, tag)
    [] f.k = "leaf" -> IF r.sgml THEN LET g == Finish(r) IN IF g.st = "run" THEN OnStart(g, tag) ELSE g
                       ELSE Leave(r)
    [] OTHER        -> IF r.sgml /\ f.t \in LeafTags THEN OnStart(Pop(r), tag)
                       ELSE Push(r, Frame("skip", tag, "", ""))

RECURSIVE OnEnd(_, _)
OnEnd(r, tag) ==
  LET f == TopF(r) IN
  IF f.k = "top" THEN Fail(r)
  ELSE IF f.t # tag
  THEN IF ~r.sgml THEN Fail(r)                                   \* not well nested
       ELSE IF f.k = "leaf" \/ (f.k = "skip" /\ f.t \in LeafTags)
       THEN LET g == Finish(r) IN IF g.st = "run" THEN OnEnd(g, tag) ELSE g
       ELSE IF \E i \in 1..Len(r.stk) : r.stk[i].t = tag THEN Leave(r)
       ELSE Fail(r)                                              \* it closes nothing that is open
  ELSE CASE f.k = "leaf" -> Finish(r)
         [] f.k = "sonset" -> IF "SONRS" \in f.seen THEN Pop(r) ELSE Fail(r)
         [] f.k = "ofx" -> IF SonSet \in f.seen THEN [r EXCEPT !.st = "ok", !.stk = <<>>] ELSE Fail(r)
         [] f.k = "agg" /\ HasPrefix(f.a, "MsgSet_") /\ f.seen = {} -> Leave(r)
         [] OTHER -> Pop(r)

\* Text a document may carry only in leaf elements.
BadXmlText(t) == \E i \in 1..Len(t) : Ch(t, i) = "&" /\ Unescape(SubSeq(t, i, Len(t))) = "&" \o Unescape(SubSeq(t, i+1, Len(t)))
OnText(r, t) ==
  LET f == TopF(r) IN
  IF f.k = "leaf" THEN IF ~r.sgml /\ Contains(t, "&") /\ BadXmlText(t) THEN Leave(r)
                       ELSE [r EXCEPT !.stk[Len(r.stk)].txt = @ \o t]
  ELSE IF AllIn(t, WS) \/ f.k = "skip" THEN r
  ELSE Leave(r)

Step(r, tok) ==
  IF r.st # "run" THEN r
  ELSE CASE Ch(tok, 1) = "+" -> OnStart(r, SubSeq(tok, 2, Len(tok)))
         [] Ch(tok, 1) = "-" -> OnEnd(r, SubSeq(tok, 2, Len(tok)))
         [] OTHER            -> OnText(r, SubSeq(tok, 2, Len(tok)))

\* The input ends.
AtEof(r) == IF r.st = "run" THEN Fail(r) ELSE r
=============================================================================
