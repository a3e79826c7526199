------------------------------ MODULE OfxWire ------------------------------
(***************************************************************************)
(* What a marshalled object has to look like.  Content(side, m) is the     *)
(* sequence of elements and values OFX prescribes for an object given as a *)
(* projection: <<"S", tag>>, <<"E", tag>>, <<"L", tag, kind, value>>.       *)
(* A document (a token sequence, see OfxReader) spells a content when the  *)
(* same elements come in the same order, every leaf holds a text that      *)
(* denotes its value, leaves are closed exactly in 2.x, and nothing but    *)
(* white space lies between elements.                                      *)
(***************************************************************************)
EXTENDS OfxValid, OfxHeader
SX == INSTANCE SequencesExt

\* ---- from the object to its content
Mark_(k) == Ch(k, Len(k))
\* Marshalling fills in two defaults.
Filled(side, m) ==
  LET lang == IF side = "rq" /\ "Signon.Language" \notin DOMAIN m THEN ("Signon.Language" :> "ENG") ELSE NoMap
      P == {SubSeq(k, 1, Len(k) - 1) : k \in {k \in DOMAIN m : Mark_(k) = "@" /\ HasPrefix(m[k], "ProfileRequest/")}}
  IN [k \in {p \o ".ClientRouting" : p \in P} |-> "NONE"] @@ lang @@ m

RECURSIVE Body(_, _, _), Elems(_, _, _, _)
Elems(a, i, pre, m) ==
  LET e == Schema[a][i]  lp == J(pre, e.f)
      Copy(p) == IF e.k = "agg" THEN (<< <<"S", e.t>> >> \o Body(e.a, p, m)) \o << <<"E", e.t>> >>
                 ELSE << <<"L", e.t, e.k, IF Has(m, p) THEN m[p] ELSE ZeroOf(e.k)>> >>
  IN CASE e.k = "mix" -> LET mx == Mix[e.a]  fs == {mx[j].f : j \in 1..Len(mx)}
                             f == CHOOSE f \in fs : TRUE
                             lst == J(pre, f)
                             Entry(n) == LET p == lst \o Idx(n)  key == IF Has(m, p \o "@") THEN m[p \o "@"] ELSE ""
                                             J_ == {j \in 1..Len(mx) : mx[j].ty \o "/" \o mx[j].t = key}
                                             j == CHOOSE j \in J_ : TRUE
                                         IN IF J_ = {} THEN << <<"?", key>> >>
                                            ELSE (<< <<"S", mx[j].t>> >> \o Body(mx[j].a, p, m)) \o << <<"E", mx[j].t>> >>
                         IN Flat([n \in 1..Num(m, lst) |-> Entry(n - 1)])
       [] e.c = "*" -> Flat([n \in 1..Num(m, lp) |-> Copy(lp \o Idx(n - 1))])
       [] e.k = "agg" /\ e.f = "" -> LET b == Body(e.a, pre, m) IN IF b = <<>> THEN <<>> ELSE (<< <<"S", e.t>> >> \o b) \o << <<"E", e.t>> >>
       [] e.k = "agg" /\ e.p -> IF Ptr(m, lp) THEN Copy(lp) ELSE <<>>
       [] e.k = "agg" -> Copy(lp)
       [] e.c = "1" -> Copy(lp)
       [] OTHER -> IF Has(m, lp) THEN Copy(lp) ELSE <<>>
Body(a, pre, m) == Flat([i \in 1..Len(Schema[a]) |-> Elems(a, i, pre, m)])

Wrap(t, b) == (<< <<"S", t>> >> \o b) \o << <<"E", t>> >>
Msgs(side, i, m) ==
  LET sets == IF side = "rq" THEN RqSets ELSE RsSets  st == sets[i]
      Msg(n) == LET p == st.slot \o Idx(n - 1)
                    K == {k \in 1..Len(st.msgs) : st.msgs[k].a = KindAt(m, p)}
                    msg == st.msgs[CHOOSE k \in K : TRUE]
                IN Wrap(msg.t, Body(msg.a, p, m))
  IN IF Num(m, st.slot) = 0 THEN <<>> ELSE Wrap(st.set, Flat([n \in 1..Num(m, st.slot) |-> Msg(n)]))
Content(side, m0) ==
  LET m == Filled(side, m0)  sets == IF side = "rq" THEN RqSets ELSE RsSets IN
  Wrap("OFX", Wrap(IF side = "rq" THEN RqSonSet ELSE SonSet,
                   IF side = "rq" THEN Wrap("SONRQ", Body("SignonRequest", "Signon", m)) ELSE Wrap("SONRS", Body("SignonResponse", "Signon", m)))
              \o Flat([i \in 1..Len(sets) |-> Msgs(side, i, m)]))

\* ---- from the document to its content: white space between elements falls away, leaf end tags too
IsText(k) == Ch(k, 1) = "="
TextOf(k) == SubSeq(k, 2, Len(k))
\* The document read as elements: a start tag directly followed by text, or by the start of something while it is a leaf, is a leaf.
\* leaf: tags that are leaves.  Result: <<"S", tag>>, <<"E", tag>>, <<"L", tag, text, closed>>, <<"T", text>> for stray text.
RECURSIVE Parts(_, _)
Parts(toks, i) ==
  IF i > Len(toks) THEN <<>>
  ELSE LET k == toks[i]  tag == TextOf(k) IN
       IF Ch(k, 1) = "+" /\ tag \in LeafTags
       THEN LET txt == i < Len(toks) /\ IsText(toks[i + 1])
                j == IF txt THEN i + 2 ELSE i + 1
                closed == j <= Len(toks) /\ toks[j] = "-" \o tag
            IN << <<"L", tag, IF txt THEN TextOf(toks[i + 1]) ELSE "", closed>> >> \o Parts(toks, IF closed THEN j + 1 ELSE j)
       ELSE IF Ch(k, 1) = "+" THEN << <<"S", tag>> >> \o Parts(toks, i + 1)
       ELSE IF Ch(k, 1) = "-" THEN << <<"E", tag>> >> \o Parts(toks, i + 1)
       ELSE IF Trim(tag) = "" THEN Parts(toks, i + 1)
       ELSE << <<"T", tag>> >> \o Parts(toks, i + 1)

\* One part against one item of the content.
LeafSpells(x, c, closed) == /\ x[1] = "L" /\ x[2] = c[2] /\ x[4] = closed
                            /\ Writes(c[3], c[4], Unescape(IF closed THEN x[3] ELSE Trim(x[3])))
                            /\ BadXmlText(x[3]) = FALSE
Spells(x, c, closed) == IF c[1] = "L" THEN LeafSpells(x, c, closed) ELSE x = c
\* A wrapper with nothing in it may be left out or written.
Wrappers == UNION {{Schema[a][i].t : i \in {j \in 1..Len(Schema[a]) : Schema[a][j].k = "agg" /\ Schema[a][j].f = ""}} : a \in DOMAIN Schema}
Hollow(ps) == {i \in 1..(Len(ps) - 1) : ps[i][1] = "S" /\ ps[i + 1][1] = "E" /\ ps[i][2] = ps[i + 1][2] /\ ps[i][2] \in Wrappers}
NoHollow(ps) == LET H == Hollow(ps) IN
                IF H = {} THEN ps
                ELSE LET keep == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : i \notin H /\ (i - 1) \notin H) IN [i \in 1..Len(keep) |-> ps[keep[i]]]
\* The first place where parts and content differ, 0 when they do not.
Differ(parts, content, closed) ==
  LET n == Max(Len(parts), Len(content))
      D == {i \in 1..n : i > Len(parts) \/ i > Len(content) \/ ~Spells(parts[i], content[i], closed)}
  IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

\* The content of a document without regard to how leaves are closed: what C09 compares.
Plainly(parts) == [i \in 1..Len(parts) |-> IF parts[i][1] = "L" THEN <<"L", parts[i][2], Trim(parts[i][3])>> ELSE parts[i]]

\* ---- layout.  Indented: every element begins a line of its own; otherwise no white space between elements.
NL(cr) == IF cr THEN "\r\n" ELSE "\n"
LaidOut(toks, cr) ==
  \A i \in 2..Len(toks) :
    LET k == toks[i]  lead == IF IsText(toks[i - 1]) THEN TextOf(toks[i - 1]) ELSE "" IN
    IsText(k) \/ (Ch(k, 1) = "-" /\ (TextOf(k) \in LeafTags \/ toks[i - 1] = "+" \o TextOf(k))) \/ HasSuffix(RTrim(lead, {" ", "\t"}), NL(cr))
Ended(toks, cr) == \A i \in 1..Len(toks) : IsText(toks[i]) => LineEnds(TextOf(toks[i]), cr)
\* White space occurs only inside values.
Compact(toks) == \A i \in 1..Len(toks) : IsText(toks[i]) => /\ i > 1 /\ Ch(toks[i - 1], 1) = "+" /\ TextOf(toks[i - 1]) \in LeafTags
                                                            /\ FindAny(TextOf(toks[i]), {"\n", "\r"}) = 0
=============================================================================
