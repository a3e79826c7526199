------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Several requests and responses live side by side.  Their owner changes  *)
(* versions and layouts, edits fields, breaks objects and mends them, and  *)
(* marshals them over and over, in any order.  What a marshal writes is a  *)
(* function of the object's state alone: its identity.                     *)
(*                                                                         *)
(* An object: [b |-> base, ed |-> edited, br |-> how it is broken,         *)
(*             ver, indent, cr].                                           *)
(***************************************************************************)
EXTENDS OfxWriter, OfxValid, OfxEmit
CONSTANTS Bases,     \* sequence of [side, seed, plan, dens]
          Formats,   \* set of [ver, indent, cr] (indent and cr say nothing about responses)
          Objects,   \* sequence of base numbers: the objects of a schedule
          Length,    \* operations per schedule
          Last,      \* TRUE: emit only schedules that end with a marshal (all lengths up to Length); FALSE: emit at Length
          Share      \* one in so many schedules is emitted
VARIABLES vObjs, vHist, vDocs
vars == <<vObjs, vHist, vDocs>>
TE == INSTANCE TLCExt
View == vHist

BaseMode(b) == [kind |-> "rand", ta |-> "", ti |-> 0, tj |-> 0, dens |-> Bases[b].dens, valid |-> TRUE, ver |-> 102]
\* Bases leave the language and the routing of requests to the library.
Bare(m) == [k \in {k \in DOMAIN m : k # "Signon.Language" /\ ~HasSuffix(k, ".ClientRouting")} |-> m[k]]
MapOf == [b \in 1..Len(Bases) |-> IF Bases[b].side = "rq" THEN Bare(GenReq(Bases[b].seed, Bases[b].plan, BaseMode(b)).proj)
                                   ELSE GenDoc(Bases[b].seed, Bases[b].plan, BaseMode(b)).proj]
\* What an edit changes, and what breaks an object: leaves with a new value.
UidPath(b) == LET K == {k \in DOMAIN MapOf[b] : HasSuffix(k, ".TrnUID")} IN IF K = {} THEN "" ELSE CHOOSE k \in K : TRUE
EditOf(b) == IF Bases[b].side = "rq" THEN <<"Signon.Org", "  edited  by hand ">> ELSE <<"Signon.UserKey", "edited">>
\* The fields without which a bank account is none.
AcctPath(b, f) == LET K == {k \in DOMAIN MapOf[b] : HasSuffix(k, ".BankAcctFrom." \o f) /\ HasPrefix(k, "Bank[")} IN IF K = {} THEN "" ELSE CHOOSE k \in K : TRUE
BreakOf(b, how) == CASE how = "uid" -> <<UidPath(b), "">>
                     [] how \in {"AcctID", "BankID"} -> <<AcctPath(b, how), "">>
                     [] how = "signon" -> IF Bases[b].side = "rq" THEN <<"Signon.AppID", "">> ELSE <<"Signon.Language", "">>
Breaks(b) == (IF UidPath(b) = "" THEN {} ELSE {"uid"}) \cup {f \in {"AcctID", "BankID"} : AcctPath(b, f) # ""} \cup {"signon", "place", "version"}

InitF == CHOOSE f \in Formats : f.ver = 102
Init == /\ vObjs = [i \in 1..Len(Objects) |-> [b |-> Objects[i], ed |-> FALSE, br |-> "", f |-> InitF]]
        /\ vHist = <<>> /\ vDocs = NoMap
Id(o) == ToString(<<o.b, o.ed, o.f.ver, IF Bases[o.b].side = "rq" THEN <<o.f.indent, o.f.cr>> ELSE <<>>>>)
Log(r) == vHist' = Append(vHist, r)
Layout(i) == \E f \in Formats : f # vObjs[i].f /\ vObjs' = [vObjs EXCEPT ![i].f = f] /\ UNCHANGED vDocs
                                 /\ Log([op |-> "layout", o |-> i, ver |-> f.ver, indent |-> f.indent, cr |-> f.cr])
Leaf(i, p, v) == [op |-> "set", o |-> i, path |-> p, v |-> v]
Old(b, p) == IF p \in DOMAIN MapOf[b] THEN MapOf[b][p] ELSE ""
Edit(i) == LET o == vObjs[i]  e == EditOf(o.b) IN vObjs' = [vObjs EXCEPT ![i].ed = ~@] /\ UNCHANGED vDocs
              /\ Log(Leaf(i, e[1], IF o.ed THEN Old(o.b, e[1]) ELSE e[2]))
Break(i) == LET o == vObjs[i] IN o.br = "" /\ \E how \in Breaks(o.b) :
              /\ vObjs' = [vObjs EXCEPT ![i].br = how] /\ UNCHANGED vDocs
              /\ CASE how \in {"place", "version"} -> Log([op |-> how, o |-> i, on |-> TRUE])
                   [] OTHER -> LET e == BreakOf(o.b, how) IN Log(Leaf(i, e[1], e[2]))
Mend(i) == LET o == vObjs[i] IN o.br # "" /\ vObjs' = [vObjs EXCEPT ![i].br = ""] /\ UNCHANGED vDocs
              /\ CASE o.br \in {"place", "version"} -> Log([op |-> o.br, o |-> i, on |-> FALSE])
                   [] OTHER -> LET e == BreakOf(o.b, o.br) IN Log(Leaf(i, e[1], Old(o.b, e[1])))
\* The document is new, or the same as before: docs stands for the bytes.
Marshal(i) == LET o == vObjs[i]  id == Id(o) IN
              /\ UNCHANGED vObjs
              /\ vDocs' = IF o.br # "" \/ id \in DOMAIN vDocs THEN vDocs ELSE (id :> ToString(Len(vHist))) @@ vDocs
              /\ Log([op |-> "marshal", o |-> i, id |-> id, ok |-> o.br = ""])
Parse_(i) == UNCHANGED <<vObjs, vDocs>> /\ Log([op |-> "parse", o |-> i])
Next == Len(vHist) < Length /\ \E i \in 1..Len(Objects) : Layout(i) \/ Edit(i) \/ Break(i) \/ Mend(i) \/ Marshal(i) \/ Parse_(i)
\* Marshals are what it is all about: half of the steps of a simulated schedule.
Often == Len(vHist) < Length /\ \E i \in 1..Len(Objects) : IF Len(vHist) % 2 = 1 THEN Marshal(i) ELSE Layout(i) \/ Edit(i) \/ Break(i) \/ Mend(i) \/ Parse_(i)
Spec == Init /\ [][Next]_vars
SpecOften == Init /\ [][Often]_vars

\* ---- properties of the specification
BasesValid == vHist = <<>> => \A b \in 1..Len(Bases) : \A i \in 1..Len(OfxVersions) : Gate(Bases[b].side, MapOf[b], OfxVersions[i])
\* A marshal never changes what another one gives: every identity is written once.
Functional == \A x, y \in DOMAIN vDocs : vDocs[x] = vDocs[y] => x = y
BaseRecs == vHist = <<>> => \A b \in 1..Len(Bases) :
   Emit([op |-> "base", b |-> b, side |-> Bases[b].side, map |-> MapOf[b], edit |-> EditOf(b),
         ids |-> {[id |-> Id([b |-> b, ed |-> ed, f |-> f]), ed |-> ed, ver |-> f.ver, indent |-> f.indent, cr |-> f.cr] : ed \in BOOLEAN, f \in Formats}])
Due == IF Last THEN Len(vHist) > 0 /\ vHist[Len(vHist)].op = "marshal" ELSE Len(vHist) = Length
Emitted == BaseRecs /\ (Due /\ TE!TLCFP(vHist) % Share = 0 => Emit([op |-> "hist", objs |-> Objects, init |-> InitF, steps |-> vHist]))
=============================================================================
