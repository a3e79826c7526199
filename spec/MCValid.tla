------------------------------ MODULE MCValid ------------------------------
(***************************************************************************)
(* Requests and responses under construction.  Starting from an object all *)
(* of whose parts are set, the caller (or a careless bank) changes one or  *)
(* two things: unsets a field, breaks it, adds an alternative that must    *)
(* not come with another.  Every object so reached is emitted with the     *)
(* verdict of OfxValid for each version, to be built from the real types,  *)
(* validated and marshalled.                                               *)
(***************************************************************************)
EXTENDS OfxWriter, OfxValid, OfxEmit
CONSTANTS Bases,    \* set of [id, side, seed, plan, m]
          PairOneIn, \* one in so many pairs of changes is made
          Depth,
          Wide       \* also unset the fields that no rule mentions
VARIABLES vBase, vEdits, vMap
TE == INSTANCE TLCExt
View == <<vBase.id, vEdits>>

M(kind, dens, valid, ver) == [kind |-> kind, ta |-> "", ti |-> 0, tj |-> 0, dens |-> dens, valid |-> valid, ver |-> ver]
Base(side, n, plan, dens) == [id |-> side \o ToString(n) \o "/" \o ToString(dens), side |-> side, seed |-> n, plan |-> plan, m |-> M("rand", dens, TRUE, 220)]
\* One message of every kind.
Every(sets) == LET ks == SelectSeq([i \in 1..Len(sets) |-> <<i, [j \in 1..Len(sets[i].msgs) |-> j]>>], LAMBDA x : x[2] # <<>>) IN ks
GenBase(b) == (IF b.side = "rq" THEN GenReq(b.seed, b.plan, b.m) ELSE GenDoc(b.seed, b.plan, b.m)).proj

\* The first n of 60 bases that have all the paths given.
RECURSIVE RichFrom(_, _, _, _, _, _, _)
RichFrom(n, i, side, seed, plan, dens, paths) ==
  IF n = 0 \/ i > 60 THEN {}
  ELSE LET b == Base(side, seed + i, plan, dens) IN
       IF paths \subseteq DOMAIN GenBase(b) THEN {b} \cup RichFrom(n - 1, i + 1, side, seed, plan, dens, paths)
       ELSE RichFrom(n, i + 1, side, seed, plan, dens, paths)
Rich(n, side, seed, plan, dens, paths) == RichFrom(n, 1, side, seed, plan, dens, paths)

\* ---- the changes
E(at, put) == [at |-> at, put |-> put]
Unset(at) == E(at, NoMap)
One(at, v) == E(at, (at :> v))
LastDot(k) == LET P == {i \in 1..Len(k) : Ch(k, i) = "."} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
NameOf(k) == SubSeq(k, LastDot(k) + 1, Len(k))
Mark(k) == Ch(k, Len(k))
\* Texts of n bytes, plain and with two characters of five bytes together.
Plain(n) == Rep("x", n)
Wide5(n) == "~e~" \o Plain(n - 5)
\* Blanks count like any other byte.
Blank(n) == IF n < 3 THEN Rep(" ", n) ELSE (" " \o Plain(n - 2)) \o " "
Texts(ns, ws) == {Plain(n) : n \in ns} \cup {Blank(n) : n \in ns} \cup {Wide5(n) : n \in ws}
LenEdits(k) ==
  LET f == NameOf(k) IN
  CASE f = "TrnUID"   -> Texts({1, 36, 37, 60}, {5, 36, 37, 38})
    [] f = "UserID"   -> Texts({1, 32, 33}, {32, 33, 35})
    [] f = "UserPass" -> Texts({1, 32, 33}, {32, 33})
    [] f = "UserKey"  -> Texts({1, 64, 65}, {64, 65})
    [] f = "Language" -> Texts({1, 2, 3, 4}, {5, 6})
    [] f = "AppID"    -> Texts({1, 5, 6}, {5, 6, 8})
    [] f = "AppVer"   -> Texts({1, 4, 5}, {5})
    [] f = "Country"  -> Texts({1, 2, 3, 4}, {5})
    [] f = "Code"     -> {"1", "42", "2013", "2000", "-1", "15500", "12250", "10000"}
    [] f = "Severity" -> {"INFO", "WARN", "ERROR", "info", "FATAL"}
    [] f = "CurRate"  -> {"18446744073709551616", "-0.5", "0.000000001", "1"}
    [] f = "TrnType"  -> {"HOLD", "#99", "#" \o ToString(Len(EnumNames["TrnType"]) + 1), EnumNames["TrnType"][1], EnumNames["TrnType"][Len(EnumNames["TrnType"])]}
    [] f \in {"AcctType", "BalType", "CorrectAction"} -> {"#99", "#" \o ToString(Len(EnumNames[f]) + 1), EnumNames[f][1], EnumNames[f][Len(EnumNames[f])]}
    [] OTHER -> {}
\* Fields some rule mentions; the others may be unset in objects of one change only.
Ruled == {"TrnUID", "UserID", "UserPass", "UserKey", "Language", "AppID", "AppVer", "Country", "Code", "Severity", "CurRate", "CurSym", "CurDef",
          "TrnType", "AcctType", "BalType", "CorrectAction", "CorrectFiTID", "BankID", "AcctID", "DtPosted", "DtTran", "DtAsOf", "DtStart", "DtEnd",
          "FiTID", "Name", "Desc", "Addr1", "City", "State", "PostalCode", "Phone", "AvailBalAmt", "AvailDtAsOf", "IncludePending", "IncTranImg"}
\* The name of a message set of a profile is the name of its element: without it there is nothing to write.
SetName(k) == Contains(k, ".MessageSetList[") /\ NameOf(k) = "Name"
FieldEdits(m, wide) ==
  LET K == {k \in DOMAIN m : Mark(k) \notin {"@", "#", "]"} /\ ~SetName(k) /\ (wide \/ Mark(k) = "!" \/ NameOf(k) \in Ruled)} IN
  {Unset(IF Mark(k) = "!" THEN SubSeq(k, 1, Len(k) - 1) ELSE k) : k \in K}
  \cup UNION {{One(k, v) : v \in LenEdits(k) \ {m[k]}} : k \in K}

Pre(m, suffix) == {SubSeq(k, 1, Len(k) - Len(suffix)) : k \in {k \in DOMAIN m : HasSuffix(k, suffix)}}
Tree(p, t) == E(p, [k \in {p \o x : x \in DOMAIN t} |-> t[SubSeq(k, Len(p) + 1, Len(k))]])
PayeeT == ("!" :> "1") @@ (".Name" :> "n") @@ (".Addr1" :> "a") @@ (".City" :> "c") @@ (".State" :> "s") @@ (".PostalCode" :> "p") @@ (".Phone" :> "5")
BankT == ("!" :> "1") @@ (".BankID" :> "b") @@ (".AcctID" :> "a") @@ (".AcctType" :> "SAVINGS")
CCT == ("!" :> "1") @@ (".AcctID" :> "a")
CurT == (".CurRate" :> "1.5") @@ (".CurSym" :> "EUR")
CurP == ("!" :> "1") @@ CurT
ImgT(n) == LET I(i) == (Idx(i) \o ".ImageType" :> "TAX") @@ (Idx(i) \o ".ImageRef" :> "r") @@ (Idx(i) \o ".ImageRefType" :> "URL")
           IN ("#" :> ToString(n)) @@ I(0) @@ (IF n > 1 THEN I(1) ELSE NoMap) @@ (IF n > 2 THEN I(2) ELSE NoMap)
TxEdits(p) ==
  {Tree(p \o ".Payee", PayeeT), Tree(p \o ".Payee", (".Country" :> "US") @@ PayeeT), Tree(p \o ".BankAcctTo", BankT), Tree(p \o ".CCAcctTo", CCT),
   Tree(p \o ".Currency", (".CurRate" :> "18446744073709551616") @@ CurP), Tree(p \o ".OrigCurrency", (".CurRate" :> "-36893488147419103232") @@ CurP),
   Tree(p \o ".OrigCurrency", (".CurSym" :> "JPY") @@ ("!" :> "1")), Tree(p \o ".Currency", (".CurRate" :> "-0.5") @@ ("!" :> "1")),
   Tree(p \o ".Currency", CurP), Tree(p \o ".OrigCurrency", CurP), Tree(p \o ".ImageData", ImgT(1)), Tree(p \o ".ImageData", ImgT(2)),
   Tree(p \o ".ImageData", ImgT(3)), One(p \o ".Name", "n"), One(p \o ".CorrectFiTID", "c"),
   E(p \o ".CorrectFiTID", (p \o ".CorrectFiTID" :> "c") @@ (p \o ".CorrectAction" :> "DELETE")),
   E(p \o ".CorrectFiTID", (p \o ".CorrectFiTID" :> "c") @@ (p \o ".CorrectAction" :> "REPLACE")),
   E(p \o ".CorrectFiTID", (p \o ".CorrectFiTID" :> "c") @@ (p \o ".CorrectAction" :> "#99"))}
PendEdits(p) ==
  {Tree(p \o ".Currency", CurT), Tree(p \o ".OrigCurrency", CurT), Tree(p \o ".ImageData", ImgT(3)), One(p \o ".Name", "n"), One(p \o ".TrnType", "HOLD")}
TranList(n) == LET T(i) == (".Transactions" \o Idx(i) \o ".TrnType" :> "ATM") @@ (".Transactions" \o Idx(i) \o ".DtPosted" :> "1:0")
                          @@ (".Transactions" \o Idx(i) \o ".FiTID" :> "f") @@ (".Transactions" \o Idx(i) \o ".Name" :> "n")
               IN ("!" :> "1") @@ (".DtStart" :> "1:0") @@ (".DtEnd" :> "2:0") @@ (IF n = 0 THEN NoMap ELSE (".Transactions#" :> ToString(n)))
                  @@ (IF n > 0 THEN T(0) ELSE NoMap) @@ (IF n > 1 THEN T(1) ELSE NoMap)
PendList(n) == ("!" :> "1") @@ (".DtAsOf" :> "1:0") @@ (IF n = 0 THEN NoMap ELSE (".Transactions#" :> "1") @@ (".Transactions[0].TrnType" :> "HOLD")
                  @@ (".Transactions[0].DtTran" :> "1:0") @@ (".Transactions[0].Name" :> "n"))
StmtEdits(p) ==
  {One(p \o ".AvailBalAmt", "0"), One(p \o ".AvailDtAsOf", "5:0"), Tree(p \o ".BankTranListP", PendList(0)), Tree(p \o ".BankTranListP", PendList(1)),
   Tree(p \o ".BankTranList", TranList(0)), Tree(p \o ".BankTranList", TranList(2)),
   E(p \o ".BalList", (p \o ".BalList#" :> "1") @@ (p \o ".BalList[0].Name" :> "n") @@ (p \o ".BalList[0].Desc" :> "d") @@ (p \o ".BalList[0].BalType" :> "DOLLAR"))}
\* Two entries alike in all but one field, which one of them lacks: each is judged for itself.
TxFields == <<".TrnType", ".DtPosted", ".FiTID">>
TwinTx(miss, at) == [k \in {k \in DOMAIN TranList(2) : k # (".Transactions" \o Idx(at)) \o miss} |-> TranList(2)[k]]
TwinPend(miss, at) ==
  LET T(i) == (".Transactions" \o Idx(i) \o ".TrnType" :> "ATM") @@ (".Transactions" \o Idx(i) \o ".DtTran" :> "1:0") @@ (".Transactions" \o Idx(i) \o ".Name" :> "n")
      L_ == ("!" :> "1") @@ (".DtAsOf" :> "1:0") @@ (".Transactions#" :> "2") @@ T(0) @@ T(1)
  IN [k \in {k \in DOMAIN L_ : k # (".Transactions" \o Idx(at)) \o miss} |-> L_[k]]
TwinBal(miss, at) ==
  LET T(i) == (Idx(i) \o ".Name" :> "n") @@ (Idx(i) \o ".Desc" :> "d") @@ (Idx(i) \o ".BalType" :> "DOLLAR")
      L_ == ("#" :> "2") @@ T(0) @@ T(1)
  IN [k \in {k \in DOMAIN L_ : k # Idx(at) \o miss} |-> L_[k]]
TwinEdits(p) ==
  {Tree(p \o ".BankTranList", TwinTx(f, at)) : f \in RangeOf(TxFields), at \in 0..1}
  \cup {Tree(p \o ".BankTranListP", TwinPend(f, at)) : f \in {".TrnType", ".DtTran", ".Name"}, at \in 0..1}
  \cup {Tree(p \o ".BalList", TwinBal(f, at)) : f \in {".Name", ".Desc", ".BalType"}, at \in 0..1}
RqEdits(p) == {One(p \o ".IncludePending", "Y"), One(p \o ".IncTranImg", "Y")}
SonEdits == {One("Signon.UserKey", "k"), One("Signon.UserPass", "p")}
KindPre(m, kind) == {SubSeq(k, 1, Len(k) - 1) : k \in {k \in DOMAIN m : Mark(k) = "@" /\ HasPrefix(m[k], kind \o "/")}}
AddEdits(side, m) ==
  UNION {TxEdits(p) : p \in {p \in Pre(m, ".TrnType") : Contains(p, ".BankTranList.")}}
  \cup UNION {PendEdits(p) : p \in {p \in Pre(m, ".TrnType") : Contains(p, ".BankTranListP.")}}
  \cup UNION {StmtEdits(p) \cup (IF vEdits = <<>> THEN TwinEdits(p) ELSE {}) : p \in KindPre(m, "StatementResponse")}
  \cup UNION {RqEdits(p) : p \in KindPre(m, "StatementRequest") \cup KindPre(m, "CCStatementRequest")}
  \cup (IF side = "rq" THEN SonEdits ELSE {})

Init == vBase \in Bases /\ vEdits = <<>> /\ vMap = GenBase(vBase)
Cut(m, at) == LET keep == {k \in DOMAIN m : ~(k = at \/ (HasPrefix(k, at) /\ Len(k) > Len(at) /\ Ch(k, Len(at) + 1) \in {".", "[", "!", "#", "@"}))}
              IN [k \in keep |-> m[k]]
Apply(m, e) == e.put @@ Cut(m, e.at)
\* No rule looks at the order of changes: the second comes from what the first added or from a later place.
Pick(e, f) == TE!TLCFP(<<vBase.id, e.at, f.at, e.put, f.put>>) % PairOneIn = 0
Change(e) == vEdits' = Append(vEdits, e) /\ vMap' = Apply(vMap, e) /\ UNCHANGED vBase
Next == \/ /\ vEdits = <<>> /\ Depth >= 1
           /\ \E e \in FieldEdits(vMap, Wide) \cup AddEdits(vBase.side, vMap) : Change(e)
        \/ /\ Len(vEdits) \in 1..(Depth - 1)
           /\ \E e \in FieldEdits(vMap, FALSE) \cup AddEdits(vBase.side, vMap) : Pick(vEdits[Len(vEdits)], e) /\ Change(e)
Spec == Init /\ [][Next]_<<vBase, vEdits, vMap>>

\* A list entry whose last field goes keeps its place; an element list keeps its number.
Verdicts == [i \in 1..Len(OfxVersions) |-> LET v == OfxVersions[i] IN
   [v |-> v, son |-> SonOk(vBase.side, vMap), oks |-> Cat([k \in 1..Len(Messages(vMap)) |-> IF Oks(vMap, v)[k] THEN "1" ELSE "0"]),
    gate |-> Gate(vBase.side, vMap, v), bad |-> IF vBase.side = "rs" THEN BadParts(vMap, v) ELSE 0]]
Unknown == [i \in 1..3 |-> [v |-> <<0, 12, 99>>[i], son |-> FALSE, oks |-> "", gate |-> FALSE, bad |-> 0]]
\* ---- properties of the specification
BaseValid == vEdits = <<>> => Gate(vBase.side, vMap, 220)
Monotone == \A i \in 1..(Len(OfxVersions) - 1) : Gate(vBase.side, vMap, OfxVersions[i]) => Gate(vBase.side, vMap, OfxVersions[i + 1])
GateMeansNoBad == vBase.side = "rs" => \A i \in 1..Len(OfxVersions) : Gate("rs", vMap, OfxVersions[i]) <=> (BadParts(vMap, OfxVersions[i]) = 0 /\ InPlace("rs", vMap))
Emitted == IF vEdits = <<>> THEN Emit([op |-> "base", base |-> vBase.id, side |-> vBase.side, map |-> vMap])
                                /\ Emit([op |-> "valid", base |-> vBase.id, edits |-> vEdits, vers |-> Verdicts \o Unknown])
           ELSE Emit([op |-> "valid", base |-> vBase.id, edits |-> vEdits, vers |-> Verdicts \o Unknown])
=============================================================================
