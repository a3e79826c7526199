------------------------------- MODULE MCGate -------------------------------
(***************************************************************************)
(* A caller appends messages to the message sets of a request or response, *)
(* each of the kinds there are to each of the sets there are, right or     *)
(* wrong, valid or with an overlong transaction id.  What may be marshalled *)
(* is decided by OfxValid!Gate for every version.                          *)
(***************************************************************************)
EXTENDS OfxWriter, OfxValid, OfxEmit
CONSTANTS Len2OneIn,  \* one in so many sequences of two or more messages is followed
          Depth,
          Rows      \* lengths of rows
VARIABLES vSide, vMsgs, vMap
TE == INSTANCE TLCExt
View == <<vSide, vMsgs>>
MsgTable == Flat([i \in 1..Len(RsSets) |-> [j \in 1..Len(RsSets[i].msgs) |-> <<RsSets[i].msgs[j].a, RsSets[i].msgs[j].t, RsSets[i].set>>]])
         \o Flat([i \in 1..Len(RqSets) |-> [j \in 1..Len(RqSets[i].msgs) |-> <<RqSets[i].msgs[j].a, RqSets[i].msgs[j].t, RqSets[i].set>>]])
Mode == [kind |-> "rand", ta |-> "", ti |-> 0, tj |-> 0, dens |-> 0, valid |-> TRUE, ver |-> 102]
Content == [k \in 1..Len(MsgTable) |-> GenMsg(MsgTable[k][1], MsgTable[k][2], 40 + k, Mode)]
Signons == [rq |-> GenReq(1, <<>>, Mode).proj, rs |-> GenDoc(1, <<>>, Mode).proj]

Moved(k, p, bad) == LET c == Content[k]
                        m == [x \in {p \o "." \o y : y \in DOMAIN c} |-> c[SubSeq(x, Len(p) + 2, Len(x))]]
                    IN (IF bad /\ (p \o ".TrnUID") \in DOMAIN m THEN (p \o ".TrnUID" :> Rep("x", 37)) ELSE NoMap)
                       @@ (p \o "@" :> MsgType(MsgTable[k][1], MsgTable[k][2], MsgTable[k][3])) @@ m
Init == vSide \in {"rq", "rs"} /\ vMsgs = <<>> /\ vMap = Signons[vSide]
Plus(m, k, i, bad) == LET slot == SlotOrder[i]  n == Num(m, slot) IN Moved(k, slot \o Idx(n), bad) @@ (slot \o "#" :> ToString(n + 1)) @@ m
Add(k, i, bad) ==
  /\ vMsgs' = Append(vMsgs, <<k, i, bad>>)
  /\ vMap' = Plus(vMap, k, i, bad)
  /\ UNCHANGED vSide
\* A long row of messages of one kind where they belong, one of them, if any, invalid.
Row(k, i, n, at) ==
  /\ vMsgs' = [j \in 1..n |-> <<k, i, j = at>>]
  /\ vMap' = SE!FoldLeft(LAMBDA m, j : Plus(m, k, i, j = at), vMap, [j \in 1..n |-> j])
  /\ UNCHANGED vSide
Next == /\ Len(vMsgs) < Depth
        /\ \E k \in 1..Len(MsgTable), i \in 1..Len(SlotOrder), bad \in BOOLEAN :
             /\ vMsgs # <<>> => TE!TLCFP(<<vSide, vMsgs, k, i, bad>>) % Len2OneIn = 0
             /\ Add(k, i, bad)
        \* two messages in one set, the first where it belongs
        \/ /\ Len(vMsgs) = 1
           /\ SetOfKind[MsgTable[vMsgs[1][1]][1]] = SetOfSlot(vSide, vMsgs[1][2]) /\ ~vMsgs[1][3]
           /\ \E k \in 1..Len(MsgTable), bad \in BOOLEAN : Add(k, vMsgs[1][2], bad)
        \/ /\ vMsgs = <<>>
           /\ \E k \in 1..Len(MsgTable), i \in 1..Len(SlotOrder), n \in Rows, at \in {0, 1, 2, 3, 4, 17} :
                /\ SetOfKind[MsgTable[k][1]] = SetOfSlot(vSide, i) /\ (at <= n \/ at = 17)
                /\ Row(k, i, n, IF at = 17 THEN n ELSE at)
        \* a sound message where it belongs, so that sound objects grow
        \/ /\ Len(vMsgs) < Depth
           /\ \E k \in 1..Len(MsgTable), i \in 1..Len(SlotOrder) :
             /\ SetOfKind[MsgTable[k][1]] = SetOfSlot(vSide, i)
             /\ Add(k, i, FALSE)
Spec == Init /\ [][Next]_<<vSide, vMsgs, vMap>>
ID == vSide \o ToString(vMsgs)
Verdicts == [i \in 1..Len(OfxVersions) |-> LET v == OfxVersions[i]  o == Oks(vMap, v) IN
   [v |-> v, son |-> SonOk(vSide, vMap), oks |-> Cat([k \in 1..Len(o) |-> IF o[k] THEN "1" ELSE "0"]),
    gate |-> Gate(vSide, vMap, v), bad |-> IF vSide = "rs" THEN BadParts(vMap, v) ELSE 0]]
Unknown == [i \in 1..3 |-> [v |-> <<0, 12, 99>>[i], son |-> FALSE, oks |-> "", gate |-> FALSE, bad |-> 0]]
\* ---- properties of the specification
Strangers == (\E j \in 1..Len(vMsgs) : SetOfKind[MsgTable[vMsgs[j][1]][1]] # SetOfSlot(vSide, vMsgs[j][2])) => \A i \in 1..Len(OfxVersions) : ~Gate(vSide, vMap, OfxVersions[i])
Sound == (\A j \in 1..Len(vMsgs) : SetOfKind[MsgTable[vMsgs[j][1]][1]] = SetOfSlot(vSide, vMsgs[j][2]) /\ ~vMsgs[j][3]) => \A i \in 1..Len(OfxVersions) : Gate(vSide, vMap, OfxVersions[i])
Emitted == Emit([op |-> "base", base |-> ID, side |-> vSide, map |-> vMap]) /\ Emit([op |-> "valid", base |-> ID, edits |-> <<>>, vers |-> Verdicts \o Unknown])
=============================================================================
