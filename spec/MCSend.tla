------------------------------- MODULE MCSend -------------------------------
(***************************************************************************)
(* A request is sent again and again, by differently configured clients;   *)
(* in between its owner edits it.  What every send has to put on the wire: *)
(* the owner's document with the client's settings.                        *)
(*                                                                         *)
(* hist: [op |-> "set", path, v]   a field gets a value                     *)
(*       [op |-> "version", ver]  the owner sets a version                 *)
(*       [op |-> "adopt", k]      SetClientFields(client k) by the owner   *)
(*       [op |-> "send", k, call, ok, ver, id, appver, indent, cr]          *)
(***************************************************************************)
EXTENDS OfxWriter, OfxValid, OfxEmit
CONSTANTS Bases,     \* sequence of [seed, plan, dens]
          Lineups,   \* set of sequences of client configurations [kind, ver, id, appver, noindent, cr]; ver 0: unset, 999: none there is
          Length, Share
VARIABLES vBase, vCfgs, vSpoiled, vEdited, vHist
vars == <<vBase, vCfgs, vSpoiled, vEdited, vHist>>
View == <<vBase, vCfgs, vHist>>
TE == INSTANCE TLCExt

BaseMode(b) == [kind |-> "rand", ta |-> "", ti |-> 0, tj |-> 0, dens |-> Bases[b].dens, valid |-> TRUE, ver |-> 102]
Owned(k) == k \notin {"Signon.AppID", "Signon.AppVer", "Signon.DtClient"}
MapOf == [b \in 1..Len(Bases) |-> LET m == GenReq(Bases[b].seed, Bases[b].plan, BaseMode(b)).proj IN [k \in {k \in DOMAIN m : Owned(k)} |-> m[k]]]
UidPath(b) == LET K == {k \in DOMAIN MapOf[b] : HasSuffix(k, ".TrnUID")} IN IF K = {} THEN "" ELSE CHOOSE k \in K : TRUE

Ver(c) == IF c.ver \in {0, 999} THEN 203 ELSE c.ver
Id(c) == IF c.id = "" THEN "OFXGO" ELSE c.id
AppVer(c) == IF c.appver = "" THEN "0001" ELSE c.appver
\* What client c makes of the owner's document.
Sent(m, c) == ("Signon.AppID" :> Id(c)) @@ ("Signon.AppVer" :> AppVer(c)) @@ ("Signon.DtClient" :> "0:0") @@ m
Now_(b, sp, ed) == (IF sp THEN (UidPath(b) :> "") ELSE NoMap) @@ (IF ed THEN ("Signon.UserID" :> "edited") ELSE NoMap) @@ MapOf[b]

Init == vBase \in 1..Len(Bases) /\ vCfgs \in Lineups /\ vSpoiled = FALSE /\ vEdited = FALSE /\ vHist = <<>>
Log(r) == vHist' = Append(vHist, r) /\ UNCHANGED <<vBase, vCfgs>>
Write_(p, v) == Log([op |-> "set", path |-> p, v |-> v])
Meddle == /\ UNCHANGED <<vSpoiled, vEdited>>
          /\ \/ \E v \in {"ZZZ", ""} : Write_("Signon.AppID", v)
             \/ \E v \in {"9999", ""} : Write_("Signon.AppVer", v)
             \/ \E v \in {"12000:5", "-719162:0"} : Write_("Signon.DtClient", v)
             \/ \E v \in {0, 102, 220} : Log([op |-> "version", ver |-> v])
             \/ \E k \in 1..Len(vCfgs) : Log([op |-> "adopt", k |-> k])
Edit == vEdited' = ~vEdited /\ UNCHANGED vSpoiled /\ Write_("Signon.UserID", IF vEdited THEN MapOf[vBase]["Signon.UserID"] ELSE "edited")
Spoil == UidPath(vBase) # "" /\ vSpoiled' = ~vSpoiled /\ UNCHANGED vEdited /\ Write_(UidPath(vBase), IF vSpoiled THEN MapOf[vBase][UidPath(vBase)] ELSE "")
Send(k, call) == LET c == vCfgs[k] IN /\ UNCHANGED <<vSpoiled, vEdited>>
   /\ Log([op |-> "send", k |-> k, call |-> call, ok |-> Gate("rq", Sent(Now_(vBase, vSpoiled, vEdited), c), Ver(c)),
           ver |-> Ver(c), id |-> Id(c), appver |-> AppVer(c), indent |-> ~c.noindent, cr |-> c.cr])
Next == Len(vHist) < Length /\ (Meddle \/ Edit \/ Spoil \/ \E k \in 1..Len(vCfgs), call \in {"request", "noparse"} : Send(k, call))
\* every other step is a send
Often == Len(vHist) < Length /\ IF Len(vHist) % 2 = 1 THEN \E k \in 1..Len(vCfgs), call \in {"request", "noparse"} : Send(k, call) ELSE Meddle \/ Edit \/ Spoil
Spec == Init /\ [][Next]_vars
SpecOften == Init /\ [][Often]_vars

\* ---- properties of the specification
\* Whether a send succeeds depends on the document and the client alone, not on what was there before.
Sends == {i \in 1..Len(vHist) : vHist[i].op = "send"}
Settled == \A i, j \in Sends : i < j /\ vHist[i].k = vHist[j].k => [vHist[i] EXCEPT !.ok = TRUE, !.call = ""] = [vHist[j] EXCEPT !.ok = TRUE, !.call = ""]
Fine == vHist = <<>> => \A k \in 1..Len(vCfgs) : ByteLen(vCfgs[k].id) <= 5 /\ ByteLen(vCfgs[k].appver) <= 4 => Gate("rq", Sent(MapOf[vBase], vCfgs[k]), Ver(vCfgs[k]))
BaseRec == vHist = <<>> => Emit([op |-> "base", b |-> vBase, map |-> MapOf[vBase]])
Emitted == BaseRec /\ (vHist # <<>> /\ vHist[Len(vHist)].op = "send" /\ TE!TLCFP(<<vBase, vCfgs, vHist>>) % Share = 0 => Emit([op |-> "sends", b |-> vBase, cfgs |-> vCfgs, steps |-> vHist]))
=============================================================================
