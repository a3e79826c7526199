------------------------------ MODULE OfxLeaf ------------------------------
(***************************************************************************)
(* One leaf element on its way through the library: its wire text is       *)
(* decoded, the value kept, written back and decoded again.                *)
(*                                                                         *)
(*   fresh --Decode--> held / refused        held --Write--> written       *)
(*   written --Reread--> held                                              *)
(*                                                                         *)
(* The model checks that the value survives any number of write/reread     *)
(* rounds; every reachable fresh state is emitted as a test of the real    *)
(* decoder and encoder, with the outcome the specification prescribes.     *)
(***************************************************************************)
EXTENDS OfxValues, OfxEnums

\* INVACCTTYPE has its own names, documented beside the field; the library keeps it as a HolderType.
InvAcctTypes == <<"INDIVIDUAL", "JOINT", "TRUST", "CORPORATE">>
NamesOf(kind) == IF kind = "InvAcctType" THEN SubSeq(InvAcctTypes, 1, 3) ELSE EnumNames[kind]
ParseInvAcctType(text) == LET t == Trim(text) IN
  IF t \in RangeOf(InvAcctTypes) THEN [st |-> "ok", v |-> t]
  ELSE IF t \in EnumSet("HolderType") THEN [st |-> "free", v |-> ""] ELSE [st |-> "bad", v |-> ""]

\* Decoding by kind.  kind is "int", "amt", "date", "bool", "uid", "str", "cur" or the name of an enum.
Parse(kind, text) ==
  CASE kind = "int"  -> ParseInt(text)
    [] kind = "amt"  -> ParseAmt(text)
    [] kind = "date" -> ParseDate(text)
    [] kind = "bool" -> ParseBool(text)
    [] kind = "uid"  -> ParseUid(text)
    [] kind = "str"  -> ParseStr(text)
    [] kind = "cur"  -> ParseCur(text)
    [] kind = "InvAcctType" -> ParseInvAcctType(text)
    [] OTHER         -> ParseEnum(kind, text)

\* The value an unset element has.
ZeroOf(kind) ==
  CASE kind = "int" -> "0" [] kind = "amt" -> "0" [] kind = "date" -> ZeroDate
    [] kind = "bool" -> "N" [] kind \in {"uid", "str"} -> "" [] kind = "cur" -> "XXX"
    [] OTHER -> ""

\* Is text t an acceptable way to write value v of the kind?  (Several spellings of a date are.)
Writes(kind, v, t) ==
  LET p == Parse(kind, t) IN
  /\ \/ p.st = "ok" /\ p.v = v
     \/ kind = "cur" /\ p.st = "free" /\ t = v    \* ISO codes beyond the listed ones
  /\ kind \in {"int", "amt", "bool", "cur", "uid", "str"} => t = v
  /\ kind \in Enums => t = v
=============================================================================
