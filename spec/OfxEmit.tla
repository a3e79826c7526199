------------------------------ MODULE OfxEmit ------------------------------
(***************************************************************************)
(* Behaviours leave TLC as JSON documents in the file $OUT.  A line longer *)
(* than the writer's buffer could be torn by another worker, so that long  *)
(* documents are split:  key | key2 | piece | pieces | text.               *)
(***************************************************************************)
EXTENDS TLC, Json, CSV, IOUtils
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLCExt
PieceLen == 3000
Emit(rec) ==
  LET s == ToJson(rec)  n == (Len(s) + PieceLen - 1) \div PieceLen  k == TLCFP(s)  k2 == TLCFP(<<s>>) IN
  \A i \in 1..n : CSVWrite("%1$s|%2$s|%3$s|%4$s|%5$s",
     <<k, k2, i, n, SubSeq(s, (i - 1) * PieceLen + 1, IF i = n THEN Len(s) ELSE i * PieceLen)>>, IOEnv.OUT)
EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
EnvStr(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
=============================================================================
