------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Callers of the library work side by side, each on objects of its own.   *)
(* An operation is a series of steps; between two steps anybody else may   *)
(* run.  All operations share the tables of the library (Tables), which    *)
(* none of them writes, so that what an operation gives is a function of   *)
(* its own input.                                                          *)
(*                                                                         *)
(* Ops[i].k  parse    read a document of its own (damaged: it must fail)   *)
(*           marshal  write a request or response of its own               *)
(*           valid    judge one                                            *)
(*           send     send a request through a client of its own           *)
(*           select, leafs, status, uid   make clients, read and write     *)
(*                    values, look up status codes, make identifiers       *)
(***************************************************************************)
EXTENDS OfxWriter, OfxEmit
CONSTANTS Ops,       \* sequence of operations
          Threads, Steps,
          Mode,      \* "ops": tell the operations; "progs": tell which run side by side; "sched": tell in which order they take their steps
          Share      \* one in so many is told
VARIABLES vProg, vPc, vTables, vMem, vOrder
vars == <<vProg, vPc, vTables, vMem, vOrder>>
View == <<vProg, vOrder>>
TE == INSTANCE TLCExt

Tables == {"leaf elements", "message types", "status meanings", "date formats", "enumerated names", "shared HTTP client"}
Reads(k) == CASE k = "parse" -> {"leaf elements", "message types", "date formats", "enumerated names"}
             [] k = "marshal" -> {"leaf elements", "enumerated names", "status meanings"}
             [] k = "valid" -> {"enumerated names", "status meanings"}
             [] k = "send" -> Tables
             [] k = "select" -> {"shared HTTP client"}
             [] k = "leafs" -> {"date formats", "enumerated names"}
             [] k = "status" -> {"status meanings"}
             [] OTHER -> {}
Touches(k) == {}      \* the guarantee: operations only read what they share
Started == [t \in Tables |-> "as built"]
T == 1..Threads

\* Operations of equal threads are interchangeable.
Ordered(p) == \A t \in 1..(Threads - 1) : p[t] <= p[t + 1]
Init == /\ vProg \in {p \in [T -> 1..Len(Ops)] : Ordered(p)} /\ vPc = [t \in T |-> 0] /\ vTables = Started /\ vMem = [t \in T |-> <<>>] /\ vOrder = <<>>
K(t) == Ops[vProg[t]].k
Step_(t) == /\ vPc[t] < Steps /\ vPc' = [vPc EXCEPT ![t] = @ + 1] /\ vOrder' = Append(vOrder, t)
            /\ vTables' = [x \in Tables |-> IF x \in Touches(K(t)) THEN "changed by " \o ToString(vProg[t]) ELSE vTables[x]]
            /\ vMem' = [vMem EXCEPT ![t] = Append(@, [x \in Reads(K(t)) |-> vTables[x]])]
            /\ UNCHANGED vProg
Next == Mode = "sched" /\ \E t \in T : Step_(t)
Spec == Init /\ [][Next]_vars

Busy(t) == vPc[t] > 0 /\ vPc[t] < Steps
\* ---- properties of the specification
NoRace == \A t, u \in T : t # u /\ Busy(t) /\ Busy(u) => Touches(K(t)) \cap Reads(K(u)) = {}
Alone == \A t \in T : vPc[t] = Steps => vMem[t] = [i \in 1..Steps |-> [x \in Reads(K(t)) |-> Started[x]]]
Done == \A t \in T : vPc[t] = Steps

\* ---- what the operations are about
RandMode(o) == [kind |-> "rand", ta |-> "", ti |-> 0, tj |-> 0, dens |-> o.dens, valid |-> TRUE, ver |-> IF o.ver < 160 THEN 102 ELSE o.ver]
Style(o) == [v |-> o.ver, omit |-> IF o.ver < 200 THEN o.omit ELSE "none", ws |-> o.ws]
Cut(o, toks) == IF o.damage = "cut" THEN SubSeq(toks, 1, (Len(toks) * 2) \div 3)
                ELSE IF o.damage = "stray" THEN SubSeq(toks, 1, Len(toks) \div 2) \o <<"+ZZZMSGSRSV1", "-ZZZMSGSRSV1">> \o SubSeq(toks, Len(toks) \div 2 + 1, Len(toks))
                ELSE toks
NoUid(m) == LET P == {k \in DOMAIN m : HasSuffix(k, ".TrnUID")} IN IF P = {} THEN m ELSE LET q == CHOOSE k \in P : TRUE IN [k \in DOMAIN m \ {q} |-> m[k]]
Leaves == << <<"date", "20060115112303[-5:EST]">>, <<"date", "20170101">>, <<"date", "20211231235959.123[+5.30:IST]">>, <<"date", "2006011511">>, <<"amt", "-1,234.50">>, <<"amt", "0.0001">>,
             <<"amt", "12.3.4">>, <<"int", "-17">>, <<"int", "x">>, <<"bool", "Y">>, <<"bool", "maybe">>, <<"cur", "USD">>, <<"cur", "U1D">>, <<"str", " a &amp; b ">>,
             <<"AcctType", "CHECKING">>, <<"TrnType", "DIRECTDEP">>, <<"TrnType", "NOSUCH">>, <<"OfxVersion", "203">>, <<"LoanPmtFreq", "MONTHLY">>, <<"USProductType", "401K">> >>
Told(i) == LET o == Ops[i] IN
  CASE o.k = "parse" -> [op |-> "op", i |-> i, k |-> o.k, ver |-> o.ver, toks |-> Cut(o, Spell(GenDoc(o.seed, o.plan, RandMode(o)).ev, Style(o), o.seed))]
    [] o.k \in {"marshal", "valid", "send"} ->
         LET m == IF o.side = "rq" THEN GenReq(o.seed, o.plan, RandMode(o)).proj ELSE GenDoc(o.seed, o.plan, RandMode(o)).proj IN
         [op |-> "op", i |-> i, k |-> o.k, side |-> o.side, ver |-> o.ver, layout |-> o.ws, damage |-> o.damage, kind |-> o.omit, map |-> IF o.damage = "uid" THEN NoUid(m) ELSE m]
    [] o.k = "leafs" -> [op |-> "op", i |-> i, k |-> o.k, leaves |-> Leaves]
    [] OTHER -> [op |-> "op", i |-> i, k |-> o.k]
Ops_ == vOrder = <<>> /\ (\A t \in T : vProg[t] = vProg[1]) => Emit(Told(vProg[1]))
Emitted == CASE Mode = "ops" -> Ops_
             [] Mode = "progs" -> Ops_ /\ (TE!TLCFP(vProg) % Share = 0 => Emit([op |-> "prog", prog |-> vProg]))
             [] OTHER -> Ops_ /\ (Done /\ TE!TLCFP(<<vProg, vOrder>>) % Share = 0 => Emit([op |-> "sched", prog |-> vProg, order |-> vOrder]))
=============================================================================
