------------------------------- MODULE MCReq -------------------------------
(***************************************************************************)
(* Requests callers make.  Every request of the given families is emitted  *)
(* with the versions that allow it; the harness builds it from the real    *)
(* types, marshals it in several versions and layouts, and TraceWire       *)
(* judges what was written.                                                *)
(***************************************************************************)
EXTENDS OfxWriter, OfxWire, OfxEmit
CONSTANTS Reqs       \* set of [id, seed, plan, m]
VARIABLES vReq, vMap, vEvents
View == <<vReq, vEvents = <<>>>>

M(kind, ta, ti, tj, dens, ver) == [kind |-> kind, ta |-> ta, ti |-> ti, tj |-> tj, dens |-> dens, valid |-> TRUE, ver |-> ver]
RqRoots == {"SignonRequest"} \cup UNION {{RqSets[i].msgs[j].a : j \in 1..Len(RqSets[i].msgs)} : i \in 1..Len(RqSets)}
RqAggs == UNION {Reach[a] : a \in RqRoots}
RqLeadPlan(ta) == LET P == {i \in 1..Len(RqSets) : RqSets[i].msgs # <<>> /\ ta \in Reach[RqSets[i].msgs[1].a]} IN
                  IF P = {} THEN <<>> ELSE <<<<CHOOSE i \in P : \A j \in P : i <= j, <<1>>>>>>
\* Every plan that contains it: aggregates shared by several messages appear in each of them.
RqPlans(ta) == LET P == {i \in 1..Len(RqSets) : RqSets[i].msgs # <<>> /\ ta \in Reach[RqSets[i].msgs[1].a]} IN
               IF P = {} THEN {<<>>} ELSE {<<<<i, <<1>>>>>> : i \in P}
Targets == {t \in RqAggs \X (1..20) \X (0..24) : /\ t[2] <= Len(Schema[t[1]])
              /\ t[3] < (LET k == Schema[t[1]][t[2]].k IN IF k \in Enums THEN Len(EnumNames[k]) ELSE IF k = "str" THEN 2 ELSE 1)}
TargetReqs(sd) == UNION {{[id |-> ToString(<<t, p>>), seed |-> sd + (7 * t[2]) + (131 * t[3]) + Len(t[1]), plan |-> p, m |-> M("target", t[1], t[2], t[3], 0, ver)]
                          : p \in RqPlans(t[1]), ver \in {220}} : t \in Targets}
\* The wrappers of the targeted element come along, the rest does not; "rest" has all that follows, too.
RestReqs(sd) == UNION {{[id |-> "rest" \o ToString(<<t, p>>), seed |-> sd + (7 * t[2]) + Len(t[1]), plan |-> p, m |-> M("rest", t[1], t[2], t[3], 0, 220)] : p \in RqPlans(t[1])}
                       : t \in {t \in Targets : t[3] = 0}}
NearReqs(lo, hi, dens, vers) == UNION {{[id |-> "near" \o ToString(<<a, p, n>>), seed |-> n + 31 * Len(a), plan |-> p, m |-> M("near", a, 0, 0, dens, v)]
                       : p \in RqPlans(a), n \in lo..hi, v \in vers} : a \in RqAggs}
RECURSIVE RqRandPlan(_, _)
RqRandPlan(k, x) ==
  IF k = 0 THEN <<>>
  ELSE LET y == Rnd(x)  z == Rnd(y)  i == (y % Len(RqSets)) + 1
           ks == IF RqSets[i].msgs = <<>> THEN <<>> ELSE [j \in 1..((z \div 5) % 4) |-> 1]
       IN <<<<i, ks>>>> \o RqRandPlan(k - 1, z)
RandReqs(lo, hi, dens, sets, vers) ==
  {[id |-> "r" \o ToString(n), seed |-> n, plan |-> RqRandPlan(sets, Seed0(n)), m |-> M("rand", "", 0, 0, dens, v)] : n \in lo..hi, v \in vers}
FullPlanRq == SelectSeq([i \in 1..Len(RqSets) |-> <<i, IF RqSets[i].msgs = <<>> THEN <<>> ELSE <<1, 1>>>>], LAMBDA x : x[2] # <<>>)
FullReqs(sd, kinds) == {[id |-> "full" \o k, seed |-> sd, plan |-> FullPlanRq, m |-> M(k, "", 0, 0, 0, 220)] : k \in kinds}

Init == vReq \in Reqs /\ vMap = NoMap /\ vEvents = <<>>
Author == vEvents = <<>> /\ LET g == GenReq(vReq.seed, vReq.plan, vReq.m) IN vMap' = g.proj /\ vEvents' = g.ev
Next == Author /\ UNCHANGED vReq
Spec == Init /\ [][Next]_<<vReq, vMap, vEvents>>
Allowed == {i \in 1..Len(OfxVersions) : Gate("rq", vMap, OfxVersions[i])}
\* ---- properties of the specification
\* The writer of documents (GenReq) and the content of objects (OfxWire) agree on every leaf that says something.
C == Content("rq", vMap)
Values_ == SelectSeq(C, LAMBDA c : c[1] = "L" /\ c[4] # ZeroOf(c[3]))
Said == SelectSeq([i \in 1..Len(vEvents) |-> IF vEvents[i][1] = "L" THEN <<vEvents[i][2], Unescape(vEvents[i][3])>> ELSE <<"", "">>], LAMBDA e : e[1] # "")
\* the leaves of C that are not unset are a subsequence of what was said, and nothing that was said is lost
RECURSIVE Follow(_, _)
Follow(vs, said) == IF vs = <<>> THEN TRUE ELSE IF said = <<>> THEN FALSE
                    ELSE IF Head(vs)[2] = Head(said)[1] /\ Parse(Head(vs)[3], Head(said)[2]).v = Head(vs)[4] THEN Follow(Tail(vs), Tail(said))
                    ELSE Follow(vs, Tail(said))
Agrees == vEvents = <<>> \/ Follow(Values_, Said)
Nested == vEvents = <<>> \/ LET c == C  Depth_(i) == SX!FoldLeft(LAMBDA acc, x : IF x[1] = "S" THEN acc + 1 ELSE IF x[1] = "E" THEN acc - 1 ELSE acc, 0, SubSeq(c, 1, i)) IN
          Depth_(Len(c)) = 0 /\ \A i \in {1, Len(c) \div 2, Len(c) - 1} : Depth_(i) > 0
Usable == vEvents = <<>> \/ Allowed # {}
Stable == vEvents = <<>> \/ Content("rq", Filled("rq", vMap)) = C
Emitted == vEvents = <<>> \/ Emit([op |-> "req", id |-> vReq.id, seed |-> vReq.seed, map |-> vMap, vers |-> {OfxVersions[i] : i \in Allowed}])
=============================================================================
