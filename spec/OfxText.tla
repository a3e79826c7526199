------------------------------ MODULE OfxText ------------------------------
(***************************************************************************)
(* Character-level helpers.  TLC implements Len, SubSeq and \o on strings; *)
(* everything else about text in this specification is built from those.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)

DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits   == {DigitSeq[i] : i \in 1..10}
DigitVal == [d \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = d) - 1]
Upper    == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
             "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Lower    == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
             "n","o","p","q","r","s","t","u","v","w","x","y","z"}
WS       == {" ", "\t", "\n", "\r"}
HexLower == Digits \cup {"a","b","c","d","e","f"}

AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
IsDigits(s) == Len(s) > 0 /\ AllIn(s, Digits)

RECURSIVE LTrim(_, _)
LTrim(s, S) == IF s # "" /\ Ch(s, 1) \in S THEN LTrim(SubSeq(s, 2, Len(s)), S) ELSE s
RECURSIVE RTrim(_, _)
RTrim(s, S) == IF s # "" /\ Ch(s, Len(s)) \in S THEN RTrim(SubSeq(s, 1, Len(s)-1), S) ELSE s

\* Leading and trailing white space never matters in an OFX value.
Trim(s) == RTrim(LTrim(s, WS), WS)

\* First position of character c in s, 0 when absent.
Find(s, c) == LET P == {i \in 1..Len(s) : Ch(s, i) = c}
              IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

FindAny(s, C) == LET P == {i \in 1..Len(s) : Ch(s, i) \in C}
                 IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

CountIn(s, C) == Cardinality({i \in 1..Len(s) : Ch(s, i) \in C})

Before(s, i) == SubSeq(s, 1, i-1)
After(s, i)  == SubSeq(s, i+1, Len(s))
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s)-Len(p)+1, Len(s)) = p
Contains(s, p)  == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
IndexOf(s, p)   == LET P == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
                   IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

RECURSIVE Nat_(_, _, _)
Nat_(s, i, acc) == IF i > Len(s) THEN acc ELSE Nat_(s, i+1, acc*10 + DigitVal[Ch(s, i)])
NatOf(s) == Nat_(s, 1, 0)           \* only for short digit strings (32-bit TLC integers)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n-1)

Pad(n, w) == LET t == ToString(n) IN IF Len(t) >= w THEN t ELSE Rep("0", w - Len(t)) \o t

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* Digit-string order, for numbers beyond TLC's 32-bit integers.
RECURSIVE DigLeq(_, _, _)
DigLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF DigitVal[Ch(a,i)] # DigitVal[Ch(b,i)]
                        THEN DigitVal[Ch(a,i)] < DigitVal[Ch(b,i)]
                        ELSE DigLeq(a, b, i+1)
BigLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DigLeq(a, b, 1)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RangeOf(s) == {s[i] : i \in 1..Len(s)}

LowerOf == [c \in Upper |-> CHOOSE l \in Lower : \E i \in 1..26 :
              SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i) = c /\ SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) = l]
LowerCh(c) == IF c \in Upper THEN LowerOf[c] ELSE c
ToLower(s) == Cat([i \in 1..Len(s) |-> LowerCh(Ch(s, i))])
=============================================================================
