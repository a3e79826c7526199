------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Choosing clients by URL, one after the other, each with a configuration *)
(* of its own.  However many are made, each stays what its URL makes it,   *)
(* and answers for its own configuration.                                  *)
(***************************************************************************)
EXTENDS OfxText, OfxEmit
CONSTANTS Wide,       \* TRUE: many URLs and configurations; FALSE: a few of each
          Length, OneIn
VARIABLES vClients
TE == INSTANCE TLCExt

\* ---- which institution an address belongs to
Known == << <<"https://ofx.discovercard.com", "discover">>, <<"https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "vanguard">> >>
RECURSIVE TrimL(_), TrimR(_)
TrimL(u) == IF u # "" /\ Ch(u, 1) = "/" THEN TrimL(SubSeq(u, 2, Len(u))) ELSE u
TrimR(u) == IF u # "" /\ Ch(u, Len(u)) = "/" THEN TrimR(SubSeq(u, 1, Len(u) - 1)) ELSE u
KindOf(u) == LET P == {i \in 1..Len(Known) : Known[i][1] = TrimR(TrimL(u))} IN IF P = {} THEN "basic" ELSE Known[CHOOSE i \in P : TRUE][2]

Bases == {Known[i][1] : i \in 1..Len(Known)}
Near(u) == {u, SubSeq(u, 1, Len(u) - 1), SubSeq(u, 2, Len(u)), u \o "x", u \o "/x", u \o "?a=1", u \o "#", u \o ":443", u \o " ", " " \o u, u \o "/ ", u \o "%2F", u \o ".",
            "http" \o SubSeq(u, 6, Len(u)), "HTTPS" \o SubSeq(u, 6, Len(u)), u \o "/us/OfxDirectConnectServlet", "https://www." \o SubSeq(u, 9, Len(u)),
            "https://example.com/" \o u, u \o "//" \o u}
Slashed(u) == {l \o u \o t : l \in {"", "/", "//"}, t \in {"", "/", "//", "///"}}
Urls == UNION {Slashed(v) : v \in UNION {Near(u) : u \in Bases}}
        \cup {"", "/", "//", "https://", "https://ofx.example.com/ofx", "https://vesnc.vanguard.com", "https://vesnc.vanguard.com/us", "https://vesnc.vanguard.com/us/ofxdirectconnectservlet",
              "https://OFX.discovercard.com", "https://discovercard.com", "ofx.discovercard.com"}
FewUrls == Bases \cup {"https://ofx.discovercard.com/", "https://ofx.example.com"}

\* ---- configurations and what is reported for them; 0 and 999 are no version
Cfg(v, i, a, n, c) == [ver |-> v, id |-> i, appver |-> a, noindent |-> n, cr |-> c]
Vers == {0, 999, 102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220}
Cfgs == {Cfg(v, i, a, n, c) : v \in Vers, i \in {"", "QWIN", "OFXGO", "A&B ~e~"}, a \in {"", "2400", "0001", "1"}, n \in BOOLEAN, c \in BOOLEAN}
FewCfgs == {Cfg(0, "", "", FALSE, FALSE), Cfg(999, "QWIN", "", TRUE, FALSE), Cfg(102, "", "2400", FALSE, TRUE), Cfg(220, "Money", "1", TRUE, TRUE)}
Report(c) == [ver |-> IF c.ver \in {0, 999} THEN 203 ELSE c.ver, id |-> IF c.id = "" THEN "OFXGO" ELSE c.id, appver |-> IF c.appver = "" THEN "0001" ELSE c.appver,
              indent |-> ~c.noindent, cr |-> c.cr]

\* via: "url" selection by URL, otherwise the constructor of that kind
Init == vClients = <<>>
Select(u, c) == vClients' = Append(vClients, [via |-> "url", url |-> u, cfg |-> c, kind |-> KindOf(u), report |-> Report(c)])
Make(k, c) == vClients' = Append(vClients, [via |-> k, url |-> "", cfg |-> c, kind |-> k, report |-> Report(c)])
Next == /\ Len(vClients) < Length
        /\ IF Wide THEN \/ \E u \in Urls, c \in FewCfgs : Select(u, c)
                        \/ \E u \in FewUrls, c \in Cfgs : Select(u, c)
                        \/ \E k \in {"basic", "discover", "vanguard"}, c \in Cfgs : Make(k, c)
           ELSE \/ \E u \in FewUrls, c \in FewCfgs : Select(u, c)
                \/ \E k \in {"basic", "discover", "vanguard"}, c \in FewCfgs : Make(k, c)
Spec == Init /\ [][Next]_vClients
\* ---- properties of the specification
Exact == \A i \in 1..Len(vClients) : LET x == vClients[i] IN x.via = "url" => (x.kind # "basic" <=> \E b \in Bases : TrimL(TrimR(x.url)) = b)
Total == \A i \in 1..Len(vClients) : vClients[i].report.id # "" /\ vClients[i].report.appver # "" /\ vClients[i].report.ver \in Vers \ {0, 999}
Emitted == vClients # <<>> /\ Len(vClients) = Length /\ TE!TLCFP(vClients) % OneIn = 0 => Emit([clients |-> vClients])
=============================================================================
