------------------------------- MODULE MCHead -------------------------------
(***************************************************************************)
(* A sender puts a header together piece by piece, deviating up to Depth   *)
(* times from what OFX prescribes: other values, missing, repeated,        *)
(* misspelt, swapped or foreign fields, unusual spacing, pieces of the     *)
(* other family's header.  Every header so made is emitted with ReadHead's *)
(* verdict and parsed in front of a body that only 1.x allows and of one   *)
(* that both allow.                                                        *)
(***************************************************************************)
EXTENDS OfxHeader, OfxEmit
CONSTANTS Depth, OneIn, Vers
VARIABLES vHead, vDevs
TE == INSTANCE TLCExt
View == <<vHead, vDevs # <<>>>>

\* A header: lead, fields [pre, key, eq, val, post], tail; XML has its declaration and instruction brackets as well.
F(key, eq, val, post) == [key |-> key, eq |-> eq, val |-> val, post |-> post]
Sgml(v) == [fam |-> "sgml", lead |-> "", open |-> "", close |-> "", tail |-> "\r\n", decl |-> "",
            fs |-> <<F("OFXHEADER", ":", "100", "\r\n"), F("DATA", ":", "OFXSGML", "\r\n"), F("VERSION", ":", v, "\r\n"), F("SECURITY", ":", "NONE", "\r\n"),
                     F("ENCODING", ":", "USASCII", "\r\n"), F("CHARSET", ":", "1252", "\r\n"), F("COMPRESSION", ":", "NONE", "\r\n"),
                     F("OLDFILEUID", ":", "NONE", "\r\n"), F("NEWFILEUID", ":", "NONE", "\r\n")>>]
Xml(v) == [fam |-> "xml", lead |-> "", decl |-> "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n", open |-> "<?OFX ", close |-> "?>", tail |-> "\n",
           fs |-> <<F("OFXHEADER", "=\"", "200", "\" "), F("VERSION", "=\"", v, "\" "), F("SECURITY", "=\"", "NONE", "\" "),
                    F("OLDFILEUID", "=\"", "NONE", "\" "), F("NEWFILEUID", "=\"", "NONE", "\"")>>]
Text(x) == x.lead \o x.decl \o x.open \o Cat([i \in 1..Len(x.fs) |-> x.fs[i].key \o x.fs[i].eq \o x.fs[i].val \o x.fs[i].post]) \o x.close \o x.tail

Values(fam, key) ==
  CASE key = "OFXHEADER"   -> {"100", "200", "", "1000", "0100", "10", "abc", "300", "1 00"}
    [] key = "VERSION"     -> SgmlVersions \cup XmlVersions \cup {"", "100", "101", "104", "161", "199", "204", "212", "221", "300", "0102", "1023", "20", "2.2", "abc", " 203", "102 "}
    [] key = "DATA"        -> {"OFXSGM", "OFXXML", "OFXSGMLX", "", "ofxsgml", "OFX SGML", "OFXSGML2"}
    [] key = "SECURITY"    -> {"NONE", "TYPE1", "TYPE2", "", "none", "NONE1", "TYPE", "TYPE 1", "TYPE0", "TYPE11", "SSL"}
    [] key = "COMPRESSION" -> {"GZIP", "", "none", "NON", "NONEX", "NONE1", "ZIP", "DEFLATE", "N"}
    [] key = "ENCODING"    -> {"UNICODE", "UTF-8", "", "8859-1", "us-ascii", "USASCII:X"}
    [] key = "CHARSET"     -> {"NONE", "ISO-8859-1", "8859_1", "", "1252;", "COMPRESSION"}
    [] OTHER               -> {"", "12345678-1234-1234-1234-123456789abc", "a_b", "VERSION", "x y", "N/A"}
Keys == {"ofxheader", "VERSIONS", "XVERSION", "SECURIT", "DATA", "FOO", "ENCODING", "", "CHARSET", "COMPRESSION", "FILEUID", "Version", "NEWFILEUIDS"}
Eqs(fam) == IF fam = "sgml" THEN {": ", ":\t", ":\r\n ", " :", "=", "::", ""} ELSE {"='", "= \"", " =\"", "=", ":", "=\"\""}
Posts(fam) == IF fam = "sgml" THEN {"", " ", "\n", "\r\n\r\n", "\t \n", ";", "\r", ","} ELSE {"\"", "\"\n", "\"\t ", "' ", " ", "\", ", "\";"}
Leads == {" ", "\r\n", "x", "<!-- c -->", "OFXHEADER:100\r\n", "OFXHEADER=", "~e~"}
Tails == {"", "\n\n\n", " \t", "x", "<!-- c -->", "<?OFX OFXHEADER=\"200\" VERSION=\"203\" SECURITY=\"NONE\"?>", "OFXHEADER:100", "FOO:BAR\r\n", "\r\n\r\n"}
Decls == {d \o "\r\n" : d \in XmlDecls} \cup {"", "<?xml version=\"1.0\"?>", "<?XML version=\"1.0\"?>\n", "<?xml?>\n", "<xml/>"}
Opens == {"<?OFX", "<?OFX\n", "<?ofx ", "<?OFX2 ", "<OFX ", "", "<? OFX "}
Closes == {" ?>", ">", "", "?>?>", " extra ?>", "\"?>"}

Del(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Ix == 1..Len(vHead.fs)
Foreign == {F("FOO", IF vHead.fam = "sgml" THEN ":" ELSE "=\"", "BAR", IF vHead.fam = "sgml" THEN "\r\n" ELSE "\" "), F("OFXHEADER", ":", "100", "\r\n"), F("OFXHEADER", "=\"", "200", "\" ")}
Deviate(x, name) == vHead' = x /\ vDevs' = Append(vDevs, name)
Take(a) == vDevs = <<>> \/ TE!TLCFP(<<vHead, a>>) % OneIn = 0
Next == /\ Len(vDevs) < Depth
        /\ \/ \E i \in Ix : \E v \in Values(vHead.fam, vHead.fs[i].key) : Take(<<"val", i, v>>) /\ Deviate([vHead EXCEPT !.fs[i].val = v], "val")
           \/ \E i \in Ix : Take(<<"del", i>>) /\ Deviate([vHead EXCEPT !.fs = Del(@, i)], "del")
           \/ \E i \in Ix : Take(<<"dup", i>>) /\ Deviate([vHead EXCEPT !.fs = Ins(@, i, vHead.fs[i])], "dup")
           \/ \E i, j \in Ix : i < j /\ Take(<<"swap", i, j>>) /\ Deviate([vHead EXCEPT !.fs = Swap(@, i, j)], "swap")
           \/ \E i \in Ix : \E k \in Keys : Take(<<"key", i, k>>) /\ Deviate([vHead EXCEPT !.fs[i].key = k], "key")
           \/ \E i \in 1..(Len(vHead.fs) + 1) : \E f \in Foreign : Take(<<"ins", i, f>>) /\ Deviate([vHead EXCEPT !.fs = Ins(@, i, f)], "ins")
           \/ \E i \in Ix : \E e \in Eqs(vHead.fam) : Take(<<"eq", i, e>>) /\ Deviate([vHead EXCEPT !.fs[i].eq = e], "eq")
           \/ \E i \in Ix : \E e \in Posts(vHead.fam) : Take(<<"post", i, e>>) /\ Deviate([vHead EXCEPT !.fs[i].post = e], "post")
           \/ \E e \in Posts(vHead.fam) : Take(<<"posts", e>>) /\ Deviate([vHead EXCEPT !.fs = [i \in Ix |-> [vHead.fs[i] EXCEPT !.post = e]]], "posts")
           \/ \E e \in Leads : Take(<<"lead", e>>) /\ Deviate([vHead EXCEPT !.lead = e], "lead")
           \/ \E e \in Tails : Take(<<"tail", e>>) /\ Deviate([vHead EXCEPT !.tail = e], "tail")
           \/ vHead.fam = "xml" /\ \E e \in Decls : Take(<<"decl", e>>) /\ Deviate([vHead EXCEPT !.decl = e], "decl")
           \/ vHead.fam = "xml" /\ \E e \in Opens : Take(<<"open", e>>) /\ Deviate([vHead EXCEPT !.open = e], "open")
           \/ vHead.fam = "xml" /\ \E e \in Closes : Take(<<"close", e>>) /\ Deviate([vHead EXCEPT !.close = e], "close")
Init == vDevs = <<>> /\ \E v \in Vers : vHead = IF v \in SgmlVersions THEN Sgml(v) ELSE Xml(v)
Spec == Init /\ [][Next]_<<vHead, vDevs>>
R == ReadHead(Text(vHead))
\* ---- properties of the specification
Plain == vDevs = <<>> => R.st = "ok" /\ R.sgml = (vHead.fam = "sgml")
Sane == R.st = "ok" => (IF R.sgml THEN R.ver \in SgmlVersions ELSE R.ver \in XmlVersions)
Needed == (vDevs = <<"del">> /\ vHead.fam = "sgml") => R.st = "err"
Spaced == (vDevs \in {<<"posts">>, <<"post">>} /\ vHead.fam = "sgml" /\ \A i \in Ix : Trim(vHead.fs[i].post) = "") => R.st = "ok"
Emitted == Emit([op |-> "head", text |-> Text(vHead), st |-> R.st, sgml |-> R.sgml, ver |-> R.ver, devs |-> ToString(vDevs)])
=============================================================================
