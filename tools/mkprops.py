#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Credentials never leave over plaintext",
 "A client never sends a request, or any byte of it, over a connection that is not TLS: URLs that do not begin with https:// are refused with an error before any connection is made, and no sequence of server answers (redirects, cookies, retries) makes any client re-send the request to a plaintext address. Every credential-bearing POST goes to a server whose certificate verified.",
 ["inputs","fault_sequences","histories"],"every URL, every client kind (basic, Discover, Vanguard, custom http.Client), every sequence of server replies including redirects 301/302/303/307/308 to https and http targets and untrusted certificates",
 "Tests never open a TLS connection, never redirect and only try one 'http://' URL; the property ranges over all reply sequences.",
 ["basic_client.go","discovercard_client.go","vanguard_client.go","client.go"],
 [("https prefix test before POST","basic_client.go RawRequest"),("tls.Dial","discovercard_client.go"),("own http.Client","vanguard_client.go")],
 [("wire log","scheme/host/method/body of every request a server sees","local servers")],["client.Request","client.RequestNoParse","client.RawRequest"])

p("C02","Client settings override the request on every send",
 "Whenever a client sends a request, the document on the wire carries that client's OFX version, application id and application version and a DTCLIENT taken at send time, and is laid out by that client's indent and carriage-return settings, whatever the caller or an earlier client had put in those fields; unset id, version and OFX version fall back to OFXGO, 0001 and 2.0.3. Every other field of the request is sent as the caller set it.",
 ["histories","configurations"],"every history of sends of one request object through differently configured clients, interleaved with caller edits, over all client configurations",
 "Tests call the setter on fresh requests with one configuration; stale values from earlier sends and the combinations of settings are never exercised end to end.",
 ["request.go","client.go","basic_client.go"],
 [("SetClientFields","request.go"),("accessor defaults","basic_client.go")],
 [("request object","version, signon app fields, indent, carriage return flags","request.go Request")],["bytes received by a server","Request fields after SetClientFields/Request"])

p("C03","HTTP exchange: one POST, result decided by status and document",
 "For the basic and Discover clients one call makes exactly one POST of exactly the marshalled bytes to the request's URL, with the OFX content type; the basic client sends the configured User-Agent, the Discover client exactly the headers Content-Type, Host, Content-Length and Connection (Keep-Alive) in that order. A redirect is followed as HTTP prescribes (a 307 or 308 repeats the POST at its target), at most ten requests in all. Request returns a parsed response without error iff the final status is 200 and the body is a parseable, valid document, and otherwise returns an error. Raw calls hand back the server's body unmodified, and a request that fails its own validation produces no network traffic at all.",
 ["inputs","fault_sequences","configurations"],"every status, header set, body (valid, invalid, truncated, empty), connection failure point, and client configuration",
 "Tests only replay one canned handler over a stub transport with status 200; error statuses, truncated bodies and connection failures are not reached.",
 ["client.go","basic_client.go","discovercard_client.go"],
 [("clientRequest/clientRequestNoParse","client.go"),("RawRequest","basic_client.go, discovercard_client.go")],None,["bytes received by a server","return values of Request, RequestNoParse, RawRequest"])

p("C04","Vanguard cookie retry happens at most once and only when called for",
 "The Vanguard client posts a request a second time only if the first reply arrived without error, had no body and set cookies; the second POST carries the same bytes, headers and all those cookies, its reply is what the caller gets, and there is never a third POST. In every other case the first outcome is returned unchanged.",
 ["fault_sequences","histories"],"every sequence of server replies over status, content length (absent, 0, positive), cookies (none, one, several), connection failure, and every history of calls on one client",
 "No test runs the Vanguard client at all.",
 ["vanguard_client.go"],[("RawRequest cookie loop","vanguard_client.go"),("rawRequestCookies","vanguard_client.go")],None,["requests seen by the server","value returned to caller"])

p("C05","A finished Request leaves no connection or body behind",
 "After Request returns, for every client, outcome and reply sequence, every response body the call obtained has been closed or handed to the caller, and no connection stays checked out: a client that makes arbitrarily many failing calls keeps a bounded number of open connections.",
 ["histories","fault_sequences"],"every history of Request calls whose replies mix 200, error statuses, unparseable bodies, invalid documents and cookie retries",
 "Tests make a handful of calls against stub transports and never look at the body's Close.",
 ["client.go","basic_client.go","vanguard_client.go","discovercard_client.go"],
 [("defer response.Body.Close","client.go clientRequest")],[("open bodies","bodies obtained minus bodies closed","observable through http.RoundTripper / server connection states")],["Close calls on response bodies","server side connection count"])

p("C06","Client selection and configuration accessors are total and exact",
 "GetClient returns the institution-specific client exactly for that institution's URL (ignoring leading and trailing slashes) and the basic client for every other URL, always bound to the configuration it was given; each accessor reports the configured value, or the documented default when none is configured.",
 ["inputs","configurations"],"every URL string near the known ones (slashes, case, prefixes, suffixes, paths, schemes) and every configuration",
 "Tests check neither the near-miss URLs nor the accessors of all three clients.",
 ["client.go","basic_client.go","discovercard_client.go","vanguard_client.go"],[("GetClient","client.go"),("NewDiscoverCardClient, NewVanguardClient","discovercard_client.go, vanguard_client.go")],None,["dynamic type and accessors of returned Client"])

p("C07","Nothing invalid or misplaced is ever marshalled",
 "Marshalling a request or response succeeds only if its version is one of the supported OFX versions, its signon is valid for that version, and every message sits in the message set it belongs to and is valid for that version; otherwise it returns an error and no document. Conversely an object meeting those conditions (and, for a profile response, naming its message sets after OFX message set elements) always marshals.",
 ["inputs","configurations"],"every combination of version, signon validity, and any number of valid, invalid and misplaced messages in any position of any of the message-set slots",
 "Tests try one misplaced message in one slot and a few invalid fields; the position and slot of the offending message are the quantifier.",
 ["request.go","response.go","common.go"],[("encodeMessageSet gate","request.go"),("Signon.Valid before encoding","request.go, response.go"),("writeHeader","common.go")],None,["Request.Marshal","Response.Marshal"])

p("C08","A marshalled request says exactly what the caller asked",
 "The marshalled document starts with the header of its version's family (SGML header for 1.x, XML declaration plus OFX processing instruction for 2.x) naming that version, is well nested, contains the signon followed by exactly the non-empty message sets in the order OFX prescribes with messages in caller order, and carries for every field the caller set exactly one element with that field's OFX tag, in specification order, holding the value in wire format. In 1.x documents no leaf element has a closing tag and every aggregate does; in 2.x every element is closed.",
 ["inputs","configurations"],"every request type and combination of set/unset fields, every version, every legal character in text fields, any number of messages per set",
 "Tests compare a dozen fixed documents byte for byte; field combinations, the other versions and escaping are open.",
 ["request.go","common.go","leaf_elements.go","bank.go","creditcard.go","invstmt.go","seclist.go","signup.go","profile.go","signon.go"],
 [("struct tags + encoder","*.go"),("SetDisableAutoClose(ofxLeafElements)","request.go"),("writeHeader","common.go")],None,["Request.Marshal"])

p("C09","Indentation, line endings and version never change content",
 "For a fixed request, switching indentation or carriage returns on or off changes only white space between elements and line ends, and switching between versions for which the request is valid changes only the header and whether leaf elements are closed: the sequence of elements and values is the same.",
 ["inputs","configurations"],"every valid request under all indent x carriage-return x version settings",
 "Tests cover two indented documents and no cross-setting comparison.",
 ["request.go","common.go","basic_client.go"],[("encoder.Indent/CarriageReturn","request.go"),("writeHeader","common.go")],None,["Request.Marshal"])

p("C10","Marshalling is repeatable and leaves the request alone",
 "Marshalling the same request again, any number of times and interleaved with marshals of other requests, in other versions and formats, yields the same bytes as the first time; apart from filling in the language default of the signon and the routing NONE of profile requests it does not alter the request, and a failed marshal leaves later marshals unaffected.",
 ["histories"],"every history of Marshal / SetClientFields / field edit / failing Marshal operations over several requests and responses",
 "Tests marshal each object once.",
 ["request.go","response.go","leaf_elements.go"],[("Marshal","request.go, response.go"),("shared leaf element table","leaf_elements.go")],[("leaf element table","package-level slice shared by all encoders/decoders","leaf_elements.go")],["Request.Marshal","Response.Marshal"])

p("C11","Header detection and acceptance is exact",
 "A document is read as OFX 1.x iff it carries the colon-style header and as 2.x iff it carries the processing-instruction header, and it is accepted only with the matching OFXHEADER number, a supported version of that family, SECURITY and COMPRESSION values the library can handle and, for 1.x, all header fields in order; the reported version is the header's. Spacing and line ends between header fields do not matter.",
 ["inputs"],"every combination of header family, field values, omission, reordering, duplication, spacing and line ends",
 "Tests try a few dozen fixed headers; the cross product and cross-family mixtures are not sampled.",
 ["response.go","constants.go"],[("guessVersion","response.go"),("readSGMLHeaders, readXMLHeaders","response.go")],None,["DecodeResponse/ParseResponse","Response.Version"])

p("C12","Every message of a response reaches its slot, in order",
 "When a response document decodes, each message set's messages appear in the corresponding slot in document order with their own type, whatever order the sets come in; nothing is dropped, duplicated or moved to another slot, and a document containing an unknown or request-side message set, an unsupported message, or a message in the wrong set, or lacking the leading signon set, is rejected as a whole.",
 ["inputs"],"every sequence of message sets and messages, including empty, repeated, unknown and misplaced ones",
 "Tests parse sample files with one or two sets in the usual order.",
 ["response.go","common.go"],[("responseTypes registry","response.go"),("messageSlices map","response.go DecodeResponse"),("decodeMessageSet","response.go")],None,["DecodeResponse"])

p("C13","Every supported response element lands in its field",
 "For every element of every supported response aggregate (signon, account info, bank, credit card, investment statements, security lists, profile), the value in the document is the value of the API field documented for it, repeated elements keep their order and number, and fields whose element is absent are unset; elements the library does not support inside an aggregate are skipped without disturbing their neighbours.",
 ["inputs"],"every element at every nesting path, present or absent, once or repeated, with any legal value, next to unknown elements, in both 1.x and 2.x syntax",
 "Sample documents reach a minority of the several hundred elements and no combinations.",
 ["bank.go","creditcard.go","invstmt.go","seclist.go","signup.go","profile.go","signon.go","common.go","leaf_elements.go"],
 [("struct tags + decoder","*.go"),("custom UnmarshalXML","invstmt.go, seclist.go, profile.go, creditcard.go")],None,["exported fields of the decoded Response"])

p("C14","1.x and 2.x spellings of a document mean the same",
 "The same content written as 2.x XML, as 1.x SGML with leaf closing tags omitted, kept, or any mixture, and with any white space and line ends around elements and values, decodes to equal responses differing only in version.",
 ["inputs"],"every document x every subset of omitted leaf end tags x white space/line-end layouts",
 "Tests fix one spelling per document.",
 ["response.go","leaf_elements.go","types.go"],[("AutoCloseAfterCharData = leaf elements, Strict=false","response.go"),("TrimSpace in leaf decoders","types.go, constants.go")],None,["DecodeResponse"])

p("C15","Response Marshal then Parse is the identity",
 "Marshalling a valid response and parsing the result yields an equal response: same version, every field of every message with the same value, same order and same concrete types; and marshalling that again yields the same bytes.",
 ["inputs"],"every valid response over all supported message types, field combinations and versions",
 "Tests round-trip a few sample files.",
 ["response.go","types.go","constants.go","bank.go","creditcard.go","invstmt.go","seclist.go","signup.go","profile.go"],[("Response.Marshal","response.go"),("MarshalXML methods","types.go, constants.go, invstmt.go, profile.go")],None,["Response.Marshal","ParseResponse"])

p("C16","Mixed lists keep type and order and refuse strangers",
 "Investment transactions, positions, open orders, security lists and profile message sets decode to one entry per child in document order, each of the Go type documented for its element and each reporting its own type name; a child element the list does not define makes the document be rejected instead of being silently lost.",
 ["inputs"],"every sequence of known and unknown children in each mixed list",
 "Tests contain two or three child kinds in one fixed order.",
 ["invstmt.go","seclist.go","profile.go"],[("UnmarshalXML switch on child name","invstmt.go, seclist.go, profile.go")],None,["decoded list elements"])

p("C17","Malformed or truncated documents are rejected, never crash",
 "No byte sequence makes parsing panic or fail to terminate, and a document that ends before its closing OFX tag, whose values do not fit their element's type, or (in 2.x) is not well nested yields an error and no response.",
 ["inputs"],"every prefix of every document, every token deletion/duplication/swap, every ill-typed value, arbitrary byte strings",
 "Tests include a handful of busted samples.",
 ["response.go","types.go","constants.go","invstmt.go","seclist.go","profile.go"],[("error propagation in decodeMessageSet and UnmarshalXML","*.go"),("strict XML decoder","dependency")],None,["DecodeResponse/ParseResponse"])

p("C18","Parsing reports every validation failure and still returns the data",
 "ParseResponse of a well-formed document returns the fully populated response, with a nil error iff the signon and all messages are valid; otherwise the error lists one entry for every invalid part, none lost and none added. DecodeResponse returns the same response without judging validity.",
 ["inputs"],"every subset of invalid messages over any number of messages and sets",
 "Tests check one document with a couple of errors.",
 ["response.go"],[("Response.Valid, errInvalid.AddErr/ErrOrNil","response.go"),("ParseResponse","response.go")],None,["ParseResponse","DecodeResponse","Response.Valid","error text"])

p("C19","Statement validity follows the OFX rules",
 "A bank statement response is valid iff its transaction id (1 to 36 bytes), status, currency, account, ledger balance date and every listed transaction, pending transaction and balance obey the OFX rules: transactions have a type other than HOLD, a date and a FITID, pending ones a type, a date and a name; a corrected id comes with a legal action; not both name and payee, nor both bank and card destination, nor both currencies; images only from 2.2 and at most two; pending lists only from 2.2; available balance amount and date together. Credit card, investment, account list, profile and security list responses are valid iff their transaction id is 1 to 36 bytes.",
 ["inputs","configurations"],"every combination of the rule-relevant attributes of a statement x position of the offending entry x OFX version",
 "Tests probe each rule once on one object; correction rules and combinations are untested.",
 ["bank.go","common.go","creditcard.go"],[("Valid methods","bank.go, common.go")],None,["StatementResponse.Valid and component Valid methods","ParseResponse error"])

p("C20","Request validity follows the OFX rules",
 "A request message is valid iff its transaction id is 1 to 36 bytes, its account is well formed where the message requires it, and it uses no option newer than the document version (pending transactions 2.2, transaction images 2.1); a signon is valid iff user id, exactly one of password and user key, language, application id and version have legal lengths. Profile requests always ask for routing NONE and an empty language becomes ENG.",
 ["inputs","configurations"],"every combination of field lengths around their limits, options, account types and versions",
 "Tests step single fields around one limit.",
 ["signon.go","bank.go","creditcard.go","invstmt.go","seclist.go","signup.go","profile.go","common.go","types.go"],[("Valid methods","*.go")],None,["Valid methods","Request.Marshal"])

p("C21","Status codes, severities and meanings agree",
 "A status is valid iff its code is one OFX defines and its severity (INFO, WARN or ERROR) is the one OFX assigns to that code; a signon or bank statement response with an invalid status is invalid; meanings are available for every known code, and asking for the meaning of an unknown code is an error rather than somebody else's text.",
 ["inputs"],"every code (all listed ones and unlisted neighbours, negative, huge) x every severity",
 "Tests check a few codes.",
 ["common.go"],[("statusMeanings, Status.Valid, CodeMeaning, CodeConditions","common.go")],None,["Status.Valid","Status.CodeMeaning","Status.CodeConditions","StatementResponse validity"])

p("C22","Dates denote the same instant on both sides of the wire",
 "Every OFX date in any of the permitted precisions, with or without zone offset (whole, fractional, negative, sub-hour) and zone name, decodes to exactly the instant it denotes, GMT when no zone is given; text outside the grammar or naming an impossible day or time is rejected. Writing any date with millisecond precision and whole-minute zone offset and reading it back gives the same instant. Two dates are Equal iff they are the same instant, whatever their zones.",
 ["inputs"],"all calendar values incl. leap years and month ends x precision x offset sign, hours, hundredths x zone name, and all near-miss spellings",
 "Tests try about fifteen dates and no negative sub-hour or third-of-an-hour offsets.",
 ["types.go"],[("Date.UnmarshalXML, Date.String/MarshalXML","types.go")],None,["Date decode/encode","Date.Equal"])

p("C23","Amounts are exact",
 "Every decimal amount, with point or comma, any sign, leading or trailing zeros, decodes to exactly the rational number it denotes, comparison is by value, and writing an amount of up to 100 decimals and reading it back gives the same number in plain decimal notation; text that is not a number is rejected.",
 ["inputs"],"all decimal strings (sign x integer digits x separator x fraction digits x padding) and malformed strings",
 "Tests check a couple of dozen literals.",
 ["types.go"],[("Amount.UnmarshalXML/String/MarshalXML/Equal","types.go")],None,["Amount"])

p("C24","Enumerated values map one-to-one",
 "For every enumerated OFX type, each wire name and each Go constant correspond one-to-one under parsing, printing, decoding and encoding, are reported valid, and surrounding white space is ignored; any other text is an error leaving an invalid value, and an invalid value is never printed or written as a legal name.",
 ["inputs"],"all types x all names x all near-miss spellings x all numeric values incl. out of range",
 "Generated tests check each name once by the same generator that wrote the code.",
 ["constants.go","generate_constants.py"],[("FromString/String/Valid/UnmarshalXML/MarshalXML per type","constants.go")],None,["New*, String, Valid, XML encode/decode"])

p("C25","UIDs: format, validity and uniqueness",
 "A UID is valid iff it is 1 to 36 bytes, is in the recommended format iff it is 36 bytes with hyphens at positions 9, 14, 19 and 24, and randomly generated UIDs are always in the recommended format, lower-case hexadecimal between hyphens, drawn from all 128 bits and never repeat.",
 ["inputs","histories"],"all strings by length and hyphen placement; all histories of generated UIDs",
 "Tests check a few literals and that two random ones differ.",
 ["types.go"],[("UID.Valid, RecommendedFormat, RandomUID","types.go")],None,["UID","RandomUID"])

p("C26","Integers, booleans, text and currency codes decode exactly",
 "Integer elements decode to exactly the 64-bit value written, booleans only from Y and N, currency codes only from ISO-4217 codes, and text verbatim apart from surrounding white space, with entities resolved; anything else for the non-text kinds is rejected, and writing then reading any value gives the same value back with markup characters escaped, and two values are Equal iff they are the same.",
 ["inputs"],"all values incl. 64-bit limits and overflow, all near-miss spellings, all legal characters and entities in text, nested markup",
 "Tests check small literals per type.",
 ["types.go"],[("UnmarshalXML/MarshalXML of Int, Boolean, String, CurrSymbol","types.go")],None,["leaf decode/encode"])

p("C27","Independent parses and marshals do not interfere",
 "Any number of goroutines may concurrently parse, validate and marshal their own documents, in any mixture of versions, and create clients; each gets the result it would have got alone, with no data race.",
 ["schedules"],"all interleavings of parse/validate/marshal/selection operations on distinct objects",
 "Tests are sequential.",
 ["request.go","response.go","leaf_elements.go","common.go","client.go"],[("package-level tables only read","leaf_elements.go, response.go, common.go")],[("leaf element table","shared slice handed to every encoder/decoder","leaf_elements.go")],["results of concurrent calls","race detector"])

p("C28","The command line lists everything and never crashes",
 "For every server answer, each listing command of the ofx tool (transactions-bank, transactions-cc, transactions-inv, get-accounts) ends in one of two ways: it prints the balance (ledger balance, or available cash of an investment statement) and every transaction or account of the statement it asked for, in order, each with its date, amounts, currency (its own, else the statement's), type, security and name, and exits 0; or it prints a diagnostic and exits nonzero. It must fail when there is no usable answer: no connection, an error status, an unreadable or invalid document, a signon whose status is an error, no message of the requested kind, or a message that is itself an error without a statement. A valid answer that lacks optional parts (no transaction list, no balance, no payee, no currency) is listed without crashing.",
 ["inputs","fault_sequences"],"every command x statement shape (each optional part present or absent, any number of entries of any kind) x status codes of signon and message x server failures",
 "No test runs the command-line tool.",
 ["cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go","cmd/ofx/get_accounts.go","cmd/ofx/util.go"],[("listing functions","cmd/ofx/*.go")],None,["stdout, stderr, exit status of the ofx command"])

p("C29","Commands ask for exactly what they were told and downloads save exactly what came",
 "The request a command of the ofx tool sends asks for exactly the account, login, institution, application, version, layout and options given by its flags (defaults where a flag is not given), in one POST to the URL given. On success each download command's output file holds exactly the bytes of the server's reply and the exit status is 0. If a connection cannot be made, the server answers with an error status, the reply breaks off, the file cannot be written, or the request or its flags are invalid, the command prints a diagnostic and fails with nonzero status; and when no reply with status 200 came, an existing output file keeps its contents.",
 ["inputs","configurations","fault_sequences"],"every download and listing command x flag combination x server reply (status, body bytes, framing, failure) x kind of output file",
 "No test runs the command-line tool.",
 ["cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go","cmd/ofx/command.go","cmd/ofx/util.go"],[("RequestNoParse then io.Copy to file","cmd/ofx/*.go")],None,["output file, exit status, requests seen by server"])

p("C30","Dry runs send nothing; detect-settings reports only what worked",
 "With -dryrun a command prints the very request it would send, as the last thing on its output, contacts no server, creates or changes no file and exits 0; if the flags make no valid request, it prints a diagnostic and exits nonzero. detect-settings asks for the profile with one candidate combination after the other (application, application version, OFX version, indentation, each first with the login given and then anonymously, in its fixed order), stops at and reports the first one the server accepted, and prints no settings and exits nonzero when none was accepted. Accepted means: the answer has status 200 and is a readable, valid response whose signon status is not of severity ERROR.",
 ["configurations","fault_sequences"],"every command and flag combination with -dryrun; every position of the first accepted candidate, after every kind of refusal",
 "No test runs the command-line tool.",
 ["cmd/ofx/detect_settings.go","cmd/ofx/util.go","cmd/ofx/command.go"],[("dryrun checks","cmd/ofx/*.go"),("tryProfile loop","cmd/ofx/detect_settings.go")],None,["stdout, exit status, requests seen by server"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
