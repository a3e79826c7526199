From 9316132b66ea79fa200891875672db8e06085a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 01/26] fix: keep the sign of sub-hour time zones and round
 their hundredths to the nearest minute

---
 types.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..f60a5fd 100644
--- a/types.go
+++ b/types.go
@@ -97,7 +97,7 @@ var ofxDateFormats = []string{
 	"2006010215",
 	"20060102",
 }
-var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
+var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?)([0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
 
 // UnmarshalXML handles unmarshalling a Date from an SGML/XML string. It
 // attempts to unmarshal the valid date formats in order of decreasing length
@@ -126,23 +126,29 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		var err error
 		var zonehours, zoneminutes int
-		zonehours, err = strconv.Atoi(matches[1])
+		zonehours, err = strconv.Atoi(matches[2])
 		if err != nil {
 			return err
 		}
-		if len(matches[3]) > 0 {
-			zoneminutes, err = strconv.Atoi(matches[3])
+		if len(matches[4]) > 0 {
+			zoneminutes, err = strconv.Atoi(matches[4])
 			if err != nil {
 				return err
 			}
-			zoneminutes = zoneminutes * 60 / 100
+			// Hundredths of an hour, to the nearest whole minute
+			zoneminutes = (zoneminutes*60 + 50) / 100
 		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		// Keep the sign apart from the hours: it also applies if they are 0
+		sign := matches[1]
+		if len(sign) == 0 {
+			sign = "+"
+		}
+		zone = fmt.Sprintf(" %s%02d%02d", sign, zonehours, zoneminutes)
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
-		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
+		if len(matches[6]) > 0 {
+			zone = zone + " " + matches[6]
 			zoneFormat = zoneFormat + " MST"
 		} else if zonehours == 0 && zoneminutes == 0 {
 			zone = zone + " GMT"
@@ -169,16 +175,15 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	format += "["
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
-	} else {
-		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
+		format += "-"
+		zoneoffset = -zoneoffset
 	}
+	format += fmt.Sprintf("%d", zoneoffset/3600)
 	fractionaloffset := (zoneoffset % 3600) / 36
 	if fractionaloffset > 0 {
 		format += "." + fmt.Sprintf("%02d", fractionaloffset)
-	} else if fractionaloffset < 0 {
-		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
 	if len(zonename) > 0 {
-- 
2.43.0


From ae1c79beae3327690d2507f91ef19717d81dc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 02/26] fix: accept any upper-case time zone name and write no
 other

---
 types.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/types.go b/types.go
index f60a5fd..0876fa7 100644
--- a/types.go
+++ b/types.go
@@ -98,13 +98,14 @@ var ofxDateFormats = []string{
 	"20060102",
 }
 var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?)([0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
+var ofxDateZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
 
 // UnmarshalXML handles unmarshalling a Date from an SGML/XML string. It
 // attempts to unmarshal the valid date formats in order of decreasing length
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value, zone, zoneName string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -117,7 +118,6 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	split := strings.SplitN(value, "[", 2)
 	if len(split) == 2 {
 		value = split[0]
-		zoneFormat = " -0700"
 		zone = strings.TrimRight(split[1], "]")
 
 		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
@@ -148,23 +148,24 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
 		if len(matches[6]) > 0 {
-			zone = zone + " " + matches[6]
-			zoneFormat = zoneFormat + " MST"
+			zoneName = matches[6]
 		} else if zonehours == 0 && zoneminutes == 0 {
-			zone = zone + " GMT"
-			zoneFormat = zoneFormat + " MST"
+			zoneName = "GMT"
 		}
 	} else {
 		// Default to GMT if no time zone was specified
-		zone = " +0000 GMT"
-		zoneFormat = " -0700 MST"
+		zone = " +0000"
+		zoneName = "GMT"
 	}
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
-		t, err := time.Parse(format+zoneFormat, value+zone)
+		t, err := time.Parse(format+" -0700", value+zone)
 		if err == nil {
-			od.Time = t
+			// The name is informational only, and not restricted to the
+			// abbreviations the time package would recognize
+			_, zoneOffset := t.Zone()
+			od.Time = t.In(time.FixedZone(zoneName, zoneOffset))
 			return nil
 		}
 	}
@@ -186,7 +187,8 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	// Leave out names not permitted by the OFX spec (the name is optional)
+	if ofxDateZoneNameRegex.MatchString(zonename) {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From 795d0a95bf753af2cc53d79522eab2c5d4aa60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 03/26] fix: reject dates whose hour has a single digit

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 0876fa7..4f4230e 100644
--- a/types.go
+++ b/types.go
@@ -160,6 +160,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
+		if len(value) < len(format) {
+			// The time package would accept hours of a single digit
+			continue
+		}
 		t, err := time.Parse(format+" -0700", value+zone)
 		if err == nil {
 			// The name is informational only, and not restricted to the
-- 
2.43.0


From 4a3d7022fa1ebc6670580fe40b4b70c366b2c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 04/26] fix: read 401(k) contribution details from CONTRIBINFO

---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..7ea7b72 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From 2d5cd46eb471418bf7ab5ecc0a5985312e9ceba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 05/26] fix: accept LOANINFO aggregates of 401(k) statements

---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 7ea7b72..e2e65ba 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From 09a680d78c78ffa660d9f0e515b6d91601b70a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 06/26] fix: list all leaf elements so that 1.x documents may
 omit their end tags

---
 leaf_elements.go | 92 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..72a3e5b 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -8,9 +8,14 @@ package ofxgo
 //
 // Generated using the following command with the 1.0.3 SPEC .dtd file:
 //   # sed -rn 's/^<!ELEMENT\s+([A-Z0-9]+)\s+-\s+[oO]\s+%.*TYPE\s*>.*$/\t"\1",/p' *.dtd | sort
+//
+// plus all the leaf elements introduced by later versions of the spec (or missed
+// by the above command) which this package supports.
 var ofxLeafElements = []string{
 	"ACCESSKEY",
+	"ACCESSTOKENREQ",
 	"ACCRDINT",
+	"ACCTCLASSIFICATION",
 	"ACCTID",
 	"ACCTKEY",
 	"ACCTREQUIRED",
@@ -22,6 +27,9 @@ var ofxLeafElements = []string{
 	"ADJDATE",
 	"ADJDESC",
 	"ADJNO",
+	"AFTERTAX",
+	"AFTERTAXCONTRIBAMT",
+	"AFTERTAXCONTRIBPCT",
 	"APPID",
 	"APPVER",
 	"ASSETCLASS",
@@ -40,8 +48,11 @@ var ofxLeafElements = []string{
 	"BALOPEN",
 	"BALTYPE",
 	"BANKID",
+	"BASEMATCHAMT",
+	"BASEMATCHPCT",
 	"BILLREFINFO",
 	"BRANCHID",
+	"BROKERCONTACTINFO",
 	"BROKERID",
 	"BUYPOWER",
 	"BUYTYPE",
@@ -61,9 +72,12 @@ var ofxLeafElements = []string{
 	"CANUSEDESC",
 	"CANUSERANGE",
 	"CASESEN",
+	"CASHADVBALAMT",
+	"CASHBAL",
 	"CHARTYPE",
 	"CHECKING",
 	"CHECKNUM",
+	"CHECKSUP",
 	"CHGPINFIRST",
 	"CHGUSERINFO",
 	"CHKANDDEB",
@@ -90,6 +104,8 @@ var ofxLeafElements = []string{
 	"CSPHONE",
 	"CURDEF",
 	"CURRATE",
+	"CURRENTLOANBAL",
+	"CURRENTVESTPCT",
 	"CURSYM",
 	"DATEBIRTH",
 	"DAYPHONE",
@@ -98,6 +114,8 @@ var ofxLeafElements = []string{
 	"DEBADJ",
 	"DEBTCLASS",
 	"DEBTTYPE",
+	"DEFERPCTAFTERTAX",
+	"DEFERPCTPRETAX",
 	"DENOMINATOR",
 	"DEPANDCREDIT",
 	"DESC",
@@ -122,10 +140,12 @@ var ofxLeafElements = []string{
 	"DTDUE",
 	"DTEND",
 	"DTEXPIRE",
+	"DTIMAGEAVAIL",
 	"DTINFOCHG",
 	"DTMAT",
 	"DTNEXT",
 	"DTOPEN",
+	"DTPAYROLL",
 	"DTPLACED",
 	"DTPMTDUE",
 	"DTPMTPRC",
@@ -139,13 +159,17 @@ var ofxLeafElements = []string{
 	"DTSETTLE",
 	"DTSTART",
 	"DTTRADE",
+	"DTTRAN",
 	"DTUSER",
 	"DTXFERPRC",
 	"DTXFERPRJ",
 	"DTYIELDASOF",
 	"DURATION",
 	"EMAIL",
+	"EMPLOYERCONTACTINFO",
+	"EMPLOYERNAME",
 	"EVEPHONE",
+	"EXTDNAME",
 	"EXTDPMTCHK",
 	"EXTDPMTFOR",
 	"FAXPHONE",
@@ -169,14 +193,31 @@ var ofxLeafElements = []string{
 	"GETMIMESUP",
 	"HASEXTDPMT",
 	"HELDINACCT",
+	"HOLDERTYPE",
 	"IDSCOPE",
+	"IMAGEDELAY",
+	"IMAGEREF",
+	"IMAGEREFTYPE",
+	"IMAGETTL",
+	"IMAGETYPE",
+	"INC401K",
+	"INC401KBAL",
 	"INCBAL",
 	"INCIMAGES",
 	"INCLUDE",
+	"INCLUDEPENDING",
 	"INCOMETYPE",
 	"INCOO",
+	"INCTRANIMAGE",
+	"INCTRANIMG",
 	"INITIALAMT",
+	"INITIALLOANBAL",
 	"INTLXFERFEE",
+	"INTRATE",
+	"INTRATECASH",
+	"INTRATEPURCH",
+	"INTRATEXFER",
+	"INV401KSOURCE",
 	"INVACCTTYPE",
 	"INVALIDACCTTYPE",
 	"INVDATE",
@@ -190,12 +231,34 @@ var ofxLeafElements = []string{
 	"LITMAMT",
 	"LITMDESC",
 	"LOAD",
+	"LOANDESC",
+	"LOANID",
+	"LOANINTEREST",
+	"LOANINTERESTTODATE",
+	"LOANMATURITYDATE",
+	"LOANNEXTPMTDATE",
+	"LOANPMTAMT",
+	"LOANPMTFREQ",
+	"LOANPMTSINITIAL",
+	"LOANPMTSREMAINING",
+	"LOANPRINCIPAL",
+	"LOANRATE",
+	"LOANSTARTDATE",
+	"LOANTOTALPROJINTEREST",
 	"LOSTSYNC",
 	"MAILSUP",
 	"MARGINBALANCE",
 	"MARKDOWN",
 	"MARKUP",
+	"MATCH",
+	"MATCHCONTRIBAMT",
+	"MATCHCONTRIBPCT",
+	"MATCHPCT",
+	"MATURITYAMOUNT",
+	"MATURITYDATE",
 	"MAX",
+	"MAXMATCHAMT",
+	"MAXMATCHPCT",
 	"MEMO",
 	"MESSAGE",
 	"MFACHALLENGEFIRST",
@@ -206,6 +269,7 @@ var ofxLeafElements = []string{
 	"MFTYPE",
 	"MIDDLENAME",
 	"MIN",
+	"MINBALREQ",
 	"MINPMTDUE",
 	"MINUNITS",
 	"MKTGINFO",
@@ -227,15 +291,25 @@ var ofxLeafElements = []string{
 	"OPTSELLTYPE",
 	"OPTTYPE",
 	"ORG",
+	"OTHERNONVEST",
+	"OTHERNONVESTAMT",
+	"OTHERNONVESTPCT",
+	"OTHERVEST",
+	"OTHERVESTAMT",
+	"OTHERVESTPCT",
+	"OVERDRAFTLIMIT",
 	"PARVALUE",
 	"PAYACCT",
 	"PAYANDCREDIT",
 	"PAYEEID",
 	"PAYEELSTID",
 	"PAYINSTRUCT",
+	"PENALTY",
 	"PERCENT",
 	"PHONE",
 	"PINCH",
+	"PLANID",
+	"PLANJOINDATE",
 	"PMTBYADDR",
 	"PMTBYPAYEEID",
 	"PMTBYXFER",
@@ -244,8 +318,15 @@ var ofxLeafElements = []string{
 	"POSTALCODE",
 	"POSTPROCWND",
 	"POSTYPE",
+	"PRETAX",
+	"PRETAXCONTRIBAMT",
+	"PRETAXCONTRIBPCT",
+	"PRIORYEARCONTRIB",
 	"PROCDAYSOFF",
 	"PROCENDTM",
+	"PROFITSHARING",
+	"PROFITSHARINGCONTRIBAMT",
+	"PROFITSHARINGCONTRIBPCT",
 	"PURANDADV",
 	"RATING",
 	"RECSRVRTID",
@@ -259,6 +340,12 @@ var ofxLeafElements = []string{
 	"RELTYPE",
 	"RESPFILEER",
 	"RESTRICTION",
+	"REVERSALFITID",
+	"REWARDBAL",
+	"REWARDEARNED",
+	"ROLLOVER",
+	"ROLLOVERCONTRIBAMT",
+	"ROLLOVERCONTRIBPCT",
 	"SECLISTRQDNLD",
 	"SECNAME",
 	"SECURED",
@@ -276,7 +363,9 @@ var ofxLeafElements = []string{
 	"SPECIAL",
 	"SPNAME",
 	"SRVRTID",
+	"STARTOFYEAR",
 	"STATE",
+	"STATEWITHHOLDING",
 	"STOCKTYPE",
 	"STOPPRICE",
 	"STPCHKFEE",
@@ -284,6 +373,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
@@ -332,6 +422,8 @@ var ofxLeafElements = []string{
 	"USPRODUCTTYPE",
 	"VALUE",
 	"VER",
+	"VESTDATE",
+	"VESTPCT",
 	"WITHHOLDING",
 	"XFERDAYSWITH",
 	"XFERDEST",
-- 
2.43.0


From 6199a06a14df4dffe3f8af2d7a91365cf0303298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 07/26] fix: reject 1.x documents whose closing OFX tag is
 missing because of a stray end tag

---
 response.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/response.go b/response.go
index 61f471e..b7382e9 100644
--- a/response.go
+++ b/response.go
@@ -279,6 +279,30 @@ func ParseResponse(reader io.Reader) (*Response, error) {
 	return resp, err
 }
 
+// lastTagReader is a bufio.Reader which remembers the text of the last tag read
+// from it
+type lastTagReader struct {
+	*bufio.Reader
+	tag []byte
+}
+
+// ReadByte implements io.ByteReader, which xml.Decoder prefers over io.Reader
+func (r *lastTagReader) ReadByte() (byte, error) {
+	b, err := r.Reader.ReadByte()
+	if err == nil && b == '<' {
+		r.tag = append(r.tag[:0], b)
+	} else if err == nil && !bytes.HasSuffix(r.tag, []byte(">")) {
+		r.tag = append(r.tag, b)
+	}
+	return b, err
+}
+
+// closes returns whether the last tag read is the end tag of the named element
+func (r *lastTagReader) closes(name string) bool {
+	tag := strings.TrimSuffix(strings.TrimPrefix(string(r.tag), "</"), ">")
+	return strings.HasPrefix(string(r.tag), "</") && strings.TrimSpace(tag) == name
+}
+
 // DecodeResponse parses an OFX response in SGML or XML into a Response object
 // from the given io.Reader
 func DecodeResponse(reader io.Reader) (*Response, error) {
@@ -297,7 +321,8 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		}
 	}
 
-	decoder := xml.NewDecoder(r)
+	tags := &lastTagReader{Reader: r}
+	decoder := xml.NewDecoder(tags)
 	if !xmlVersion {
 		decoder.Strict = false
 		decoder.AutoCloseAfterCharData = ofxLeafElements
@@ -361,6 +386,11 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		if err != nil {
 			return nil, err
 		} else if ofxEnd, ok := tok.(xml.EndElement); ok && ofxEnd.Name.Local == "OFX" {
+			// When not in strict mode, the decoder also closes every open
+			// element upon finding an end tag that matches none of them
+			if !xmlVersion && !tags.closes("OFX") {
+				return nil, errors.New("Missing closing OFX xml element")
+			}
 			return &or, nil // found closing XML element, so we're done
 		} else if start, ok := tok.(xml.StartElement); ok {
 			slice, ok := messageSlices[start.Name.Local]
-- 
2.43.0


From 5aea02bbfa2c4d8904a94ebf65479970a356225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 08/26] fix: require a legal CORRECTACTION beside CORRECTFITID
 instead of refusing it

---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 92887a9bcd7f248b4926186ef6b856e422bb7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/26] fix: refuse to marshal requests and responses of an
 unsupported version instead of omitting their header

---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index b7382e9..f6363fb 100644
--- a/response.go
+++ b/response.go
@@ -445,7 +445,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From f633a3038aeb32f9c3be725203226bfedef9a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 10/26] fix: do not mistake currency rates that are multiples
 of 2^64 for zero

---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From 1013ad3cc93d37a6fba4ec23989691fafe57f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 11/26] fix: do not follow redirects of requests to plaintext
 URLs

---
 basic_client.go    |  2 +-
 client.go          | 22 ++++++++++++++++++++++
 vanguard_client.go |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..fe49971 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -86,7 +86,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsOnly(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client.go b/client.go
index a9d43dd..2a2d595 100644
--- a/client.go
+++ b/client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"errors"
 	"io"
 	"net/http"
 	"strings"
@@ -75,6 +76,27 @@ func GetClient(URL string, bc *BasicClient) Client {
 	return bc
 }
 
+// httpsOnly returns a copy of client which refuses to be redirected to anything
+// but https URLs. Redirects may carry the whole request with them, including
+// the password in it.
+func httpsOnly(client *http.Client) *http.Client {
+	c := *client
+	c.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if client.CheckRedirect != nil {
+			if err := client.CheckRedirect(req, via); err != nil {
+				return err
+			}
+		} else if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request to non-https protocol")
+		}
+		return nil
+	}
+	return &c
+}
+
 // clientRequestNoParse can be used for building clients' RequestNoParse
 // methods if they require fairly standard behavior
 func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..00b07d1 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -45,7 +45,7 @@ func vanguardHttpClient() *http.Client {
 			},
 		},
 	}
-	return client
+	return httpsOnly(client)
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From e866efb65a580844294653444929a00f7feeb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 12/26] fix: close the body of responses that come with an
 error

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 2a2d595..e810e21 100644
--- a/client.go
+++ b/client.go
@@ -115,6 +115,10 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		// Some errors come along with a response
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
-- 
2.43.0


From 9b6596c9f64aed9d5cbd15a125d302520bb6b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 13/26] fix: let all requests to Vanguard share one HTTP client
 instead of leaking its connections

---
 vanguard_client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 00b07d1..76343f8 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -48,6 +48,10 @@ func vanguardHttpClient() *http.Client {
 	return httpsOnly(client)
 }
 
+// vanguardSharedClient is used for all requests, so that they don't each leave
+// an idle connection behind.
+var vanguardSharedClient = vanguardHttpClient()
+
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
 // that enables older cipher suites.
 func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, error) {
@@ -63,8 +67,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := vanguardSharedClient.Do(request)
 	if err != nil {
 		return nil, err
 	}
@@ -93,8 +96,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		request.AddCookie(cookie)
 	}
 
-	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := vanguardSharedClient.Do(request)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0d9e3cc965b86de9806833c08c6e849de51efd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 14/26] fix: close the bodies of responses the Vanguard client
 does not return

---
 vanguard_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanguard_client.go b/vanguard_client.go
index 76343f8..28c0b4c 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -102,6 +102,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -131,6 +132,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
+		response.Body.Close()
 		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
-- 
2.43.0


From 1c72b8a55778e0e249e44b595fd4fa511af0d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 15/26] fix: send the configured User-Agent with the Vanguard
 client's second request, too

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 28c0b4c..398b94f 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -82,7 +82,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -92,6 +92,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if c.UserAgent != "" {
+		request.Header.Set("User-Agent", c.UserAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -133,7 +136,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 		}
 
 		response.Body.Close()
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
 	return response, err
-- 
2.43.0


From bbaa268ccd3838f976ffcb6e480e644bfa93f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 16/26] fix: let the Vanguard client repeat a request only if
 the response was empty and no error

---
 vanguard_client.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 398b94f..c47863b 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"bufio"
 	"crypto/tls"
 	"errors"
 	"io"
@@ -112,6 +113,22 @@ func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reade
 	return response, nil
 }
 
+// emptyBody returns whether there is nothing to be read from the response's
+// body, even if its length wasn't announced. All of the body can still be read
+// afterwards.
+func emptyBody(response *http.Response) bool {
+	if response.ContentLength >= 0 {
+		return response.ContentLength == 0
+	}
+	reader := bufio.NewReader(response.Body)
+	_, err := reader.Peek(1)
+	response.Body = struct {
+		io.Reader
+		io.Closer
+	}{reader, response.Body}
+	return err == io.EOF
+}
+
 // RequestNoParse marshals a Request to XML, makes an HTTP request, and returns
 // the raw HTTP response
 func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
@@ -123,13 +140,16 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	}
 
 	response, err := c.RawRequest(r.URL, b)
+	if err != nil {
+		return response, err
+	}
 
 	// Some financial institutions (cough, Vanguard, cough), require a cookie
 	// to be set on the http request, or they return empty responses.
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if len(response.Cookies()) > 0 && emptyBody(response) {
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
@@ -139,7 +159,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
-	return response, err
+	return response, nil
 }
 
 // Request marshals a Request to XML, makes an HTTP request, and then
-- 
2.43.0


From 5df88933ff9ee5cfd9884215718532b1f385c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 17/26] fix: let the Discover client keep the query and the
 escapes of the URL

---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..645992b 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Hostname(), buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 880624c99aa699940f1890a5499c354295ba8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 18/26] fix: close the Discover client's connections

---
 discovercard_client.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 645992b..d6d3c5d 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -56,8 +56,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
@@ -66,10 +64,30 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 	fmt.Fprint(conn, headers)
 	_, err = io.Copy(conn, buf)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+	response.Body = &discoverCardBody{response.Body, conn}
+	return response, nil
+}
+
+// discoverCardBody is a response body which closes the connection it is read
+// from when it is closed
+type discoverCardBody struct {
+	io.ReadCloser
+	conn io.Closer
+}
+
+func (b *discoverCardBody) Close() error {
+	// The connection is not going to be used again: no need to read the rest
+	// of the body from it
+	return b.conn.Close()
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -85,6 +103,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From 81f69a7be611003028a34220177916b80847a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 19/26] fix: list statements without transaction list or payee
 instead of crashing

---
 cmd/ofx/banktransactions.go | 3 +++
 cmd/ofx/cctransactions.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..46bf89f 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -73,6 +73,9 @@ func bankTransactions() {
 
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
+		if stmt.BankTranList == nil {
+			return
+		}
 		fmt.Println("Transactions:")
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..c760537 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -62,6 +62,9 @@ func ccTransactions() {
 
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
+		if stmt.BankTranList == nil {
+			return
+		}
 		fmt.Println("Transactions:")
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
-- 
2.43.0


From d4ab3d65fe02dd2c6adbd4c3ec6b81e52d40a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 20/26] fix: list investment statements without transactions or
 balance, and balances that are no whole numbers

---
 cmd/ofx/invtransactions.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..566bac3 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,10 +67,12 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
+		if stmt.InvTranList == nil {
+			return
+		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
 			for _, tran := range banktrans.Transactions {
-- 
2.43.0


From b703d5e293ecd53f1d2432a0f309db13a2057410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 21/26] fix: let transactions-inv say why its request failed

---
 cmd/ofx/invtransactions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 566bac3..0d4d59f 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0


From d2bb82d3815e71801d7c91050a1c99c20638be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 22/26] fix: let listing commands fail when the server sent no
 such messages

---
 cmd/ofx/banktransactions.go | 2 +-
 cmd/ofx/cctransactions.go   | 2 +-
 cmd/ofx/get_accounts.go     | 2 +-
 cmd/ofx/invtransactions.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 46bf89f..49a4774 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -68,7 +68,7 @@ func bankTransactions() {
 
 	if len(response.Bank) < 1 {
 		fmt.Println("No banking messages received")
-		return
+		os.Exit(1)
 	}
 
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index c760537..4aec9c5 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -57,7 +57,7 @@ func ccTransactions() {
 
 	if len(response.CreditCard) < 1 {
 		fmt.Println("No banking messages received")
-		return
+		os.Exit(1)
 	}
 
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
diff --git a/cmd/ofx/get_accounts.go b/cmd/ofx/get_accounts.go
index f384e12..6b5bf45 100644
--- a/cmd/ofx/get_accounts.go
+++ b/cmd/ofx/get_accounts.go
@@ -54,7 +54,7 @@ func getAccounts() {
 
 	if len(response.Signup) < 1 {
 		fmt.Println("No signup messages received")
-		return
+		os.Exit(1)
 	}
 
 	fmt.Printf("\nFound the following accounts:\n\n")
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 0d4d59f..3f79bf0 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -64,7 +64,7 @@ func invTransactions() {
 
 	if len(response.InvStmt) < 1 {
 		fmt.Println("No investment messages received")
-		return
+		os.Exit(1)
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-- 
2.43.0


From 570e2edb1b5fcd6ac88ff94e8e7924d33028609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 23/26] fix: let dry runs of invalid requests fail

---
 cmd/ofx/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..ffc323a 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -38,8 +38,8 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 
 	b, err := r.Marshal()
 	if err != nil {
-		fmt.Println(err)
-		return
+		fmt.Println("Error marshalling request:", err)
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0


From 75b2d5b8aa174452b07d9421face1c9fc20cd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 24/26] fix: let detect-settings say and report that it found
 nothing

---
 cmd/ofx/detect_settings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/ofx/detect_settings.go b/cmd/ofx/detect_settings.go
index 3881980..abafd06 100644
--- a/cmd/ofx/detect_settings.go
+++ b/cmd/ofx/detect_settings.go
@@ -118,6 +118,8 @@ func detectSettings() {
 			}
 		}
 	}
+	fmt.Println("No settings were found to work")
+	os.Exit(1)
 }
 
 const anonymous = "anonymous00000000000000000000000"
-- 
2.43.0


From a7df8fc49c1f6e2f2132fc9fe630a5f5d42ab0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 25/26] fix: do not let detect-settings take a refused signon
 for success

---
 cmd/ofx/detect_settings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/ofx/detect_settings.go b/cmd/ofx/detect_settings.go
index abafd06..40816aa 100644
--- a/cmd/ofx/detect_settings.go
+++ b/cmd/ofx/detect_settings.go
@@ -158,8 +158,8 @@ func tryProfile(appID, appVer, version string, noindent bool) bool {
 	}
 	query.Prof = append(query.Prof, &profileRequest)
 
-	_, err = client.Request(&query)
-	if err == nil {
+	response, err := client.Request(&query)
+	if err == nil && response.Signon.Status.Severity != "ERROR" {
 		return true
 	}
 
@@ -167,6 +167,6 @@ func tryProfile(appID, appVer, version string, noindent bool) bool {
 	query.Signon.UserID = ofxgo.String(anonymous)
 	query.Signon.UserPass = ofxgo.String(anonymous)
 
-	_, err = client.Request(&query)
-	return err == nil
+	response, err = client.Request(&query)
+	return err == nil && response.Signon.Status.Severity != "ERROR"
 }
-- 
2.43.0


From e6a21564684e50e0cce639cc7e76593f3c3e3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 26/26] fix: let listings fail when the message they list is an
 error

---
 cmd/ofx/cctransactions.go  | 5 +++++
 cmd/ofx/get_accounts.go    | 5 +++++
 cmd/ofx/invtransactions.go | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 4aec9c5..c6d5215 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -61,6 +61,11 @@ func ccTransactions() {
 	}
 
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
+		if stmt.Status.Severity == "ERROR" {
+			meaning, _ := stmt.Status.CodeMeaning()
+			fmt.Printf("Error status of the statement (%d: %s) with message: %s\n", stmt.Status.Code, meaning, stmt.Status.Message)
+			os.Exit(1)
+		}
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		if stmt.BankTranList == nil {
 			return
diff --git a/cmd/ofx/get_accounts.go b/cmd/ofx/get_accounts.go
index 6b5bf45..0c47531 100644
--- a/cmd/ofx/get_accounts.go
+++ b/cmd/ofx/get_accounts.go
@@ -60,6 +60,11 @@ func getAccounts() {
 	fmt.Printf("\nFound the following accounts:\n\n")
 
 	if acctinfo, ok := response.Signup[0].(*ofxgo.AcctInfoResponse); ok {
+		if acctinfo.Status.Severity == "ERROR" {
+			meaning, _ := acctinfo.Status.CodeMeaning()
+			fmt.Printf("Error status of the account information (%d: %s) with message: %s\n", acctinfo.Status.Code, meaning, acctinfo.Status.Message)
+			os.Exit(1)
+		}
 		for _, acct := range acctinfo.AcctInfo {
 			if acct.BankAcctInfo != nil {
 				fmt.Printf("Bank Account:\n\tBankID: \"%s\"\n\tAcctID: \"%s\"\n\tAcctType: %s\n", acct.BankAcctInfo.BankAcctFrom.BankID, acct.BankAcctInfo.BankAcctFrom.AcctID, acct.BankAcctInfo.BankAcctFrom.AcctType)
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 3f79bf0..e0c7a2f 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -68,6 +68,11 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
+		if stmt.Status.Severity == "ERROR" {
+			meaning, _ := stmt.Status.CodeMeaning()
+			fmt.Printf("Error status of the statement (%d: %s) with message: %s\n", stmt.Status.Code, meaning, stmt.Status.Message)
+			os.Exit(1)
+		}
 		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
-- 
2.43.0

