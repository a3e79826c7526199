package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

var basicKinds = map[string]reflect.Type{
	"int":  reflect.TypeOf(ofxgo.Int(0)),
	"amt":  reflect.TypeOf(ofxgo.Amount{}),
	"date": reflect.TypeOf(ofxgo.Date{}),
	"bool": reflect.TypeOf(ofxgo.Boolean(false)),
	"uid":  reflect.TypeOf(ofxgo.UID("")),
	"str":  reflect.TypeOf(ofxgo.String("")),
	"cur":  reflect.TypeOf(ofxgo.CurrSymbol{}),
}

func kindType(kind string) reflect.Type {
	if t, ok := basicKinds[kind]; ok {
		return t
	}
	if f, ok := enumNew[kind]; ok {
		return f.Type().Out(0)
	}
	panic("unknown kind " + kind)
}

func canonDate(t time.Time) string {
	secs := t.Unix()
	ns := t.Nanosecond()
	days := secs / 86400
	rem := secs % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	s := fmt.Sprintf("%d:%d", days, rem*1000+int64(ns/1000000))
	if ns%1000000 != 0 {
		s += fmt.Sprintf("+%dns", ns%1000000)
	}
	return s
}

func canonRat(r *big.Rat) string {
	d := new(big.Int).Set(r.Denom())
	n2, n5 := 0, 0
	two, five, zero := big.NewInt(2), big.NewInt(5), big.NewInt(0)
	m := new(big.Int)
	q := new(big.Int)
	for {
		q.QuoRem(d, two, m)
		if m.Cmp(zero) != 0 {
			break
		}
		d.Set(q)
		n2++
	}
	for {
		q.QuoRem(d, five, m)
		if m.Cmp(zero) != 0 {
			break
		}
		d.Set(q)
		n5++
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		return r.RatString()
	}
	if n5 > n2 {
		n2 = n5
	}
	return r.FloatString(n2)
}

// canon is the projection of a leaf value onto the specification's abstract value.
func canon(v reflect.Value) (string, bool) {
	switch x := v.Interface().(type) {
	case ofxgo.Int:
		return strconv.FormatInt(int64(x), 10), true
	case ofxgo.Amount:
		return canonRat(&x.Rat), true
	case ofxgo.Date:
		return canonDate(x.Time), true
	case ofxgo.Boolean:
		if x {
			return "Y", true
		}
		return "N", true
	case ofxgo.UID:
		return string(x), true
	case ofxgo.String:
		return string(x), true
	case string:
		return x, true
	case ofxgo.CurrSymbol:
		return x.Unit.String(), true
	}
	if v.Kind() == reflect.Uint && strings.HasPrefix(v.Type().PkgPath(), "github.com/aclindsa/ofxgo") {
		if v.Uint() == 0 {
			return "", true
		}
		return v.MethodByName("String").Call(nil)[0].String(), true
	}
	return "", false
}

func isZeroCanon(v reflect.Value, s string) bool {
	switch v.Interface().(type) {
	case ofxgo.Int, ofxgo.Amount:
		return s == "0"
	case ofxgo.Boolean:
		return s == "N"
	case ofxgo.Date:
		return s == "-719162:0"
	case ofxgo.CurrSymbol:
		return s == "XXX"
	}
	return s == ""
}

// decodeLeaf decodes raw wire text (already escaped) as the given kind.
func decodeLeaf(kind, wire string) (v reflect.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
		}
	}()
	p := reflect.New(kindType(kind))
	err = xml.Unmarshal([]byte("<X>"+wire+"</X>"), p.Interface())
	return p.Elem(), err
}

var xStart = xml.StartElement{Name: xml.Name{Local: "X"}}

// encodeLeaf writes a leaf value and returns the raw text between the tags.
func encodeLeaf(v interface{}) (raw string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
		}
	}()
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	if err := e.EncodeElement(v, xStart); err != nil {
		return "", err
	}
	if err := e.Flush(); err != nil {
		return "", err
	}
	s := b.String()
	if s == "" {
		return "", errors.New("EMPTY")
	}
	if !strings.HasPrefix(s, "<X>") || !strings.HasSuffix(s, "</X>") {
		return "", errors.New("unexpected element: " + s)
	}
	return s[3 : len(s)-4], nil
}

func escapeXML(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func unescapeXML(s string) string {
	return strings.NewReplacer("&amp;", "&", "&lt;", "<", "&gt;", ">", "&#34;", "\"", "&#39;", "'",
		"&quot;", "\"", "&apos;", "'", "&#x9;", "\t", "&#xA;", "\n", "&#xD;", "\r", "&#10;", "\n", "&#9;", "\t", "&#13;", "\r").Replace(s)
}

type leafCase struct {
	Op   string `json:"op"`
	Kind string `json:"kind"`
	Text string `json:"text"`
	Wire string `json:"wire"` // raw wire text when it differs from the escaped text
	St   string `json:"st"`
	V    string `json:"v"`
	Y    int    `json:"y"`
	Mo   int    `json:"mo"`
	D    int    `json:"d"`
	H    int    `json:"h"`
	Mi   int    `json:"mi"`
	S    int    `json:"s"`
	Ms   int    `json:"ms"`
	Off  int    `json:"off"`
	Name string `json:"name"`
	Eq   bool   `json:"eq"`
	N    int    `json:"n"`
	Val  bool   `json:"valid"`
	Rec  bool   `json:"rec"`
}

type printEvent struct {
	Op   string `json:"op"`
	Kind string `json:"kind"`
	V    string `json:"v"`
	Text string `json:"text"`
	Wire string `json:"wire"`
}

// replayEnumConst checks one documented constant against the name it stands for.
func replayEnumConst(c leafCase) string {
	v, ok := enumConsts[c.Kind][c.Name]
	if !ok {
		return "no constant " + c.Name
	}
	res := enumNew[c.Kind].Call([]reflect.Value{reflect.ValueOf(c.Text)})
	if !res[1].IsNil() || res[0].Uint() != v.Uint() {
		return fmt.Sprintf("New%s(%q) = %v, %v, not %s", c.Kind, c.Text, res[0], res[1], c.Name)
	}
	if s := v.MethodByName("String").Call(nil)[0].String(); s != c.Text {
		return fmt.Sprintf("%s prints as %q, not %q", c.Name, s, c.Text)
	}
	if !v.MethodByName("Valid").Call(nil)[0].Bool() {
		return c.Name + " is not reported valid"
	}
	// Into a variable that already held something else.
	p := reflect.New(v.Type())
	p.Elem().SetUint(uint64(c.N))
	if err := p.MethodByName("FromString").Call([]reflect.Value{reflect.ValueOf(c.Text)})[0]; !err.IsNil() || p.Elem().Uint() != v.Uint() {
		return fmt.Sprintf("FromString(%q) gives %d", c.Text, p.Elem().Uint())
	}
	if err := p.MethodByName("FromString").Call([]reflect.Value{reflect.ValueOf(c.Text + "?")})[0]; err.IsNil() || p.Elem().Uint() != 0 {
		return fmt.Sprintf("FromString(%q) leaves %d (error %v)", c.Text+"?", p.Elem().Uint(), err)
	}
	if r := enumNew[c.Kind].Call([]reflect.Value{reflect.ValueOf(c.Text + "?")}); r[1].IsNil() || r[0].Uint() != 0 {
		return fmt.Sprintf("New%s(%q) = %v, %v", c.Kind, c.Text+"?", r[0].Uint(), r[1])
	}
	raw, err := encodeLeaf(v.Interface())
	if err != nil || unescapeXML(raw) != c.Text {
		return fmt.Sprintf("%s is written as %q (%v), not %q", c.Name, raw, err, c.Text)
	}
	// Values that are no constant: neither valid, nor printed or written as a legal name.
	for _, bad := range []uint64{0, uint64(c.N) + 1, uint64(c.N) + 2, 1000} {
		b := reflect.New(v.Type()).Elem()
		b.SetUint(bad)
		if b.MethodByName("Valid").Call(nil)[0].Bool() {
			return fmt.Sprintf("value %d of %s is reported valid", bad, c.Kind)
		}
		s := b.MethodByName("String").Call(nil)[0].String()
		if r := enumNew[c.Kind].Call([]reflect.Value{reflect.ValueOf(s)}); r[1].IsNil() {
			return fmt.Sprintf("invalid value %d of %s prints as the legal name %q", bad, c.Kind, s)
		}
		if raw, err := encodeLeaf(b.Interface()); err == nil {
			if r := enumNew[c.Kind].Call([]reflect.Value{reflect.ValueOf(unescapeXML(raw))}); r[1].IsNil() {
				return fmt.Sprintf("invalid value %d of %s is written as %q", bad, c.Kind, raw)
			}
		} else if strings.HasPrefix(err.Error(), "PANIC") {
			return err.Error()
		}
	}
	return ""
}

func uidEvent(u ofxgo.UID) map[string]interface{} {
	valid, e1 := u.Valid()
	rec, e2 := u.RecommendedFormat()
	if valid != (e1 == nil) || rec != (e2 == nil) {
		valid, rec = !valid, !rec // verdict and error disagree: shows up as a refused event
	}
	return map[string]interface{}{"op": "uid", "n": len(u), "valid": valid, "u": string(u), "rec": rec}
}

// earlier remembers some values of each kind, with what they denote.
var earlier = map[string][]struct {
	v    reflect.Value
	says string
}{}

// equalToOthers compares a value with some seen before: equal are those which denote the same.
func equalToOthers(kind string, v reflect.Value, says string) string {
	m := v.MethodByName("Equal")
	if !m.IsValid() {
		return ""
	}
	old := earlier[kind]
	for _, o := range old {
		if got := m.Call([]reflect.Value{o.v})[0].Bool(); got != (o.says == says) {
			return fmt.Sprintf("%s %q equal to %q is %v", kind, says, o.says, got)
		}
		if got := o.v.MethodByName("Equal").Call([]reflect.Value{v})[0].Bool(); got != (o.says == says) {
			return fmt.Sprintf("%s %q equal to %q is %v", kind, o.says, says, got)
		}
	}
	if len(old) > 5 {
		old = old[1:]
	}
	earlier[kind] = append(old, struct {
		v    reflect.Value
		says string
	}{v, says})
	return ""
}

// sameInstant compares a date with itself elsewhere and with its neighbours.
func sameInstant(d ofxgo.Date) string {
	for _, off := range []int{0, 3600, -34200, 45900, 60} {
		o := ofxgo.Date{Time: d.In(time.FixedZone("ELSE", off))}
		if !d.Equal(o) || !o.Equal(d) {
			return fmt.Sprintf("%v is not equal to %v", d.Time, o.Time)
		}
		for _, ms := range []int{1, -1, 1000, -60000, off * 1000} {
			n := ofxgo.Date{Time: o.Add(time.Duration(ms) * time.Millisecond)}
			if ms != 0 && (d.Equal(n) || n.Equal(d)) {
				return fmt.Sprintf("%v is equal to %v", d.Time, n.Time)
			}
		}
	}
	return ""
}

// replayLeaf decides one generated leaf behaviour against the real code.  Every
// value that was accepted is also written, reread and compared; the written
// texts go to the trace for the specification to judge.
func replayLeaf(c leafCase, trace *jsonWriter) (string, string) {
	if c.Op == "datewrite" {
		loc := time.FixedZone(c.Name, c.Off*60)
		d := ofxgo.NewDate(c.Y, time.Month(c.Mo), c.D, c.H, c.Mi, c.S, c.Ms*1000000, loc)
		raw, err := encodeLeaf(d)
		if err != nil {
			return "datewrite", "cannot write date: " + err.Error()
		}
		if trace != nil {
			trace.put(printEvent{"print", "date", c.V, unescapeXML(raw), raw})
		}
		back, err := decodeLeaf("date", raw)
		if err != nil {
			return "datewrite", fmt.Sprintf("wrote %q, rereading failed: %v", raw, err)
		}
		if s, _ := canon(back); s != c.V {
			return "datewrite", fmt.Sprintf("instant %s written as %q rereads as %s", c.V, raw, s)
		}
		if !back.Interface().(ofxgo.Date).Equal(*d) {
			return "datewrite", fmt.Sprintf("%q: reread date not Equal to the original", raw)
		}
		if why := sameInstant(*d); why != "" {
			return "datewrite", why
		}
		if c.Off == 0 && (c.Name == "GMT" || c.Name == "") {
			g := ofxgo.NewDateGMT(c.Y, time.Month(c.Mo), c.D, c.H, c.Mi, c.S, c.Ms*1000000)
			if s := canonDate(g.Time); s != c.V {
				return "datewrite", "NewDateGMT denotes " + s
			}
		}
		return "", ""
	}
	switch c.Op {
	case "enumconst":
		return "enumconst", replayEnumConst(c)
	case "amteq":
		a, err1 := decodeLeaf("amt", c.Text)
		b, err2 := decodeLeaf("amt", c.Name)
		if err1 != nil || err2 != nil {
			return "amteq", fmt.Sprintf("%q / %q: %v %v", c.Text, c.Name, err1, err2)
		}
		if got := a.Interface().(ofxgo.Amount).Equal(b.Interface().(ofxgo.Amount)); got != c.Eq {
			return "amteq", fmt.Sprintf("%q equal to %q is %v", c.Text, c.Name, got)
		}
		return "", ""
	case "uid":
		u := ofxgo.UID(c.Text)
		ev := uidEvent(u)
		if trace != nil {
			trace.put(ev)
		}
		if ev["valid"] != c.Val || ev["rec"] != c.Rec {
			return "uid", fmt.Sprintf("UID %q (%d bytes): valid %v recommended %v", c.Text, len(u), ev["valid"], ev["rec"])
		}
		if !u.Equal(ofxgo.UID(c.Text)) || u.Equal(ofxgo.UID(c.Text+"0")) {
			return "uid", fmt.Sprintf("UID %q: Equal is wrong", c.Text)
		}
		return "", ""
	}
	wire := c.Wire
	if wire == "" {
		wire = escapeXML(c.Text)
	}
	v, err := decodeLeaf(c.Kind, wire)
	if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
		return "panic", err.Error()
	}
	switch c.St {
	case "free":
		return "", ""
	case "bad":
		if err == nil {
			s, _ := canon(v)
			return "accepted", fmt.Sprintf("%s text %q must be rejected but was read as %q", c.Kind, c.Text, s)
		}
		if n, err := ofxgo.NewCurrSymbol(c.Text); c.Kind == "cur" && err == nil {
			return "accepted", fmt.Sprintf("NewCurrSymbol(%q) = %v", c.Text, n)
		}
		if _, isEnum := enumNew[c.Kind]; isEnum && v.Uint() != 0 {
			return "badvalue", fmt.Sprintf("%s text %q rejected but left value %d", c.Kind, c.Text, v.Uint())
		}
		return "", ""
	}
	if err != nil {
		return "rejected", fmt.Sprintf("%s text %q denotes %q but was rejected: %v", c.Kind, c.Text, c.V, err)
	}
	got, _ := canon(v)
	if got != c.V {
		return "value", fmt.Sprintf("%s text %q denotes %q but was read as %q", c.Kind, c.Text, c.V, got)
	}
	raw, err := encodeLeaf(v.Interface())
	if err != nil {
		return "write", fmt.Sprintf("%s value %q cannot be written: %v", c.Kind, c.V, err)
	}
	if trace != nil {
		trace.put(printEvent{"print", c.Kind, c.V, unescapeXML(raw), raw})
	}
	back, err := decodeLeaf(c.Kind, raw)
	if err != nil {
		return "reread", fmt.Sprintf("%s value %q written as %q, rereading failed: %v", c.Kind, c.V, raw, err)
	}
	if s, _ := canon(back); s != c.V {
		return "reread", fmt.Sprintf("%s value %q written as %q rereads as %q", c.Kind, c.V, raw, s)
	}
	// Equal, and pointer encoding (omitempty fields are pointers)
	if m := v.MethodByName("Equal"); m.IsValid() {
		if !m.Call([]reflect.Value{back})[0].Bool() {
			return "equal", fmt.Sprintf("%s %q: reread value not Equal", c.Kind, c.Text)
		}
	}
	if why := equalToOthers(c.Kind, v, c.V); why != "" {
		return "equal", why
	}
	if c.Kind == "date" {
		if why := sameInstant(v.Interface().(ofxgo.Date)); why != "" {
			return "equal", why
		}
	}
	if c.Kind == "cur" {
		if n, err := ofxgo.NewCurrSymbol(c.V); err != nil || !n.Equal(v.Interface().(ofxgo.CurrSymbol)) || n.String() != c.V {
			return "value", fmt.Sprintf("NewCurrSymbol(%q) = %v, %v", c.V, n, err)
		}
	}
	pv := reflect.New(v.Type())
	pv.Elem().Set(v)
	raw2, err := encodeLeaf(pv.Interface())
	if err != nil || raw2 != raw {
		return "write", fmt.Sprintf("%s value %q through a pointer is written as %q (%v), directly as %q", c.Kind, c.V, raw2, err, raw)
	}
	return "", ""
}

func init() {
	commands["leaf"] = func(args []string) error {
		// leaf CASES RESULTS TRACE
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var trace *jsonWriter
		if len(args) > 2 {
			if trace, err = newJSONWriter(args[2]); err != nil {
				return err
			}
			defer trace.close()
		}
		return eachLine(args[0], func(n int, line []byte) error {
			var c leafCase
			if err := json.Unmarshal(line, &c); err != nil {
				return err
			}
			sig, why := replayLeaf(c, trace)
			if why != "" {
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
			}
			return nil
		})
	}
	commands["record-leaf"] = func(args []string) error {
		// record-leaf KINDS SEED COUNT TRACE
		seed, _ := strconv.ParseInt(args[1], 10, 64)
		count, _ := strconv.Atoi(args[2])
		trace, err := newJSONWriter(args[3])
		if err != nil {
			return err
		}
		defer trace.close()
		rng := rand.New(rand.NewSource(seed))
		kinds := strings.Split(args[0], ",")
		for i := 0; i < count; i++ {
			k := kinds[rng.Intn(len(kinds))]
			text := randomText(rng, k)
			v, err := decodeLeaf(k, escapeXML(text))
			if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
				fmt.Fprintln(os.Stdout, "PANIC", k, strconv.Quote(text), err)
			}
			ev := map[string]interface{}{"op": "decode", "kind": k, "text": text, "ok": err == nil, "v": ""}
			if err == nil {
				s, _ := canon(v)
				ev["v"] = s
			}
			trace.put(ev)
			if err == nil {
				if raw, err := encodeLeaf(v.Interface()); err == nil {
					s, _ := canon(v)
					skip := k == "amt" && len(s) >= 90
					if dt, ok := v.Interface().(ofxgo.Date); ok {
						_, off := dt.Zone()
						skip = off >= 15*3600 || off <= -15*3600 || dt.Nanosecond()%1000000 != 0
					}
					if !skip {
						trace.put(printEvent{"print", k, s, unescapeXML(raw), raw})
					}
				} else if _, isEnum := enumNew[k]; !isEnum {
					trace.put(printEvent{"print", k, "?", "cannot write: " + err.Error(), ""})
				}
			}
		}
		return nil
	}
}

func init() {
	commands["record-uid"] = func(args []string) error {
		// record-uid COUNT TRACE: random UIDs, some made concurrently, and the digits seen at each place.
		count, _ := strconv.Atoi(args[0])
		trace, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer trace.close()
		ch := make(chan string, count)
		done := make(chan error, 8)
		for w := 0; w < 8; w++ {
			go func(n int) {
				for i := 0; i < n; i++ {
					u, err := ofxgo.RandomUID()
					if err != nil || u == nil {
						done <- fmt.Errorf("RandomUID failed: %v", err)
						return
					}
					ch <- string(*u)
				}
				done <- nil
			}(count / 8)
		}
		for w := 0; w < 8; w++ {
			if err := <-done; err != nil {
				return err
			}
		}
		close(ch)
		seen := make([]map[string]bool, 36)
		for i := range seen {
			seen[i] = map[string]bool{}
		}
		for u := range ch {
			trace.put(uidEvent(ofxgo.UID(u)))
			trace.put(map[string]interface{}{"op": "uidrandom", "u": u})
			for i := 0; i < len(u) && i < 36; i++ {
				seen[i][u[i:i+1]] = true
			}
		}
		var counts []int
		for _, m := range seen {
			counts = append(counts, len(m))
		}
		trace.put(map[string]interface{}{"op": "uidspread", "counts": counts})
		return nil
	}
}

func pick(rng *rand.Rand, ss ...string) string { return ss[rng.Intn(len(ss))] }

func digits(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + rng.Intn(10))
	}
	return string(b)
}

// randomText makes a wire text for a kind: mostly well formed, sometimes damaged.
func randomText(rng *rand.Rand, kind string) string {
	var s string
	switch kind {
	case "int":
		s = pick(rng, "", "-", "+", "") + digits(rng, 1+rng.Intn(21))
	case "amt":
		s = pick(rng, "", "-", "+") + digits(rng, rng.Intn(25)) + pick(rng, "", ".", ",") + digits(rng, rng.Intn(40))
	case "date":
		y := 1 + rng.Intn(9999)
		if rng.Intn(3) > 0 {
			y = 1900 + rng.Intn(200)
		}
		s = fmt.Sprintf("%04d%02d%02d", y, 1+rng.Intn(12), 1+rng.Intn(31))
		switch rng.Intn(5) {
		case 1:
			s += fmt.Sprintf("%02d", rng.Intn(25))
		case 2:
			s += fmt.Sprintf("%02d%02d", rng.Intn(24), rng.Intn(61))
		case 3:
			s += fmt.Sprintf("%02d%02d%02d", rng.Intn(24), rng.Intn(60), rng.Intn(60))
		case 4:
			s += fmt.Sprintf("%02d%02d%02d.%03d", rng.Intn(24), rng.Intn(60), rng.Intn(60), rng.Intn(1000))
		}
		if rng.Intn(3) > 0 {
			s += "[" + pick(rng, "", "+", "-") + strconv.Itoa(rng.Intn(15))
			if rng.Intn(2) == 0 {
				s += fmt.Sprintf(".%02d", rng.Intn(100))
			}
			if rng.Intn(2) == 0 {
				s += ":" + pick(rng, "EST", "GMT", "CEST", "PST", "UTC", "Z", "EASTERN", "AEDT", "NZDST", "WIB")
			}
			s += "]"
		}
	case "bool":
		s = pick(rng, "Y", "N", "y", "n", "YES", "NO", "", "T", "F", "0", "1", "YN", "Y N")
	case "cur":
		s = pick(rng, "USD", "EUR", "GBP", "JPY", "CHF", "ZZZ", "US", "USDX", "", "XXX", "12A", "CAD", "INR")
	case "uid", "str":
		n := rng.Intn(45)
		alphabet := []rune("abcXYZ019 -_&<>\"'\tüß€漢")
		b := make([]rune, n)
		for i := range b {
			b[i] = alphabet[rng.Intn(len(alphabet))]
		}
		s = string(b)
	default:
		var names []string
		f := enumNew[kind]
		for i := uint64(1); i < 60; i++ {
			v := reflect.New(f.Type().Out(0)).Elem()
			v.SetUint(i)
			if !v.MethodByName("Valid").Call(nil)[0].Bool() {
				break
			}
			names = append(names, v.MethodByName("String").Call(nil)[0].String())
		}
		s = pick(rng, names...)
		switch rng.Intn(6) {
		case 0:
			s = strings.ToLower(s)
		case 1:
			s = s[:len(s)-1]
		case 2:
			s = s + pick(rng, "S", " X", "0")
		}
	}
	switch rng.Intn(12) {
	case 0: // damage
		if len(s) > 0 && kind != "str" && kind != "uid" {
			i := rng.Intn(len(s))
			s = s[:i] + pick(rng, "", "x", " ", "-", ".", "9") + s[i+1:]
		}
	case 1:
		if len(s) > 0 && kind != "str" && kind != "uid" {
			i := rng.Intn(len(s))
			s = s[:i] + pick(rng, "1", "x", " ", "-", ",", "Z") + s[i:]
		}
	}
	switch rng.Intn(4) {
	case 0:
		s = pick(rng, " ", "\n", "\t ") + s + pick(rng, "", " ", "\r\n")
	}
	return s
}
