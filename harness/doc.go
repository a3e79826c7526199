package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aclindsa/ofxgo"
)

// smap is a string map that also accepts the empty JSON array (TLC's empty function).
type smap map[string]string

func (m *smap) UnmarshalJSON(b []byte) error {
	*m = smap{}
	if len(b) > 0 && b[0] == '[' {
		return nil
	}
	return json.Unmarshal(b, (*map[string]string)(m))
}

func header(ver int) string {
	if ver < 200 {
		return fmt.Sprintf("OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:%d\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n", ver)
	}
	return fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\r\n<?OFX OFXHEADER=\"200\" VERSION=\"%d\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>\r\n", ver)
}

func spellToks(toks []string) string {
	var b strings.Builder
	for _, t := range toks {
		switch t[0] {
		case '+':
			b.WriteString("<" + t[1:] + ">")
		case '-':
			b.WriteString("</" + t[1:] + ">")
		default:
			b.WriteString(t[1:])
		}
	}
	return b.String()
}

var (
	tMessage  = reflect.TypeOf((*ofxgo.Message)(nil)).Elem()
	tInvTran  = reflect.TypeOf(ofxgo.InvTran{})
	tInvPos   = reflect.TypeOf(ofxgo.InvPosition{})
	tSecInfo  = reflect.TypeOf(ofxgo.SecInfo{})
	selfNames = []string{"TransactionType", "PositionType", "OrderType", "SecurityType"}
)

// holder finds the only embedded value of type t below v.
func holder(v reflect.Value, t reflect.Type, depth int) (reflect.Value, bool) {
	if v.Type() == t {
		return v, true
	}
	if v.Kind() != reflect.Struct || depth > 3 {
		return v, false
	}
	for i := 0; i < v.NumField(); i++ {
		if r, ok := holder(v.Field(i), t, depth+1); ok {
			return r, true
		}
	}
	return v, false
}

func project(v reflect.Value, path string, out smap) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		if s, ok := canon(v.Elem()); ok {
			out[path] = s
			return
		}
		out[path+"!"] = "1"
		project(v.Elem(), path, out)
		return
	}
	if s, ok := canon(v); ok {
		if !isZeroCanon(v, s) {
			out[path] = s
		}
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			out[path+"@"] = "nil"
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		name := e.Type().Name()
		if m, ok := v.Interface().(ofxgo.Message); ok {
			name += "/" + m.Name() + "/" + m.Type().String()
		} else {
			for _, n := range selfNames {
				if f := v.Elem().MethodByName(n); f.IsValid() {
					name += "/" + f.Call(nil)[0].String()
				}
			}
			for n, t := range map[string]reflect.Type{"InvTransaction": tInvTran, "InvPosition": tInvPos, "SecurityInfo": tSecInfo} {
				if f := v.Elem().MethodByName(n); f.IsValid() {
					h, ok := holder(e, t, 0)
					a, b := smap{}, smap{}
					project(f.Call(nil)[0], "", a)
					if ok {
						project(h, "", b)
					}
					if !ok || !reflect.DeepEqual(a, b) {
						out[path+"."+n+"()"] = fmt.Sprint(a)
					}
				}
			}
		}
		out[path+"@"] = name
		project(e, path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" {
				continue
			}
			p := f.Name
			if path != "" {
				p = path + "." + f.Name
			}
			project(v.Field(i), p, out)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			out[path+"#"] = strconv.Itoa(v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			project(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	default:
		out[path] = "unprojectable " + v.Kind().String()
	}
}

var rsSlots = []string{"Signon", "Signup", "Bank", "CreditCard", "Loan", "InvStmt", "InterXfer", "WireXfer", "Billpay", "Email", "SecList", "PresDir", "PresDlv", "Prof", "Image"}

func projectResponse(r *ofxgo.Response) smap {
	out := smap{}
	v := reflect.ValueOf(r).Elem()
	for _, f := range rsSlots {
		project(v.FieldByName(f), f, out)
	}
	return out
}

func projectRequest(r *ofxgo.Request) smap {
	out := smap{}
	v := reflect.ValueOf(r).Elem()
	for _, f := range rsSlots {
		project(v.FieldByName(f), f, out)
	}
	return out
}

func diffMaps(got, want smap) (string, string) {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	first, why := "", ""
	n := 0
	for _, k := range ks {
		g, ok1 := got[k]
		w, ok2 := want[k]
		if ok1 != ok2 || g != w {
			if first == "" {
				first = k
			}
			if n < 6 {
				gs, ws := "absent", "absent"
				if ok1 {
					gs = strconv.Quote(g)
				}
				if ok2 {
					ws = strconv.Quote(w)
				}
				why += fmt.Sprintf("%s is %s, must be %s; ", k, gs, ws)
			}
			n++
		}
	}
	if n > 6 {
		why += fmt.Sprintf("(%d differences)", n)
	}
	return first, why
}

// stripIx removes list indexes, to group violations.
func stripIx(p string) string {
	var b strings.Builder
	in := false
	for _, c := range p {
		if c == '[' {
			in = true
		}
		if !in {
			b.WriteRune(c)
		}
		if c == ']' {
			in = false
		}
	}
	return b.String()
}

type decodeResult struct {
	resp *ofxgo.Response
	err  error
}

// guarded runs f, turning panics into errors and hangs into death of the harness.
func guarded(what string, f func() (*ofxgo.Response, error)) (resp *ofxgo.Response, err error) {
	ch := make(chan decodeResult, 1)
	go func() {
		var r decodeResult
		defer func() {
			if p := recover(); p != nil {
				r = decodeResult{nil, fmt.Errorf("PANIC %v", p)}
			}
			ch <- r
		}()
		r.resp, r.err = f()
	}()
	select {
	case r := <-ch:
		return r.resp, r.err
	case <-time.After(time.Duration(atomic.LoadInt64(&patience))):
		if atomic.AddInt64(&hangs, 1) > 3 {
			atomic.StoreInt64(&patience, int64(time.Second/2)) // there are more of them: do not wait that long for each
		}
		return nil, fmt.Errorf("HANG does not terminate: %s", what)
	}
}

var (
	hangs    int64
	patience = int64(20 * time.Second)
)

// dead tells whether an error stands for a panic or a hang.
func dead(err error) bool {
	return err != nil && (strings.HasPrefix(err.Error(), "PANIC") || strings.HasPrefix(err.Error(), "HANG"))
}

func decodeDoc(doc string) (*ofxgo.Response, error) {
	return guarded("DecodeResponse", func() (*ofxgo.Response, error) { return ofxgo.DecodeResponse(strings.NewReader(doc)) })
}

// chunkReader hands out a few bytes at a time.
type chunkReader struct {
	s string
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	k := 1 + c.n%5
	c.n++
	if k > len(c.s) {
		k = len(c.s)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, c.s[:k])
	c.s = c.s[k:]
	return k, nil
}

type docCase struct {
	Op    string   `json:"op"`
	ID    string   `json:"id"`
	Ver   int      `json:"ver"`
	Toks  []string `json:"toks"`
	St    string   `json:"st"`
	Proj  smap     `json:"proj"`
	Fault string   `json:"fault"`
	Bad   int      `json:"bad"`
}

// The mark ~long~ stands for a long text. Its length differs with the number of its occurrence in the document.
const longMark = "~long~"

var longRep = strings.Repeat("All work & no play makes <a> dull document; ", 40000)

func longText(n int, escaped bool) string {
	t := strings.TrimSpace(longRep[:[]int{3000, 70000, 1100, 140000, 4096, 600000}[n%6]+n])
	if escaped {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "&", "&amp;"), "<", "&lt;")
	}
	return t
}

// lengthen puts long texts in place of their marks. The number before the mark tells them apart.
func lengthen(c *docCase) {
	sub := func(s string, escaped bool) string {
		i := strings.Index(s, longMark)
		if i < 0 {
			return s
		}
		n := 0
		for _, r := range s[:i] {
			if r >= '0' && r <= '9' {
				n = (n*10 + int(r-'0')) % 60000
			}
		}
		return s[:i] + longText(n, escaped) + s[i+len(longMark):]
	}
	for i, t := range c.Toks {
		c.Toks[i] = sub(t, true)
	}
	for k, v := range c.Proj {
		c.Proj[k] = sub(v, false)
	}
}

func versionOf(r *ofxgo.Response) int {
	n, _ := strconv.Atoi(r.Version.String())
	return n
}

func replayDoc(c *docCase, trunc int) (string, string) {
	lengthen(c)
	doc := header(c.Ver) + spellToks(c.Toks)
	resp, err := decodeDoc(doc)
	if dead(err) {
		return "panic", fmt.Sprintf("%v on %q", err, doc)
	}
	if err != nil && resp != nil {
		return "errresp", fmt.Sprintf("DecodeResponse returns a response together with %v", err)
	}
	if err == nil && resp == nil {
		return "nilresp", "DecodeResponse returns neither response nor error"
	}
	switch c.St {
	case "free":
		return "", ""
	case "err":
		p, perr := guarded("ParseResponse", func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) })
		if dead(perr) {
			return "panic", fmt.Sprintf("%v on %q", perr, doc)
		}
		if p != nil || perr == nil {
			return "accepted:" + c.Fault, fmt.Sprintf("document must be rejected (%s) but ParseResponse gives a response: %q", c.Fault, clip(doc))
		}
		if err == nil {
			return "accepted:" + c.Fault, fmt.Sprintf("document must be rejected (%s) but was decoded: %q", c.Fault, clip(doc))
		}
		return "", ""
	}
	if err != nil {
		return "rejected:" + c.Fault, fmt.Sprintf("document %s must decode but: %v; %q", c.ID, err, clip(doc))
	}
	if v := versionOf(resp); v != c.Ver {
		return "version", fmt.Sprintf("version %d read as %d", c.Ver, v)
	}
	got := projectResponse(resp)
	if k, why := diffMaps(got, c.Proj); why != "" {
		return "proj:" + stripIx(k), fmt.Sprintf("%s in %q", why, clip(doc))
	}
	// The same through a reader that delivers a few bytes at a time.
	resp2, err := guarded("DecodeResponse", func() (*ofxgo.Response, error) { return ofxgo.DecodeResponse(&chunkReader{s: doc}) })
	if err != nil {
		return "chunked", fmt.Sprintf("delivered in small pieces the document is rejected: %v", err)
	}
	if _, why := diffMaps(projectResponse(resp2), c.Proj); why != "" {
		return "chunked", "delivered in small pieces: " + why
	}
	if trunc > 0 && c.Fault == "" {
		end := strings.LastIndex(doc, "</OFX")
		for i := 0; i < end+len("</OFX"); i += trunc {
			r, err := decodeDoc(doc[:i])
			if err == nil || r != nil {
				return "truncated", fmt.Sprintf("document cut after byte %d is accepted: %q", i, clip(doc[:i]))
			}
			if dead(err) {
				return "panic", fmt.Sprintf("%v on %q", err, clip(doc[:i]))
			}
		}
	}
	return "", ""
}

func clip(s string) string {
	if i := strings.Index(s, "<OFX"); i > 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

// replayRound: a decoded, valid response survives Marshal and Parse.
func replayRound(c *docCase, stats map[string]int) (string, string) {
	lengthen(c)
	doc := header(c.Ver) + spellToks(c.Toks)
	resp, err := decodeDoc(doc)
	if err != nil {
		if c.St == "ok" {
			return "decode", fmt.Sprintf("cannot decode %q: %v", clip(doc), err)
		}
		return "", ""
	}
	if ok, err := resp.Valid(); !ok {
		stats["invalid"]++
		if b, err2 := resp.Marshal(); err2 == nil {
			return "invalidmarshalled", fmt.Sprintf("invalid response (%v) marshals: %q", err, clip(b.String()))
		}
		return "", ""
	}
	stats["valid"]++
	want := projectResponse(resp)
	if sig, why := roundTrips(resp, want, doc); why != "" {
		return sig, why
	}
	// the same response made by hand: nothing but its fields is set
	made := &ofxgo.Response{}
	if err := buildInto(made, want); err != nil {
		return "build", fmt.Sprintf("%v; %q", err, clip(doc))
	}
	made.Version = resp.Version
	if k, why := diffMaps(projectResponse(made), want); why != "" {
		return "made:" + stripIx(k), fmt.Sprintf("made by hand %s; %q", why, clip(doc))
	}
	if sig, why := roundTrips(made, want, doc); why != "" {
		return "made " + sig, "made by hand: " + why
	}
	return "", ""
}

// roundTrips: a valid response survives Marshal and Parse, twice.
func roundTrips(cur *ofxgo.Response, want smap, doc string) (string, string) {
	first := ""
	for round := 0; round < 2; round++ {
		var b *bytes.Buffer
		_, err := guarded("Marshal", func() (*ofxgo.Response, error) {
			var err error
			b, err = cur.Marshal()
			return nil, err
		})
		if err != nil {
			return "marshal", fmt.Sprintf("valid response does not marshal: %v; %q", err, clip(doc))
		}
		text := b.String()
		if round == 0 {
			first = text
		} else if text != first {
			return "unstable", fmt.Sprintf("marshalling the reread response gives other bytes: %q then %q", clip(first), clip(text))
		}
		if k, why := diffMaps(projectResponse(cur), want); why != "" {
			return "marshalchanges:" + stripIx(k), "marshalling changed the response: " + why
		}
		next, err := guarded("ParseResponse", func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(text)) })
		if err != nil {
			return "reparse", fmt.Sprintf("marshalled response does not parse: %v; %q", err, clip(text))
		}
		if next.Version != cur.Version {
			return "version", fmt.Sprintf("version %s became %s", cur.Version, next.Version)
		}
		if k, why := diffMaps(projectResponse(next), want); why != "" {
			return "rt:" + stripIx(k), fmt.Sprintf("after Marshal and Parse %s; text %q", why, clip(text))
		}
		cur = next
	}
	return "", ""
}

func init() {
	commands["doc"] = func(args []string) error {
		// doc CASES RESULTS TRUNCSTEP
		trunc, _ := strconv.Atoi(args[2])
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		type job struct {
			n    int
			line []byte
		}
		jobs := make(chan job, 64)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var failed error
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range jobs {
					var c docCase
					if err := json.Unmarshal(j.line, &c); err != nil {
						mu.Lock()
						failed = err
						mu.Unlock()
						continue
					}
					if sig, why := replayDoc(&c, trunc); why != "" {
						mu.Lock()
						out.put(result{ID: j.n, OK: false, Sig: sig, Why: why})
						mu.Unlock()
					}
				}
			}()
		}
		err = eachLine(args[0], func(n int, line []byte) error {
			jobs <- job{n, append([]byte(nil), line...)}
			return nil
		})
		close(jobs)
		wg.Wait()
		if err == nil {
			err = failed
		}
		return err
	}
	commands["round"] = func(args []string) error {
		// round CASES RESULTS
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		stats := map[string]int{}
		err = eachLine(args[0], func(n int, line []byte) error {
			var c docCase
			if err := json.Unmarshal(line, &c); err != nil {
				return err
			}
			if sig, why := replayRound(&c, stats); why != "" {
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
			}
			return nil
		})
		json.NewEncoder(os.Stdout).Encode(stats)
		return err
	}
}
