package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/aclindsa/ofxgo"
)

type edit struct {
	At  string `json:"at"`
	Put smap   `json:"put"`
}

type verdict struct {
	Ver  int    `json:"v"`
	Son  bool   `json:"son"`
	Oks  string `json:"oks"` // one digit per message, in the order of the slots
	Gate bool   `json:"gate"`
	Bad  int    `json:"bad"`
}

type validCase struct {
	Op    string    `json:"op"`
	Base  string    `json:"base"`
	Side  string    `json:"side"`
	Map   smap      `json:"map"`
	Edits []edit    `json:"edits"`
	Vers  []verdict `json:"vers"`
}

func below(k, at string) bool {
	if at == "" || !strings.HasPrefix(k, at) {
		return at == ""
	}
	if len(k) == len(at) {
		return true
	}
	switch k[len(at)] {
	case '.', '[', '!', '#', '@':
		return true
	}
	return false
}

func applyEdits(base smap, edits []edit) smap {
	m := smap{}
	for k, v := range base {
		m[k] = v
	}
	for _, e := range edits {
		for k := range m {
			if below(k, e.At) {
				delete(m, k)
			}
		}
		for k, v := range e.Put {
			m[k] = v
		}
	}
	return m
}

// object is a Request or a Response.
type object interface {
	Marshal() (*bytes.Buffer, error)
}

func newObject(side string) object {
	if side == "rq" {
		return &ofxgo.Request{}
	}
	return &ofxgo.Response{}
}

func projectObject(o object) smap {
	if r, ok := o.(*ofxgo.Request); ok {
		return projectRequest(r)
	}
	return projectResponse(o.(*ofxgo.Response))
}

func marshalObject(o object) (b *bytes.Buffer, err error) {
	_, e := guarded("Marshal", func() (*ofxgo.Response, error) {
		b, err = o.Marshal()
		return nil, nil
	})
	if e != nil {
		return nil, e
	}
	return b, err
}

func callValid(v reflect.Value, args ...reflect.Value) (ok bool, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("PANIC %v", p)
		}
	}()
	out := v.MethodByName("Valid").Call(args)
	ok = out[0].Bool()
	if !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	return
}

// parts is the number of single errors an error of ParseResponse or Response.Valid reports.
func parts(err error) int {
	if err == nil {
		return 0
	}
	v := reflect.ValueOf(err)
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() == reflect.Slice {
		return v.Len()
	}
	if u, ok := err.(interface{ Unwrap() []error }); ok {
		return len(u.Unwrap())
	}
	return 1
}

func replayValid(c *validCase, base smap, side string) (string, string) {
	m := applyEdits(base, c.Edits)
	what := fmt.Sprintf("%s object %s with %s", side, c.Base, showEdits(c.Edits))
	o := newObject(side)
	if err := buildInto(o, m); err != nil {
		return "build", what + ": " + err.Error()
	}
	if k, why := diffMaps(projectObject(o), m); why != "" && !strings.Contains(fmt.Sprint(m), ":#") && !hasRawEnum(m) {
		return "build:" + stripIx(k), what + ": building gives another object: " + why
	}
	ov := reflect.ValueOf(o).Elem()
	for _, w := range c.Vers {
		if w.Ver < 100 {
			setVersion(o, uint64(w.Ver))
		} else {
			setVersion(o, rawVersion(w.Ver))
		}
		at := fmt.Sprintf("%s in version %d", what, w.Ver)
		if w.Ver >= 100 {
			ver := ov.FieldByName("Version")
			ok, err := callValid(ov.FieldByName("Signon").Addr(), ver)
			if ok != w.Son || ok != (err == nil) {
				return verdictSig("signon", ok, err), fmt.Sprintf("%s: Signon.Valid gives %v, %v but must give %v", at, ok, err, w.Son)
			}
			if side == "rq" && ok && o.(*ofxgo.Request).Signon.Language == "" {
				return "language", at + ": the empty language is not filled in"
			}
			k := 0
			for _, slot := range rsSlots[1:] {
				l := ov.FieldByName(slot)
				for i := 0; i < l.Len(); i++ {
					want := w.Oks[k] == '1'
					k++
					ok, err := callValid(l.Index(i).Elem(), ver)
					if ok != want || ok != (err == nil) {
						return verdictSig("message", ok, err), fmt.Sprintf("%s: %s[%d].Valid gives %v, %v but must give %v", at, slot, i, ok, err, want)
					}
					if p, isP := l.Index(i).Interface().(*ofxgo.ProfileRequest); isP && ok && p.ClientRouting != "NONE" {
						return "routing", at + ": the profile request asks for routing " + string(p.ClientRouting)
					}
				}
			}
			if r, isR := o.(*ofxgo.Response); isR {
				ok, err := callValid(reflect.ValueOf(r))
				if ok != (w.Bad == 0) || parts(err) != w.Bad {
					return verdictSig("response", ok, err), fmt.Sprintf("%s: Response.Valid gives %v and %d errors (%v) but there are %d invalid parts", at, ok, parts(err), err, w.Bad)
				}
			}
		}
		b, err := marshalObject(o)
		if dead(err) {
			return "panic", at + ": " + err.Error()
		}
		if (err == nil) != w.Gate {
			text := ""
			if b != nil {
				text = clip(b.String())
			}
			return "gate", fmt.Sprintf("%s: Marshal gives error %v but must succeed: %v; %q", at, err, w.Gate, text)
		}
		if err != nil && b != nil {
			return "gatedoc", at + ": Marshal returns a document together with an error"
		}
		if err == nil && !strings.Contains(b.String(), "</OFX>") {
			return "gatedoc", at + ": Marshal returns no document"
		}
		after := projectObject(o)
		for k, v := range after {
			if old, had := m[k]; had && old == v || hasRawEnum(m) {
				continue
			} else if side == "rq" && (k == "Signon.Language" && !had && v == "ENG" || strings.HasSuffix(k, ".ClientRouting") && v == "NONE") {
				continue
			}
			return "altered", fmt.Sprintf("%s: after validating and marshalling %s is %q", at, k, v)
		}
		if len(after) < len(m) && !hasRawEnum(m) {
			return "altered", at + ": validating and marshalling loses fields"
		}
	}
	return "", ""
}

// morph gives the messages of a the content of those of b, in place; false when the two are not alike.
func morph(a, b object) bool {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for _, slot := range rsSlots[1:] {
		x, y := va.FieldByName(slot), vb.FieldByName(slot)
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if x.Index(i).Elem().Type() != y.Index(i).Elem().Type() {
				return false
			}
		}
	}
	va.FieldByName("Signon").Set(vb.FieldByName("Signon"))
	for _, slot := range rsSlots[1:] {
		x, y := va.FieldByName(slot), vb.FieldByName(slot)
		for i := 0; i < x.Len(); i++ {
			x.Index(i).Elem().Elem().Set(y.Index(i).Elem().Elem())
		}
	}
	return true
}

// replayMorph makes the changes to an object that has been marshalled before, and takes them back again:
// the verdict is that of the object as it is now.
func replayMorph(c *validCase, base smap, side string, baseVers []verdict) (string, string) {
	if len(c.Edits) == 0 {
		return "", ""
	}
	for i, w := range c.Vers {
		if w.Gate || w.Ver < 100 || i >= len(baseVers) || baseVers[i].Ver != w.Ver || !baseVers[i].Gate {
			continue
		}
		what := fmt.Sprintf("%s object %s in version %d with %s", side, c.Base, w.Ver, showEdits(c.Edits))
		o, edited, mended := newObject(side), newObject(side), newObject(side)
		for _, x := range []struct {
			o object
			m smap
		}{{o, base}, {edited, applyEdits(base, c.Edits)}, {mended, base}} {
			if err := buildInto(x.o, x.m); err != nil {
				return "build", what + ": " + err.Error()
			}
		}
		setVersion(o, rawVersion(w.Ver))
		b1, err := marshalObject(o)
		if err != nil {
			return "gate", what + ": before the changes Marshal gives error " + err.Error()
		}
		first := b1.String()
		if !morph(o, edited) {
			return "", ""
		}
		if b, err := marshalObject(o); dead(err) {
			return "panic", what + ": " + err.Error()
		} else if err == nil {
			return "gate", fmt.Sprintf("%s made after a first Marshal: Marshal gives no error: %q", what, clip(b.String()))
		}
		morph(o, mended)
		if b, err := marshalObject(o); err != nil {
			return "gate", what + " made and taken back: Marshal gives error " + err.Error()
		} else if b.String() != first {
			return "gate", fmt.Sprintf("%s made and taken back: Marshal gives %q, gave %q before", what, clip(b.String()), clip(first))
		}
		return "", ""
	}
	return "", ""
}

func verdictSig(part string, ok bool, err error) string {
	if dead(err) {
		return "panic"
	}
	if ok {
		return part + ":accepted"
	}
	return part + ":rejected"
}

func hasRawEnum(m smap) bool {
	for _, v := range m {
		if strings.HasPrefix(v, "#") {
			return true
		}
	}
	return false
}

func showEdits(es []edit) string {
	s := ""
	for _, e := range es {
		s += "[" + e.At
		if len(e.Put) == 0 {
			s += " unset"
		}
		for k, v := range e.Put {
			s += " " + k + "=" + strconv.Quote(v)
		}
		s += "]"
	}
	if s == "" {
		return "no change"
	}
	return s
}

// inParallel decodes every line of a file into a fresh T and calls f, eight at a time.
func inParallel(path string, newT func() interface{}, f func(n int, c interface{})) error {
	type job struct {
		n    int
		line []byte
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed error
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				c := newT()
				if err := json.Unmarshal(j.line, c); err != nil {
					mu.Lock()
					failed = fmt.Errorf("line %d: %v", j.n, err)
					mu.Unlock()
					continue
				}
				f(j.n, c)
			}
		}()
	}
	err := eachLine(path, func(n int, line []byte) error {
		jobs <- job{n, append([]byte(nil), line...)}
		return nil
	})
	close(jobs)
	wg.Wait()
	if err == nil {
		err = failed
	}
	return err
}

func init() {
	commands["valid"] = func(args []string) error {
		// valid CASES RESULTS
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		bases, unchanged := map[string]*validCase{}, map[string][]verdict{}
		var mu sync.Mutex
		if err := inParallel(args[0], func() interface{} { return &validCase{} }, func(n int, x interface{}) {
			c := x.(*validCase)
			mu.Lock()
			if c.Op == "base" {
				bases[c.Base] = c
			} else if c.Op == "valid" && len(c.Edits) == 0 {
				unchanged[c.Base] = c.Vers
			}
			mu.Unlock()
		}); err != nil {
			return err
		}
		for k, b := range bases {
			b.Vers = unchanged[k]
		}
		return inParallel(args[0], func() interface{} { return &validCase{} }, func(n int, x interface{}) {
			c := x.(*validCase)
			if c.Op != "valid" {
				return
			}
			b := bases[c.Base]
			sig, why := replayValid(c, b.Map, b.Side)
			if why == "" {
				sig, why = replayMorph(c, b.Map, b.Side, b.Vers)
			}
			if why != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
				mu.Unlock()
			}
		})
	}
}

type statusCase struct {
	Code    string   `json:"code"`
	Sevs    []string `json:"sevs"`
	Oks     []bool   `json:"oks"`
	Known   bool     `json:"known"`
	Meaning string   `json:"meaning"`
}

func replayStatus(c *statusCase) (sig, why string) {
	defer func() {
		if p := recover(); p != nil {
			sig, why = "panic", fmt.Sprintf("status %s: PANIC %v", c.Code, p)
		}
	}()
	n, err := strconv.ParseInt(c.Code, 10, 64)
	if err != nil {
		return "case", err.Error()
	}
	for i, sev := range c.Sevs {
		s := ofxgo.Status{Code: ofxgo.Int(n), Severity: ofxgo.String(sev), Message: ofxgo.String(c.Meaning)}
		ok, err := s.Valid()
		if ok != c.Oks[i] || ok != (err == nil) {
			return verdictSig("status", ok, err), fmt.Sprintf("status %s with severity %q: Valid gives %v, %v but must give %v", c.Code, sev, ok, err, c.Oks[i])
		}
		m, err := s.CodeMeaning()
		if (err == nil) != c.Known || m != c.Meaning {
			return "meaning", fmt.Sprintf("status %s: CodeMeaning gives %q, %v but must give %q", c.Code, m, err, c.Meaning)
		}
		d, err := s.CodeConditions()
		if (err == nil) != c.Known || !c.Known && d != "" {
			return "conditions", fmt.Sprintf("status %s: CodeConditions gives %q, %v", c.Code, d, err)
		}
	}
	return "", ""
}

func init() {
	commands["status"] = func(args []string) error {
		// status CASES RESULTS
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var mu sync.Mutex
		return inParallel(args[0], func() interface{} { return &statusCase{} }, func(n int, x interface{}) {
			if sig, why := replayStatus(x.(*statusCase)); why != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
				mu.Unlock()
			}
		})
	}
}

// replayParse: ParseResponse gives the whole response and one error per invalid part; DecodeResponse does not judge.
func replayParse(c *docCase) (string, string) {
	doc := header(c.Ver) + spellToks(c.Toks)
	resp, err := decodeDoc(doc)
	if err != nil || resp == nil {
		return "decode", fmt.Sprintf("DecodeResponse judges a well-formed document with %d invalid parts: %v; %q", c.Bad, err, clip(doc))
	}
	if k, why := diffMaps(projectResponse(resp), c.Proj); why != "" {
		return "decode:" + stripIx(k), fmt.Sprintf("DecodeResponse: %s in %q", why, clip(doc))
	}
	resp, err = guarded("ParseResponse", func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) })
	if dead(err) {
		return "panic", fmt.Sprintf("%v on %q", err, clip(doc))
	}
	if resp == nil {
		return "nodata", fmt.Sprintf("ParseResponse keeps the data of a document with %d invalid parts back (%v): %q", c.Bad, err, clip(doc))
	}
	if n := parts(err); n != c.Bad {
		return "errors", fmt.Sprintf("ParseResponse reports %d errors but there are %d invalid parts: %v; %q", n, c.Bad, err, clip(doc))
	}
	if v := versionOf(resp); v != c.Ver {
		return "version", fmt.Sprintf("version %d read as %d", c.Ver, v)
	}
	if k, why := diffMaps(projectResponse(resp), c.Proj); why != "" {
		return "proj:" + stripIx(k), fmt.Sprintf("ParseResponse: %s in %q", why, clip(doc))
	}
	if err != nil {
		// The text names every part.
		v := reflect.ValueOf(err)
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() == reflect.Slice {
			at := 0
			for i := 0; i < v.Len(); i++ {
				e, ok := v.Index(i).Interface().(error)
				if !ok || e == nil {
					return "nilpart", "an entry of the list of errors is no error"
				}
				k := strings.Index(err.Error()[at:], e.Error())
				if k < 0 {
					return "text", fmt.Sprintf("the text %q does not tell of %q", err.Error(), e.Error())
				}
				at += k + len(e.Error())
			}
		}
	}
	again, err2 := callValid(reflect.ValueOf(resp))
	if again != (c.Bad == 0) || parts(err2) != c.Bad {
		return "again", fmt.Sprintf("Response.Valid gives %v, %v but there are %d invalid parts", again, err2, c.Bad)
	}
	return "", ""
}

func init() {
	commands["parse"] = func(args []string) error {
		// parse CASES RESULTS
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var mu sync.Mutex
		return inParallel(args[0], func() interface{} { return &docCase{} }, func(n int, x interface{}) {
			if sig, why := replayParse(x.(*docCase)); why != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
				mu.Unlock()
			}
		})
	}
}
