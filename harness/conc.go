package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

type concOp struct {
	Op     string      `json:"op"`
	I      int         `json:"i"`
	K      string      `json:"k"`
	Ver    int         `json:"ver"`
	Toks   []string    `json:"toks"`
	Side   string      `json:"side"`
	Layout int         `json:"layout"`
	Damage string      `json:"damage"`
	Kind   string      `json:"kind"`
	Map    smap        `json:"map"`
	Leaves [][2]string `json:"leaves"`
	Prog   []int       `json:"prog"`
	Order  []int       `json:"order"`
}

// job is one execution of an operation: run does it (calling gate between steps), finish tells what came of it.
type job struct {
	run    func(gate func())
	finish func() string
}

// gatedMsg is a message that lets others run while it is being marshalled.
type gatedMsg[V any] struct {
	ofxgo.Message
	valid func(V) (bool, error)
	gate  func()
}

func gated[V any](m ofxgo.Message, valid func(V) (bool, error), gate func()) ofxgo.Message {
	return interface{}(gatedMsg[V]{m, valid, gate}).(ofxgo.Message)
}

func (g gatedMsg[V]) Valid(v V) (bool, error) {
	g.gate()
	return g.valid(v)
}

func (g gatedMsg[V]) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	g.gate()
	return e.Encode(g.Message)
}

// gateReader lets others run before it gives out the parts of a document.
type gateReader struct {
	parts []string
	gate  func()
}

func (g *gateReader) Read(p []byte) (int, error) {
	for len(g.parts) > 0 && g.parts[0] == "" {
		g.parts = g.parts[1:]
		if len(g.parts) > 0 {
			g.gate()
		}
	}
	if len(g.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(p, g.parts[0])
	g.parts[0] = g.parts[0][n:]
	return n, nil
}

func digest(m smap) string {
	b, _ := json.Marshal(m)
	return hashOf(b)
}

func errText(err error) string {
	s := err.Error()
	if len(s) > 300 {
		s = s[:300]
	}
	return plain(s)
}

// plain keeps texts to characters TLC can carry.
func plain(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			return '.'
		}
		return r
	}, s)
}

func respText(r *ofxgo.Response, err error) string {
	if err != nil {
		return "error " + errText(err)
	}
	return fmt.Sprintf("version %s content %s", r.Version.String(), digest(projectResponse(r)))
}

// concWorld is what the operations of a process need.
type concWorld struct {
	ops   map[int]*concOp
	w     *stage
	mu    sync.Mutex
	calls map[string]*concCall // by path
	n     int
	uids  map[ofxgo.UID]bool
	twice string
}

type concCall struct {
	op   *concOp
	gate func()
	got  []string
}

var dtclient = regexp.MustCompile(`<DTCLIENT>[^<\r\n]*`)

func (cw *concWorld) play(w *stage, s *seen) *answer {
	cw.mu.Lock()
	defer cw.mu.Unlock()
	c := cw.calls[s.Target]
	if c == nil {
		return &answer{status: 404, frame: "cl"}
	}
	cookie, _ := s.header("Cookie")
	// which call it was is no part of the result
	cookie = strings.ReplaceAll(cookie, strings.TrimPrefix(s.Target, "/ofx/"), "N")
	c.got = append(c.got, fmt.Sprintf("%s cookies %s document %s", s.Method, plain(cookie), hashOf(dtclient.ReplaceAll(s.Body, []byte("<DTCLIENT>")))))
	a := &answer{status: 200, frame: "cl", body: clBody("good", c.op.I), hold: func(int) { c.gate() }}
	if c.op.Kind == "vanguard" && len(c.got) == 1 {
		n := strings.TrimPrefix(s.Target, "/ofx/")
		a = &answer{status: 200, frame: "cl", header: []string{"Set-Cookie: session=s" + n + "; Path=/", "Set-Cookie: lb=l" + n}, hold: a.hold}
	}
	return a
}

func (cw *concWorld) object(op *concOp, gate func()) (object, error) {
	o := newObject(op.Side)
	if err := buildInto(o, op.Map); err != nil {
		return nil, err
	}
	histLayout(o, op.Ver, op.Layout%2 == 1, op.Layout/2 == 1)
	if gate != nil {
		v := reflect.ValueOf(o).Elem()
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.Type() == reflect.SliceOf(tMessage) && f.CanSet() {
				for j := 0; j < f.Len(); j++ {
					m := f.Index(j).Interface().(ofxgo.Message)
					f.Index(j).Set(reflect.ValueOf(gated(m, m.Valid, gate)))
				}
			}
		}
	}
	return o, nil
}

// prepare makes an execution of an operation; gate is nil if nobody waits for turns.
func (cw *concWorld) prepare(i int, gate func()) (*job, error) {
	op := cw.ops[i]
	if op == nil {
		return nil, fmt.Errorf("no operation %d", i)
	}
	yield := gate
	if yield == nil {
		yield = func() {}
	}
	var res string
	j := &job{finish: func() string { return res }}
	switch op.K {
	case "parse":
		body := spellToks(op.Toks)
		h := header(op.Ver)
		parts := []string{h[:30], h[30:] + body[:len(body)/4], body[len(body)/4 : len(body)/2], body[len(body)/2:]}
		var r *ofxgo.Response
		var err error
		j.run = func(func()) {
			r, err = ofxgo.DecodeResponse(&gateReader{parts, yield})
		}
		j.finish = func() string { return respText(r, err) }
	case "marshal":
		o, err := cw.object(op, gate)
		if err != nil {
			return nil, err
		}
		var b *bytes.Buffer
		j.run = func(func()) { b, err = o.Marshal() }
		j.finish = func() string {
			if err != nil {
				return "error " + errText(err)
			}
			return "document " + hashOf(b.Bytes())
		}
	case "valid":
		o, err := cw.object(op, gate)
		if err != nil {
			return nil, err
		}
		var say []string
		j.run = func(func()) {
			say = nil
			v := reflect.ValueOf(o).Elem()
			if r, isR := o.(*ofxgo.Response); isR {
				ok, err := r.Valid()
				say = append(say, fmt.Sprint(ok, err))
				return
			}
			ver := v.FieldByName("Version")
			ok, err := callValid(v.FieldByName("Signon").Addr(), ver)
			say = append(say, fmt.Sprint(ok, err))
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.Type() == reflect.SliceOf(tMessage) {
					for k := 0; k < f.Len(); k++ {
						ok, err := callValid(f.Index(k), ver)
						say = append(say, fmt.Sprint(ok, err))
					}
				}
			}
		}
		j.finish = func() string { return plain(strings.Join(say, "; ")) }
	case "send":
		o, err := cw.object(op, nil)
		if err != nil {
			return nil, err
		}
		req := o.(*ofxgo.Request)
		cw.mu.Lock()
		cw.n++
		path := fmt.Sprintf("/ofx/%d", 10000+cw.n)
		c := &concCall{op: op, gate: yield}
		cw.calls[path] = c
		cw.mu.Unlock()
		req.URL = "https://" + cw.w.sites["main"].host() + path
		bc := &ofxgo.BasicClient{AppID: fmt.Sprintf("A%d", op.I), AppVer: fmt.Sprint(op.I), NoIndent: op.Layout%2 == 0, CarriageReturn: op.Layout/2 == 1, UserAgent: "agent"}
		specVersion(bc, op.Ver)
		var r *ofxgo.Response
		j.run = func(func()) { r, err = clMake(op.Kind, bc).Request(req) }
		j.finish = func() string {
			cw.mu.Lock()
			defer cw.mu.Unlock()
			delete(cw.calls, path)
			text := respText(r, err)
			if err != nil {
				text = strings.ReplaceAll(text, cw.w.sites["main"].host()+path, "URL")
			}
			return strings.Join(c.got, "; ") + " gives " + text
		}
	case "select":
		urls := []string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://example.com/ofx", "https://vesnc.vanguard.com/us/OfxProfileServlet", ""}
		var say []string
		j.run = func(func()) {
			say = nil
			for k, u := range urls {
				bc := &ofxgo.BasicClient{AppID: fmt.Sprint("ID", k), AppVer: fmt.Sprint(k), NoIndent: k%2 == 0, CarriageReturn: k > 2}
				c := ofxgo.GetClient(u, bc)
				say = append(say, fmt.Sprintf("%T %s %s %s %v %v", c, c.ID(), c.Version(), c.OfxVersion().String(), c.IndentRequests(), c.CarriageReturnNewLines()))
				yield()
			}
		}
		j.finish = func() string { return plain(strings.Join(say, "; ")) }
	case "leafs":
		var say []string
		j.run = func(func()) {
			say = nil
			for _, l := range op.Leaves {
				v, err := decodeLeaf(l[0], l[1])
				if err != nil {
					say = append(say, "error "+err.Error())
					continue
				}
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				s, err := encodeLeaf(p.Interface())
				say = append(say, s, fmt.Sprint(err))
			}
			var names []string
			for n := range enumNew {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				out := enumNew[n].Call([]reflect.Value{reflect.ValueOf("other")})
				say = append(say, fmt.Sprint(out[0].Interface(), out[1].IsNil()))
			}
		}
		j.finish = func() string {
			return plain(hashOf([]byte(strings.Join(say, ";"))) + " " + clip(strings.Join(say, ";")))
		}
	case "status":
		var say []string
		j.run = func(func()) {
			say = nil
			for _, code := range []int{0, 1, 2, 2000, 2001, 2003, 2021, 2028, 6500, 10000, 13000, 15500, 15501, 16512, 99, -1} {
				s := ofxgo.Status{Code: ofxgo.Int(code), Severity: "ERROR"}
				ok, err := s.Valid()
				m, err2 := s.CodeMeaning()
				d, err3 := s.CodeConditions()
				say = append(say, fmt.Sprint(ok, err, m, err2, d, err3))
			}
		}
		j.finish = func() string { return hashOf([]byte(strings.Join(say, ";"))) }
	case "uid":
		var got []ofxgo.UID
		var err error
		j.run = func(func()) {
			got = nil
			for k := 0; k < 20 && err == nil; k++ {
				var u *ofxgo.UID
				if u, err = ofxgo.RandomUID(); err == nil {
					got = append(got, *u)
				}
			}
		}
		j.finish = func() string {
			cw.mu.Lock()
			defer cw.mu.Unlock()
			for _, u := range got {
				if cw.uids[u] {
					cw.twice = string(u)
				}
				cw.uids[u] = true
				if len(u) != 36 {
					return "odd identifier " + plain(string(u))
				}
			}
			return fmt.Sprintf("%d identifiers, error %v", len(got), err)
		}
	default:
		return nil, errors.New("unknown operation " + op.K)
	}
	run := j.run
	j.run = func(gate func()) {
		defer func() {
			if p := recover(); p != nil {
				res = plain(fmt.Sprintf("panic %v", p))
				j.finish = func() string { return res }
			}
		}()
		run(gate)
	}
	return j, nil
}

func newConcWorld(path, certs string) (*concWorld, error) {
	cw := &concWorld{ops: map[int]*concOp{}, calls: map[string]*concCall{}, uids: map[ofxgo.UID]bool{}}
	if err := eachLine(path, func(n int, line []byte) error {
		if !bytes.Contains(line, []byte(`"op": "op"`)) {
			return nil
		}
		c := &concOp{}
		if err := json.Unmarshal(line, c); err != nil {
			return err
		}
		cw.ops[c.I] = c
		return nil
	}); err != nil {
		return nil, err
	}
	if os.Getenv("SSL_CERT_FILE") != filepath.Join(certs, "ca.pem") {
		return nil, errors.New("SSL_CERT_FILE is not set")
	}
	var err error
	cw.w, err = newStage(certs)
	if err != nil {
		return nil, err
	}
	cw.w.limit = 1 << 30
	cw.w.reset(cw.play)
	return cw, nil
}

type concEvent struct {
	Op  string `json:"op"`
	I   int    `json:"i"`
	Res string `json:"res"`
	At  string `json:"at"`
}

// free runs the operations of prog at the same time, n times each, twice over.
func (cw *concWorld) free(prog []int, n int) ([]concEvent, error) {
	seats := append(append([]int(nil), prog...), prog...)
	jobs := make([][]*job, len(seats))
	for s, i := range seats {
		for k := 0; k < n; k++ {
			j, err := cw.prepare(i, nil)
			if err != nil {
				return nil, err
			}
			jobs[s] = append(jobs[s], j)
		}
	}
	start := make(chan bool)
	var ready, done sync.WaitGroup
	for s := range seats {
		ready.Add(1)
		done.Add(1)
		go func(js []*job) {
			defer done.Done()
			ready.Done()
			<-start
			for _, j := range js {
				j.run(nil)
			}
		}(jobs[s])
	}
	ready.Wait()
	close(start)
	finished := make(chan bool)
	go func() { done.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(120 * time.Second):
		return []concEvent{{"stuck", 0, "operations do not end", ""}}, nil
	}
	seen := map[concEvent]bool{}
	var out []concEvent
	for s, i := range seats {
		for _, j := range jobs[s] {
			e := concEvent{"done", i, j.finish(), ""}
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	if cw.twice != "" {
		out = append(out, concEvent{"twice", 0, "identifier " + plain(cw.twice), ""})
	}
	return out, nil
}

type seat struct {
	turn   chan bool
	report chan bool // true: done
	mu     sync.Mutex
	left   int
}

func (s *seat) gate() {
	s.mu.Lock()
	go_ := s.left == 0
	if !go_ {
		s.left--
	}
	s.mu.Unlock()
	if go_ {
		return
	}
	s.report <- false
	<-s.turn
}

// scheduled lets the operations of prog take their steps in the given order.
func (cw *concWorld) scheduled(c *concOp) ([]concEvent, error) {
	steps := len(c.Order) / len(c.Prog)
	seats := make([]*seat, len(c.Prog))
	jobs := make([]*job, len(c.Prog))
	for t, i := range c.Prog {
		s := &seat{turn: make(chan bool, 1), report: make(chan bool, 1), left: steps - 1}
		seats[t] = s
		j, err := cw.prepare(i, s.gate)
		if err != nil {
			return nil, err
		}
		jobs[t] = j
		go func() {
			<-s.turn
			j.run(s.gate)
			s.mu.Lock()
			s.left = 0
			s.mu.Unlock()
			s.report <- true
		}()
	}
	running := make([]bool, len(seats)) // went on and has not reported yet
	ended := make([]bool, len(seats))
	wait := func(t int, d time.Duration) {
		if !running[t] {
			return
		}
		select {
		case e := <-seats[t].report:
			running[t], ended[t] = false, e
		case <-time.After(d): // it may be waiting for another one: let that one go on
		}
	}
	turn := func(t int, d time.Duration) {
		wait(t, 0)
		if ended[t] {
			return
		}
		if !running[t] {
			running[t] = true
			seats[t].turn <- true
		}
		wait(t, d)
	}
	for _, t := range c.Order {
		turn(t-1, 300*time.Millisecond)
	}
	end := time.Now().Add(30 * time.Second)
	for open := true; open; {
		open = false
		for t := range seats {
			if !ended[t] {
				open = true
				turn(t, 20*time.Millisecond)
			}
		}
		if open && time.Now().After(end) {
			return []concEvent{{"stuck", 0, "operations do not end", ""}}, nil
		}
	}
	var out []concEvent
	for t, i := range c.Prog {
		out = append(out, concEvent{"done", i, jobs[t].finish(), ""})
	}
	if cw.twice != "" {
		out = append(out, concEvent{"twice", 0, "identifier " + plain(cw.twice), ""})
	}
	return out, nil
}

var raceAt = regexp.MustCompile(`(?m)^  (\S+)\(\)\n\s+(\S+):(\d+)`)

// raceText names the places of the first race the detector told of.
func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if k := strings.Index(s, "\n=================="); k > 0 {
		s = s[:k]
	}
	var out []string
	for _, m := range raceAt.FindAllStringSubmatch(s, -1) {
		if len(out) < 8 {
			out = append(out, fmt.Sprintf("%s (%s:%s)", m[1], filepath.Base(m[2]), m[3]))
		}
	}
	return plain(strings.Join(out, " < "))
}

func concChild(args []string) (evs []concEvent) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=0 history_size=2")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if json.Unmarshal(out.Bytes(), &evs) != nil {
		text := errb.String()
		if len(text) > 600 {
			text = text[:600]
		}
		evs = []concEvent{{"died", 0, plain(fmt.Sprint(err) + " " + text), ""}}
	}
	if r := raceText(errb.String()); r != "" {
		evs = append(evs, concEvent{"race", 0, r, ""})
	}
	return evs
}

func init() {
	// conc-one CASES CERTS N OP...: the operations side by side, n times each (n = 0: one operation alone, once).
	commands["conc-one"] = func(args []string) error {
		cw, err := newConcWorld(args[0], args[1])
		if err != nil {
			return err
		}
		n, _ := strconv.Atoi(args[2])
		var prog []int
		for _, a := range args[3:] {
			i, _ := strconv.Atoi(a)
			prog = append(prog, i)
		}
		var evs []concEvent
		if n == 0 {
			j, err := cw.prepare(prog[0], nil)
			if err != nil {
				return err
			}
			j.run(nil)
			evs = []concEvent{{"ref", prog[0], j.finish(), ""}}
		} else if evs, err = cw.free(prog, n); err != nil {
			return err
		}
		return json.NewEncoder(os.Stdout).Encode(evs)
	}
	// conc CASES CERTS TRACE N WIDTH: references, then all programs (n times each, width at once), then all schedules.
	commands["conc"] = func(args []string) error {
		cw, err := newConcWorld(args[0], args[1])
		if err != nil {
			return err
		}
		tr, err := newJSONWriter(args[2])
		if err != nil {
			return err
		}
		defer tr.close()
		width, _ := strconv.Atoi(args[4])
		var progs, scheds []*concOp
		if err := eachLine(args[0], func(n int, line []byte) error {
			c := &concOp{}
			if err := json.Unmarshal(line, c); err != nil {
				return err
			}
			switch c.Op {
			case "prog":
				progs = append(progs, c)
			case "sched":
				scheds = append(scheds, c)
			}
			return nil
		}); err != nil {
			return err
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		var bad error
		for i := range cw.ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				evs := concChild([]string{"conc-one", args[0], args[1], "0", fmt.Sprint(i)})
				mu.Lock()
				defer mu.Unlock()
				for _, e := range evs {
					e.At = "alone"
					tr.put(e)
					if e.Op == "died" {
						bad = fmt.Errorf("operation %d alone: %s", i, e.Res)
					}
				}
			}(i)
		}
		wg.Wait()
		if bad != nil {
			return bad
		}
		sem = make(chan bool, width)
		for _, p := range progs {
			wg.Add(1)
			go func(p *concOp) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				a := []string{"conc-one", args[0], args[1], args[3]}
				for _, i := range p.Prog {
					a = append(a, fmt.Sprint(i))
				}
				evs := concChild(a)
				mu.Lock()
				defer mu.Unlock()
				for _, e := range evs {
					e.At = fmt.Sprintf("program %v", p.Prog)
					tr.put(e)
				}
			}(p)
		}
		wg.Wait()
		for _, s := range scheds {
			evs, err := cw.scheduled(s)
			if err != nil {
				return err
			}
			stuck := false
			for _, e := range evs {
				e.At = fmt.Sprintf("program %v in order %v", s.Prog, s.Order)
				tr.put(e)
				stuck = stuck || e.Op == "stuck"
			}
			if stuck {
				return nil
			}
		}
		return nil
	}
}
