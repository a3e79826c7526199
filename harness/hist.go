package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/aclindsa/ofxgo"
)

type histID struct {
	ID     string `json:"id"`
	Ed     bool   `json:"ed"`
	Ver    int    `json:"ver"`
	Indent bool   `json:"indent"`
	CR     bool   `json:"cr"`
}

type histBase struct {
	Op   string    `json:"op"`
	B    int       `json:"b"`
	Side string    `json:"side"`
	Map  smap      `json:"map"`
	Edit [2]string `json:"edit"`
	IDs  []histID  `json:"ids"`
}

type histStep struct {
	Op     string `json:"op"`
	O      int    `json:"o"`
	ID     string `json:"id"`
	OK     bool   `json:"ok"`
	Path   string `json:"path"`
	V      string `json:"v"`
	On     bool   `json:"on"`
	Ver    int    `json:"ver"`
	Indent bool   `json:"indent"`
	CR     bool   `json:"cr"`
}

type histCase struct {
	Op    string     `json:"op"`
	Objs  []int      `json:"objs"`
	Init  histID     `json:"init"`
	Steps []histStep `json:"steps"`
}

func hashOf(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:10])
}

// setPath changes one leaf of an object in place.
func setPath(o object, path, s string) error {
	v := reflect.ValueOf(o).Elem()
	for _, part := range strings.Split(path, ".") {
		name, ix := part, -1
		if i := strings.IndexByte(part, '['); i >= 0 {
			name = part[:i]
			ix, _ = strconv.Atoi(part[i+1 : len(part)-1])
		}
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		v = v.FieldByName(name)
		if !v.IsValid() {
			return fmt.Errorf("no field %s of %s", name, path)
		}
		if ix >= 0 {
			v = v.Index(ix)
		}
	}
	return setLeaf(v, s)
}

func histLayout(o object, ver int, indent, cr bool) {
	if r, ok := o.(*ofxgo.Request); ok {
		layout(r, ver, indent, cr)
		return
	}
	setVersion(o, rawVersion(ver))
}

// state is everything of an object that its owner can see.
func state(o object) smap {
	m := projectObject(o)
	v := reflect.ValueOf(o).Elem()
	m["Version"] = fmt.Sprint(v.FieldByName("Version").Uint())
	for _, f := range []string{"indent", "carriageReturn"} {
		if w := v.FieldByName(f); w.IsValid() && w.Kind() == reflect.Bool {
			m[f] = fmt.Sprint(w.Bool())
		}
	}
	if w := v.FieldByName("URL"); w.IsValid() {
		m["URL"] = w.String()
	}
	return m
}

func changes(a, b smap) [][3]string {
	out := [][3]string{}
	for k, v := range a {
		if b[k] != v {
			out = append(out, [3]string{k, v, b[k]})
		}
	}
	for k, v := range b {
		if _, had := a[k]; !had {
			out = append(out, [3]string{k, "", v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	if len(out) > 5 {
		out = out[:5]
	}
	for i := range out {
		for j := range out[i] {
			out[i][j] = strings.ReplaceAll(out[i][j], wide, wideMark)
		}
	}
	return out
}

type histOne struct {
	Side string `json:"side"`
	Map  smap   `json:"map"`
	ID   histID `json:"id"`
}

// place puts a message into a message set it does not belong to, behind all others, or takes it out again.
func place(o object, on bool) {
	v := reflect.ValueOf(o).Elem().FieldByName("Image")
	var stranger ofxgo.Message = &ofxgo.StatementRequest{TrnUID: "1", BankAcctFrom: ofxgo.BankAcct{BankID: "1", AcctID: "1", AcctType: ofxgo.AcctTypeSavings}}
	if bank := reflect.ValueOf(o).Elem().FieldByName("Bank"); bank.Len() > 0 {
		v, stranger = bank, &ofxgo.CCStatementRequest{TrnUID: "1", CCAcctFrom: ofxgo.CCAcct{AcctID: "1"}}
	}
	if on {
		v.Set(reflect.Append(v, reflect.ValueOf(stranger)))
	} else {
		v.Set(v.Slice(0, v.Len()-1))
		if v.Len() == 0 {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

func runHist(c *histCase, bases map[int]*histBase, no int, put func(map[string]interface{})) error {
	var objs []object
	vers, broken := map[int]int{}, map[int]bool{}
	for _, b := range c.Objs {
		o := newObject(bases[b].Side)
		if err := buildInto(o, bases[b].Map); err != nil {
			return err
		}
		objs = append(objs, o)
	}
	type kept struct {
		id string
		b  *bytes.Buffer
	}
	var keep []kept
	for i, o := range objs {
		vers[i] = c.Init.Ver
		histLayout(o, c.Init.Ver, c.Init.Indent, c.Init.CR)
	}
	for n, s := range c.Steps {
		o := objs[s.O-1]
		switch s.Op {
		case "layout":
			vers[s.O-1] = s.Ver
			histLayout(o, s.Ver, s.Indent, s.CR)
			if broken[s.O-1] {
				setVersion(o, 0)
			}
		case "set":
			if err := setPath(o, s.Path, s.V); err != nil {
				return err
			}
		case "place":
			place(o, s.On)
		case "version":
			broken[s.O-1] = s.On
			if s.On {
				setVersion(o, 0)
			} else {
				setVersion(o, rawVersion(vers[s.O-1]))
			}
		case "parse":
			for k := len(keep) - 1; k >= 0; k-- { // the bytes must be read without being consumed
				if _, isR := o.(*ofxgo.Response); isR || k == 0 {
					decodeDoc(string(keep[k].b.Bytes()))
					break
				}
			}
		case "marshal":
			before := state(o)
			b, err := marshalObject(o)
			if dead(err) {
				return err
			}
			h := ""
			if err == nil {
				h = hashOf(b.Bytes())
				keep = append(keep, kept{s.ID, b})
			}
			put(map[string]interface{}{"op": "marshal", "id": s.ID, "want": s.OK, "ok": err == nil, "hash": h, "changed": changes(before, state(o)), "at": fmt.Sprintf("schedule %d step %d", no, n+1)})
		}
	}
	for i, k := range keep {
		put(map[string]interface{}{"op": "again", "id": k.id, "hash": hashOf(k.b.Bytes()), "at": fmt.Sprintf("schedule %d document %d", no, i+1)})
	}
	return nil
}

func init() {
	// hist-one: marshal the object given on standard input, print the hash of the document.
	commands["hist-one"] = func(args []string) error {
		in, err := io.ReadAll(os.Stdin)
		if err != nil {
			return err
		}
		var one histOne
		if err := json.Unmarshal(in, &one); err != nil {
			return err
		}
		o := newObject(one.Side)
		if err := buildInto(o, one.Map); err != nil {
			return err
		}
		histLayout(o, one.ID.Ver, one.ID.Indent, one.ID.CR)
		b, err := marshalObject(o)
		if err != nil {
			fmt.Println("-")
			return nil
		}
		fmt.Println(hashOf(b.Bytes()))
		return nil
	}
	// hist CASES RESULTS TRACE
	commands["hist"] = func(args []string) error {
		bases := map[int]*histBase{}
		var cases []*histCase
		if err := eachLine(args[0], func(n int, line []byte) error {
			if bytes.Contains(line, []byte(`"steps"`)) {
				c := &histCase{}
				cases = append(cases, c)
				return json.Unmarshal(line, c)
			}
			b := &histBase{}
			if err := json.Unmarshal(line, b); err != nil {
				return err
			}
			bases[b.B] = b
			return nil
		}); err != nil {
			return err
		}
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		tr, err := newJSONWriter(args[2])
		if err != nil {
			return err
		}
		defer tr.close()
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 8)
		var failed error
		for _, b := range bases {
			for _, id := range b.IDs {
				m := smap{}
				for k, v := range b.Map {
					m[k] = v
				}
				if id.Ed {
					m[b.Edit[0]] = b.Edit[1]
				}
				in, _ := json.Marshal(histOne{b.Side, m, id})
				wg.Add(1)
				go func(id string) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					cmd := exec.Command(os.Args[0], "hist-one")
					cmd.Stdin = bytes.NewReader(in)
					res, err := cmd.Output()
					h := strings.TrimSpace(string(res))
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						failed = fmt.Errorf("reference process: %v", err)
					}
					if h == "-" {
						h = ""
					}
					tr.put(map[string]interface{}{"op": "ref", "id": id, "hash": h, "at": ""})
				}(id.ID)
			}
		}
		wg.Wait()
		if failed != nil {
			return failed
		}
		for n, c := range cases {
			if err := runHist(c, bases, n+1, func(e map[string]interface{}) { tr.put(e) }); err != nil {
				out.put(result{ID: n + 1, OK: false, Sig: "history", Why: err.Error()})
			}
		}
		return nil
	}
}
