package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
)

type sendCfg struct {
	Kind     string `json:"kind"`
	Ver      int    `json:"ver"`
	ID       string `json:"id"`
	AppVer   string `json:"appver"`
	NoIndent bool   `json:"noindent"`
	CR       bool   `json:"cr"`
}

type sendStep struct {
	Op     string `json:"op"`
	Path   string `json:"path"`
	V      string `json:"v"`
	K      int    `json:"k"`
	Call   string `json:"call"`
	OK     bool   `json:"ok"`
	Ver    int    `json:"ver"`
	ID     string `json:"id"`
	AppVer string `json:"appver"`
	Indent bool   `json:"indent"`
	CR     bool   `json:"cr"`
}

type sendCase struct {
	Op    string     `json:"op"`
	B     int        `json:"b"`
	Map   smap       `json:"map"`
	Cfgs  []sendCfg  `json:"cfgs"`
	Steps []sendStep `json:"steps"`
}

func dayMs(t time.Time) [2]int64 {
	ms := t.UnixNano() / 1000000
	return [2]int64{ms / 86400000, ms % 86400000}
}

func runSends(c *sendCase, base smap, w *stage, no int, put func(map[string]interface{})) error {
	m := smap{}
	for k, v := range base {
		m[k] = v
	}
	r := &ofxgo.Request{}
	if err := buildInto(r, m); err != nil {
		return err
	}
	r.URL = "https://" + w.sites["main"].host() + "/ofx"
	var cls []ofxgo.Client
	for _, s := range c.Cfgs {
		bc := &ofxgo.BasicClient{AppID: s.ID, AppVer: s.AppVer, NoIndent: s.NoIndent, CarriageReturn: s.CR}
		specVersion(bc, s.Ver)
		cls = append(cls, clMake(s.Kind, bc))
	}
	w.reset(func(w *stage, s *seen) *answer {
		return &answer{status: 200, frame: "cl", body: clBody("good", 1)}
	})
	for n, s := range c.Steps {
		switch s.Op {
		case "set":
			if s.Path != "Signon.AppID" && s.Path != "Signon.AppVer" && s.Path != "Signon.DtClient" {
				m[s.Path] = s.V
			}
			if err := setPath(r, s.Path, s.V); err != nil {
				return err
			}
		case "version":
			raw := uint64(0)
			if s.Ver != 0 {
				raw = rawVersion(s.Ver)
			}
			setVersion(r, raw)
		case "adopt":
			r.SetClientFields(cls[s.K-1])
		case "send":
			time.Sleep(2 * time.Millisecond)
			lo := time.Now()
			var err error
			failed := func() (why string) {
				defer func() {
					if p := recover(); p != nil {
						why = fmt.Sprintf("panic: %v", p)
					}
				}()
				if s.Call == "request" {
					_, err = cls[s.K-1].Request(r)
				} else {
					resp, e := cls[s.K-1].RequestNoParse(r)
					if resp != nil {
						resp.Body.Close()
					}
					err = e
				}
				return ""
			}()
			if failed != "" {
				return errors.New(failed)
			}
			hi := time.Now()
			log, _, _, _ := w.take()
			if len(log) > 1 {
				return fmt.Errorf("step %d: %d requests were sent", n+1, len(log))
			}
			if len(log) == 1 && err != nil {
				return fmt.Errorf("step %d: the server answered, but the send fails: %v", n+1, err)
			}
			if len(log) == 0 && err == nil {
				return fmt.Errorf("step %d: nothing was sent, but the send succeeds", n+1)
			}
			e := map[string]interface{}{"op": "send", "map": narrow(m), "ok": s.OK, "ver": s.Ver, "id": strings.ReplaceAll(s.ID, wide, wideMark), "appver": s.AppVer, "indent": s.Indent, "cr": s.CR,
				"sent": len(log) == 1, "lo": dayMs(lo), "hi": dayMs(hi), "at": fmt.Sprintf("history %d step %d", no, n+1)}
			text := ""
			if len(log) == 1 {
				text = string(log[0].Body)
				dt, _ := canon(reflect.ValueOf(r.Signon.DtClient))
				if i := strings.IndexByte(dt, '+'); i > 0 {
					dt = dt[:i] // what is written has milliseconds
				}
				ver := 0
				fmt.Sscan(r.Version.String(), &ver)
				e["after"] = map[string]interface{}{"ver": ver, "id": strings.ReplaceAll(string(r.Signon.AppID), wide, wideMark), "appver": string(r.Signon.AppVer), "dt": dt}
			}
			e["doc"] = wire(s.Ver, s.Indent, s.CR, text, err)
			put(e)
		}
	}
	return nil
}

func init() {
	// send CASES RESULTS CERTS TRACE
	commands["send"] = func(args []string) error {
		if os.Getenv("SSL_CERT_FILE") != filepath.Join(args[2], "ca.pem") {
			return errors.New("SSL_CERT_FILE is not set")
		}
		bases := map[int]smap{}
		if err := eachLine(args[0], func(n int, line []byte) error {
			if !bytes.Contains(line, []byte(`"op": "base"`)) {
				return nil
			}
			c := &sendCase{}
			if err := json.Unmarshal(line, c); err != nil {
				return err
			}
			bases[c.B] = c.Map
			return nil
		}); err != nil {
			return err
		}
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		tr, err := newJSONWriter(args[3])
		if err != nil {
			return err
		}
		defer tr.close()
		var mu sync.Mutex
		stages := make(chan *stage, 8)
		for i := 0; i < 8; i++ {
			w, err := newStage(args[2])
			if err != nil {
				return err
			}
			stages <- w
		}
		return inParallel(args[0], func() interface{} { return &sendCase{} }, func(n int, x interface{}) {
			c := x.(*sendCase)
			if c.Op != "sends" {
				return
			}
			w := <-stages
			defer func() { stages <- w }()
			var events []map[string]interface{}
			err := runSends(c, bases[c.B], w, n, func(e map[string]interface{}) { events = append(events, e) })
			mu.Lock()
			defer mu.Unlock()
			for _, e := range events {
				tr.put(e)
			}
			if err != nil {
				out.put(result{ID: n, OK: false, Sig: "send", Why: err.Error()})
			}
		})
	}
}
