package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/aclindsa/ofxgo"
)

// reqCase is an object to be marshalled, and the versions that allow it.
type reqCase struct {
	Op   string `json:"op"`
	ID   string `json:"id"`
	Seed int    `json:"seed"`
	Map  smap   `json:"map"`
	Vers []int  `json:"vers"`
}

// layout sets the private layout flags of a request the way clients do, leaving the rest of it as it was.
func layout(r *ofxgo.Request, ver int, indent, cr bool) {
	id, appver, dt := r.Signon.AppID, r.Signon.AppVer, r.Signon.DtClient
	r.SetClientFields(&ofxgo.BasicClient{NoIndent: !indent, CarriageReturn: cr})
	r.Signon.AppID, r.Signon.AppVer, r.Signon.DtClient = id, appver, dt
	setVersion(r, rawVersion(ver))
}

type wireDoc struct {
	Ver    int      `json:"ver"`
	Indent bool     `json:"indent"`
	CR     bool     `json:"cr"`
	OK     bool     `json:"ok"`
	Clean  bool     `json:"clean"`
	Head   string   `json:"head"`
	Toks   []string `json:"toks"`
}

const wide, wideMark = "é漢", "~e~"

func wire(ver int, indent, cr bool, text string, err error) wireDoc {
	d := wireDoc{Ver: ver, Indent: indent, CR: cr, OK: err == nil, Toks: []string{}}
	if err != nil {
		return d
	}
	text = strings.ReplaceAll(text, wide, wideMark)
	i := strings.Index(text, "<OFX>")
	if i < 0 {
		return d
	}
	d.Head = text[:i]
	d.Toks, d.Clean = tokenize(text[i:])
	if d.Toks == nil {
		d.Toks = []string{}
	}
	d.Clean = d.Clean && plainASCII(d.Head)
	return d
}

func narrow(m smap) smap {
	out := smap{}
	for k, v := range m {
		out[k] = strings.ReplaceAll(v, wide, wideMark)
	}
	return out
}

// repeatFirst appends the very first message of each message set to it once more.
func repeatFirst(r *ofxgo.Request, m smap) {
	for _, slot := range rsSlots[1:] {
		l := reflect.ValueOf(r).Elem().FieldByName(slot)
		n := l.Len()
		if n == 0 {
			continue
		}
		l.Set(reflect.Append(l, l.Index(0)))
		first, last := slot+"[0]", fmt.Sprintf("%s[%d]", slot, n)
		more := smap{slot + "#": fmt.Sprint(n + 1)}
		for k, v := range m {
			if below(k, first) {
				more[last+k[len(first):]] = v
			}
		}
		for k, v := range more {
			m[k] = v
		}
	}
}

func init() {
	// req CASES RESULTS TRACE MODE N: marshal every request in N of its (version, layout) combinations.
	// MODE doc: one event per document; MODE variants: one event per request with all its documents.
	commands["req"] = func(args []string) error {
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		tr, err := newJSONWriter(args[2])
		if err != nil {
			return err
		}
		defer tr.close()
		var count int
		fmt.Sscan(args[4], &count)
		var mu sync.Mutex
		return inParallel(args[0], func() interface{} { return &reqCase{} }, func(n int, x interface{}) {
			c := x.(*reqCase)
			fail := func(sig, why string) {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
				mu.Unlock()
			}
			r := &ofxgo.Request{}
			if err := buildInto(r, c.Map); err != nil {
				fail("build", c.ID+": "+err.Error())
				return
			}
			if n%4 == 1 {
				repeatFirst(r, c.Map)
			}
			total := 4 * len(c.Vers)
			var docs []wireDoc
			for k := 0; k < count && k < total; k++ {
				// walk the combinations with a stride that visits them all, from a place that depends on the case
				i := (n*3 + c.Seed + k*coprime(total)) % total
				ver, indent, cr := c.Vers[i/4], i&1 == 0, i&2 == 0
				layout(r, ver, indent, cr)
				b, err := marshalObject(r)
				if dead(err) {
					fail("panic", c.ID+": "+err.Error())
					return
				}
				text := ""
				if err == nil {
					text = b.String()
				}
				docs = append(docs, wire(ver, indent, cr, text, err))
			}
			mu.Lock()
			defer mu.Unlock()
			if args[3] == "variants" {
				tr.put(map[string]interface{}{"op": "variants", "id": c.ID, "docs": docs})
				return
			}
			for _, d := range docs {
				tr.put(map[string]interface{}{"op": "doc", "id": fmt.Sprintf("%s v%d indent=%v cr=%v", c.ID, d.Ver, d.Indent, d.CR), "side": "rq", "map": narrow(c.Map), "doc": d})
			}
		})
	}
}

func coprime(n int) int {
	for _, k := range []int{5, 7, 3, 1} {
		if n%k != 0 {
			return k
		}
	}
	return 1
}
