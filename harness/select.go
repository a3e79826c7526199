package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/aclindsa/ofxgo"
)

type selOne struct {
	Via string `json:"via"`
	URL string `json:"url"`
	Cfg struct {
		Ver      int    `json:"ver"`
		ID       string `json:"id"`
		AppVer   string `json:"appver"`
		NoIndent bool   `json:"noindent"`
		CR       bool   `json:"cr"`
	} `json:"cfg"`
	Kind   string `json:"kind"`
	Report struct {
		Ver    int    `json:"ver"`
		ID     string `json:"id"`
		AppVer string `json:"appver"`
		Indent bool   `json:"indent"`
		CR     bool   `json:"cr"`
	} `json:"report"`
}

type selCase struct {
	Clients []selOne `json:"clients"`
}

func clientKind(c ofxgo.Client) string {
	switch fmt.Sprintf("%T", c) {
	case "*ofxgo.BasicClient":
		return "basic"
	case "*ofxgo.DiscoverCardClient":
		return "discover"
	case "*ofxgo.VanguardClient":
		return "vanguard"
	}
	return fmt.Sprintf("%T", c)
}

func specVersion(bc *ofxgo.BasicClient, ver int) {
	raw := uint64(0)
	if ver == 999 {
		raw = 99
	} else if ver != 0 {
		raw = rawVersion(ver)
	}
	reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(raw)
}

func runSelect(c *selCase) string {
	var cls []ofxgo.Client
	var bcs []*ofxgo.BasicClient
	for _, s := range c.Clients {
		bc := &ofxgo.BasicClient{AppID: s.Cfg.ID, AppVer: s.Cfg.AppVer, NoIndent: s.Cfg.NoIndent, CarriageReturn: s.Cfg.CR}
		specVersion(bc, s.Cfg.Ver)
		bcs = append(bcs, bc)
		if s.Via == "url" {
			cls = append(cls, ofxgo.GetClient(s.URL, bc))
		} else {
			cls = append(cls, clMake(s.Via, bc))
		}
	}
	for i, s := range c.Clients {
		cl := cls[i]
		if k := clientKind(cl); k != s.Kind {
			return fmt.Sprintf("client %d is %s", i+1, k)
		}
		ver, err := strconv.Atoi(cl.OfxVersion().String())
		if err != nil || ver != s.Report.Ver {
			return fmt.Sprintf("client %d reports version %s", i+1, cl.OfxVersion())
		}
		if string(cl.ID()) != s.Report.ID || string(cl.Version()) != s.Report.AppVer {
			return fmt.Sprintf("client %d reports id %q version %q", i+1, cl.ID(), cl.Version())
		}
		if cl.IndentRequests() != s.Report.Indent || cl.CarriageReturnNewLines() != s.Report.CR {
			return fmt.Sprintf("client %d reports indent %v carriage returns %v", i+1, cl.IndentRequests(), cl.CarriageReturnNewLines())
		}
		if bcs[i].AppID != s.Cfg.ID || bcs[i].AppVer != s.Cfg.AppVer || bcs[i].NoIndent != s.Cfg.NoIndent || bcs[i].CarriageReturn != s.Cfg.CR || bcs[i].HTTPClient != nil || bcs[i].UserAgent != "" {
			return fmt.Sprintf("the configuration of client %d was changed", i+1)
		}
	}
	return ""
}

func init() {
	// select CASES RESULTS
	commands["select"] = func(args []string) error {
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var mu sync.Mutex
		return inParallel(args[0], func() interface{} { return &selCase{} }, func(n int, x interface{}) {
			c := x.(*selCase)
			why := func() (why string) {
				defer func() {
					if p := recover(); p != nil {
						why = fmt.Sprintf("panic: %v", p)
					}
				}()
				return runSelect(c)
			}()
			if why != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: "select:" + strings.SplitN(why, " is ", 2)[0], Why: fmt.Sprintf("%+v: %s", c.Clients, why)})
				mu.Unlock()
			}
		})
	}
}
