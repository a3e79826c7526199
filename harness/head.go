package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/aclindsa/ofxgo"
)

// The same content with leaves left open and with leaves closed.
var bodies = func() map[string]string {
	leaf := func(closed bool, t, v string) string {
		if closed {
			return "<" + t + ">" + v + "</" + t + ">"
		}
		return "<" + t + ">" + v
	}
	m := map[string]string{}
	for _, closed := range []bool{false, true} {
		l := func(t, v string) string { return leaf(closed, t, v) }
		// a body that speaks of headers
		m["talk "+fmt.Sprint(closed)] = "<OFX>\n<SIGNONMSGSRSV1><SONRS><STATUS>" + l("CODE", "0") + l("SEVERITY", "INFO") + l("MESSAGE", "OFXHEADER=OFXHEADER:OFXHEADER= VERSION:102") + "</STATUS>" + l("DTSERVER", "20200102030405") +
			l("LANGUAGE", "ENG") + "\n</SONRS></SIGNONMSGSRSV1></OFX>\n"
		m[fmt.Sprint(closed)] = "<OFX>\r\n<SIGNONMSGSRSV1><SONRS><STATUS>" + l("CODE", "0") + l("SEVERITY", "INFO") + "</STATUS>" + l("DTSERVER", "20200102030405") +
			l("LANGUAGE", "ENG") + "\r\n</SONRS></SIGNONMSGSRSV1></OFX>\r\n"
	}
	return m
}()

type headCase struct {
	Op   string `json:"op"`
	Text string `json:"text"`
	St   string `json:"st"`
	Sgml bool   `json:"sgml"`
	Ver  string `json:"ver"`
	Devs string `json:"devs"`
}

// headParse tells whether the header before a body is accepted, and the version.
func headParse(text, body string, chunked bool) (string, string, error) {
	resp, err := guarded("ParseResponse", func() (*ofxgo.Response, error) {
		if chunked {
			return ofxgo.ParseResponse(&chunkReader{s: text + body})
		}
		return ofxgo.ParseResponse(strings.NewReader(text + body))
	})
	switch {
	case dead(err):
		return "dead", "", err
	case err != nil && resp == nil:
		return "err", "", err
	case err == nil && resp != nil:
		if resp.Signon.Language != "ENG" || resp.Signon.Status.Severity != "INFO" {
			return "mangled", "", fmt.Errorf("the signon arrives as %+v", resp.Signon)
		}
		return "ok", resp.Version.String(), nil
	}
	return "both", "", fmt.Errorf("both or neither of response and error (%v)", err)
}

func replayHead(c *headCase) (string, string) {
	for _, closed := range []string{"false", "true"} {
		for _, body := range []string{closed, "chunked " + closed, "talk " + closed} {
			chunked := strings.HasPrefix(body, "chunked ")
			out, ver, err := headParse(c.Text, bodies[strings.TrimPrefix(body, "chunked ")], chunked)
			what := fmt.Sprintf("header %+q (%s), leaves closed: %s", c.Text, c.Devs, closed)
			if out == "dead" || out == "both" || out == "mangled" {
				return out, fmt.Sprintf("%s: %v", what, err)
			}
			switch c.St {
			case "free":
				continue
			case "err":
				if out != "err" {
					return "accepted:" + c.Devs, what + ": must be rejected but is read as version " + ver
				}
			default:
				want := "ok"
				if closed == "false" && !c.Sgml {
					want = "err"
				}
				if out != want {
					return "header:" + c.Devs, fmt.Sprintf("%s: must give %s but gives %s (%v)", what, want, out, err)
				}
				if out == "ok" && ver != c.Ver {
					return "version", fmt.Sprintf("%s: version %q read as %q", what, c.Ver, ver)
				}
			}
		}
	}
	return "", ""
}

func init() {
	commands["head"] = func(args []string) error {
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var mu sync.Mutex
		return inParallel(args[0], func() interface{} { return &headCase{} }, func(n int, x interface{}) {
			if sig, why := replayHead(x.(*headCase)); why != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
				mu.Unlock()
			}
		})
	}
	// record-head CASES SEED COUNT TRACE: damage generated headers at random, character by character.
	commands["record-head"] = func(args []string) error {
		var cases []headCase
		var mu sync.Mutex
		if err := inParallel(args[0], func() interface{} { return &headCase{} }, func(n int, x interface{}) {
			mu.Lock()
			cases = append(cases, *x.(*headCase))
			mu.Unlock()
		}); err != nil {
			return err
		}
		seed, _ := strconv.ParseInt(args[1], 10, 64)
		count, _ := strconv.Atoi(args[2])
		out, err := newJSONWriter(args[3])
		if err != nil {
			return err
		}
		defer out.close()
		// inParallel loses the order; the choice below must not depend on it.
		byText := map[string]bool{}
		var texts []string
		for _, c := range cases {
			if !byText[c.Text] {
				byText[c.Text] = true
				texts = append(texts, c.Text)
			}
		}
		sort.Strings(texts)
		rng := rand.New(rand.NewSource(seed))
		const chars = "ABCDEFGHINOPRSTUVXYZadefnor0123456789:=\"'?<>/ \t\r\n-_.;!"
		for n := 0; n < count; n++ {
			b := []byte(texts[rng.Intn(len(texts))])
			if !plainASCII(string(b)) {
				continue
			}
			for k := 1 + rng.Intn(3); k > 0 && len(b) > 2; k-- {
				i := rng.Intn(len(b))
				switch rng.Intn(5) {
				case 0:
					b = append(b[:i], b[i+1:]...)
				case 1:
					b = append(b[:i], append([]byte{chars[rng.Intn(len(chars))]}, b[i:]...)...)
				case 2:
					b[i] = chars[rng.Intn(len(chars))]
				case 3:
					j := i + rng.Intn(1+min(12, len(b)-i-1))
					b = append(b[:i], b[j:]...)
				default:
					j := i + rng.Intn(1+min(12, len(b)-i-1))
					b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
				}
			}
			text := string(b)
			if strings.Contains(text, "<OFX>") {
				continue
			}
			o1, v1, _ := headParse(text, bodies["false"], false)
			o2, v2, _ := headParse(text, bodies["true"], rng.Intn(2) == 0)
			if o1 == "ok" && v1 != v2 {
				o1 = "other version"
			}
			out.put(map[string]interface{}{"op": "head", "text": text, "open": o1, "closed": o2, "ver": v2})
		}
		return nil
	}
}

func plainASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x7f || s[i] < 0x20 && s[i] != '\n' && s[i] != '\r' && s[i] != '\t' {
			return false
		}
	}
	return true
}
