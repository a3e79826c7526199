package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/aclindsa/ofxgo"
)

var tagRE = regexp.MustCompile(`^</?[A-Z][A-Z0-9.]*>`)

// tokenize splits a document body into tokens; clean is false when it holds
// anything but plain tags and text.
func tokenize(body string) (toks []string, clean bool) {
	for body != "" {
		if body[0] == '<' {
			m := tagRE.FindString(body)
			if m == "" {
				return nil, false
			}
			if m[1] == '/' {
				toks = append(toks, "-"+m[2:len(m)-1])
			} else {
				toks = append(toks, "+"+m[1:len(m)-1])
			}
			body = body[len(m):]
			continue
		}
		i := strings.IndexByte(body, '<')
		if i < 0 {
			i = len(body)
		}
		t := body[:i]
		for j := 0; j < len(t); j++ {
			if t[j] >= 0x7f || t[j] < 0x20 && t[j] != '\n' && t[j] != '\r' && t[j] != '\t' || t[j] == '>' {
				return nil, false
			}
		}
		// An ampersand that does not start one of the five entities or a numeric
		// reference is left to the decoder's discretion.
		if entRE.ReplaceAllString(t, "") != "" && strings.Contains(entRE.ReplaceAllString(t, ""), "&") {
			return nil, false
		}
		toks = append(toks, "="+t)
		body = body[i:]
	}
	return toks, true
}

var entRE = regexp.MustCompile(`&(lt|gt|amp|apos|quot|#34|#39);`)

func outcome(f func() (*ofxgo.Response, error)) (string, *ofxgo.Response) {
	resp, err := guarded("parse", f)
	switch {
	case err != nil && strings.HasPrefix(err.Error(), "PANIC"):
		return "panic", nil
	case err != nil && strings.HasPrefix(err.Error(), "HANG"):
		return "hang", nil
	case err != nil && resp != nil:
		return "both", resp
	case err != nil:
		return "err", nil
	case resp == nil:
		return "nil", nil
	}
	return "ok", resp
}

func mutateToks(rng *rand.Rand, toks []string, other []string) []string {
	t := append([]string(nil), toks...)
	for k := 1 + rng.Intn(3); k > 0 && len(t) > 4; k-- {
		i := rng.Intn(len(t))
		j := i + 1 + rng.Intn(6)
		if j > len(t) {
			j = len(t)
		}
		seg := append([]string(nil), t[i:j]...)
		switch rng.Intn(9) {
		case 0: // delete
			t = append(t[:i], t[j:]...)
		case 1: // duplicate
			t = append(t[:j:j], append(seg, t[j:]...)...)
		case 2: // move
			t = append(t[:i:i], t[j:]...)
			p := rng.Intn(len(t) + 1)
			t = append(t[:p:p], append(seg, t[p:]...)...)
		case 3: // splice from another document
			a := rng.Intn(len(other))
			b := a + 1 + rng.Intn(8)
			if b > len(other) {
				b = len(other)
			}
			t = append(t[:i:i], append(append([]string(nil), other[a:b]...), t[i:]...)...)
		case 4: // other text
			for p := i; p < len(t); p++ {
				if strings.HasPrefix(t[p], "=") {
					t[p] = "=" + pick(rng, "", " ", "x", "-1", "20200101", "Y", "USD", "CHECKING", "1.5", "20061332", "&amp;", "0", "CREDIT", "OPENING", "99999999999999999999")
					break
				}
			}
		case 5: // other tag
			for p := i; p < len(t); p++ {
				if !strings.HasPrefix(t[p], "=") {
					q := rng.Intn(len(other))
					if !strings.HasPrefix(other[q], "=") {
						t[p] = t[p][:1] + other[q][1:]
					}
					break
				}
			}
		case 6: // close again or open again
			if !strings.HasPrefix(t[i], "=") {
				t = append(t[:i:i], append([]string{pick(rng, "+", "-") + t[i][1:]}, t[i:]...)...)
			}
		case 7: // reverse a stretch
			for a, b := i, j-1; a < b; a, b = a+1, b-1 {
				t[a], t[b] = t[b], t[a]
			}
		case 8: // stop
			if rng.Intn(4) == 0 {
				t = t[:i]
			}
		}
	}
	return t
}

func mutateBytes(rng *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + rng.Intn(4); k > 0 && len(b) > 4; k-- {
		i := rng.Intn(len(b))
		switch rng.Intn(7) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(rng.Intn(256))
		case 2:
			ins := pick(rng, "<", ">", "&", "/", "\x00", "<!--", "-->", "<![CDATA[", "]]>", "<?x ", "?>", "\xff\xfe", "\xef\xbb\xbf", "<!DOCTYPE a>", "</", "=", "\"", "'", "&#x0;", "&#99999999;", " a=\"b\"", "/>", "xmlns:", ":", "<OFX>", "</OFX>", "\r", "OFXHEADER:", "OFXHEADER=")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + rng.Intn(40)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 5:
			j := i + rng.Intn(200)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 6:
			b = b[i:]
		}
	}
	return string(b)
}

func init() {
	// record-doc CASES SEED COUNT TRACE: damage the documents of CASES at random
	// and record what parsing makes of them.
	commands["record-doc"] = func(args []string) error {
		var cases []docCase
		if err := eachLine(args[0], func(n int, line []byte) error {
			var c docCase
			if err := json.Unmarshal(line, &c); err != nil {
				return err
			}
			cases = append(cases, c)
			return nil
		}); err != nil {
			return err
		}
		seed, _ := strconv.ParseInt(args[1], 10, 64)
		count, _ := strconv.Atoi(args[2])
		out, err := newJSONWriter(args[3])
		if err != nil {
			return err
		}
		defer out.close()
		rng := rand.New(rand.NewSource(seed))
		for n := 0; n < count; n++ {
			c := cases[rng.Intn(len(cases))]
			o := cases[rng.Intn(len(cases))]
			head := header(c.Ver)
			var doc string
			clean := false
			var toks []string
			if rng.Intn(5) > 0 {
				toks = mutateToks(rng, c.Toks, o.Toks)
				body := spellToks(toks)
				doc = head + body
				toks, clean = tokenize(body)
			} else if rng.Intn(3) > 0 {
				doc = head + mutateBytes(rng, spellToks(c.Toks))
			} else {
				doc = mutateBytes(rng, head+spellToks(c.Toks))
			}
			how := "decode"
			f := func() (*ofxgo.Response, error) { return ofxgo.DecodeResponse(strings.NewReader(doc)) }
			out1, resp := outcome(f)
			ev := map[string]interface{}{"op": "parse", "out": out1, "ver": c.Ver, "ended": strings.Contains(doc, "</OFX"), "clean": clean, "how": how,
				"toks": []string{}, "proj": smap{}, "bytes": fmt.Sprintf("%+q", doc)}
			if clean {
				if len(toks) > 0 {
					ev["toks"] = toks
				}
				delete(ev, "bytes")
				if out1 == "ok" {
					ev["proj"] = projectResponse(resp)
				}
			}
			out.put(ev)
		}
		return nil
	}
}
