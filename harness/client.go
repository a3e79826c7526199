package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aclindsa/ofxgo"
)

type clAnswer struct {
	What    string `json:"what"`
	Status  int    `json:"status"`
	Body    string `json:"body"`
	Frame   string `json:"frame"`
	Cookies int    `json:"cookies"`
	To      string `json:"to"`
}

type clCase struct {
	C struct {
		Kind  string `json:"kind"`
		Call  string `json:"call"`
		URL   string `json:"url"`
		Valid bool   `json:"valid"`
		Src   string `json:"src"`
	} `json:"c"`
	Target string `json:"target"`
	Posts  []struct {
		Srv     string `json:"srv"`
		Target  string `json:"target"`
		Method  string `json:"method"`
		Doc     bool   `json:"doc"`
		Cookies int    `json:"cookies"`
		Try     int    `json:"try"`
	} `json:"posts"`
	Script []clAnswer `json:"script"`
	Out    struct {
		Res   string `json:"res"`
		Doc   int    `json:"doc"`
		Whole bool   `json:"whole"`
	} `json:"out"`
}

const profileDoc = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX>
<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE><FI><ORG>BNK</ORG><FID>1987</FID></FI></SONRS></SIGNONMSGSRSV1>
<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>%s</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20060101</DTACCTUP></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>
</OFX>
`

const bigCount = 24

var (
	bigOnce sync.Once
	bigText string
)

// clBody is the body of the n-th answer of a script.
func clBody(kind string, n int) []byte {
	good := fmt.Sprintf(profileDoc, fmt.Sprintf("answer-%d", n))
	switch kind {
	case "good":
		return []byte(good)
	case "invalid":
		return []byte(fmt.Sprintf(profileDoc, ""))
	case "junk":
		return []byte("<html><body>answer " + fmt.Sprint(n) + " not what you wanted</body></html>")
	case "line": // a body, if only of one byte
		return []byte("\n")
	case "cut":
		return []byte(good[:strings.Index(good, "<ACCTINFORS>")])
	case "big":
		bigOnce.Do(func() {
			filler := strings.Repeat("one account & another; ", 2500)
			var b strings.Builder
			b.WriteString("<DTACCTUP>20060101</DTACCTUP>")
			for i := 0; i < bigCount; i++ {
				fmt.Fprintf(&b, "<ACCTINFO><NAME>account %d</NAME><DESC>%s</DESC></ACCTINFO>\n", i, strings.ReplaceAll(filler, "&", "&amp;"))
			}
			bigText = b.String()
		})
		return []byte(strings.Replace(good, "<DTACCTUP>20060101</DTACCTUP>", bigText, 1))
	case "large":
		return bytes.Repeat([]byte("no such thing here. "), 30000)
	}
	return nil
}

func clReply(r clAnswer, n int, srv string, w *stage) *answer {
	a := &answer{status: r.Status, frame: r.Frame, body: clBody(r.Body, n)}
	switch r.What {
	case "hangup":
		return &answer{hangup: true}
	case "garbage":
		return &answer{raw: []byte("SSH-2.0-OpenSSH_9.6\r\nnot http at all\r\n\r\n")}
	}
	a.header = append(a.header, "Content-Type: application/x-ofx")
	if r.Cookies > 0 {
		a.header = append(a.header, fmt.Sprintf("Set-Cookie: sid=s%d; Path=/; HttpOnly", n))
	}
	if r.Cookies > 1 {
		a.header = append(a.header, fmt.Sprintf("Set-Cookie: route=r.%d-2; Secure; Max-Age=3600", n))
	}
	if r.Cookies > 2 {
		a.header = append(a.header, "Set-Cookie: gone=; Path=/elsewhere", "Set-Cookie: old=1; Max-Age=0; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "Set-Cookie: sid=again; Path=/cgi; SameSite=Strict", "Set-Cookie: A.B_c=x/y+z==:1; Domain=example.org")
	}
	there := map[string]string{"main": "other", "other": "main"}[srv]
	hop := fmt.Sprintf("/hop%d", n)
	switch r.To {
	case "same":
		a.header = append(a.header, "Location: "+hop)
	case "other":
		if n%2 == 0 {
			a.header = append(a.header, "Location: //"+w.sites[there].host()+hop)
		} else {
			a.header = append(a.header, "Location: https://"+w.sites[there].host()+hop)
		}
	case "plain":
		scheme := []string{"http", "HTTP"}[n%2]
		a.header = append(a.header, "Location: "+scheme+"://"+w.sites["trap"].host()+hop)
	case "untrusted":
		a.header = append(a.header, "Location: https://"+w.sites["untrusted"].host()+hop)
	case "dead":
		a.header = append(a.header, "Location: https://127.0.0.1:1"+hop)
	case "junk":
		a.header = append(a.header, "Location: https://127.0.0.1:99999999/%zz")
	}
	return a
}

func clURL(kind string, target string, w *stage) string {
	main := w.sites["main"].host()
	trap := w.sites["trap"].host()
	switch kind {
	case "nopath":
		return "https://" + main
	case "untrusted", "wronghost", "expired":
		return "https://" + w.sites[kind].host() + "/ofx"
	case "dead":
		return "https://127.0.0.1:1/ofx"
	case "garbled":
		return "https://" + main + "/%zz"
	case "tonowhere":
		return "https://"
	case "plainport":
		return "https://" + trap + "/ofx"
	case "plain":
		return "http://" + trap + "/ofx"
	case "upper":
		return "HTTPS://" + main + "/ofx"
	case "empty":
		return ""
	case "bare":
		return trap + "/ofx"
	case "ftp":
		return "ftp://" + trap + "/ofx"
	case "space":
		return " https://" + main + "/ofx"
	case "httpslash":
		return "http://" + trap + "/?https://" + main
	case "noslashes":
		return "https:" + main + "/ofx"
	}
	return "https://" + main + target
}

// noCookies is a jar which keeps nothing.
type noCookies struct{}

func (noCookies) SetCookies(*url.URL, []*http.Cookie) {}
func (noCookies) Cookies(*url.URL) []*http.Cookie     { return nil }

// watched is a transport that keeps account of the bodies it hands out.
type watched struct {
	t    *http.Transport
	mu   sync.Mutex
	open map[*watchedBody]bool
}
type watchedBody struct {
	io.ReadCloser
	w *watched
}

func (b *watchedBody) Close() error {
	b.w.mu.Lock()
	delete(b.w.open, b)
	b.w.mu.Unlock()
	return b.ReadCloser.Close()
}
func (w *watched) RoundTrip(r *http.Request) (*http.Response, error) {
	resp, err := w.t.RoundTrip(r)
	if resp != nil && resp.Body != nil {
		b := &watchedBody{resp.Body, w}
		w.mu.Lock()
		w.open[b] = true
		w.mu.Unlock()
		resp.Body = b
	}
	return resp, err
}
func (w *watched) left() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.open)
}

type onlyReader struct{ io.Reader }

func clRequest(valid bool) *ofxgo.Request {
	r := &ofxgo.Request{}
	r.Signon.UserID, r.Signon.UserPass = "a user", "s3cret & <more>"
	r.Signup = append(r.Signup, &ofxgo.AcctInfoRequest{TrnUID: "1234", DtAcctUp: *ofxgo.NewDate(2020, 1, 2, 3, 4, 5, 0, time.UTC)})
	if !valid {
		r.Signon.UserID = ""
	}
	return r
}

const clAgent = "Verif/1.0 (agent)"

func clMake(kind string, bc *ofxgo.BasicClient) ofxgo.Client {
	switch kind {
	case "discover":
		return ofxgo.NewDiscoverCardClient(bc)
	case "vanguard":
		return ofxgo.NewVanguardClient(bc)
	}
	return bc
}

// runClient plays a behaviour n times and reports the first difference.
func runClient(c *clCase, w *stage, id, times int) (sig, why string) {
	bc := &ofxgo.BasicClient{UserAgent: clAgent, NoIndent: id%2 == 0}
	reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(rawVersion([]int{102, 203, 220}[id%3]))
	if id%7 == 0 {
		bc.UserAgent = ""
	}
	var own *watched
	var hc *http.Client
	if c.C.Kind == "own" || c.C.Kind == "stay" || c.C.Kind == "allow" || c.C.Kind == "veto" {
		own = &watched{t: &http.Transport{}, open: map[*watchedBody]bool{}}
		hc = &http.Client{Transport: own}
		switch c.C.Kind {
		case "stay":
			hc.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		case "allow":
			hc.CheckRedirect = func(*http.Request, []*http.Request) error { return nil }
		case "veto":
			hc.CheckRedirect = func(*http.Request, []*http.Request) error { return errors.New("no redirections") }
		}
		if id%2 == 0 {
			hc.Jar = noCookies{}
		}
		if id%3 == 0 {
			hc.Timeout = 5 * time.Minute
		}
		bc.HTTPClient = hc
	}
	cl := clMake(c.C.Kind, bc)
	rest := func() {
		if own != nil {
			own.t.CloseIdleConnections()
		} else {
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		}
	}
	before := w.idle(0, 0, func() {})
	w.reset(func(w *stage, s *seen) *answer {
		n := len(w.log)
		if n > len(c.Script) {
			return &answer{status: 200, frame: "cl", body: clBody("good", 99)}
		}
		return clReply(c.Script[n-1], n, s.Srv, w)
	})
	for k := 0; k < times; k++ {
		if sig, why = oneCall(c, cl, bc, own, w, id+k, times > 1); sig != "" {
			return
		}
	}
	allowed := 2 // what a transport keeps for later
	if own != nil {
		allowed = before // left by clients that keep theirs
	}
	if times == 1 {
		return "", ""
	}
	if most := w.idle(allowed, 4*time.Second, rest); most > allowed {
		return "leak", fmt.Sprintf("%d connections to a server are still open after %d calls", most, times)
	}
	return "", ""
}

func oneCall(c *clCase, cl ofxgo.Client, bc *ofxgo.BasicClient, own *watched, w *stage, id int, leaks bool) (sig, why string) {
	url := clURL(c.C.URL, c.Target, w)
	r := clRequest(c.C.Valid)
	if id%16 == 5 { // a long document
		for i := 0; i < 1000; i++ {
			r.Signup = append(r.Signup, &ofxgo.AcctInfoRequest{TrnUID: ofxgo.UID(fmt.Sprint(i)), CltCookie: ofxgo.String(strings.Repeat("cookie", 1+i%300))})
		}
	}
	r.URL = url
	var sent []byte
	var resp *ofxgo.Response
	var hresp *http.Response
	var err error
	handed := 0
	finished := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				finished <- fmt.Sprintf("panic: %v %s", p, debug.Stack())
			}
		}()
		switch c.C.Call {
		case "request":
			resp, err = cl.Request(r)
		case "noparse":
			hresp, err = cl.RequestNoParse(r)
		case "raw":
			b := bytes.Repeat([]byte("<OFX>raw & bytes\r\n\x00\xff"), 1+id%200)
			if id%16 == 5 {
				b = bytes.Repeat(b, 1+300000/len(b)*(1+id%5))
			}
			sent = append([]byte{}, b...)
			var src io.Reader = bytes.NewBuffer(b)
			if c.C.Src == "stream" {
				src = onlyReader{src}
			}
			hresp, err = cl.RawRequest(url, src)
		}
		finished <- ""
	}()
	select {
	case p := <-finished:
		if p != "" {
			return "panic", p
		}
	case <-time.After(20 * time.Second):
		return "hang", "the call does not return"
	}
	res := "error"
	var body []byte
	var rerr error
	if err == nil && c.C.Call == "request" && resp != nil {
		res = "parsed"
	} else if err == nil && hresp != nil {
		res = "raw"
		if id%3 > 0 || own != nil {
			body, rerr = io.ReadAll(hresp.Body)
		} else {
			body = nil
		}
	}
	if hresp != nil && hresp.Body != nil {
		handed++
		hresp.Body.Close()
	}
	log, plain, bad, conns := w.take()
	if len(plain) > 0 {
		return "plain", fmt.Sprintf("sent in the clear: %.300q", plain)
	}
	if bad != "" {
		return "plain", "a server without a valid certificate was sent a request: " + bad
	}
	if !strings.HasPrefix(url, "https://") {
		for n, k := range conns {
			if k > 0 {
				return "plain", fmt.Sprintf("%q: connected to %s", url, n)
			}
		}
	}
	// the exchange
	if len(log) != len(c.Posts) {
		return "posts", fmt.Sprintf("servers got %s, must get %d requests", shown(log), len(c.Posts))
	}
	if c.C.Call != "raw" && len(log) > 0 {
		b, merr := r.Marshal()
		if merr != nil {
			return "posts", "the request was sent but cannot be marshalled: " + merr.Error()
		}
		sent = b.Bytes()
	}
	for i, p := range c.Posts {
		q := log[i]
		if q.Srv != p.Srv || q.Target != p.Target || q.Method != p.Method {
			return "posts", fmt.Sprintf("request %d is %s %s at %s, must be %s %s at %s", i+1, q.Method, q.Target, q.Srv, p.Method, p.Target, p.Srv)
		}
		if p.Doc && !bytes.Equal(q.Body, sent) {
			return "posts", fmt.Sprintf("request %d carries %.200q instead of the document", i+1, q.Body)
		}
		if !p.Doc && len(q.Body) > 0 {
			return "posts", fmt.Sprintf("request %d carries %.200q", i+1, q.Body)
		}
		if p.Doc {
			if v, n := q.header("Content-Type"); n != 1 || v != "application/x-ofx" {
				return "posts", fmt.Sprintf("request %d has content type %q (%d)", i+1, v, n)
			}
		}
		if c.C.Kind == "discover" {
			var names []string
			for _, h := range q.Head {
				names = append(names, h[:strings.IndexByte(h+":", ':')])
			}
			if got := strings.Join(names, " "); got != "Content-Type Host Content-Length Connection" {
				return "posts", "headers sent: " + got
			}
			if v, _ := q.header("Connection"); !strings.EqualFold(v, "keep-alive") {
				return "posts", "header sent: Connection: " + v
			}
		} else if v, n := q.header("User-Agent"); bc.UserAgent != "" && (v != bc.UserAgent || n != 1) || bc.UserAgent == "" && v == clAgent {
			return "posts", fmt.Sprintf("request %d has user agent %q", i+1, v)
		}
		if p.Cookies >= 0 {
			want := ""
			if p.Cookies > 0 {
				want = fmt.Sprintf("sid=s%d", i)
			}
			if p.Cookies > 1 {
				want += fmt.Sprintf("; route=r.%d-2", i)
			}
			if p.Cookies > 2 {
				want += "; gone=; old=1; sid=again; A.B_c=x/y+z==:1"
			}
			if v, n := q.header("Cookie"); v != want || n > 1 {
				return "posts", fmt.Sprintf("request %d carries the cookies %q, must carry %q", i+1, v, want)
			}
		}
	}
	// the outcome
	if res != c.Out.Res {
		return "outcome", fmt.Sprintf("outcome %s (%v), must be %s", res, err, c.Out.Res)
	}
	if res == "parsed" {
		uid := ""
		if len(resp.Signup) == 1 {
			if m, ok := resp.Signup[0].(*ofxgo.AcctInfoResponse); ok {
				uid = string(m.TrnUID)
			}
		}
		if uid != fmt.Sprintf("answer-%d", c.Out.Doc) {
			return "outcome", fmt.Sprintf("the response is %q, must be of answer %d", uid, c.Out.Doc)
		}
		if c.Script[c.Out.Doc-1].Body == "big" {
			if a := resp.Signup[0].(*ofxgo.AcctInfoResponse).AcctInfo; len(a) != bigCount || string(a[len(a)-1].Name) != fmt.Sprintf("account %d", bigCount-1) {
				return "outcome", fmt.Sprintf("%d of the %d accounts of a long answer", len(a), bigCount)
			}
		}
	}
	if res == "raw" && (id%3 > 0 || own != nil) {
		want := clBody(c.Script[c.Out.Doc-1].Body, c.Out.Doc)
		if c.Out.Whole && (rerr != nil || !bytes.Equal(body, want)) {
			return "outcome", fmt.Sprintf("the body is %.200q (%v), must be that of answer %d", body, rerr, c.Out.Doc)
		}
		if !c.Out.Whole && (rerr == nil || !bytes.HasPrefix(want, body)) {
			return "outcome", fmt.Sprintf("the body of answer %d broke off, but reading it gives %.200q (%v)", c.Out.Doc, body, rerr)
		}
	}
	if own != nil && leaks {
		end := time.Now().Add(3 * time.Second)
		for own.left() > 0 && time.Now().Before(end) {
			time.Sleep(time.Millisecond)
		}
		if n := own.left(); n > 0 {
			return "leak", fmt.Sprintf("%d response bodies were not closed", n)
		}
	}
	return "", ""
}

func shown(log []*seen) string {
	var out []string
	for _, q := range log {
		out = append(out, q.Method+" "+q.Srv+q.Target)
	}
	return "[" + strings.Join(out, ", ") + "]"
}

func init() {
	// client CASES RESULTS CERTS TIMES: needs SSL_CERT_FILE=CERTS/ca.pem
	commands["client"] = func(args []string) error {
		debug.SetGCPercent(-1) // forgotten connections must not be collected behind our back
		debug.SetMemoryLimit(3 << 30)
		if os.Getenv("SSL_CERT_FILE") != filepath.Join(args[2], "ca.pem") {
			return errors.New("SSL_CERT_FILE is not set")
		}
		var times int
		fmt.Sscan(args[3], &times)
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		var mu sync.Mutex
		stages := make(chan *stage, 8)
		for i := 0; i < 8; i++ {
			w, err := newStage(args[2])
			if err != nil {
				return err
			}
			stages <- w
		}
		slow := int32(0)
		return inParallel(args[0], func() interface{} { return &clCase{} }, func(n int, x interface{}) {
			if atomic.LoadInt32(&slow) > 40 { // these take their time, and the verdict is clear
				return
			}
			w := <-stages
			c := x.(*clCase)
			sig, why := runClient(c, w, n, times)
			if sig == "hang" || sig == "leak" {
				atomic.AddInt32(&slow, 1)
			}
			if sig != "" { // its servers are not to be trusted any more
				w.close()
				w, err = newStage(args[2])
				if err != nil {
					panic(err)
				}
			}
			stages <- w
			if sig != "" {
				mu.Lock()
				out.put(result{ID: n, OK: false, Sig: sig + ":" + c.C.Kind, Why: fmt.Sprintf("%+v %+v: %s", c.C, c.Script, why)})
				mu.Unlock()
			}
		})
	}
}
