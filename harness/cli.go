package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The ofx command-line tool, run against the stage.

type cliCase struct {
	Op  string `json:"op"`
	Cmd string `json:"cmd"`
	F   smap   `json:"f"`
	Ans struct {
		What   string `json:"what"`
		Status int    `json:"status"`
		Body   string `json:"body"`
		Frame  string `json:"frame"`
	} `json:"ans"`
	File    string        `json:"file"`
	Dry     bool          `json:"dry"`
	Ver     int           `json:"ver"`
	Toks    []string      `json:"toks"`
	Want    string        `json:"want"`
	Entries [][][2]string `json:"entries"`
	Sends   bool          `json:"sends"`
	After   string        `json:"after"`
}

type cliRun struct {
	out  string
	exit int
	died string
}

// ofx runs the tool in directory dir.
func ofx(bin, dir, certs string, within time.Duration, args ...string) cliRun {
	ctx, cancel := context.WithTimeout(context.Background(), within)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "NO_PROXY=*", "TZ=UTC", "SSL_CERT_FILE=" + filepath.Join(certs, "ca.pem"), "SSL_CERT_DIR=" + dir, "GOTRACEBACK=single"}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := cliRun{out: b.String()}
	if ctx.Err() != nil {
		r.died = "does not end"
		return r
	}
	if e, ok := err.(*exec.ExitError); ok {
		r.exit = e.ExitCode()
		if r.exit < 0 {
			r.died = "was killed: " + e.String()
		}
	} else if err != nil {
		r.died = err.Error()
	}
	if strings.Contains(r.out, "goroutine 1 [") || strings.Contains(r.out, "\npanic: ") || strings.HasPrefix(r.out, "panic: ") || strings.Contains(r.out, "fatal error: ") && r.exit == 2 {
		r.died = "crashes"
	}
	return r
}

var (
	reDate = regexp.MustCompile(`^[0-9.]+(\[[^\]]*\])?`)
	reNum  = regexp.MustCompile(`^-?[0-9][0-9.]*`)
)

// lineFits reports whether a line shows the items in order, with nothing in between that could be a value itself.
func lineFits(line string, items [][2]string) bool {
	return fitsFrom(strings.TrimSpace(line), items, true)
}

func fitsFrom(s string, items [][2]string, first bool) bool {
	if len(items) == 0 {
		return !strings.ContainsAny(s, "0123456789")
	}
	kind, v := items[0][0], items[0][1]
	if kind == "rest" {
		return strings.TrimSpace(s) == strings.TrimSpace(v)
	}
	for i := 0; i <= len(s) && i < 60; i++ {
		if i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
			return false
		}
		t := s[i:]
		switch kind {
		case "lit":
			if strings.HasPrefix(t, v) && fitsFrom(t[len(v):], items[1:], false) {
				return true
			}
		case "date", "amt":
			re := reNum
			if kind == "date" {
				re = reDate
			}
			if i > 0 && s[i-1] == '-' {
				continue // the sign belongs to the number
			}
			if m := re.FindString(t); m != "" {
				if x, err := decodeLeaf(kind, m); err == nil {
					if c, _ := canon(x); c == v && fitsFrom(t[len(m):], items[1:], false) {
						return true
					}
				}
			}
		}
	}
	return false
}

// listed compares the lines of a listing with the entries it must have.
func listed(out string, entries [][][2]string) string {
	n := 0
	for _, line := range strings.Split(out, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		if n < len(entries) && lineFits(line, entries[n]) {
			n++
		} else if strings.ContainsAny(line, "0123456789") {
			want := "the end"
			if n < len(entries) {
				want = fmt.Sprint(entries[n])
			}
			return fmt.Sprintf("line %q, must be %s", line, want)
		}
	}
	if n < len(entries) {
		return fmt.Sprintf("entry %d of %d is missing: %v", n+1, len(entries), entries[n])
	}
	return ""
}

func cliBody(c *cliCase) []byte {
	if c.Ans.Body == "binary" {
		b := make([]byte, 3000)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return b
	}
	if len(c.Toks) > 0 && (c.Ans.Body == "doc" || c.Ans.Body == "cut") {
		text := header(c.Ver) + spellToks(c.Toks)
		if c.Ans.Body == "cut" {
			text = text[:strings.LastIndex(text, "</")]
		}
		return []byte(text)
	}
	if c.Ans.Body == "doc" {
		return clBody("good", 1)
	}
	return clBody(c.Ans.Body, 1)
}

var oldContents = bytes.Repeat([]byte("what was in the file before\r\n"), 400)

func runCli(c *cliCase, no int, bin, certs, top string, w *stage, put func(map[string]interface{})) (sig, why string) {
	dir, err := os.MkdirTemp(top, "run")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args := []string{c.Cmd}
	var names []string
	for k := range c.F {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v := c.F[k]
		if k == "url" {
			v = clURL(v, "/ofx", w)
		}
		args = append(args, "-"+k+"="+v)
	}
	if c.Dry {
		args = append(args, "-dryrun")
	}
	out := filepath.Join(dir, "response.ofx")
	prior := false
	if _, given := c.F["filename"]; !given && strings.HasPrefix(c.Cmd, "download") {
		switch c.File {
		case "new":
			out = filepath.Join(dir, "saved here")
		case "prior":
			out, prior = filepath.Join(dir, "old.ofx"), true
		case "nodir":
			out = filepath.Join(dir, "no such directory", "x.ofx")
		case "isdir":
			out = dir
		case "full":
			out = "/dev/full"
		}
		if c.File != "default" {
			args = append(args, "-filename="+out)
		}
	}
	if prior {
		if err := os.WriteFile(out, oldContents, 0o644); err != nil {
			panic(err)
		}
	}
	body := cliBody(c)
	w.reset(func(w *stage, s *seen) *answer {
		return clReply(clAnswer{What: c.Ans.What, Status: c.Ans.Status, Body: c.Ans.Body, Frame: c.Ans.Frame}, 1, s.Srv, w).with(body)
	})
	lo := time.Now()
	r := ofx(bin, dir, certs, 60*time.Second, args...)
	hi := time.Now()
	log, plain, bad, conns := w.take()
	shown := fmt.Sprintf("ofx %s: exit %d, output %q", strings.Join(args, " "), r.exit, clip(r.out))
	if r.died != "" {
		return "died", r.died + ": " + shown
	}
	if len(plain) > 0 || bad != "" {
		return "sent", fmt.Sprintf("sent to the wrong server: %q %s: %s", plain, bad, shown)
	}
	if c.Dry {
		for n, k := range conns {
			if k > 0 {
				return "sent", "a dry run connects to " + n + ": " + shown
			}
		}
	}
	if c.Sends && len(log) != 1 || !c.Sends && len(log) > 0 {
		return "sent", fmt.Sprintf("%d requests were sent: %s", len(log), shown)
	}
	_, cr := c.F["carriagereturn"]
	_, noindent := c.F["noindent"]
	ask := func(text string) {
		put(map[string]interface{}{"op": "ask", "cmd": c.Cmd, "f": narrow(c.F), "lo": dayMs(lo), "hi": dayMs(hi), "at": shown, "doc": wire(c.Ver, !noindent, cr, text, nil)})
	}
	if len(log) == 1 {
		if log[0].Method != "POST" {
			return "sent", "not a POST: " + shown
		}
		if ua := c.F["useragent"]; ua != "" {
			if got, _ := log[0].header("User-Agent"); got != ua {
				return "agent", fmt.Sprintf("the User-Agent is %q: %s", got, shown)
			}
		}
		ask(string(log[0].Body))
	}
	if r.exit != 0 && strings.TrimSpace(r.out) == "" {
		return "silent", "fails without a word: " + shown
	}
	switch c.Want {
	case "fail":
		if r.exit == 0 {
			return "success", "must fail: " + shown
		}
	case "list", "save", "dry":
		if r.exit != 0 {
			return "failure", "must succeed: " + shown
		}
	}
	if c.Want == "list" || c.Want == "either" && r.exit == 0 {
		if why := listed(r.out, c.Entries); why != "" {
			return "listing", why + ": " + shown
		}
	}
	if c.Want == "dry" {
		i := strings.LastIndex(r.out, "</OFX>")
		if i < 0 || strings.TrimSpace(r.out[i+6:]) != "" {
			return "dry", "does not end with the request: " + shown
		}
		ask(r.out[:i+6])
	}
	switch c.After {
	case "reply":
		got, err := os.ReadFile(out)
		if err != nil {
			return "file", err.Error() + ": " + shown
		}
		if !bytes.Equal(got, body) {
			return "file", fmt.Sprintf("the file holds %d bytes %q, the reply %d bytes %q: %s", len(got), clip(string(got)), len(body), clip(string(body)), shown)
		}
	case "kept":
		if prior {
			if got, err := os.ReadFile(out); err != nil || !bytes.Equal(got, oldContents) {
				return "file", fmt.Sprintf("the file is overwritten (%d bytes, %v): %s", len(got), err, shown)
			}
		}
		if c.Dry {
			if es, _ := os.ReadDir(dir); len(es) > 0 && !prior || len(es) > 1 {
				return "file", "a dry run leaves files: " + shown
			}
		}
	}
	return "", ""
}

func (a *answer) with(body []byte) *answer {
	if a.raw == nil {
		a.body = body
	}
	return a
}

// ---- detect-settings

type detectCase struct {
	Op      string `json:"op"`
	F       smap   `json:"f"`
	Accept  int    `json:"accept"` // the request that is accepted, counted from 1; 0: none
	Rejects []int  `json:"rejects"`
}

const signonDoc = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>%d</CODE><SEVERITY>%s</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>
<PROFMSGSRSV1><PROFTRNRS><TRNUID>%s</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST></MSGSETLIST><DTPROFUP>20060101</DTPROFUP><FINAME>x</FINAME><ADDR1>x</ADDR1><CITY>x</CITY><STATE>x</STATE><POSTALCODE>1</POSTALCODE><COUNTRY>USA</COUNTRY></PROFRS></PROFTRNRS></PROFMSGSRSV1>
</OFX>
`

func rejection(kind int) *answer {
	a := &answer{status: 200, frame: "cl", header: []string{"Content-Type: application/x-ofx"}}
	switch kind {
	case 1:
		a.status, a.body = 400, []byte("no")
	case 2:
		a.status, a.body = 500, []byte(fmt.Sprintf(signonDoc, 0, "INFO", "1"))
	case 3:
		a.body = clBody("junk", 1)
	case 4:
	case 5:
		a.body = []byte(fmt.Sprintf(signonDoc, 15500, "ERROR", "1"))
	case 6:
		d := fmt.Sprintf(signonDoc, 0, "INFO", "1")
		a.body = []byte(d[:strings.Index(d, "<CITY>")])
	case 7:
		a.body = []byte(fmt.Sprintf(signonDoc, 0, "INFO", ""))
	case 8:
		return &answer{hangup: true}
	case 9:
		a.status, a.frame, a.body = 403, "close", []byte(fmt.Sprintf(signonDoc, 0, "INFO", "1"))
	case 10:
		a.body, a.frame = []byte(fmt.Sprintf(signonDoc, 0, "INFO", "1")), "short"
	default:
		a.body = []byte(fmt.Sprintf(signonDoc, 2000, "ERROR", "1"))
	}
	return a
}

var (
	reSetting = regexp.MustCompile(`(?m)^(AppID|AppVer|OFX Version|noindent): *(.*?) *$`)
	reField   = regexp.MustCompile(`<(APPID|APPVER|USERID|USERPASS)>([^<\r\n]*)`)
	reVersion = regexp.MustCompile(`VERSION[:=]"?(\d+)`)
)

func runDetect(c *detectCase, no int, bin, certs, top string, w *stage, put func(map[string]interface{})) (sig, why string) {
	dir, err := os.MkdirTemp(top, "run")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args := []string{"detect-settings", "-delay=0", "-url=" + clURL("tls", "/ofx", w)}
	for _, k := range []string{"username", "password", "org", "fid"} {
		if v, ok := c.F[k]; ok {
			args = append(args, "-"+k+"="+v)
		}
	}
	w.reset(func(w *stage, s *seen) *answer {
		n := len(w.log)
		if n == c.Accept {
			return &answer{status: 200, frame: "cl", body: []byte(fmt.Sprintf(signonDoc, 0, "INFO", "1"))}
		}
		return rejection(c.Rejects[(n-1)%len(c.Rejects)])
	})
	w.limit = 3000
	defer func() { w.limit = 0 }()
	lo := time.Now()
	r := ofx(bin, dir, certs, 240*time.Second, args...)
	hi := time.Now()
	log, plain, bad, _ := w.take()
	shown := fmt.Sprintf("ofx %s (request %d of %d accepted): exit %d, output ends %q", strings.Join(args, " "), c.Accept, len(log), r.exit, tail(r.out, 300))
	if r.died != "" {
		return "died", r.died + ": " + shown
	}
	if len(plain) > 0 || bad != "" {
		return "sent", fmt.Sprintf("sent to the wrong server: %q %s: %s", plain, bad, shown)
	}
	tries := [][]string{}
	for i, s := range log {
		text := string(s.Body)
		f := map[string]string{}
		for _, m := range reField.FindAllStringSubmatch(text, -1) {
			f[m[1]] = unescapeXML(strings.TrimSpace(m[2]))
		}
		ver := "none"
		if m := reVersion.FindAllStringSubmatch(text, -1); len(m) > 0 {
			ver = m[len(m)-1][1]
			if strings.HasPrefix(text, "OFXHEADER") {
				ver = m[0][1]
			}
		}
		ind := "no"
		if j := strings.Index(text, "<OFX>"); j >= 0 && strings.HasPrefix(text[j+5:], "\n") {
			ind = "yes"
		}
		tries = append(tries, []string{f["APPID"], f["APPVER"], ver, ind, strings.ReplaceAll(f["USERID"], wide, wideMark), strings.ReplaceAll(f["USERPASS"], wide, wideMark)})
		if i < 2 || (i+no)%97 == 0 || i == len(log)-1 {
			put(map[string]interface{}{"op": "try", "f": narrow(c.F), "i": i, "lo": dayMs(lo), "hi": dayMs(hi), "at": fmt.Sprintf("request %d of %s", i+1, shown), "doc": wire(203, ind == "yes", false, text, nil)})
		}
	}
	found := map[string]string{"AppID": "", "AppVer": "", "OFX Version": "", "noindent": ""}
	times := 0
	for _, m := range reSetting.FindAllStringSubmatch(r.out, -1) {
		found[m[1]] = m[2]
		times++
	}
	if r.exit != 0 && strings.TrimSpace(r.out) == "" {
		return "silent", "fails without a word: " + shown
	}
	put(map[string]interface{}{"op": "detect", "f": narrow(c.F), "accept": c.Accept, "tries": tries, "exit": r.exit, "lines": times,
		"id": found["AppID"], "appver": found["AppVer"], "ver": found["OFX Version"], "noindent": found["noindent"], "at": shown})
	return "", ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func init() {
	// cli CASES RESULTS CERTS TRACE OFX
	commands["cli"] = func(args []string) error {
		if _, err := os.Stat(filepath.Join(args[2], "ca.pem")); err != nil {
			return errors.New("no certificates")
		}
		out, err := newJSONWriter(args[1])
		if err != nil {
			return err
		}
		defer out.close()
		tr, err := newJSONWriter(args[3])
		if err != nil {
			return err
		}
		defer tr.close()
		top, err := os.MkdirTemp(filepath.Dir(args[1]), "cli")
		if err != nil {
			return err
		}
		defer os.RemoveAll(top)
		var mu sync.Mutex
		stages := make(chan *stage, 8)
		for i := 0; i < 8; i++ {
			w, err := newStage(args[2])
			if err != nil {
				return err
			}
			stages <- w
		}
		return inParallel(args[0], func() interface{} { return &json.RawMessage{} }, func(n int, x interface{}) {
			w := <-stages
			defer func() { stages <- w }()
			var events []map[string]interface{}
			put := func(e map[string]interface{}) { events = append(events, e) }
			raw := *x.(*json.RawMessage)
			var sig, why string
			if bytes.Contains(raw, []byte(`"op": "detect"`)) {
				c := &detectCase{}
				if err := json.Unmarshal(raw, c); err != nil {
					panic(err)
				}
				sig, why = runDetect(c, n, args[4], args[2], top, w, put)
			} else {
				c := &cliCase{}
				if err := json.Unmarshal(raw, c); err != nil {
					panic(err)
				}
				sig, why = runCli(c, n, args[4], args[2], top, w, put)
				if sig != "" {
					sig += ":" + c.Cmd
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for _, e := range events {
				e["at"] = strings.Trim(strconv.QuoteToASCII(fmt.Sprintf("case %d: %s", n, e["at"])), `"`)
				tr.put(e)
			}
			if sig != "" {
				out.put(result{ID: n, OK: false, Sig: sig, Why: why})
			}
		})
	}
}
