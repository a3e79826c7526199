package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The stage on which clients play: servers on the loopback interface, with certificates made for the occasion.

type pair struct{ cert, key []byte }

func makeCert(ca *x509.Certificate, cakey *ecdsa.PrivateKey, names []string, ips []net.IP, from, to time.Time, serial int64) (pair, *x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "verif"}, NotBefore: from, NotAfter: to, DNSNames: names, IPAddresses: ips,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	signer, signKey := ca, cakey
	if ca == nil {
		t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature, nil
		signer, signKey = t, key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, signer, &key.PublicKey, signKey)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	kb, _ := x509.MarshalECPrivateKey(key)
	return pair{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})}, c, key
}

var certNames = []string{"good", "untrusted", "wronghost", "expired"}

func makeCerts(dir string) error {
	now := time.Now()
	from, to := now.Add(-time.Hour), now.Add(240*time.Hour)
	here := []net.IP{net.IPv4(127, 0, 0, 1)}
	ca, cac, cak := makeCert(nil, nil, nil, nil, from, to, 1)
	_, oc, ok := makeCert(nil, nil, nil, nil, from, to, 2)
	ps := map[string]pair{}
	ps["good"], _, _ = makeCert(cac, cak, []string{"localhost"}, here, from, to, 3)
	ps["untrusted"], _, _ = makeCert(oc, ok, []string{"localhost"}, here, from, to, 4)
	ps["wronghost"], _, _ = makeCert(cac, cak, []string{"ofx.example.com"}, []net.IP{net.IPv4(10, 1, 2, 3)}, from, to, 5)
	ps["expired"], _, _ = makeCert(cac, cak, []string{"localhost"}, here, now.Add(-300*time.Hour), now.Add(-time.Hour), 6)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for n, p := range ps {
		if err := os.WriteFile(filepath.Join(dir, n+".crt"), p.cert, 0o644); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, n+".key"), p.key, 0o644); err != nil {
			return err
		}
	}
	return os.WriteFile(filepath.Join(dir, "ca.pem"), ca.cert, 0o644)
}

// seen is one request as a server got it.
type seen struct {
	Srv    string
	Method string
	Target string
	Head   []string // header lines in order
	Body   []byte
}

func (s *seen) header(name string) (string, int) {
	v, n := "", 0
	for _, h := range s.Head {
		i := strings.IndexByte(h, ':')
		if i > 0 && strings.EqualFold(h[:i], name) {
			if n == 0 {
				v = strings.TrimSpace(h[i+1:])
			}
			n++
		}
	}
	return v, n
}

// answer is what a server does about a request.
type answer struct {
	hangup bool
	raw    []byte // sent instead of a proper answer
	status int
	header []string
	body   []byte
	frame  string         // cl, chunked, close, short, gzip, none
	close  bool           // close the connection afterwards
	hold   func(part int) // called before each half of the answer is sent
}

func (a *answer) bytes() ([]byte, bool) {
	if a.raw != nil {
		return a.raw, a.close
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d Status\r\n", a.status)
	for _, h := range a.header {
		b.WriteString(h + "\r\n")
	}
	body, shut := a.body, a.close
	switch a.frame {
	case "cl":
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	case "gzip":
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(body)
		w.Close()
		fmt.Fprintf(&b, "Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len())
		b.Write(z.Bytes())
	case "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for rest := body; len(rest) > 0; {
			n := len(rest)
			if n > 700 {
				n = 700
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n\r\n")
	case "close":
		b.WriteString("Connection: close\r\n\r\n")
		b.Write(body)
		shut = true
	case "short": // the connection breaks before all of it is there
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body)+500)
		b.Write(body[:len(body)/2])
		shut = true
	case "none":
		b.WriteString("\r\n")
	}
	return b.Bytes(), shut
}

type site struct {
	name string
	ln   net.Listener
	tls  *tls.Config // nil: plaintext
	w    *stage
	open map[net.Conn]bool
	cs   int // connections accepted
}

func (s *site) port() int    { return s.ln.Addr().(*net.TCPAddr).Port }
func (s *site) host() string { return fmt.Sprintf("127.0.0.1:%d", s.port()) }

// stage is a set of servers that play one script between them.
type stage struct {
	mu    sync.Mutex
	sites map[string]*site
	log   []*seen
	plain []byte // what arrived in the clear
	bad   string // requests that reached a server that must not get any
	play  func(w *stage, s *seen) *answer
	limit int // requests it answers at most (40, unless there is reason for more)
}

func newStage(dir string) (*stage, error) {
	w := &stage{sites: map[string]*site{}}
	for name, cert := range map[string]string{"main": "good", "other": "good", "untrusted": "untrusted", "wronghost": "wronghost", "expired": "expired", "trap": ""} {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		s := &site{name: name, ln: ln, w: w, open: map[net.Conn]bool{}}
		if cert != "" {
			kp, err := tls.LoadX509KeyPair(filepath.Join(dir, cert+".crt"), filepath.Join(dir, cert+".key"))
			if err != nil {
				return nil, err
			}
			s.tls = &tls.Config{Certificates: []tls.Certificate{kp}}
		}
		w.sites[name] = s
		go s.serve()
	}
	return w, nil
}

func (w *stage) reset(play func(w *stage, s *seen) *answer) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log, w.plain, w.bad, w.play = nil, nil, "", play
	for _, s := range w.sites {
		s.cs = 0
	}
}

// take gives what has happened so far and forgets it.
func (w *stage) take() (log []*seen, plain []byte, bad string, conns map[string]int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	conns = map[string]int{}
	for n, s := range w.sites {
		conns[n], s.cs = s.cs, 0
	}
	log, plain, bad = w.log, w.plain, w.bad
	w.log, w.plain, w.bad = nil, nil, ""
	return
}

// idle waits until at most n connections of each site are open; it returns the most it found in the end.
func (w *stage) idle(n int, within time.Duration, rest func()) int {
	end := time.Now().Add(within)
	for {
		most := 0
		rest()
		w.mu.Lock()
		for _, s := range w.sites {
			if len(s.open) > most {
				most = len(s.open)
			}
		}
		w.mu.Unlock()
		if most <= n || time.Now().After(end) {
			return most
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// close ends the stage.
func (w *stage) close() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.sites {
		s.ln.Close()
		for c := range s.open {
			c.Close()
		}
	}
}

func (s *site) serve() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.w.mu.Lock()
		s.cs++
		s.open[c] = true
		s.w.mu.Unlock()
		go func() {
			defer func() {
				c.Close()
				s.w.mu.Lock()
				delete(s.open, c)
				s.w.mu.Unlock()
			}()
			s.handle(c)
		}()
	}
}

func (s *site) handle(c net.Conn) {
	rc := c
	if s.tls == nil {
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			s.w.mu.Lock()
			if len(s.w.plain) > 0 || n > 0 && buf[0] != 0x16 { // a TLS client's greeting gives nothing away
				s.w.plain = append(s.w.plain, buf[:n]...)
			}
			s.w.mu.Unlock()
			if err != nil {
				return
			}
			if buf[0] == 0x16 {
				return
			}
			c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"))
			return
		}
	}
	tc := tls.Server(c, s.tls)
	if err := tc.Handshake(); err != nil {
		return
	}
	rc = tc
	br := bufio.NewReader(rc)
	for {
		q, err := readRequest(br)
		if err != nil {
			return
		}
		q.Srv = s.name
		s.w.mu.Lock()
		if s.name != "main" && s.name != "other" {
			s.w.bad += fmt.Sprintf("%s %s at %s; ", q.Method, q.Target, s.name)
			s.w.mu.Unlock()
			return
		}
		s.w.log = append(s.w.log, q)
		var a *answer
		if len(s.w.log) > 40 && len(s.w.log) > s.w.limit || s.w.play == nil {
			a = &answer{hangup: true}
		} else {
			a = s.w.play(s.w, q)
		}
		s.w.mu.Unlock()
		if a.hangup {
			return
		}
		b, shut := a.bytes()
		if a.hold != nil {
			a.hold(1)
			rc.Write(b[:len(b)/2])
			a.hold(2)
			b = b[len(b)/2:]
		}
		rc.Write(b)
		if shut {
			return
		}
	}
}

func readRequest(br *bufio.Reader) (*seen, error) {
	line := func() (string, error) {
		s, err := br.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	first, err := line()
	if err != nil {
		return nil, err
	}
	q := &seen{}
	if i, j := strings.IndexByte(first, ' '), strings.LastIndexByte(first, ' '); i > 0 && j > i {
		q.Method, q.Target = first[:i], first[i+1:j]
	}
	for {
		h, err := line()
		if err != nil {
			return nil, err
		}
		if h == "" {
			break
		}
		q.Head = append(q.Head, h)
	}
	if v, n := q.header("Transfer-Encoding"); n > 0 && strings.EqualFold(v, "chunked") {
		for {
			h, err := line()
			if err != nil {
				return nil, err
			}
			n, err := strconv.ParseInt(strings.TrimSpace(h), 16, 32)
			if err != nil {
				return nil, err
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(br, b); err != nil {
				return nil, err
			}
			if n == 0 {
				break
			}
			q.Body = append(q.Body, b[:n]...)
		}
	} else if v, n := q.header("Content-Length"); n > 0 {
		k, err := strconv.Atoi(v)
		if err != nil {
			return nil, err
		}
		q.Body = make([]byte, k)
		if _, err := io.ReadFull(br, q.Body); err != nil {
			return nil, err
		}
	}
	return q, nil
}

func init() {
	commands["certs"] = func(args []string) error { return makeCerts(args[0]) }
}
