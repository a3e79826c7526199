// Command vh is the conformance harness: it replays behaviours generated from
// the TLA+ specification into github.com/aclindsa/ofxgo (built from /repo's
// working tree) and records traces of the real code for TLC to judge.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"time"
)

type cmdFunc func(args []string) error

var commands = map[string]cmdFunc{}

func main() {
	if len(os.Args) < 2 {
		var names []string
		for n := range commands {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "usage: vh COMMAND ...; commands:", names)
		os.Exit(2)
	}
	f, ok := commands[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
	go func() { // runaway memory is a finding, not a reason to be killed silently
		for range time.Tick(200 * time.Millisecond) {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				fmt.Fprintln(os.Stderr, "fatal error: memory use runs away")
				os.Exit(3)
			}
		}
	}()
	if err := f(os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(2)
	}
}

// eachLine calls f with every line of a file.
func eachLine(path string, f func(n int, line []byte) error) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		n++
		if err := f(n, sc.Bytes()); err != nil {
			return err
		}
	}
	return sc.Err()
}

type jsonWriter struct {
	f *os.File
	w *bufio.Writer
	e *json.Encoder
}

func newJSONWriter(path string) (*jsonWriter, error) {
	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	w := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	return &jsonWriter{f, w, e}, nil
}

func (j *jsonWriter) put(v interface{}) {
	if err := j.e.Encode(v); err != nil {
		panic(err)
	}
}

func (j *jsonWriter) close() {
	if err := j.w.Flush(); err != nil {
		panic(err)
	}
	j.f.Close()
}

// Result of one replayed behaviour.
type result struct {
	ID  int    `json:"id"`
	OK  bool   `json:"ok"`
	Why string `json:"why,omitempty"`
	Sig string `json:"sig,omitempty"` // identifies what failed, for known findings
	Got string `json:"got,omitempty"`
}
