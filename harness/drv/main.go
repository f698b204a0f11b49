// Command verifdrv binds the TLA+ specifications in /verif/spec to the real
// code.  It is compiled into /repo's modules with `go build -overlay`, so it
// always runs the current working tree, and it only uses exported API.
//
//	verifdrv replay -cases F -out F [-shard i/n] [-progress F] [key=value ...]
//	    runs every case that TLC generated and compares the answers
//	verifdrv record -kind K -out F -seed S -n N [key=value ...]
//	    performs random calls and logs them for trace validation by TLC
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Result is what a handler reports for one case.
type Result struct {
	Verdict string `json:"v"`             // ok, bad, dev
	Finding string `json:"f,omitempty"`   // for dev: which recorded finding
	Obs     any    `json:"obs,omitempty"` // what the real code did
	Exp     any    `json:"exp,omitempty"` // what the specification demands
	Note    string `json:"note,omitempty"`
	Checks  int    `json:"-"` // comparisons made
}

type handler func(raw []byte) Result

var handlers = map[string]handler{}
var recorders = map[string]func(r *rand.Rand, n int, emit func(v any)){}
var opts = map[string]string{} // key=value arguments

func opt(k, def string) string {
	if v, ok := opts[k]; ok {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifdrv replay|record ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	cases := fs.String("cases", "", "")
	out := fs.String("out", "", "")
	shard := fs.String("shard", "0/1", "")
	progress := fs.String("progress", "", "")
	kind := fs.String("kind", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	limit := fs.Duration("limit", 20*time.Second, "time limit of one case")
	fs.Parse(os.Args[2:])
	for _, a := range fs.Args() {
		if i := strings.IndexByte(a, '='); i > 0 {
			opts[a[:i]] = a[i+1:]
		}
	}
	switch os.Args[1] {
	case "replay":
		replay(*cases, *out, *shard, *progress, *limit)
	case "record":
		record(*kind, *out, *seed, *n)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

var current atomic.Int64 // line being run, for the watchdog
var startedAt atomic.Int64

func replay(cases, out, shard, progress string, limit time.Duration) {
	var si, sn int
	fmt.Sscanf(shard, "%d/%d", &si, &sn)
	in, err := os.Open(cases)
	check(err)
	defer in.Close()
	o, err := os.Create(out)
	check(err)
	w := bufio.NewWriter(o)
	enc := json.NewEncoder(w)
	var pf *os.File
	if progress != "" {
		pf, err = os.Create(progress)
		check(err)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			s := startedAt.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				fmt.Fprintf(os.Stderr, "HANG case %d\n", current.Load())
				os.Exit(42)
			}
		}
	}()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var line, count, checks, ok int64
	var buf [8]byte
	for sc.Scan() {
		line++
		if line%int64(sn) != int64(si) {
			continue
		}
		raw := sc.Bytes()
		if len(raw) == 0 {
			continue
		}
		if raw[0] == '"' { // TLC's CSVWrite quotes the JSON once more
			var s string
			check(json.Unmarshal(raw, &s))
			raw = []byte(s)
		}
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(line))
			pf.WriteAt(buf[:], 0)
		}
		current.Store(line)
		startedAt.Store(time.Now().UnixNano())
		r := runCase(raw)
		startedAt.Store(0)
		count++
		checks += int64(r.Checks)
		if r.Verdict == "ok" {
			ok++
			continue
		}
		enc.Encode(map[string]any{"i": line, "case": json.RawMessage(bytes.Clone(raw)), "r": r})
	}
	check(sc.Err())
	enc.Encode(map[string]any{"done": true, "count": count, "checks": checks, "ok": ok})
	check(w.Flush())
	check(o.Close())
}

func runCase(raw []byte) (r Result) {
	var k struct {
		K string `json:"k"`
	}
	check(json.Unmarshal(raw, &k))
	h, found := handlers[k.K]
	if !found {
		fmt.Fprintf(os.Stderr, "no handler for %q\n", k.K)
		os.Exit(2)
	}
	defer func() {
		if e := recover(); e != nil {
			if de, isDrv := e.(driverError); isDrv {
				fmt.Fprintln(os.Stderr, "driver error:", de)
				os.Exit(2)
			}
			r = Result{Verdict: "bad", Obs: fmt.Sprintf("panic: %v", e), Note: "the code under test panicked"}
		}
	}()
	return h(raw)
}

type driverError string

// must is for failures of the harness itself, never of the code under test.
func must(err error) {
	if err != nil {
		panic(driverError(err.Error()))
	}
}

func record(kind, out string, seed int64, n int) {
	rec, found := recorders[kind]
	if !found {
		fmt.Fprintf(os.Stderr, "no recorder for %q\n", kind)
		os.Exit(2)
	}
	o, err := os.Create(out)
	check(err)
	w := bufio.NewWriter(o)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	rec(rand.New(rand.NewSource(seed)), n, func(v any) { check(enc.Encode(v)) })
	check(w.Flush())
	check(o.Close())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver error:", err)
		os.Exit(2)
	}
}

// Bytes is a byte string written as a JSON array of numbers, which is how the
// specifications see text.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	var buf bytes.Buffer
	buf.WriteByte('[')
	for i, c := range b {
		if i > 0 {
			buf.WriteByte(',')
		}
		fmt.Fprint(&buf, c)
	}
	buf.WriteByte(']')
	return buf.Bytes(), nil
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var ints []int
	if err := json.Unmarshal(data, &ints); err != nil {
		return err
	}
	*b = make([]byte, len(ints))
	for i, v := range ints {
		(*b)[i] = byte(v)
	}
	return nil
}

func (b Bytes) String() string { return string(b) }

// i64 converts between int64 and the eight little-endian bytes of the specs.
func i64(b Bytes) int64 { return int64(binary.LittleEndian.Uint64(b)) }
func b64(v int64) Bytes {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return b[:]
}
