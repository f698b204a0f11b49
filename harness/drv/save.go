package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	recorders["save"] = recordSave
	handlers["savebig"] = replaySaveBig
}

var errNoSpace = errors.New("no space left")

// narrowWriter takes only the first bytes.
type narrowWriter struct{ left int }

func (w *narrowWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errNoSpace
	}
	w.left -= len(p)
	return len(p), nil
}

func fileOf(es []poEntry) *translator.File {
	f := new(translator.File)
	for _, e := range es {
		f.AddEntry(e.real())
	}
	return f
}

// distinct keeps the last entry of each key, in order of first insertion.
func distinct(es []poEntry) []poEntry {
	at := map[[2]string]int{}
	var r []poEntry
	for _, e := range es {
		k := [2]string{string(e.C), string(e.Id)}
		if i, ok := at[k]; ok {
			r[i] = e
			continue
		}
		at[k] = len(r)
		r = append(r, e)
	}
	return r
}

// answers asks a catalog everything about the given entries.
func answers(f *translator.File, es []poEntry, template bool) []Bytes {
	r := []Bytes{}
	add := func(s string) { r = append(r, Bytes(s)) }
	for _, h := range []string{"Language", "Plural-Forms", "X-Y", "Content-Type", "missing"} {
		v, ok := f.GetHeader(h)
		add(fmt.Sprintf("%v|%s", ok, v))
	}
	add(f.Lang())
	if template {
		return r
	}
	for _, e := range es {
		add(f.X(string(e.C), string(e.Id)))
		add(f.X("", string(e.Id)))
		add(f.X(string(e.C)+"?", string(e.Id)))
		add(f.X(string(e.C), string(e.Id)+" "))
		for _, n := range []int64{0, 1, 2, 7} {
			add(f.XN64(string(e.C), string(e.Id), string(e.Id2), n))
		}
	}
	return r
}

func saveOnce(r *rand.Rand, what string, adds []poEntry) (line ev) {
	line = ev{"adds": adds, "panic": "", "err": false, "out": Bytes{}, "again": true, "other": true, "re": []poEntry{},
		"order": []int{}, "ans": []Bytes{}, "reans": []Bytes{}, "quiet": false}
	defer func() {
		if e := recover(); e != nil {
			line["panic"] = fmt.Sprint(e)
		}
	}()
	save, read := (*translator.File).SaveAsPo, translator.ReadPo
	switch what {
	case "pot":
		save, read = (*translator.File).SaveAsPot, translator.ReadPot
	case "mo":
		save, read = (*translator.File).SaveAsMo, translator.ReadMo
	}
	file := fileOf(adds)
	es := distinct(adds)
	out := func(f *translator.File) Bytes {
		var b bytes.Buffer
		if err := save(f, &b); err != nil {
			line["err"] = true
			line["note"] = err.Error()
		}
		return append(Bytes{}, b.Bytes()...)
	}
	o := out(file)
	line["out"], line["again"] = o, bytes.Equal(o, out(file))
	shuffled := append([]poEntry{}, es...)
	r.Shuffle(len(shuffled), func(i, j int) { shuffled[i], shuffled[j] = shuffled[j], shuffled[i] })
	line["other"] = bytes.Equal(o, out(fileOf(shuffled)))
	if len(o) > 0 {
		// a write that fails after any number of bytes is reported
		k := r.Intn(len(o))
		line["quiet"] = save(file, io.Writer(&narrowWriter{k})) == nil
	}
	order := []int{} // template order, as places in es
	for _, s := range file.SortedEntry() {
		for i, e := range es {
			if string(e.C) == s.MsgCtxt && string(e.Id) == s.MsgID {
				order = append(order, i+1)
			}
		}
	}
	line["order"] = order
	if len(es) == 0 && what != "mo" {
		return
	}
	back, err := read(o)
	if err != nil {
		line["err"] = true
		line["note"] = err.Error()
		return
	}
	line["re"] = poEntries(back)
	a, b := answers(file, es, what == "pot"), answers(back, es, what == "pot")
	before, after := []Bytes{}, []Bytes{}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			before, after = append(before, a[i]), append(after, b[i])
		}
	}
	line["ans"], line["reans"] = before, after // only those that differ
	return
}

// replaySaveBig saves a catalog beyond any buffer and reads it back.
func replaySaveBig(raw []byte) Result {
	var c struct {
		N, Len int
		What   string
	}
	must(json.Unmarshal(raw, &c))
	var es []poEntry
	for i := 0; i < c.N; i++ {
		body := strings.Repeat("word, \"and\" \\ more\n", c.Len/20) + strings.Repeat("unbroken", c.Len/16)
		e := poEntry{Cm: []Bytes{}, Id: Bytes(fmt.Sprintf("%d: %s", i, body)), S: Bytes(body + "."), N: []Bytes{}}
		if c.What != "mo" {
			e.Cm = []Bytes{Bytes("# " + strings.Repeat("c", c.Len))}
		}
		if i%3 == 1 {
			e.Pl, e.Id2, e.S, e.N = true, Bytes("s"+body), Bytes{}, []Bytes{Bytes(body), Bytes("x" + body)}
		}
		es = append(es, e)
	}
	line := saveOnce(rand.New(rand.NewSource(1)), c.What, es)
	var cmp comparer
	cmp.eq(c.What, "panic", line["panic"], "")
	cmp.eq(c.What, "error", line["err"], false)
	cmp.eq(c.What, "same bytes again", line["again"], true)
	cmp.eq(c.What, "same bytes whatever the order of insertion", line["other"], true)
	cmp.eq(c.What, "unnoticed write failure", line["quiet"], false)
	re := line["re"].([]poEntry)
	if c.What == "pot" { // the translations are not part of a template
		for _, s := range [][]poEntry{es, re} {
			for i := range s {
				s[i].S, s[i].N = Bytes{}, []Bytes{}
			}
		}
	}
	cmp.eq(c.What, "entries read back are the same", showEntries(re) == showEntries(es), true)
	cmp.eq(c.What, "answers that differ", len(line["ans"].([]Bytes)), 0)
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n, Note: fmt.Sprintf("saving %d entries with texts of %d bytes as %s: %s %v", c.N, c.Len, c.What, cmp.diffs[0].What, line["note"])}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

func recordSave(r *rand.Rand, n int, emit func(any)) {
	what := opts["what"]
	if path := opts["cases"]; path != "" {
		in, err := os.Open(path)
		check(err)
		defer in.Close()
		sc := bufio.NewScanner(in)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			raw := sc.Bytes()
			if raw[0] == '"' {
				var s string
				check(json.Unmarshal(raw, &s))
				raw = []byte(s)
			}
			var c struct{ Adds []poEntry }
			check(json.Unmarshal(raw, &c))
			emit(saveOnce(r, what, c.Adds))
		}
		check(sc.Err())
		return
	}
	txt := func(m int) Bytes {
		b := poRandText(r, m)
		if r.Intn(6) == 0 { // around the width of a line
			pad := strings.Repeat("wide word ", 12)[:60+r.Intn(50)]
			if r.Intn(3) == 0 {
				pad = strings.ReplaceAll(pad, " ", "_")
			}
			k := 0
			if len(b) > 0 {
				k = r.Intn(len(b) + 1)
			}
			b = append(append(append(Bytes{}, b[:k]...), pad...), b[k:]...)
		}
		if what == "mo" {
			b = bytes.ReplaceAll(b, []byte{0}, []byte{'0'})
			b = bytes.ReplaceAll(b, []byte{4}, []byte{'4'})
		}
		return append(Bytes{}, b...)
	}
	for i := 0; i < n; i++ {
		es := poRandEntries(r, 5, txt)
		for k := range es {
			e := &es[k]
			if what != "po" && !e.Pl && len(e.Id)+len(e.C) > 0 && r.Intn(3) == 0 {
				e.S = Bytes{}
			}
			if r.Intn(3) == 0 {
				pos := fmt.Sprintf("#: %s:%d", []string{"a.go", "b/c.html", "a.go"}[r.Intn(3)], r.Intn([]int{130, 130, 130, 12000, 999999999}[r.Intn(5)]))
				for j := r.Intn(3); j > 0; j-- {
					pos += fmt.Sprintf(":%d", r.Intn(30))
				}
				if r.Intn(4) == 0 {
					pos += " z.go:7"
				}
				e.Cm = []Bytes{Bytes(pos)}
				for r.Intn(3) == 0 {
					e.Cm = append(e.Cm, Bytes(fmt.Sprintf("#: %s:%d", []string{"a.go", "z.go"}[r.Intn(2)], r.Intn(40))))
				}
			}
			if r.Intn(6) == 0 { // replaced later on
				d := *e
				d.Cm = []Bytes{}
				if !d.Pl {
					d.S = append(append(Bytes{}, d.S...), '!')
				}
				es = append(es, d)
			}
		}
		emit(saveOnce(r, what, es))
	}
}
