package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	handlers["mo"] = replayMo
	handlers["mobig"] = replayMoBig
	handlers["mogood"] = replayMoGood
	recorders["mo"] = recordMo
}

// readMoMeasured reads and returns how many bytes were allocated meanwhile.
func readMoMeasured(file []byte) (f *translator.File, err error, allocated uint64) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f, err = translator.ReadMo(file)
	runtime.ReadMemStats(&b)
	return f, err, b.TotalAlloc - a.TotalAlloc
}

// moBudget is what reading n bytes may allocate.
func moBudget(n int) uint64 { return 4<<20 + 1000*uint64(n) }

func withoutComments(es []poEntry) []poEntry {
	for i := range es {
		es[i].Cm = []Bytes{}
	}
	return es
}

func replayMo(raw []byte) Result {
	var c struct {
		File Bytes
		St   string
		Ents []poEntry
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	f, err, used := readMoMeasured(c.File)
	if used > moBudget(len(c.File)) {
		cmp.eq("ReadMo", "allocated bytes", used, moBudget(len(c.File)))
	}
	switch c.St {
	case "ok":
		cmp.eq("ReadMo", "error", fmt.Sprint(err), "<nil>")
	case "err":
		cmp.eq("ReadMo", "is an error", err != nil, true)
	}
	if err == nil && (c.St == "ok" || c.St == "lax") {
		cmp.eq("ReadMo", "entries", showEntries(withoutComments(poEntries(f))), showEntries(c.Ents))
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n, Note: fmt.Sprintf("%s: %s differs on\n%q", cmp.diffs[0].Where, cmp.diffs[0].What, c.File)}
	}
	return Result{Verdict: "ok", Checks: cmp.n + 1}
}

// replayMoBig reads files made to need much memory: n strings, each described
// as len bytes long and placed every step bytes in a file of size bytes.
func replayMoBig(raw []byte) Result {
	var c struct{ N, Len, Step, Size, Claim int }
	must(json.Unmarshal(raw, &c))
	b := make([]byte, c.Size)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	put := func(off int, v uint32) { binary.LittleEndian.PutUint32(b[off:], v) }
	for i, v := range []uint32{0x950412de, 0, uint32(c.Claim), 28, uint32(28 + 8*c.N), 0, 0} {
		put(4*i, v)
	}
	base := 28 + 16*c.N
	for i := 0; i < c.N; i++ {
		put(28+8*i, uint32(c.Len))
		put(32+8*i, uint32(base+i*c.Step))
		put(28+8*c.N+8*i, uint32(c.Len))
		put(32+8*c.N+8*i, uint32(base+i*c.Step))
	}
	_, err, used := readMoMeasured(b)
	if used > moBudget(c.Size) {
		v := "bad"
		if c.Step < c.Len+1 && c.N*c.Len > c.Size {
			v = "dev"
		}
		return Result{Verdict: v, Finding: "overlapping-strings", Obs: used, Exp: moBudget(c.Size), Checks: 1,
			Note: fmt.Sprintf("ReadMo of %d bytes with %d strings of %d bytes, one every %d bytes, allocates %d MiB (error: %v)",
				c.Size, c.N, c.Len, c.Step, used>>20, err)}
	}
	return Result{Verdict: "ok", Checks: 1}
}

// replayMoGood reads a well-formed file of n messages with texts of len bytes.
func replayMoGood(raw []byte) Result {
	var c struct{ N, Len int }
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	for _, bo := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		var pairs [][2]string
		want := map[string]string{}
		for i := 0; i < c.N; i++ {
			id, s := fmt.Sprintf("id %06d", i), fmt.Sprintf("%d", i)+strings.Repeat("t", c.Len)
			if i%5 == 1 {
				id = "ctx\x04" + id
			}
			pairs = append(pairs, [2]string{id, s})
			want[id] = s
		}
		f, err, used := readMoMeasured(simpleMo(pairs, bo))
		cmp.eq("ReadMo", "error", fmt.Sprint(err), "<nil>")
		cmp.eq("ReadMo", "reads in its budget", used <= moBudget(c.N*(c.Len+20)), true)
		if err != nil {
			continue
		}
		n := 0
		for _, e := range f.SortedEntry() {
			key := e.MsgID
			if e.MsgCtxt != "" {
				key = e.MsgCtxt + "\x04" + key
			}
			if want[key] == e.MsgStr {
				n++
			}
		}
		cmp.eq("ReadMo", "messages", n, len(pairs))
		cmp.eq("ReadMo", "entries", len(f.SortedEntry()), len(pairs))
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n, Note: fmt.Sprintf("reading %d messages of %d bytes: %s differs", c.N, c.Len, cmp.diffs[0].What)}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

// moLayout writes a MO file with strings and tables placed at random.
func moLayout(r *rand.Rand, es []poEntry) []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if r.Intn(2) == 0 {
		bo = binary.BigEndian
	}
	type chunk struct {
		data []byte
		at   int
	}
	var chunks []*chunk
	shared := map[string]*chunk{}
	share := r.Intn(2) == 0
	str := func(s string) *chunk {
		if c := shared[s]; share && c != nil {
			return c
		}
		c := &chunk{data: append([]byte(s), 0)}
		shared[s] = c
		chunks = append(chunks, c)
		return c
	}
	var os, ts []*chunk
	for _, e := range es {
		o := string(e.Id)
		if len(e.C) > 0 {
			o = string(e.C) + "\x04" + o
		}
		t := string(e.S)
		if e.Pl {
			o += "\x00" + string(e.Id2)
			var ss []string
			for _, n := range e.N {
				ss = append(ss, string(n))
			}
			t = strings.Join(ss, "\x00")
		}
		os, ts = append(os, str(o)), append(ts, str(t))
	}
	to, tt := &chunk{data: make([]byte, 8*len(es))}, &chunk{data: make([]byte, 8*len(es))}
	chunks = append(chunks, to, tt)
	r.Shuffle(len(chunks), func(i, j int) { chunks[i], chunks[j] = chunks[j], chunks[i] })
	pos := 28
	for _, c := range chunks {
		if r.Intn(4) == 0 {
			pos += r.Intn(9)
		}
		c.at = pos
		pos += len(c.data)
	}
	out := bytes.Repeat([]byte{0xaa}, pos)
	desc := func(table *chunk, cs []*chunk) {
		for i, c := range cs {
			bo.PutUint32(table.data[8*i:], uint32(len(c.data)-1))
			bo.PutUint32(table.data[8*i+4:], uint32(c.at))
		}
	}
	desc(to, os)
	desc(tt, ts)
	for i, v := range []uint32{0x950412de, 0, uint32(len(es)), uint32(to.at), uint32(tt.at), 0, 0} {
		bo.PutUint32(out[4*i:], v)
	}
	for _, c := range chunks {
		copy(out[c.at:], c.data)
	}
	return out
}

func moText(r *rand.Rand) func(int) Bytes {
	return func(m int) Bytes {
		return bytes.ReplaceAll(bytes.ReplaceAll(poRandText(r, m), []byte{0}, nil), []byte{4}, nil)
	}
}

func recordMo(r *rand.Rand, n int, emit func(any)) {
	for i := 0; i < n; i++ {
		es := poRandEntries(r, 5, moText(r))
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		file := moLayout(r, es)
		if r.Intn(2) == 0 {
			for k := 1 + r.Intn(2); k > 0 && len(file) > 0; k-- {
				p := r.Intn(len(file))
				if r.Intn(2) == 0 {
					p = r.Intn(min(len(file), 28+16*len(es)))
				}
				switch r.Intn(5) {
				case 0:
					file = file[:p]
				case 1:
					file[p] ^= byte(1 << r.Intn(8))
				case 2:
					file[p] = []byte{0, 255, 128, 127, 4, 1}[r.Intn(6)]
				case 3:
					p &^= 3
					for j := p; j < p+4 && j < len(file); j++ {
						file[j] = []byte{0, 255, byte(r.Intn(256))}[r.Intn(3)]
					}
				case 4:
					file = append(file[:p:p], file[min(len(file), p+1+r.Intn(8)):]...)
				}
			}
		}
		emit(func() (line ev) {
			line = ev{"file": Bytes(file), "st": "panic", "ents": []poEntry{}}
			defer func() { recover() }()
			f, err, used := readMoMeasured(file)
			switch {
			case used > moBudget(len(file)):
				line["st"] = "panic"
				line["note"] = fmt.Sprintf("%d bytes allocated", used)
			case err != nil:
				line["st"] = "err"
			default:
				es := withoutComments(poEntries(f))
				out := []catEntry{}
				for _, e := range es {
					out = append(out, catEntry{e.C, e.Id, e.Pl, e.Id2, e.S, e.N})
				}
				line["ents"] = out
				line["st"] = "ok"
			}
			return
		}())
	}
}
