package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/youthlin/t/translator"
)

func init() {
	handlers["po"] = replayPo
	recorders["po"] = recordPo
}

// poEntry is an entry with comments.
type poEntry struct {
	Cm  []Bytes `json:"cm"`
	C   Bytes   `json:"c"`
	Id  Bytes   `json:"id"`
	Pl  bool    `json:"pl"`
	Id2 Bytes   `json:"id2"`
	S   Bytes   `json:"s"`
	N   []Bytes `json:"n"`
}

func poOf(e *translator.Entry) poEntry {
	r := poEntry{Cm: []Bytes{}, C: Bytes(e.MsgCtxt), Id: Bytes(e.MsgID), Pl: e.IsPlural, Id2: Bytes(e.MsgID2), S: Bytes(e.MsgStr), N: []Bytes{}}
	for _, c := range e.MsgCmts {
		r.Cm = append(r.Cm, Bytes(c))
	}
	for _, s := range e.MsgStrN {
		r.N = append(r.N, Bytes(s))
	}
	return r
}

func (e poEntry) real() *translator.Entry {
	r := &translator.Entry{MsgCtxt: string(e.C), MsgID: string(e.Id), IsPlural: e.Pl, MsgID2: string(e.Id2), MsgStr: string(e.S)}
	for _, c := range e.Cm {
		r.MsgCmts = append(r.MsgCmts, string(c))
	}
	for _, s := range e.N {
		r.MsgStrN = append(r.MsgStrN, string(s))
	}
	return r
}

func poEntries(f *translator.File) []poEntry {
	es := []poEntry{}
	for _, e := range f.SortedEntry() {
		x := poOf(e)
		for k := len(x.Cm) - 1; k >= 0; k-- { // obsolete entries may be kept as comments or not
			if strings.HasPrefix(string(x.Cm[k]), "#~") {
				x.Cm = append(x.Cm[:k:k], x.Cm[k+1:]...)
			}
		}
		es = append(es, x)
	}
	return es
}

func (e poEntry) String() string {
	return fmt.Sprintf("{%q ctx=%q id=%q pl=%v id2=%q str=%q n=%q}", e.Cm, e.C, e.Id, e.Pl, e.Id2, e.S, e.N)
}

func showEntries(es []poEntry) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

type poResult struct {
	St   string
	Ents []poEntry
}

func replayPo(raw []byte) Result {
	var c struct {
		Text    Bytes
		Po, Pot poResult
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	text := string(c.Text)
	variants := []struct{ name, text string }{{"as is", text}, {"CRLF", strings.ReplaceAll(text, "\n", "\r\n")}}
	if strings.HasSuffix(text, "\n") && len(text) > 1 {
		variants = append(variants, struct{ name, text string }{"no final newline", text[:len(text)-1]})
	}
	if text != "" {
		variants = append(variants, struct{ name, text string }{"blank lines around", "\n \n" + text + "\n\t\n\n"})
	}
	if strings.Contains(text, "\r") {
		variants = variants[:1]
	}
	for _, v := range variants {
		for _, way := range []struct {
			name string
			read func([]byte) (*translator.File, error)
			want poResult
		}{{"ReadPo", translator.ReadPo, c.Po}, {"ReadPot", translator.ReadPot, c.Pot}} {
			if way.want.St == "open" {
				way.read([]byte(v.text)) // must not panic
				continue
			}
			f, err := way.read([]byte(v.text))
			cmp.eq(way.name+" "+v.name, "is an error", err != nil, way.want.St == "err")
			if err == nil && way.want.St == "ok" {
				cmp.eq(way.name+" "+v.name, "entries", showEntries(poEntries(f)), showEntries(way.want.Ents))
			}
		}
	}
	if h := fnv.New32a(); strings.Contains(text, "msgid") { // behind lines longer than any buffer
		h.Write(c.Text)
		if h.Sum32()%50 == 0 {
			const id = "verif big"
			long := strings.Repeat("0123456789 ", 12000)
			before := "# " + long + "\nmsgid \"" + id + "\"\nmsgstr \"" + long + "\"\n\"" + long + "\"\n\n" + text
			for i, read := range []func([]byte) (*translator.File, error){translator.ReadPo, translator.ReadPot} {
				want := []poResult{c.Po, c.Pot}[i]
				if want.St != "ok" {
					continue
				}
				f, err := read([]byte(before))
				cmp.eq("behind long lines", "error", fmt.Sprint(err), "<nil>")
				if err == nil {
					es := append([]poEntry{{Cm: []Bytes{Bytes("# " + long)}, Id: Bytes(id), S: Bytes(long + long)}}, want.Ents...)
					same := showEntries(poEntries(f)) == showEntries(es)
					cmp.eq("behind long lines", "entries are the same", same, true)
				}
			}
		}
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n,
			Note: fmt.Sprintf("%s: %s differs on\n%q", cmp.diffs[0].Where, cmp.diffs[0].What, text)}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

// ---- random texts

func poRandText(r *rand.Rand, max int) Bytes {
	frag := []string{"a", "b", "Z", " ", "  ", "\n", "\t", "\"", "\\", "%d", "%s", "é", "世界", "\u00a0", "\u2028", "\x01", "\x7f", "\r",
		"\x00", "\x1b", "\xff", "\xc3", "#", "msgid", "\\n", "7", "0", "\v\f\a\b", "'", "`", "nplurals", "😀", "\ufeff", "\ufffd", "x y z"}
	var b []byte
	for k := r.Intn(max + 1); k > 0; k-- {
		b = append(b, frag[r.Intn(len(frag))]...)
	}
	if r.Intn(12) == 0 {
		b = bytes.Repeat(append(b, ' '), 1+r.Intn(8))
	}
	if r.Intn(12) == 0 {
		b = append(b, '\n')
	}
	return append(Bytes{}, b...)
}

func poRandComment(r *rand.Rand) Bytes {
	c := []string{"# note", "#", "#. extracted", "#: a.go:12", "#: a.go:3 b.go:1:2", "#: ü.go:100", "#, fuzzy, c-format", "#| msgid \"x\"",
		"#  two  blanks  ", "#: b.go:9", "#msgid \"x\"", "#\"quoted\"", "#:x:10", "#\\n"}
	return Bytes(c[r.Intn(len(c))])
}

// poRandEntries makes distinct translated entries, possibly with a header.
func poRandEntries(r *rand.Rand, max int, text func(int) Bytes) []poEntry {
	es := []poEntry{}
	seen := map[string]bool{}
	for k := r.Intn(max + 1); k > 0; k-- {
		e := poEntry{Cm: []Bytes{}, Id: text(4), N: []Bytes{}}
		if r.Intn(3) == 0 {
			e.C = text(2)
		}
		if r.Intn(5) == 0 {
			e.C, e.Id = nil, nil
		}
		if key := string(e.C) + "\x00|\x00" + string(e.Id); seen[key] {
			continue
		} else {
			seen[key] = true
		}
		for j := r.Intn(4); j > 1; j-- {
			e.Cm = append(e.Cm, poRandComment(r))
		}
		some := func() Bytes {
			for {
				if s := text(5); len(s) > 0 {
					return s
				}
			}
		}
		switch {
		case len(e.Id) == 0 && len(e.C) == 0:
			hs := []string{"Language: fr\n", "Plural-Forms: nplurals=2; plural=n>1;\n", "X-Y: z\n", "Content-Type: text/plain; charset=UTF-8\n", "junk\n"}
			s := hs[r.Intn(5)] + hs[r.Intn(5)] + string(text(2))
			e.S = Bytes(s)
		case r.Intn(3) == 0:
			e.Pl, e.Id2 = true, text(3)
			for j := r.Intn(4); j >= 0; j-- {
				e.N = append(e.N, text(3))
			}
			e.N[r.Intn(len(e.N))] = some()
		default:
			e.S = some()
		}
		es = append(es, e)
	}
	return es
}

// poRender writes entries as PO in one of the many ways PO allows.
func poRender(r *rand.Rand, es []poEntry) []byte {
	var b bytes.Buffer
	style := r.Intn(6)
	quoted := func(s []byte) {
		b.WriteByte('"')
		for i := 0; i < len(s); {
			c := s[i]
			_, size := utf8.DecodeRune(s[i:])
			next := byte(0)
			if i+1 < len(s) {
				next = s[i+1]
			}
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\n':
				b.WriteString("\\n")
			case c == '\r':
				b.WriteString([]string{"\\r", "\\015", "\\x0d"}[r.Intn(2)])
			case c == '\t' && style%2 == 0:
				b.WriteByte(c)
			case c >= 7 && c <= 13:
				b.WriteString([]string{"\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r"}[c-7])
			case r.Intn(20) == 0 && !(next >= '0' && next <= '7'):
				fmt.Fprintf(&b, "\\%o", c)
			case c < 32 || c == 127 || r.Intn(30) == 0:
				fmt.Fprintf(&b, "\\%03o", c)
			case r.Intn(30) == 0 && !strings.ContainsRune("0123456789abcdefABCDEF", rune(next)):
				fmt.Fprintf(&b, []string{"\\x%02x", "\\x%X"}[r.Intn(2)], c)
			default:
				b.Write(s[i : i+size])
				i += size
				continue
			}
			i++
		}
		b.WriteByte('"')
		if r.Intn(8) == 0 {
			b.WriteString(" \t"[:1+r.Intn(2)])
		}
		b.WriteByte('\n')
	}
	field := func(kw string, s Bytes) {
		if style == 3 {
			b.WriteString("  ")
		}
		b.WriteString(kw)
		gap := []string{" ", " ", " ", "  ", "\t", ""}[r.Intn(6)]
		parts := [][]byte{}
		rest := []byte(s)
		for len(rest) > 0 && r.Intn(3) == 0 {
			k := 1 + r.Intn(len(rest))
			parts = append(parts, rest[:k])
			rest = rest[k:]
		}
		parts = append(parts, rest)
		if r.Intn(4) == 0 {
			parts = append([][]byte{{}}, parts...)
		}
		if r.Intn(12) == 0 {
			b.WriteByte('\n')
		} else {
			b.WriteString(gap)
		}
		for i, p := range parts {
			if i > 0 && r.Intn(3) == 0 {
				b.WriteString([]string{" ", "\t", "        "}[r.Intn(3)])
			}
			if i > 0 && r.Intn(10) == 0 {
				b.WriteString("\n")
			}
			quoted(p)
		}
	}
	for _, e := range es {
		for _, c := range e.Cm {
			if r.Intn(10) == 0 {
				b.WriteString(" ")
			}
			b.Write(c)
			b.WriteByte('\n')
			if r.Intn(10) == 0 {
				b.WriteByte('\n')
			}
		}
		if len(e.C) > 0 {
			field("msgctxt", e.C)
		}
		field("msgid", e.Id)
		if e.Pl {
			field("msgid_plural", e.Id2)
			for i, s := range e.N {
				field(fmt.Sprintf("msgstr[%d]", i), s)
			}
			if len(e.N) == 0 {
				field("msgstr[0]", nil)
			}
		} else {
			field("msgstr", e.S)
		}
		for k := r.Intn(3); k > 0; k-- {
			b.WriteString([]string{"\n", " \n", "\t\n"}[r.Intn(3)])
		}
	}
	if r.Intn(6) == 0 {
		b.WriteString("# trailing\n")
	}
	out := b.Bytes()
	if r.Intn(4) == 0 {
		out = bytes.ReplaceAll(out, []byte("\n"), []byte("\r\n"))
	}
	if r.Intn(5) == 0 {
		out = bytes.TrimRight(out, "\r\n")
	}
	return out
}

func recordPo(r *rand.Rand, n int, emit func(any)) {
	for i := 0; i < n; i++ {
		es := poRandEntries(r, 4, func(m int) Bytes { return poRandText(r, m) })
		if r.Intn(3) == 0 { // untranslated ones and duplicates
			for k := range es {
				switch r.Intn(4) {
				case 0:
					if !es[k].Pl {
						es[k].S = nil
					}
				case 1:
					d := es[k]
					d.Cm = []Bytes{}
					if !d.Pl {
						d.S = poRandText(r, 3)
					}
					es = append(es, d)
				}
			}
		}
		text := poRender(r, es)
		if r.Intn(3) == 0 && len(text) > 0 { // damage it
			for k := 1 + r.Intn(2); k > 0 && len(text) > 0; k-- {
				p := r.Intn(len(text))
				switch r.Intn(5) {
				case 0:
					text = append(text[:p:p], text[p+1:]...)
				case 1:
					text = text[:p]
				case 2:
					ins := []string{"\"", "\\", "\n", "x", "#", "msgstr ", "\\q", "\r\n", "'", "\\9", "\xfe"}[r.Intn(11)]
					text = append(text[:p:p], append([]byte(ins), text[p:]...)...)
				case 3:
					ls := bytes.Split(text, []byte("\n"))
					a := r.Intn(len(ls))
					ls = append(ls[:a:a], ls[a+1:]...)
					text = bytes.Join(ls, []byte("\n"))
				case 4:
					ls := bytes.Split(text, []byte("\n"))
					a, c := r.Intn(len(ls)), r.Intn(len(ls))
					ls[a], ls[c] = ls[c], ls[a]
					text = bytes.Join(ls, []byte("\n"))
				}
			}
		}
		for _, tmpl := range []bool{false, true} {
			emit(func() (line ev) {
				line = ev{"text": Bytes(text), "tmpl": tmpl, "st": "panic", "ents": []poEntry{}}
				defer func() { recover() }()
				read := translator.ReadPo
				if tmpl {
					read = translator.ReadPot
				}
				f, err := read(text)
				if err != nil {
					line["st"] = "err"
				} else {
					line["ents"] = poEntries(f)
					line["st"] = "ok"
				}
				return
			}())
		}
	}
}
