package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func init() {
	handlers["look"] = replayLook
	recorders["look"] = recordLook
}

type catEntry struct {
	C   Bytes   `json:"c"`
	Id  Bytes   `json:"id"`
	Pl  bool    `json:"pl"`
	Id2 Bytes   `json:"id2"`
	S   Bytes   `json:"s"`
	N   []Bytes `json:"n"`
}

func (e catEntry) real() *translator.Entry {
	r := &translator.Entry{MsgCtxt: string(e.C), MsgID: string(e.Id), IsPlural: e.Pl, MsgID2: string(e.Id2), MsgStr: string(e.S)}
	for _, s := range e.N {
		r.MsgStrN = append(r.MsgStrN, string(s))
	}
	return r
}

// statable entries have the shape of a translated PO entry.
func (e catEntry) statable() bool {
	some := len(e.S) > 0
	for _, s := range e.N {
		some = some || len(s) > 0
	}
	return some && e.Pl == (len(e.N) > 0) && !(len(e.S) > 0 && len(e.N) > 0)
}

// poText renders entries as PO, one string per line, bytes escaped.
func poText(es []catEntry) []byte {
	var b bytes.Buffer
	q := func(s Bytes) string {
		var sb strings.Builder
		sb.WriteByte('"')
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				sb.WriteByte('\\')
				sb.WriteByte(c)
			case c == '\n':
				sb.WriteString("\\n")
			case c == '\t':
				sb.WriteString("\\t")
			case c < 32 || c == 127:
				fmt.Fprintf(&sb, "\\%03o", c)
			default:
				sb.WriteByte(c)
			}
		}
		sb.WriteByte('"')
		return sb.String()
	}
	for _, e := range es {
		if len(e.C) > 0 {
			fmt.Fprintf(&b, "msgctxt %s\n", q(e.C))
		}
		fmt.Fprintf(&b, "msgid %s\n", q(e.Id))
		if e.Pl {
			fmt.Fprintf(&b, "msgid_plural %s\n", q(e.Id2))
		}
		if len(e.S) > 0 || len(e.N) == 0 {
			fmt.Fprintf(&b, "msgstr %s\n", q(e.S))
		}
		for i, s := range e.N {
			fmt.Fprintf(&b, "msgstr[%d] %s\n", i, q(s))
		}
		b.WriteString("\n")
	}
	return b.Bytes()
}

type lookQ struct {
	C, Id, Id2, N Bytes
	Args          []fmtArg
	X, Xn         []Bytes
}

func replayLook(raw []byte) Result {
	var c struct {
		Adds  []catEntry
		Names []Bytes
		Lang  Bytes
		Hs    [][]Bytes
		Qs    []lookQ
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	ask := func(cmp *comparer, name string, f *translator.File) {
		cmp.eq(name, "Lang", f.Lang(), string(c.Lang))
		for i, h := range c.Names {
			v, ok := f.GetHeader(string(h))
			cmp.eq(name, fmt.Sprintf("GetHeader(%q) found", h), ok, len(c.Hs[i]) == 1)
			if len(c.Hs[i]) == 1 {
				cmp.eq(name, fmt.Sprintf("GetHeader(%q)", h), v, string(c.Hs[i][0]))
			}
		}
		for _, q := range c.Qs {
			args := fmtArgs(q.Args)
			if len(q.X) == 1 {
				cmp.eq(name, fmt.Sprintf("X(%q,%q)", q.C, q.Id), f.X(string(q.C), string(q.Id), args...), string(q.X[0]))
			}
			got := f.XN64(string(q.C), string(q.Id), string(q.Id2), i64(q.N), args...)
			if len(q.Xn) == 1 {
				cmp.eq(name, fmt.Sprintf("XN64(%q,%q,%q,%d)", q.C, q.Id, q.Id2, i64(q.N)), got, string(q.Xn[0]))
			}
		}
	}
	if len(c.Adds) == 0 { // everything that stands for "no catalog" answers alike
		none := t.NewTranslations()
		none.SetDomain("nowhere")
		other := t.NewTranslation("d")
		for name, tor := range map[string]interface {
			X(string, string, ...any) string
			XN64(string, string, string, int64, ...any) string
		}{"no-op translator": t.NoopTranslator(), "instance without catalogs": none, "unknown language": other.GetOrNoop("xx_XX")} {
			for _, q := range c.Qs {
				args := fmtArgs(q.Args)
				if len(q.X) == 1 {
					cmp.eq(name, fmt.Sprintf("X(%q,%q)", q.C, q.Id), tor.X(string(q.C), string(q.Id), args...), string(q.X[0]))
				}
				if len(q.Xn) == 1 {
					cmp.eq(name, fmt.Sprintf("XN64(%q,%q,%q,%d)", q.C, q.Id, q.Id2, i64(q.N)),
						tor.XN64(string(q.C), string(q.Id), string(q.Id2), i64(q.N), args...), string(q.Xn[0]))
				}
			}
		}
	}
	f := new(translator.File)
	for _, e := range c.Adds {
		f.AddEntry(e.real())
	}
	ask(&cmp, "AddEntry", f)
	ask(&cmp, "AddEntry, asked again", f)
	g := new(translator.File)
	po := true
	for _, e := range c.Adds { // questions in between must not matter
		ask(&comparer{}, "", g)
		g.AddEntry(e.real())
		po = po && e.statable()
	}
	ask(&cmp, "AddEntry with questions in between", g)
	if po && len(c.Adds) > 0 {
		h, err := translator.ReadPo(poText(c.Adds))
		if err != nil {
			return Result{Verdict: "bad", Checks: cmp.n, Obs: err.Error(), Note: fmt.Sprintf("ReadPo fails on\n%s", poText(c.Adds))}
		}
		ask(&cmp, "ReadPo", h)
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n,
			Note: fmt.Sprintf("%s.%s differs, catalog:\n%s", cmp.diffs[0].Where, cmp.diffs[0].What, poText(c.Adds))}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

// recordLook logs random catalogs, built by AddEntry in random order with
// replacements, and the answers to random lookups and header questions.
func recordLook(r *rand.Rand, n int, emit func(any)) {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	word := func() string {
		b := ""
		for k := r.Intn(4); k >= 0; k-- {
			b += pick("a", "b", "x", " ", "%d", "%s", "世", "\n", "\"", "é", ":", "0")
		}
		return b
	}
	exprs := []string{"0", "n!=1", "n>1", "n%10==1&&n%100!=11?0:n!=0?1:2", "n==1?0:n==2?1:2", "n", "n%4", "n-3", "1/n", "n<0", "-n",
		"n==1?0:(n==0||(n%100>0&&n%100<20))?1:2", "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10||n%100>=20) ? 1:2",
		"n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5", "n +", "(n", "x", "n*n", "!n", "n&&1", "n||0", "n>>1", "n|1"}
	for i := 0; i < n; i++ {
		var adds []catEntry
		ids := []string{word(), word(), word(), "m"}
		ctxs := []string{"", "", "c", word()}
		f := new(translator.File)
		qs := []ev{}
		noop := r.Intn(10) == 0 // answers like an empty catalog
		x, xn := f.X, f.XN64
		if noop {
			tor := t.NoopTranslator()
			x, xn = tor.X, tor.XN64
		}
		ask := func() {
			for k := 0; k < 3; k++ {
				c, id := ctxs[r.Intn(4)], ids[r.Intn(4)]
				as := []fmtArg{}
				for a := r.Intn(3); a > 0; a-- {
					as = append(as, fmtArg{"int", Bytes(fmt.Sprint(r.Intn(50)))})
				}
				switch r.Intn(6) {
				case 0:
					qs = append(qs, ev{"f": "x", "c": Bytes(c), "id": Bytes(id), "args": as, "obs": Bytes(x(c, id, fmtArgs(as)...))})
				case 1:
					qs = append(qs, ev{"f": "lang", "obs": Bytes(f.Lang())})
				case 2:
					name := pick("Language", "Plural-Forms", "X-Y", "y")
					v, ok := f.GetHeader(name)
					o := Bytes{0}
					if ok {
						o = append(Bytes{1}, v...)
					}
					qs = append(qs, ev{"f": "hdr", "id": Bytes(name), "obs": o})
				default:
					id2 := pick("", "many", "many %d", id)
					v := int64(r.Intn(130))
					if r.Intn(8) == 0 {
						v = -v
					} else if r.Intn(4) == 0 {
						v = int64(r.Uint64())
					}
					qs = append(qs, ev{"f": "xn", "c": Bytes(c), "id": Bytes(id), "id2": Bytes(id2), "n": b64(v), "args": as,
						"obs": Bytes(xn(c, id, id2, v, fmtArgs(as)...))})
				}
			}
		}
		adds = []catEntry{}
		for k := 1 + r.Intn(6); k > 0 && !noop; k-- {
			e := catEntry{N: []Bytes{}}
			if r.Intn(3) == 0 {
				var h []string
				for j := 1 + r.Intn(4); j > 0; j-- {
					h = append(h, pick("Language: "+pick("de", "zh_CN", " fr ", ""), "X-Y: z: w", "junk", "y:1", " y : 2",
						"Plural-Forms: nplurals="+pick("1", "2", "3", "4", "6")+"; plural="+exprs[r.Intn(len(exprs))]+";",
						"Plural-Forms:  nplurals = 2 ; plural = "+exprs[r.Intn(len(exprs))]+" ;"))
				}
				e.S = Bytes(strings.Join(h, "\n") + pick("", "\n"))
			} else {
				e.C, e.Id = Bytes(ctxs[r.Intn(4)]), Bytes(ids[r.Intn(4)])
				if r.Intn(3) == 0 {
					e.S = Bytes(word())
				} else {
					e.Pl = true
					e.Id2 = Bytes(pick("", "many", "many", "many %d"))
					for j := r.Intn(5); j > 0; j-- {
						s := word()
						if r.Intn(5) == 0 {
							s = ""
						}
						e.N = append(e.N, Bytes(s))
					}
					if r.Intn(5) == 0 {
						e.S = Bytes(word())
					}
				}
			}
			if r.Intn(4) == 0 { // a question between additions
				f.Lang()
				f.XN64("", "m", "ms", 2)
			}
			f.AddEntry(e.real())
			adds = append(adds, e)
		}
		ask()
		ask()
		emit(ev{"adds": adds, "qs": qs})
	}
}
