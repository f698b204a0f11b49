package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync/atomic"
	"testing/fstest"

	"github.com/youthlin/t"
)

func init() { recorders["reg"] = recordReg }

var regSpells = []string{"zh_CN", "zh-Hans", "zh_cn.UTF-8", "ZH", "zh", "zh-cn", "zh_TW", "zh-Hant", "zh-tw", "fr_FR", "fr",
	"FR-fr", "fr_CA", "fr-ca", "en_US", "en", "EN", "en_GB", "en-gb", "pt_BR", "pt", "pt_PT", "pt-pt", "ja", "ja_JP", "de",
	"de_DE", "ru", "ru-RU"}
var regGroups = [][]string{regSpells[:6], regSpells[6:9], regSpells[9:12], regSpells[12:14], regSpells[14:17], regSpells[17:19],
	regSpells[19:21], regSpells[21:23], regSpells[23:25], regSpells[25:27], regSpells[27:29]}

type recFile struct {
	Lang string     `json:"lang"`
	Rule string     `json:"rule"`
	Ents []recEntry `json:"ents"`
}
type recEntry struct {
	C   string   `json:"c"`
	Id  string   `json:"id"`
	Id2 string   `json:"id2"`
	S   string   `json:"s"`
	N   []string `json:"n"`
}
type ev = map[string]any

// recordReg logs n histories of random operations on random instances with
// random catalogs, and the answers they give.
func recordReg(r *rand.Rand, n int, emit func(any)) {
	for h := 0; h < n; h++ {
		emit(ev{"e": "begin"})
		newHistory(r).steps(50, 0, emit)
	}
}

var (
	regHdrs = map[string]string{"ne1": "nplurals=2; plural=n != 1;", "one": "nplurals=1; plural=0;", "mod3": "nplurals=3; plural=n%3;",
		"mod4": "nplurals=3; plural=n%4;", "bad": "nplurals=2; plural=n n;#", "none": ""}
	regDomains = []string{"default", "d", "e", "", "a.b", "default2", "D"}
	regTok     atomic.Int64
)

// history performs random operations on a world and logs them.
type history struct {
	w           *regWorld
	r           *rand.Rand
	langs, doms []string
}

func newHistory(r *rand.Rand) *history {
	pick := func(s []string) string { return s[r.Intn(len(s))] }
	w := newWorld(&regDefs{fsys: map[string]fsFS{}, dirs: map[string]string{}})
	return &history{w, r, []string{pick(regSpells), pick(regSpells), pick(regSpells), ""}, []string{pick(regDomains), pick(regDomains), "default"}}
}

// steps performs n operations; the first shared instances and the package are
// only asked.
func (h *history) steps(n, shared int, emit func(any)) {
	r, w, langs, doms := h.r, h.w, h.langs, h.doms
	domains, hdrs := regDomains, regHdrs
	rules := []string{"ne1", "ne1", "one", "mod3", "mod4", "bad", "none"}
	ctxs := []string{"", "", "k", "m0", " ", "k "}
	ids := []string{"m0", "m1", "m2", "k"}
	fresh := func() string {
		if r.Intn(6) == 0 {
			return ""
		}
		return fmt.Sprintf("t%d", regTok.Add(1))
	}
	pick := func(s []string) string { return s[r.Intn(len(s))] }
	catalog := func(lang string) recFile {
		f := recFile{Lang: lang, Rule: pick(rules), Ents: []recEntry{}}
		seen := map[string]bool{}
		for k := r.Intn(7); k > 0; k-- {
			e := recEntry{C: pick(ctxs), Id: pick(ids), N: []string{}}
			if seen[e.C+"|"+e.Id] {
				continue
			}
			seen[e.C+"|"+e.Id] = true
			if r.Intn(2) == 0 {
				e.S = fmt.Sprintf("t%d", regTok.Add(1))
			} else {
				e.Id2 = "s" + e.Id
				for j := 1 + r.Intn(4); j > 0; j-- {
					e.N = append(e.N, fresh())
				}
			}
			f.Ents = append(f.Ents, e)
		}
		return f
	}
	source := func() []recFile {
		fs := []recFile{}
		if r.Intn(8) == 0 {
			return fs
		}
		if r.Intn(8) == 0 {
			fs = append(fs, catalog(""))
		}
		for _, g := range r.Perm(len(regGroups))[:r.Intn(5)] {
			fs = append(fs, catalog(pick(regGroups[g])))
		}
		return fs
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	{
		for k := 0; k < n; k++ {
			i := 1 + r.Intn(len(w.inst))
			if r.Intn(2) == 0 {
				i = len(w.inst)
			}
			via := "m"
			if i == w.g && r.Intn(2) == 0 {
				via = "p"
			}
			a := instAPI(w.inst[i-1], "")
			if via == "p" {
				a = pkgAPI()
			}
			lang, dom := pick(langs), pick(doms)
			if r.Intn(4) == 0 {
				lang = pick(regSpells)
			}
			step := func(op string, i int, d, l string, files []recFile) {
				s := regStep{Op: op, I: i, D: d, L: l, Via: via}
				if op == "bind" || op == "load" {
					m := fstest.MapFS{"z.txt": {Data: []byte("x")}}
					for j, f := range files {
						rf := regFile{Lang: f.Lang, Hdr: hdrs[f.Rule]}
						for _, e := range f.Ents {
							rf.Ents = append(rf.Ents, regEntry{e.C, e.Id, e.Id2, e.S, e.N})
						}
						m[fmt.Sprintf("p/%d.po", j)] = &fstest.MapFile{Data: []byte(regPo(rf))}
					}
					w.d.fsys["src"] = m
					s.S = "src"
					if op == "load" || via == "p" {
						dir, err := os.MkdirTemp(scratch, "s")
						must(err)
						must(os.CopyFS(dir, m))
						w.d.dirs["src"] = dir
						defer os.RemoveAll(dir)
					}
				}
				if files == nil {
					files = []recFile{}
				}
				ret := w.do(s)
				emit(ev{"e": "op", "op": op, "i": i, "d": d, "l": l, "via": via, "files": files, "ret": ret})
			}
			q := r.Intn(40)
			if i <= shared && (q < 14 || q == 20) { // no changes to what is shared
				q = 30
			}
			switch {
			case q == 6 && shared > 0:
			case q < 6:
				step("bind", i, dom, none, source())
			case q < 7:
				i = w.g
				step("load", w.g, none, none, source())
			case q < 8:
				step("remove", i, dom, none, nil)
			case q < 9 && r.Intn(3) == 0:
				step("clear", i, none, none, nil)
			case q < 11:
				step("setdom", i, dom, none, nil)
			case q < 13:
				step("setloc", i, none, lang, nil)
			case q < 14:
				step("setsrc", i, none, lang, nil)
			case q < 20 && len(w.inst) < 8:
				switch r.Intn(7) {
				case 0:
					step("new", 0, none, none, nil)
				case 1:
					step("copy", w.g, none, none, nil)
				case 2, 3:
					step("L", i, none, lang, nil)
				case 4, 5:
					step("D", i, dom, none, nil)
				case 6:
					if r.Intn(2) == 0 {
						dom = none
					}
					if r.Intn(2) == 0 {
						lang = none
					}
					step("ctx", w.g, dom, lang, nil)
				}
			case q < 21 && shared == 0:
				step("setglobal", i, none, none, nil)
			case q < 24:
				emit(ev{"e": "settings", "i": i, "via": via, "res": ev{"loc": a.locale(), "dom": a.domain(), "src": a.src(),
					"used": a.used(), "locs": a.locales()}})
			case q < 26:
				var has []ev
				for _, d := range domains {
					has = append(has, ev{"d": d, "v": a.has(d)})
				}
				ds := append([]string{}, a.domains()...)
				sort.Strings(ds)
				emit(ev{"e": "domains", "i": i, "via": via, "res": ds, "has": has})
			default:
				id := pick(ids)
				if r.Intn(12) == 0 {
					id = pick([]string{"", "M0", " m0"})
				}
				lookOnce(r, a, i, via, pick(ctxs), id, emit)
			}
		}
	}
}

func lookOnce(r *rand.Rand, a api, i int, via, c, id string, emit func(any)) {
	arg := ""
	var args []any
	if r.Intn(2) == 0 && id != "" { // the header is no format
		arg = fmt.Sprint("a", r.Intn(5))
		args = []any{arg}
		if r.Intn(2) == 0 {
			args = append(args, 1)
		}
	}
	n := int64(r.Intn(7))
	if r.Intn(5) == 0 {
		n = int64(r.Intn(1000))
	}
	if r.Intn(6) == 0 {
		n = -1 - int64(r.Intn(9))
	}
	var hi int64
	if r.Intn(6) == 0 { // counts beyond 32 bits
		hi = []int64{1, 2, 3, 1 << 20, 1 << 30}[r.Intn(5)]
		if n < 0 {
			hi = -hi
		}
	}
	lo := n
	n += hi << 32
	id2 := ""
	if r.Intn(3) > 0 {
		id2 = "s" + id
	}
	form := "general"
	var res string
	if r.Intn(2) == 0 {
		if c == "" && r.Intn(2) == 0 {
			form = "T"
			res = a.tT(text(id), args...)
		} else {
			res = a.tX(c, text(id), args...)
		}
		emit(ev{"e": "x", "i": i, "via": via, "c": c, "id": id, "arg": arg, "res": res, "form": form})
		return
	}
	forms := []string{"XN64", "XN"}
	if c == "" {
		forms = append(forms, "N", "N64")
		if id2 == "" {
			forms = append(forms, "N1", "N1_64")
		}
	}
	if id2 == "" {
		forms = append(forms, "XN1", "XN1_64")
	}
	form = forms[r.Intn(len(forms))]
	m, p := text(id), text(id2)
	switch form {
	case "XN64":
		res = a.tXN64(c, m, p, n, args...)
	case "XN":
		res = a.tXN(c, m, p, int(n), args...)
	case "N":
		res = a.tN(m, p, int(n), args...)
	case "N64":
		res = a.tN64(m, p, n, args...)
	case "N1":
		res = a.tN1(m, int(n), args...)
	case "N1_64":
		res = a.tN1_64(m, n, args...)
	case "XN1":
		res = a.tXN1(c, m, int(n), args...)
	case "XN1_64":
		res = a.tXN1_64(c, m, n, args...)
	}
	emit(ev{"e": "xn", "i": i, "via": via, "c": c, "id": id, "id2": id2, "hi": hi, "n": lo, "arg": arg, "res": res, "form": form})
}

var _ = t.T
