package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
)

func init() {
	handlers["load"] = replayLoad
	recorders["load"] = recordLoad
}

type loadNode struct {
	P    []Bytes `json:"p"`
	Kind string  `json:"kind"`
	Lang string  `json:"lang"`
}
type loadReg struct {
	Lang string
	P    []Bytes
}

func (l *loadReg) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &[]any{&l.Lang, &l.P}) }
func (l loadReg) MarshalJSON() ([]byte, error)  { return json.Marshal([]any{l.Lang, l.P}) }

type loadRes struct {
	Ok  bool
	Reg []loadReg
}

func joinPath(p []Bytes) string {
	var s []string
	for _, c := range p {
		s = append(s, string(c))
	}
	if len(s) == 0 {
		return "."
	}
	return path.Join(s...)
}

// simpleMo builds a MO file from pairs of original and translation.
func simpleMo(pairs [][2]string, bo binary.ByteOrder) []byte {
	n := len(pairs)
	head := 28
	var ids, strs []byte
	var t1, t2 []uint32
	base := head + 16*n
	for _, p := range pairs {
		t1 = append(t1, uint32(len(p[0])), uint32(base+len(ids)))
		ids = append(append(ids, p[0]...), 0)
	}
	for _, p := range pairs {
		t2 = append(t2, uint32(len(p[1])), uint32(base+len(ids)+len(strs)))
		strs = append(append(strs, p[1]...), 0)
	}
	out := make([]byte, 0, base+len(ids)+len(strs))
	for _, v := range append(append([]uint32{0x950412de, 0, uint32(n), uint32(head), uint32(head + 8*n), 0, 0}, t1...), t2...) {
		var b [4]byte
		bo.PutUint32(b[:], v)
		out = append(out, b[:]...)
	}
	return append(append(out, ids...), strs...)
}

func loadContent(nd loadNode, k int) []byte {
	name := string(nd.P[len(nd.P)-1])
	mo := strings.HasSuffix(name, ".mo")
	if nd.Kind == "swapped" {
		mo = !mo
	}
	marker := joinPath(nd.P)
	hdr := ""
	if nd.Kind != "nolang" {
		hdr = "Language: " + nd.Lang + "\n"
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if k%2 == 1 {
		bo = binary.BigEndian
	}
	var filler [][2]string
	if nd.Kind == "big" { // beyond any buffer: a long text and many of them, what is asked for comes last
		filler = append(filler, [2]string{"long", strings.Repeat("0123456789 ", 20000)})
		for i := 0; i < 6000; i++ {
			filler = append(filler, [2]string{fmt.Sprintf("filler %05d", i), strings.Repeat("x", 150)})
		}
	}
	goodMo := func() []byte {
		if len(filler) > 0 {
			return simpleMo(append(append([][2]string{{"", "Project-Id-Version: x\n" + hdr}}, filler...), [2]string{"who", marker}), bo)
		}
		return simpleMo([][2]string{{"", "Project-Id-Version: x\n" + hdr}, {"who", marker}}, bo)
	}
	goodPo := func() []byte {
		var more strings.Builder
		for _, e := range filler {
			fmt.Fprintf(&more, "# a comment\nmsgid \"%s\"\nmsgstr \"%s\"\n\n", e[0], e[1])
		}
		return []byte("msgid \"\"\nmsgstr \"Project-Id-Version: x\\n\"\n" + fmt.Sprintf("%q", hdr) + "\n\n" + more.String() + "msgid \"who\"\nmsgstr \"" + marker + "\"\n")
	}
	switch {
	case nd.Kind == "empty":
		return nil
	case nd.Kind == "bad" && mo:
		b := goodMo()
		switch k % 4 {
		case 0:
			return b[:40]
		case 1:
			b[0] ^= 1
		case 2:
			return b[:len(b)/2]
		case 3:
			bo.PutUint32(b[28+8:], 1<<31)
		}
		return b
	case nd.Kind == "bad":
		b := string(goodPo())
		switch k % 4 {
		case 0:
			b += "msgid \"x\"\nmsgstr \"y\n"
		case 1:
			b += "this is not PO\n"
		case 2:
			b += "msgid unquoted\nmsgstr \"y\"\n"
		case 3:
			b += "msgid \"\\q\"\nmsgstr \"y\"\n"
		}
		return []byte(b)
	case mo:
		return goodMo()
	}
	return goodPo()
}

// faultFS is a file system in which some files cannot be read and some
// directories cannot be listed.
type faultFS struct {
	m      fstest.MapFS
	broken map[string]string // path -> how
}

var errFault = errors.New("injected fault")

func (f faultFS) Open(name string) (fs.File, error) {
	how := f.broken[name]
	if how == "noopen" || how == "denyopen" {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	file, err := f.m.Open(name)
	if err != nil || how == "" {
		return file, err
	}
	return &faultFile{file, how}, nil
}

type faultFile struct {
	fs.File
	how string
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	if f.how == "nostat" {
		return nil, errFault
	}
	return f.File.Stat()
}

func (f *faultFile) Read(b []byte) (int, error) {
	switch f.how {
	case "nostat":
		return 0, errFault
	case "readerr":
		n, err := f.File.Read(b)
		if err != nil { // everything was delivered, but then the file fails
			err = errFault
		}
		return n, err
	}
	return f.File.Read(b)
}

func (f *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.how == "deny" {
		return nil, errFault
	}
	return f.File.(fs.ReadDirFile).ReadDir(n)
}

func loadFS(nodes []loadNode, deny [][]Bytes) faultFS {
	f := faultFS{fstest.MapFS{}, map[string]string{}}
	for k, nd := range nodes {
		p := joinPath(nd.P)
		f.m[p] = &fstest.MapFile{Data: loadContent(nd, k)}
		switch nd.Kind {
		case "noopen", "readerr", "nostat":
			f.broken[p] = nd.Kind
		}
	}
	for k, d := range deny {
		p := joinPath(d)
		f.broken[p] = []string{"deny", "denyopen"}[k%2]
		if p != "." {
			f.m[p+"/zz.txt"] = &fstest.MapFile{Data: []byte("x")}
		}
	}
	return f
}

// loadDir writes the tree to disk, as far as a real directory can be like it.
func loadDir(nodes []loadNode, deny [][]Bytes) (dir string, ok bool) {
	if len(deny) > 0 {
		return "", false
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tree")
	must(err)
	for k, nd := range nodes {
		p := filepath.Join(dir, joinPath(nd.P))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		switch nd.Kind {
		case "noopen":
			must(os.Symlink("nowhere", p))
		case "readerr", "nostat":
			must(os.MkdirAll(filepath.Join(dir, ".x"), 0o755))
			must(os.Symlink(filepath.Join(dir, ".x"), p)) // opens, but is a directory
		default:
			if k%3 == 2 { // a link to the file is as good as the file
				must(os.MkdirAll(dir+".real", 0o755))
				target := filepath.Join(dir+".real", fmt.Sprint(k))
				must(os.WriteFile(target, loadContent(nd, k), 0o644))
				must(os.Symlink(target, p))
			} else {
				must(os.WriteFile(p, loadContent(nd, k), 0o644))
			}
		}
	}
	return dir, true
}

var loadLangs = []string{"de_DE", "en_GB", "en_US", "fr_CA", "fr_FR", "ja_JP", "pt_BR", "pt_PT", "ru_RU", "zh_CN", "zh_TW"}

// holdings asks a Translation for what it has under every language.
func holdings(tr *t.Translation) (reg []loadReg) {
	for _, l := range append([]string{"", "zh-Hans", "zh", "fr", "xx"}, loadLangs...) {
		if tor, ok := tr.Get(l); ok {
			reg = append(reg, loadReg{l, splitPath(tor.X("", "who"))})
		}
	}
	return
}

func splitPath(s string) (p []Bytes) {
	for _, c := range strings.Split(s, "/") {
		p = append(p, Bytes(c))
	}
	return
}

func showReg(reg []loadReg) string {
	var s []string
	for _, r := range reg {
		s = append(s, r.Lang+"="+joinPath(r.P))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func replayLoad(raw []byte) Result {
	var c struct {
		Nodes  []loadNode
		Deny   [][]Bytes
		Ok     bool
		Reg    []loadReg
		Single []loadRes
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	f := loadFS(c.Nodes, c.Deny)
	want := showReg(c.Reg)
	tr := t.NewTranslation("d")
	cmp.eq("LoadFS", "success", tr.LoadFS(f), c.Ok)
	cmp.eq("LoadFS", "catalogs", showReg(holdings(tr)), want)

	old := fstest.MapFS{"o/ja.po": {Data: loadContent(loadNode{P: []Bytes{Bytes("old")}, Kind: "good", Lang: "ja"}, 0)}}
	through := func(name string, ok bool, want string, load func(ts *t.Translations)) {
		for _, bound := range []bool{false, true} {
			ts := t.NewTranslations()
			ts.SetDomain("d")
			exp := want
			if bound {
				ts.BindFS("d", old)
				if !ok {
					exp = "ja_JP=old"
				}
			}
			load(ts)
			n := fmt.Sprintf("%s (bound before: %v)", name, bound)
			cmp.eq(n, "HasDomain", ts.HasDomain("d"), ok || bound)
			var reg []loadReg
			if tr, has := ts.Get("d"); has {
				reg = holdings(tr)
			}
			cmp.eq(n, "catalogs", showReg(reg), exp)
			for _, r := range reg {
				cmp.eq(n, "lookup in "+r.Lang, ts.L(r.Lang).T("who"), joinPath(r.P))
			}
		}
	}
	through("BindFS", c.Ok, want, func(ts *t.Translations) { ts.BindFS("d", f) })
	if dir, ok := loadDir(c.Nodes, c.Deny); ok {
		defer os.RemoveAll(dir)
		defer os.RemoveAll(dir + ".real")
		through("Bind", c.Ok, want, func(ts *t.Translations) {
			defer t.SetGlobal(t.NewTranslations())
			t.SetGlobal(ts)
			t.Bind("d", dir)
		})
		through("Load", c.Ok, want, func(ts *t.Translations) {
			defer t.SetGlobal(t.NewTranslations())
			t.SetGlobal(ts)
			t.Load(dir + "/")
		})
		for k, nd := range c.Nodes {
			w := ""
			if len(c.Single[k].Reg) == 1 {
				w = c.Single[k].Reg[0].Lang + "=" + joinPath(nd.P)
			}
			through("Load of the file "+joinPath(nd.P), c.Single[k].Ok, w, func(ts *t.Translations) {
				defer t.SetGlobal(t.NewTranslations())
				t.SetGlobal(ts)
				t.Load(filepath.Join(dir, joinPath(nd.P)))
			})
		}
		through("Load of a missing path", false, "", func(ts *t.Translations) {
			defer t.SetGlobal(t.NewTranslations())
			t.SetGlobal(ts)
			t.Load(filepath.Join(dir, "no", "such.po"))
		})
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n, Note: fmt.Sprintf("%s: %s differs, tree %s",
			cmp.diffs[0].Where, cmp.diffs[0].What, showTree(c.Nodes, c.Deny))}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

func showTree(nodes []loadNode, deny [][]Bytes) string {
	var s []string
	for _, n := range nodes {
		s = append(s, fmt.Sprintf("%s(%s %s)", joinPath(n.P), n.Kind, n.Lang))
	}
	for _, d := range deny {
		s = append(s, "unlistable "+joinPath(d))
	}
	return strings.Join(s, " ")
}

func recordLoad(r *rand.Rand, n int, emit func(any)) {
	stems := []string{"a", "b", "é", "zh", "a-b", "A", "z9", ".i18n", "_x", "vendor", "testdata", "node_modules", "a b", "", "x.y"}
	exts := []string{".po", ".po", ".po", ".mo", ".mo", ".PO", ".po~", ".pot", ".txt", "", "po", ".mo.po", ".po.mo"}
	kinds := []string{"good", "good", "good", "good", "nolang", "bad", "empty", "swapped", "noopen", "readerr", "nostat"}
	for i := 0; i < n; i++ {
		langs := regGroups[r.Intn(len(regGroups))]
		nodes, deny := []loadNode{}, [][]Bytes{}
		taken := map[string]bool{}
		var dirs [][]Bytes
		for k := r.Intn(14); k > 0; k-- {
			var p []Bytes
			if len(dirs) > 0 && r.Intn(2) == 0 {
				p = append(p, dirs[r.Intn(len(dirs))]...)
			} else {
				for d := r.Intn(4); d > 0; d-- {
					c := stems[r.Intn(len(stems)-2)]
					if r.Intn(4) == 0 {
						c += exts[r.Intn(5)]
					}
					p = append(p, Bytes(c))
				}
			}
			bad := false
			for d := 1; d <= len(p); d++ {
				bad = bad || taken[joinPath(p[:d])+"/file"]
			}
			name := stems[r.Intn(len(stems))] + exts[r.Intn(len(exts))]
			full := append(append([]Bytes{}, p...), Bytes(name))
			s := joinPath(full)
			if bad || name == "" || taken[s] || taken[s+"/file"] {
				continue
			}
			for d := 1; d <= len(p); d++ {
				taken[joinPath(p[:d])] = true
			}
			taken[s+"/file"] = true
			if len(p) > 0 {
				dirs = append(dirs, p)
			}
			lang := langs[r.Intn(len(langs))]
			if r.Intn(3) == 0 {
				lang = regSpells[r.Intn(len(regSpells))]
			}
			nodes = append(nodes, loadNode{full, kinds[r.Intn(len(kinds))], lang})
		}
		for k := r.Intn(4); k > 1 && len(dirs) > 0; k-- {
			deny = append(deny, dirs[r.Intn(len(dirs))])
		}
		line := func() (line ev) {
			line = ev{"nodes": nodes, "deny": deny, "ok": false, "reg": []loadReg{{"panic", []Bytes{}}}}
			defer func() { recover() }()
			tr := t.NewTranslation("d")
			var ok bool
			if dir, real := loadDir(nodes, deny); real && i%2 == 0 {
				defer os.RemoveAll(dir)
				defer os.RemoveAll(dir + ".real")
				ok = tr.LoadFS(os.DirFS(dir))
			} else {
				os.RemoveAll(dir)
				os.RemoveAll(dir + ".real")
				ok = tr.LoadFS(loadFS(nodes, deny))
			}
			reg := holdings(tr)
			if reg == nil {
				reg = []loadReg{}
			}
			line["ok"], line["reg"] = ok, reg
			return
		}()
		emit(line)
	}
}
