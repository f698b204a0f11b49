package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
)

func init() { recorders["xt"] = recordXt }

// xtNode is a template tree as in Extract.tla.
type xtNode struct {
	T string   `json:"t"`
	S Bytes    `json:"s"`
	Y int      `json:"y"`
	K []xtNode `json:"k"`
}

func nd(t, s string, y int, k ...xtNode) xtNode {
	if k == nil {
		k = []xtNode{}
	}
	return xtNode{t, Bytes(s), y, k}
}

type xtRender struct{ l, r string }

func (x xtRender) str(s string, y int) string {
	if y == 1 {
		return "`" + s + "`"
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case y == 3:
			fmt.Fprintf(&b, "\\x%02x", c)
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\t':
			b.WriteString("\\t")
		case c < 32 || c == 127 || y == 2 && i%2 == 0 && c < 128:
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (x xtRender) op(o xtNode) string {
	switch o.T {
	case "str":
		return x.str(string(o.S), o.Y)
	case "paren":
		return "(" + x.pipe(o.K[0]) + ")"
	case "chain":
		return "(" + x.pipe(o.K[0]) + ")" + string(o.S)
	}
	return string(o.S)
}

func (x xtRender) pipe(p xtNode) string {
	var cs []string
	for _, c := range p.K {
		var os []string
		for _, o := range c.K {
			os = append(os, x.op(o))
		}
		cs = append(cs, strings.Join(os, " "))
	}
	return string(p.S) + strings.Join(cs, " | ")
}

func (x xtRender) tag(y int, body string) string {
	o, c := x.l, x.r
	if y&1 != 0 {
		o += "- "
	}
	if y&4 != 0 {
		o += "\n"
	}
	if y&2 != 0 {
		c = " -" + c
	}
	if y&4 != 0 {
		c = "\n" + c
	}
	return o + body + c
}

func (x xtRender) all(ns []xtNode) string {
	s := ""
	for _, n := range ns {
		s += x.node(n)
	}
	return s
}

func (x xtRender) node(n xtNode) string {
	two := func(word string) string {
		s := x.tag(n.Y, word+x.pipe(n.K[0])) + x.all(n.K[1].K)
		if len(n.K) > 2 {
			if n.K[2].T == "list" {
				s += x.tag(n.Y, "else") + x.all(n.K[2].K)
			} else {
				s += x.node(n.K[2])
			}
		}
		return s
	}
	end := x.tag(n.Y, "end")
	name := x.str(string(n.S), 0)
	switch n.T {
	case "text":
		return string(n.S)
	case "cmt":
		o, c := x.l, x.r
		if n.Y&1 != 0 {
			o += "- "
		}
		if n.Y&2 != 0 {
			c = " -" + c
		}
		return o + "/*" + string(n.S) + "*/" + c
	case "word":
		return x.tag(n.Y, string(n.S))
	case "act":
		return x.tag(n.Y, x.pipe(n.K[0]))
	case "if", "range", "with":
		return two(n.T+" ") + end
	case "elif":
		return two("else if ")
	case "elwith":
		return two("else with ")
	case "tmpl":
		if len(n.K) == 0 {
			return x.tag(n.Y, "template "+name)
		}
		return x.tag(n.Y, "template "+name+" "+x.pipe(n.K[0]))
	case "def":
		return x.tag(n.Y, "define "+name) + x.all(n.K[0].K) + end
	case "block":
		return x.tag(n.Y, "block "+name+" "+x.pipe(n.K[0])) + x.all(n.K[1].K) + end
	}
	return x.all(n.K)
}

// xtGen makes random trees.
type xtGen struct {
	r     *rand.Rand
	id    int
	names []string // callable names
	words []string // message texts in use
	free  string   // delimiters that plain text must not contain
}

func (g *xtGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g *xtGen) str() xtNode {
	s := g.words[g.r.Intn(len(g.words))]
	y := g.r.Intn(3)
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 || s[i] == '`' || s[i] == '\r' || s[i] < 32 {
			if y == 1 {
				y = 0
			}
			if s[i] >= 128 && strings.ToValidUTF8(s, "") != s {
				y = 3
			}
		}
	}
	return nd("str", s, y)
}

func (g *xtGen) operand(depth int, head bool) xtNode {
	name := g.names[g.r.Intn(len(g.names))]
	if !head && g.r.Intn(8) > 0 { // keywords that are only arguments are not judged
		name = g.pick("f", "Title", "y")
	}
	switch k := g.r.Intn(12); {
	case k < 5 && !head:
		return g.str()
	case k < 6 && !head:
		return nd("const", g.pick("1", ".", "true", "2.5", "'c'", "-3", "nil"), 0)
	case k < 7 && depth > 0 && !head:
		return nd("paren", "", 0, g.pipe(depth-1))
	case k < 8 && depth > 0:
		return nd("chain", g.pick(".", ".A.")+name, 0, g.pipe(depth-1))
	case k < 9:
		return nd("field", g.pick(".", ".A.", ".A.B.")+name, 0)
	case k < 10:
		return nd("var", g.pick("$.", "$.A.")+name, 0)
	}
	return nd("id", name, 0)
}

func (g *xtGen) pipe(depth int) xtNode {
	var cs []xtNode
	for i := g.r.Intn(3); i >= 0; i-- {
		var os []xtNode
		if len(cs) == 0 && g.r.Intn(3) == 0 {
			os = append(os, g.str())
			if g.r.Intn(3) == 0 {
				os[0] = nd("paren", "", 0, nd("pipe", "", 0, nd("cmd", "", 0, os[0])))
			}
		} else {
			os = append(os, g.operand(depth, true))
			for k := g.r.Intn(4); k > 0; k-- {
				os = append(os, g.operand(depth, false))
			}
		}
		cs = append(cs, nd("cmd", "", 0, os...))
	}
	return nd("pipe", "", 0, cs...)
}

func (g *xtGen) style() int {
	if g.r.Intn(3) == 0 {
		return g.r.Intn(8)
	}
	return 0
}

func (g *xtGen) decl(p xtNode, s string) xtNode {
	if g.r.Intn(3) == 0 {
		g.id++
		p.S = Bytes(strings.ReplaceAll(s, "#", fmt.Sprint(g.id)))
	}
	return p
}

func (g *xtGen) list(depth, n int, loop bool) xtNode {
	var ns []xtNode
	for ; n > 0; n-- {
		ns = append(ns, g.node(depth, loop))
	}
	return nd("list", "", 0, ns...)
}

func (g *xtGen) node(depth int, loop bool) xtNode {
	y := g.style()
	body := func() xtNode { return g.list(depth-1, g.r.Intn(3), loop) }
	k := g.r.Intn(14)
	if depth <= 0 && k >= 6 {
		k = g.r.Intn(6)
	}
	switch k {
	case 0:
		return nd("text", g.pick("\n", " text \"T\" ", "T \"x\"\n", "<a href=\"x\">", "\n\n", "-"), 0)
	case 1:
		return nd("cmt", g.pick(" note ", " T \"a\" ", "\n"), g.r.Intn(4))
	case 2:
		g.id++
		if g.r.Intn(3) == 0 {
			return nd("tmpl", fmt.Sprint("x", g.id), y)
		}
		return nd("tmpl", fmt.Sprint("x", g.id), y, g.pipe(1))
	case 3:
		if loop {
			return nd("word", g.pick("break", "continue"), y)
		}
		fallthrough
	case 4, 5:
		return nd("act", "", y, g.decl(g.pipe(2), "$v# := "))
	case 6, 7, 8:
		k := []xtNode{g.decl(g.pipe(1), "$c# := "), body()}
		switch g.r.Intn(4) {
		case 0:
			k = append(k, body())
		case 1:
			e := nd("elif", "", y, g.pipe(1), body())
			if g.r.Intn(2) == 0 {
				e.K = append(e.K, body())
			}
			k = append(k, e)
		}
		return nd("if", "", y, k...)
	case 9, 10:
		k := []xtNode{g.decl(g.pipe(1), g.pick("$e# := ", "$i#, $e# := ")), g.list(depth-1, g.r.Intn(3), true)}
		if g.r.Intn(3) == 0 {
			k = append(k, body())
		}
		return nd("range", "", y, k...)
	case 11, 12:
		k := []xtNode{g.decl(g.pipe(1), "$w# := "), body()}
		switch g.r.Intn(4) {
		case 0:
			k = append(k, body())
		case 1:
			k = append(k, nd("elwith", "", y, g.pipe(1), body()))
		}
		return nd("with", "", y, k...)
	}
	g.id++
	// break and continue may not leave a block
	return nd("block", fmt.Sprint("blk", g.id), y, g.pipe(1), g.list(depth-1, 1+g.r.Intn(2), false))
}

func recordXt(r *rand.Rand, n int, emit func(any)) {
	scratch := os.Getenv("VERIF_SCRATCH")
	kws := []string{"T;N:1,2;X:1c,2;XN:1c,2,3", "T:2;N:2,3;X:2c,3;XN:2c,3,4", "T", "T:1;T:1,2", "N:2,1;X:2c,1;XN:3c,2,1", "X:1c,3;T:3",
		"T;N:1,3;X:1c,2;Other;XN:4c,1,2", "gettext;T:1;N:1,2;X:1c,2;XN:1c,2,3"}
	for i := 0; i < n; i++ {
		g := &xtGen{r: r, names: []string{"T", "N", "X", "XN", "T", "f", "Title", "call"}}
		for k := 0; k < 4; k++ {
			w := ""
			for j := r.Intn(4); j >= 0; j-- {
				w += g.pick("a", "b", "a", "%d", " ", "世界", "\n", "\"", "\\", "{{", "é", "\t", "`", "\xff", "\x01", "}}", "c")
			}
			g.words = append(g.words, w)
		}
		d := [][2]string{{"{{", "}}"}, {"{{", "}}"}, {"[[", "]]"}, {"<<", ">>"}, {"((", "))"}}[r.Intn(5)]
		if d[0] == "((" { // would collide with parentheses
			d = [2]string{"{%", "%}"}
		}
		x := xtRender{d[0], d[1]}
		kw := kws[r.Intn(len(kws))]
		var files []xtFile
		var logged []ev
		for f := 1 + r.Intn(2); f > 0; f-- {
			var tree []xtNode
			for k := 1 + r.Intn(3); k > 0; k-- {
				tree = append(tree, g.node(2, false))
				if r.Intn(5) == 0 {
					g.id++
					tree = append(tree, nd("def", fmt.Sprint(g.pick("d", "D", "a"), g.id), g.style(), g.list(1, 1, false)))
				}
			}
			name := fmt.Sprint("f", len(files), g.pick(".tmpl", "x.tmpl"))
			text := x.all(tree)
			files = append(files, xtFile{Bytes(name), Bytes(text)})
			logged = append(logged, ev{"name": Bytes(name), "text": Bytes(text), "tree": tree})
		}
		dir := writeTree(files)
		out := filepath.Join(scratch, "xt-out.pot")
		os.Remove(out)
		p := &internal.Param{Input: filepath.Join(dir, "*.tmpl"), Left: d[0], Right: d[1], Keyword: kw, OutputFile: out}
		_, stderr, err := captured(func() error { return internal.Run(p) })
		e := ""
		if err != nil {
			e = err.Error() + " " + stderr
		}
		b, _ := os.ReadFile(out)
		os.RemoveAll(dir)
		emit(ev{"files": logged, "dir": Bytes(dir), "l": Bytes(d[0]), "r": Bytes(d[1]), "kw": Bytes(kw), "err": e, "out": append(Bytes{}, b...)})
	}
}
