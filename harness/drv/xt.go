package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/translator"
)

func init() { handlers["xt"] = replayXt }

type xtFile struct {
	Name Bytes `json:"name"`
	Text Bytes `json:"text"`
}
type xtOcc struct {
	File int `json:"file"`
	Lo   int `json:"lo"`
	Hi   int `json:"hi"`
}
type xtExp struct {
	C, Id           Bytes
	Id2s            []Bytes
	Clear, Must, Pl bool
	Pct             bool
	Conflict        bool
	Occ             []xtOcc
}
type xtSeen struct { // one occurrence in the written template
	File int `json:"file"`
	Line int `json:"line"`
}
type xtGot struct {
	C   Bytes    `json:"c"`
	Id  Bytes    `json:"id"`
	Pl  bool     `json:"pl"`
	Id2 Bytes    `json:"id2"`
	Fl  bool     `json:"fl"`
	Occ []xtSeen `json:"occ"`
}

// potEntry is an entry as the strict reader below sees it.
type potEntry struct {
	cm           []string
	c, id, id2   string
	hasC, hasId2 bool
	str          []string
}

// strictPot reads well-formed PO text, independently of the library.
func strictPot(text string) (res []potEntry, err error) {
	var cur *potEntry
	var dst *string
	ended := true
	unq := func(s string) (string, error) {
		s = strings.TrimSpace(s)
		if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
			return "", fmt.Errorf("not a quoted string: %s", s)
		}
		var b []byte
		for in := s[1 : len(s)-1]; len(in) > 0; {
			if in[0] == '"' {
				return "", fmt.Errorf("stray quote in %s", s)
			}
			if in[0] != '\\' {
				b = append(b, in[0])
				in = in[1:]
				continue
			}
			if len(in) < 2 {
				return "", fmt.Errorf("stray backslash in %s", s)
			}
			if i := strings.IndexByte("abtnvfr\"\\", in[1]); i >= 0 {
				b = append(b, "\a\b\t\n\v\f\r\"\\"[i])
				in = in[2:]
				continue
			}
			k := 1
			for k < len(in) && k < 4 && in[k] >= '0' && in[k] <= '7' {
				k++
			}
			if k > 1 {
				v, _ := strconv.ParseUint(in[1:k], 8, 8)
				b = append(b, byte(v))
				in = in[k:]
				continue
			}
			if in[1] == 'x' && len(in) >= 4 {
				v, e := strconv.ParseUint(in[2:4], 16, 8)
				if e != nil {
					return "", e
				}
				b = append(b, byte(v))
				in = in[4:]
				continue
			}
			return "", fmt.Errorf("odd escape in %s", s)
		}
		return string(b), nil
	}
	start := func() {
		if ended {
			res = append(res, potEntry{})
			cur = &res[len(res)-1]
			ended = false
		}
	}
	for _, line := range strings.Split(text, "\n") {
		l := strings.TrimSpace(line)
		word, rest, _ := strings.Cut(l, " ")
		switch {
		case l == "":
			continue
		case l[0] == '#':
			start()
			cur.cm = append(cur.cm, l)
			dst = nil
			continue
		case l[0] == '"':
			if dst == nil {
				return nil, fmt.Errorf("stray string %s", l)
			}
			s, e := unq(l)
			if e != nil {
				return nil, e
			}
			*dst += s
			continue
		case word == "msgctxt":
			start()
			cur.hasC = true
			dst = &cur.c
		case word == "msgid":
			start()
			dst = &cur.id
		case word == "msgid_plural" && cur != nil:
			cur.hasId2 = true
			dst = &cur.id2
		case strings.HasPrefix(word, "msgstr") && cur != nil:
			cur.str = append(cur.str, "")
			dst = &cur.str[len(cur.str)-1]
			ended = true
		default:
			return nil, fmt.Errorf("unknown line %s", l)
		}
		s, e := unq(rest)
		if e != nil {
			return nil, e
		}
		*dst = s
	}
	if !ended {
		return nil, errors.New("unfinished entry")
	}
	return res, nil
}

// captured runs f with standard output and error going to files.
func captured(f func() error) (stdout, stderr string, err error) {
	tmp := func() *os.File {
		o, e := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "std")
		must(e)
		return o
	}
	so, se := tmp(), tmp()
	oldO, oldE := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = so, se
	defer func() {
		os.Stdout, os.Stderr = oldO, oldE
		read := func(o *os.File) string {
			b, e := os.ReadFile(o.Name())
			must(e)
			o.Close()
			must(os.Remove(o.Name()))
			return string(b)
		}
		stdout, stderr = read(so), read(se)
	}()
	err = func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("panic: %v", e)
			}
		}()
		return f()
	}()
	return
}

func noDate(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.Contains(l, "POT-Creation-Date:") {
			ls[i] = "DATE"
		}
	}
	return strings.Join(ls, "\n")
}

// writeTree puts the files into a new directory.
func writeTree(files []xtFile) string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "xt")
	must(err)
	for _, f := range files {
		p := filepath.Join(dir, string(f.Name))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, f.Text, 0o644))
	}
	return dir
}

// gotEntries turns the written template into entries with their places.
func gotEntries(out, dir string, files []xtFile) (head *potEntry, got []xtGot, err error) {
	es, err := strictPot(out)
	if err != nil {
		return nil, nil, err
	}
	if len(es) == 0 {
		return nil, nil, errors.New("no header")
	}
	got = []xtGot{}
	for i := range es {
		e := es[i]
		if e.c == "" && e.id == "" {
			if i != 0 {
				return nil, nil, fmt.Errorf("entry %d is a header", i+1)
			}
			head = &es[i]
			if len(e.str) != 1 || !strings.Contains(e.str[0], ":") {
				return nil, nil, errors.New("the header has no text")
			}
			for _, c := range e.cm {
				if strings.HasPrefix(c, "#: ") {
					return nil, nil, fmt.Errorf("the header is a message at %s", c)
				}
			}
			continue
		}
		g := xtGot{C: Bytes(e.c), Id: Bytes(e.id), Pl: e.hasId2, Id2: Bytes(e.id2), Occ: []xtSeen{}}
		for _, c := range e.cm {
			g.Fl = g.Fl || strings.HasPrefix(c, "#,") && strings.Contains(c, "go-format")
			pos, ok := strings.CutPrefix(c, "#: ")
			if !ok {
				continue
			}
			for k, f := range files {
				if l, ok := strings.CutPrefix(pos, filepath.Join(dir, string(f.Name))+":"); ok {
					if n, e := strconv.Atoi(l); e == nil {
						g.Occ = append(g.Occ, xtSeen{k + 1, n})
						pos = ""
					}
				}
			}
			if pos != "" {
				return nil, nil, fmt.Errorf("a place that is not one of the files: %s", c)
			}
		}
		for _, s := range e.str {
			if s != "" {
				return nil, nil, fmt.Errorf("%q has a translation", e.id)
			}
		}
		got = append(got, g)
	}
	if head == nil {
		return nil, nil, errors.New("no header")
	}
	return head, got, nil
}

// acceptEntries is Accepts of Extract.tla.
func acceptEntries(got []xtGot, exp []xtExp) string {
	seen := map[[2]string]bool{}
	in := func(o xtSeen, es []xtOcc) bool {
		for _, e := range es {
			if e.File == o.File && e.Lo <= o.Line && o.Line <= e.Hi {
				return true
			}
		}
		return false
	}
	for _, g := range got {
		k := [2]string{string(g.C), string(g.Id)}
		if seen[k] {
			return fmt.Sprintf("message %q listed twice", k)
		}
		seen[k] = true
		var e *xtExp
		for i := range exp {
			if string(exp[i].C) == k[0] && string(exp[i].Id) == k[1] {
				e = &exp[i]
			}
		}
		if e == nil {
			return fmt.Sprintf("message %q extracted, which no call has", k)
		}
		for _, o := range g.Occ {
			if !in(o, e.Occ) {
				return fmt.Sprintf("message %q is not used at file %d line %d (but at %v)", k, o.File, o.Line, e.Occ)
			}
		}
		if strings.Contains(string(g.Id)+string(g.Id2), "%") && !g.Fl {
			return fmt.Sprintf("message %q is not flagged as a format", k)
		}
		if g.Fl && !e.Pct {
			return fmt.Sprintf("message %q is flagged as a format", k)
		}
		if !e.Clear {
			continue
		}
		if g.Pl != e.Pl {
			return fmt.Sprintf("message %q: plural is %v, should be %v", k, g.Pl, e.Pl)
		}
		if g.Pl {
			ok := false
			for _, s := range e.Id2s {
				ok = ok || string(s) == string(g.Id2)
			}
			if !ok {
				return fmt.Sprintf("message %q has plural %q, should be one of %q", k, g.Id2, e.Id2s)
			}
		}
		for _, x := range e.Occ {
			ok := false
			for _, o := range g.Occ {
				ok = ok || in(o, []xtOcc{x})
			}
			if !ok {
				return fmt.Sprintf("message %q: use in file %d line %d-%d is not listed", k, x.File, x.Lo, x.Hi)
			}
		}
	}
	for _, e := range exp {
		if e.Must && !seen[[2]string{string(e.C), string(e.Id)}] {
			return fmt.Sprintf("message %q is missing", [2]string{string(e.C), string(e.Id)})
		}
	}
	return ""
}

func replayXt(raw []byte) Result {
	var c struct {
		Files        []xtFile
		L, R, Kw, Fn Bytes
		Exp          []xtExp
	}
	must(json.Unmarshal(raw, &c))
	dir := writeTree(c.Files)
	defer os.RemoveAll(dir)
	outFile := filepath.Join(dir, "out.pot")
	p := internal.Param{Input: filepath.Join(dir, "*.tmpl"), Left: string(c.L), Right: string(c.R), Keyword: string(c.Kw),
		Function: string(c.Fn), OutputFile: outFile}
	checks := 0
	bad := func(obs any, exp, note string) Result {
		var b strings.Builder
		for _, f := range c.Files {
			fmt.Fprintf(&b, "--- %s\n%s\n", f.Name, f.Text)
		}
		return Result{Verdict: "bad", Obs: obs, Exp: exp, Note: note + ", keywords " + string(c.Kw) + "\n" + b.String(), Checks: checks}
	}
	run := func() (string, string, error) {
		q := p
		_, stderr, err := captured(func() error { return internal.Run(&q) })
		if err != nil {
			return "", stderr, err
		}
		out, err := os.ReadFile(outFile)
		return string(out), stderr, err
	}
	out, stderr, err := run()
	checks++
	if err != nil {
		return bad(err.Error()+" "+stderr, "no error", "Run failed")
	}
	head, got, err := gotEntries(out, dir, c.Files)
	if err != nil {
		return bad(out, "a well-formed template with one header", err.Error())
	}
	if opt("what", "") != "files" { // C19
		checks += len(c.Exp)
		if why := acceptEntries(got, c.Exp); why != "" {
			return bad(out, "", why)
		}
		return Result{Verdict: "ok", Checks: checks}
	}
	// C20
	checks += len(c.Exp)
	if why := acceptEntries(got, c.Exp); why != "" {
		return bad(out, "", why)
	}
	plural := false
	for _, g := range got {
		plural = plural || g.Pl
	}
	if why := badHeader(head, p, plural); why != "" {
		return bad(out, "", why)
	}
	for _, e := range c.Exp {
		checks++
		if e.Conflict && !strings.Contains(stderr, string(e.Id)) {
			return bad(stderr, "a report on message "+string(e.Id), "a message used both with and without plural is not reported")
		}
	}
	for k := 0; k < 4; k++ {
		again, _, err := run()
		checks++
		if err != nil || noDate(again) != noDate(out) {
			return bad(again, out, "another run writes another template")
		}
	}
	if cli := opt("cli", ""); cli != "" && hashOf(raw)%uint32(optInt("every", 16)) == 0 {
		for _, v := range [][]string{{"LANG=zh_CN.UTF-8", "TZ=Asia/Shanghai"}, {"LANG=", "LC_ALL=fr_FR", "TZ=UTC", "HOME=/nonexistent", "GOMAXPROCS=1"}, nil} {
			q := p
			args := []string{"-i", p.Input, "-k", p.Keyword, "-left", p.Left, "-right", p.Right, "-f", p.Function}
			if v != nil {
				args = append(args, "-o", outFile)
			} else {
				q.OutputFile = ""
			}
			cmd := exec.Command(cli, args...)
			cmd.Dir = os.Getenv("VERIF_SCRATCH")
			cmd.Env = append(os.Environ(), v...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			checks++
			if err := cmd.Run(); err != nil {
				return bad(err.Error()+" "+se.String(), "no error", fmt.Sprint("the command fails with ", v))
			}
			now := so.String()
			if v != nil {
				raw, err := os.ReadFile(outFile)
				must(err)
				now += string(raw)
			}
			same := func(s string) string { // the name of the output is recorded
				s = noDate(s)
				if i := strings.Index(s, "\"X-Xtemplate-Output:"); i >= 0 {
					if j := strings.Index(s[i:], "\n\n"); j >= 0 {
						return s[:i] + s[i+j:]
					}
				}
				return s
			}
			if same(now) != same(out) {
				return bad(now, out, fmt.Sprint("the command writes another template with ", v))
			}
			h, _, err := gotEntries(now, dir, c.Files)
			must(err)
			if why := badHeader(h, q, plural); why != "" {
				return bad(now, "", why)
			}
		}
	}
	f, err := translator.ReadPot([]byte(out))
	if err != nil {
		return bad(err.Error(), "the template is readable", "ReadPot fails on the template\n"+out)
	}
	checks++
	if h, ok := f.GetHeader("X-Xtemplate-Keywords"); len(got) > 0 && (!ok || h != strings.TrimSpace(p.Keyword)) {
		return bad(h, p.Keyword, "the header read back does not record the keywords")
	}
	var b bytes.Buffer
	f.SaveAsPot(&b)
	if _, again, err := gotEntries(b.String(), dir, c.Files); err != nil || fmt.Sprint(again) != fmt.Sprint(got) {
		return bad(b.String(), out, "the template read back differs")
	}
	return Result{Verdict: "ok", Checks: checks}
}

// badHeader says what is wrong with the header of a written template.
func badHeader(head *potEntry, p internal.Param, plural bool) string {
	if len(head.str) != 1 {
		return "the header has no text"
	}
	ls := strings.Split(head.str[0], "\n")
	count := func(name string) (n int, val string) {
		for _, l := range ls {
			if k, v, ok := strings.Cut(l, ":"); ok && k == name {
				n++
				val = strings.TrimSpace(v)
			}
		}
		return
	}
	for name, want := range map[string]string{"X-Xtemplate-Input": p.Input, "X-Xtemplate-Left": p.Left, "X-Xtemplate-Right": p.Right,
		"X-Xtemplate-Keywords": p.Keyword, "X-Xtemplate-Functions": p.Function, "X-Xtemplate-Output": p.OutputFile} {
		if n, v := count(name); n != 1 || v != strings.TrimSpace(want) {
			return fmt.Sprintf("the header does not record %s: %q", name, want)
		}
	}
	if n, _ := count("Plural-Forms"); (n == 1) != plural || n > 1 {
		return fmt.Sprintf("plural-forms line is there %d times, some message has a plural: %v", n, plural)
	}
	return ""
}

func hashOf(raw []byte) uint32 { return crc32.ChecksumIEEE(raw) }

func optInt(name string, def int) int {
	n, err := strconv.Atoi(opt(name, strconv.Itoa(def)))
	must(err)
	return n
}
