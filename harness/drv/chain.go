package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"text/template"

	"github.com/youthlin/t"
	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/translator"
)

func init() { handlers["chain"] = replayChain }

// replayChain extracts templates, translates the template file, delivers it
// and executes the templates in the translation.
func replayChain(raw []byte) Result {
	var c struct {
		Files     []xtFile
		Kw, Head  Bytes
		As        string
		Known, Tr []poEntry
		Want, Src []Bytes
	}
	must(json.Unmarshal(raw, &c))
	dir := writeTree(c.Files)
	defer os.RemoveAll(dir)
	bad := func(obs, exp any, note string) Result {
		var b bytes.Buffer
		for _, f := range c.Files {
			fmt.Fprintf(&b, "--- %s\n%s\n", f.Name, f.Text)
		}
		return Result{Verdict: "bad", Obs: obs, Exp: exp, Note: note + ", delivered as " + c.As + "\n" + b.String()}
	}
	pot := filepath.Join(dir, "out.pot")
	_, stderr, err := captured(func() error {
		return internal.Run(&internal.Param{Input: filepath.Join(dir, "*.tmpl"), Left: "{{", Right: "}}", Keyword: string(c.Kw), OutputFile: pot})
	})
	if err != nil {
		return bad(err.Error()+" "+stderr, "no error", "extraction failed")
	}
	content, err := os.ReadFile(pot)
	must(err)
	tmpl, err := translator.ReadPot(content)
	if err != nil {
		return bad(err.Error(), "no error", "the template file is not read back")
	}
	// the translator at work
	has := func(e *translator.Entry, in []poEntry) *poEntry {
		for i := range in {
			if string(in[i].C) == e.MsgCtxt && string(in[i].Id) == e.MsgID {
				return &in[i]
			}
		}
		return nil
	}
	done := new(translator.File)
	seen := 0
	for _, e := range tmpl.SortedEntry() {
		d := *e
		d.MsgStrN = nil
		if e.MsgCtxt == "" && e.MsgID == "" {
			d.MsgStr = string(c.Head)
			done.AddEntry(&d)
			continue
		}
		if has(e, c.Known) == nil {
			return bad([]string{e.MsgCtxt, e.MsgID}, nil, "a message in the template file that no call has")
		}
		seen++
		if x := has(e, c.Tr); x != nil {
			if e.IsPlural != x.Pl || e.MsgID2 != string(x.Id2) {
				return bad(fmt.Sprint(e.IsPlural, e.MsgID2), fmt.Sprint(x.Pl, string(x.Id2)), "plural of "+e.MsgID)
			}
			d.MsgStr = string(x.S)
			for _, s := range x.N {
				d.MsgStrN = append(d.MsgStrN, string(s))
			}
		}
		done.AddEntry(&d)
	}
	if seen != len(c.Known) {
		return bad(string(content), c.Known, "messages are missing in the template file")
	}
	loc := filepath.Join(dir, "locale")
	must(os.Mkdir(loc, 0o755))
	out, err := os.Create(filepath.Join(loc, "x."+c.As))
	must(err)
	if c.As == "mo" {
		err = done.SaveAsMo(out)
	} else {
		err = done.SaveAsPo(out)
	}
	must(out.Close())
	if err != nil {
		return bad(err.Error(), "no error", "saving failed")
	}
	ts := t.NewTranslations()
	ts.BindFS("app", os.DirFS(loc))
	ts.SetDomain("app")
	ts.SetLocale("de")
	var cmp comparer
	render := func(where string, v *t.Translations, want []Bytes) {
		fn := template.FuncMap{"T": v.T, "N": v.N, "X": v.X, "XN": v.XN}
		data := map[string]any{"V": "a", "No": "", "L": []string{"p", "q"}, "t": v, "T": v.T, "N": v.N}
		for i, f := range c.Files {
			tp, err := template.New("main").Funcs(fn).Parse(string(f.Text))
			must(err)
			var b bytes.Buffer
			if err := tp.Execute(&b, data); err != nil {
				b.WriteString("error: " + err.Error())
			}
			cmp.eq(where, string(f.Name), b.String(), string(want[i]))
		}
	}
	render("executed in the translation", ts, c.Want)
	render("executed in the source language", ts.L("en"), c.Src)
	render("executed in a view", ts.L("en").L("de_DE"), c.Want)
	if len(cmp.diffs) > 0 {
		return bad(cmp.diffs[0].Obs, cmp.diffs[0].Exp, cmp.diffs[0].Where+" "+cmp.diffs[0].What+" differs")
	}
	return Result{Verdict: "ok", Checks: cmp.n + len(c.Known)}
}
