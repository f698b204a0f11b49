package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
)

func init() { handlers["run"] = replayRun }

var runKws = map[string][]string{"good": {"T;N:1,2", "T"}, "bad": {"T:x", "T;;N", "T:1:2", "N:1,2,3"}, "blank": {"", " ", "-", "\t\n"}}

var runCommands int
var runEnvs = [][]string{nil, {"LANG=zh_CN.UTF-8", "LC_ALL=zh_CN.UTF-8", "LANGUAGE=zh_CN"}, {"LANG_PATH=/nonexistent/lang"}, {"LANG=zh_TW", "LANG_PATH= "}, {"LANG=C", "LC_ALL=C"}}

const oldContent = "old content, which has to stay as it is\n"

// replayRun performs one run in the process and one with the command.
func replayRun(raw []byte) Result {
	var c struct {
		Kw, Pat, Out, Output string
		Files                []string
		Reported             []int
		Failed, Debug        bool
	}
	must(json.Unmarshal(raw, &c))
	checks := 0
	var bads []string
	for _, mode := range []string{"Run", "command"} {
		if mode == "command" && opt("cli", "") == "" {
			continue
		}
		if mode == "Run" && (c.Kw == "blank" || c.Pat == "blank") {
			continue // only the command promises to look at its flags
		}
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "run")
		must(err)
		must(os.Mkdir(filepath.Join(dir, "in"), 0o755))
		var want, names []string
		for i, k := range c.Files {
			name := filepath.Join(dir, "in", fmt.Sprintf("f%d.tmpl", i+1))
			names = append(names, name)
			body := fmt.Sprintf("x\n{{T \"m%d\"}}\n", i+1)
			switch k {
			case "good":
				want = append(want, fmt.Sprintf("m%d", i+1))
			case "plain":
				body = "no calls"
			case "empty":
				body = ""
			case "unclosed":
				body += "{{if .A}}"
			case "syntax":
				body += "{{T \"unterminated}}"
			case "twice":
				body += "{{define \"a\"}}x{{end}}{{define \"a\"}}y{{end}}"
			case "dir":
				must(os.Mkdir(name, 0o755))
				continue
			case "dangling":
				must(os.Symlink(filepath.Join(dir, "nowhere"), name))
				continue
			default:
				must(fmt.Errorf("kind %q", k))
			}
			must(os.WriteFile(name, []byte(body), 0o644))
		}
		out := filepath.Join(dir, "out.pot")
		old := oldContent
		switch c.Out {
		case "exists":
			must(os.WriteFile(out, []byte(old), 0o644))
		case "longer":
			old = strings.Repeat(oldContent, 200)
			must(os.WriteFile(out, []byte(old), 0o644))
		case "nodir":
			out = filepath.Join(dir, "missing", "out.pot")
		case "isdir":
			must(os.Mkdir(out, 0o755))
		case "full":
			out = "/dev/full"
		case "stdout":
			out = "-"
		case "default":
			out = ""
		}
		pattern := filepath.Join(dir, "in", "*.tmpl")
		switch c.Pat {
		case "bad":
			pattern = filepath.Join(dir, "in", "[")
		case "none":
			pattern = filepath.Join(dir, "in", "*.nothing")
		case "blank":
			pattern = []string{"-", "", "  "}[(len(c.Kw)+len(c.Out))%3]
		}
		kws := runKws[c.Kw]
		kw := kws[(len(c.Files)+len(c.Out))%len(kws)]
		var stdout, stderr, note string
		failed := false
		if mode == "Run" {
			p := &internal.Param{Input: pattern, Left: "{{", Right: "}}", Keyword: kw, OutputFile: out, Debug: c.Debug}
			stdout, stderr, err = captured(func() error { return internal.Run(p) })
			failed = err != nil
			note = fmt.Sprint(err)
			if failed && strings.HasPrefix(err.Error(), "panic:") {
				bads = append(bads, mode+": "+err.Error())
			}
		} else {
			var args []string // "-" stands for no flag at all
			if pattern != "-" {
				args = append(args, "-i", pattern)
			}
			if kw != "-" {
				args = append(args, "-k", kw)
			}
			if c.Out != "default" {
				args = append(args, "-o", out)
			}
			if c.Debug {
				args = append(args, "-d")
			}
			cmd := exec.Command(opt("cli", ""), args...)
			cmd.Dir = dir
			// the command's own messages are translated: nothing else may depend on that
			runCommands++
			cmd.Env = append(os.Environ(), runEnvs[runCommands%len(runEnvs)]...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err = cmd.Run()
			var ee *exec.ExitError
			if err != nil && !errors.As(err, &ee) {
				must(err)
			}
			failed = err != nil
			stdout, stderr = so.String(), se.String()
			note = fmt.Sprint(err, " ", stderr)
		}
		bad := func(f string, a ...any) { bads = append(bads, mode+": "+fmt.Sprintf(f, a...)) }
		checks += 3
		if failed != c.Failed {
			bad("failed is %v, should be %v (%s)", failed, c.Failed, note)
		}
		for _, i := range c.Reported {
			checks++
			if !strings.Contains(stderr, names[i-1]) {
				bad("file %d (%s) is not reported: %s", i, c.Files[i-1], stderr)
			}
		}
		if !c.Debug {
			for i, name := range names {
				checks++
				if !slices.Contains(c.Reported, i+1) && strings.Contains(stderr, name) {
					bad("file %d (%s) is reported: %s", i+1, c.Files[i], stderr)
				}
			}
		}
		var now []byte
		if st, err := os.Stat(out); err == nil && st.Mode().IsRegular() {
			now, err = os.ReadFile(out)
			must(err)
		}
		content := string(now)
		if c.Out == "stdout" || c.Out == "default" {
			content = stdout
		}
		if c.Output == "old" {
			if (c.Out == "exists" || c.Out == "longer") && content != old {
				bad("the existing output has changed: %q", content)
			}
		} else if !c.Debug || c.Out != "stdout" && c.Out != "default" {
			head, got, err := gotEntries(content, filepath.Join(dir, "in"), nil2files(c.Files))
			if err != nil {
				bad("the output is not a template: %v\n%s", err, content)
			} else {
				var have []string
				for _, g := range got {
					have = append(have, string(g.Id))
				}
				if c.Pat == "none" {
					want = nil
				}
				if head == nil || strings.Join(have, " ") != strings.Join(want, " ") {
					bad("the output lists %v, should list %v", have, want)
				}
			}
		}
		must(os.RemoveAll(dir))
	}
	if len(bads) > 0 {
		return Result{Verdict: "bad", Obs: bads, Exp: c.Output, Note: bads[0], Checks: checks}
	}
	return Result{Verdict: "ok", Checks: checks}
}

func nil2files(kinds []string) (fs []xtFile) {
	for i := range kinds {
		fs = append(fs, xtFile{Name: Bytes(fmt.Sprintf("f%d.tmpl", i+1))})
	}
	return
}
