package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
)

func init() { handlers["glob"] = replayGlob }

var globRoots = map[string]string{}
var globRuns int

type globNode struct {
	P [][]rune `json:"p"`
	D bool     `json:"d"`
}

func globPath(p [][]rune) string {
	var parts []string
	for _, c := range p {
		parts = append(parts, string(c))
	}
	return strings.Join(parts, "/")
}

// replayGlob runs an extraction with an input pattern over a tree of files, each with a message of its own.
func replayGlob(raw []byte) Result {
	var c struct {
		Pat  []rune
		Tree json.RawMessage
		Want struct {
			Valid     bool
			Good, Bad [][][]rune
		}
	}
	must(json.Unmarshal(raw, &c))
	root := globRoots[string(c.Tree)]
	if root == "" {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "glob")
		must(err)
		root = filepath.Join(dir, "in")
		must(os.Mkdir(root, 0o755))
		var nodes []globNode
		must(json.Unmarshal(c.Tree, &nodes))
		for _, n := range nodes {
			p := root + "/" + globPath(n.P)
			if n.D {
				must(os.Mkdir(p, 0o755))
			} else {
				must(os.WriteFile(p, []byte(fmt.Sprintf("{{T %q}}", "m:"+globPath(n.P))), 0o644))
			}
		}
		globRoots[string(c.Tree)] = root
	}
	out := filepath.Join(filepath.Dir(root), "out.pot")
	pattern := string(c.Pat)
	globRuns++
	failed := !c.Want.Valid || len(c.Want.Bad) > 0
	var want []string
	for _, g := range c.Want.Good {
		want = append(want, "m:"+globPath(g))
	}
	slices.Sort(want)
	checks := 0
	var bads []string
	for _, mode := range []string{"Run", "command"} {
		if mode == "command" && (opt("cli", "") == "" || globRuns%25 != 0 || strings.HasPrefix(pattern, "/") || strings.TrimSpace(pattern) == "") {
			continue
		}
		bad := func(f string, a ...any) { bads = append(bads, mode+": "+fmt.Sprintf(f, a...)) }
		must(os.WriteFile(out, []byte(oldContent), 0o644))
		var stderr string
		var err error
		if mode == "Run" {
			p := &internal.Param{Input: root + "/" + pattern, Left: "{{", Right: "}}", Keyword: "T", OutputFile: out}
			_, stderr, err = captured(func() error { return internal.Run(p) })
			if err != nil && strings.HasPrefix(err.Error(), "panic:") {
				bad("%v", err)
			}
		} else {
			cmd := exec.Command(opt("cli", ""), "-i", pattern, "-k", "T", "-o", out)
			cmd.Dir = root
			var se bytes.Buffer
			cmd.Stderr = &se
			err = cmd.Run()
			var ee *exec.ExitError
			if err != nil && !errors.As(err, &ee) {
				must(err)
			}
			stderr = se.String()
		}
		checks += 2
		if (err != nil) != failed {
			bad("pattern %q: failed is %v, should be %v (%v)", pattern, err != nil, failed, err)
		}
		content, rerr := os.ReadFile(out)
		must(rerr)
		if failed {
			if string(content) != oldContent {
				bad("pattern %q: the existing output has changed: %q", pattern, content)
			}
			if c.Want.Valid && strings.ContainsAny(pattern, `*?[\`) {
				for _, b := range c.Want.Bad {
					checks++
					if !strings.Contains(stderr, globPath(b)) {
						bad("pattern %q: %q is not reported: %s", pattern, globPath(b), stderr)
					}
				}
			}
			continue
		}
		es, err := strictPot(string(content))
		if err != nil {
			bad("pattern %q: the output is not a template: %v", pattern, err)
			continue
		}
		var have []string
		for _, e := range es {
			if len(e.id) > 0 {
				have = append(have, string(e.id))
			}
		}
		slices.Sort(have)
		if !slices.Equal(have, want) {
			bad("pattern %q: the output lists %q, should list %q", pattern, have, want)
		}
	}
	if len(bads) > 0 {
		return Result{Verdict: "bad", Obs: bads, Exp: c.Want, Note: bads[0], Checks: checks}
	}
	return Result{Verdict: "ok", Checks: checks}
}
