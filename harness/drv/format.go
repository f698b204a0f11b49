package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/translator"
)

func init() {
	handlers["fmt"] = replayFmt
	recorders["fmt"] = recordFmt
}

type fmtArg struct {
	T string `json:"t"`
	V Bytes  `json:"v"`
}

type stringer string

func (s stringer) String() string { return string(s) }

func (a fmtArg) value() any {
	switch a.T {
	case "int":
		n, err := strconv.Atoi(string(a.V))
		must(err)
		return n
	case "int64":
		n, err := strconv.ParseInt(string(a.V), 10, 64)
		must(err)
		return n
	case "float64":
		x, err := strconv.ParseFloat(string(a.V), 64)
		must(err)
		return x
	case "int32":
		n, err := strconv.ParseInt(string(a.V), 10, 32)
		must(err)
		return int32(n)
	case "uint":
		n, err := strconv.ParseUint(string(a.V), 10, 64)
		must(err)
		return uint(n)
	case "list":
		l := []any{}
		for _, x := range strings.Fields(strings.Trim(string(a.V), "[]")) {
			n, err := strconv.Atoi(x)
			must(err)
			l = append(l, n)
		}
		return l
	case "stringer":
		return stringer(a.V)
	case "error":
		return errors.New(string(a.V))
	case "nil":
		return nil
	case "bool":
		return string(a.V) == "true"
	}
	return string(a.V)
}

func fmtArgs(as []fmtArg) (r []any) {
	for _, a := range as {
		r = append(r, a.value())
	}
	return
}

// guarded returns the arguments in a slice with spare capacity whose hidden
// part holds sentinels, and a function that tells whether anything changed.
func guarded(args []any) ([]any, func() bool) {
	if len(args) == 0 {
		return args, func() bool { return true }
	}
	big := make([]any, len(args)+3)
	copy(big, args)
	for i := len(args); i < len(big); i++ {
		big[i] = "sentinel"
	}
	want := append([]any(nil), big...)
	return big[:len(args)], func() bool { return reflect.DeepEqual(big, want) }
}

// formatPaths are the ways a message reaches the formatter.
func formatPaths(m string, args []any) map[string]string {
	r := map[string]string{
		"f.Format":             f.Format(m, args...),
		"f.DefaultPlural/1":    f.DefaultPlural(m, "other", 1, args...),
		"f.DefaultPlural/2":    f.DefaultPlural("other", m, 2, args...),
		"f.DefaultPlural/same": f.DefaultPlural(m, "", 2, args...),
		"noop.X":               t.NoopTranslator().X("c", m, args...),
		"noop.XN64":            t.NoopTranslator().XN64("", "other", m, 5, args...),
		"package.T":            t.T(m, args...),
		"instance.N1":          t.NewTranslations().N1(m, 3, args...),
	}
	if m == "" {
		delete(r, "f.DefaultPlural/2")
		delete(r, "noop.XN64")
		return r
	}
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=2; plural=n!=1;\n"})
	file.AddEntry(&translator.Entry{MsgID: "id", MsgStr: m})
	file.AddEntry(&translator.Entry{MsgID: "pl", MsgID2: "pls", MsgStrN: []string{"x", m}})
	r["file.X"] = file.X("", "id", args...)
	r["file.X/missing"] = file.X("no", m, args...)
	r["file.XN64"] = file.XN64("", "pl", "pls", 7, args...)
	r["file.XN64/singular"] = file.XN64("", "id", "", 7, args...)
	r["file.XN64/missing"] = file.XN64("no", m, "", 1, args...)
	return r
}

func replayFmt(raw []byte) Result {
	var c struct {
		M  Bytes
		Cs []struct {
			Args []fmtArg
			Exp  []Bytes
		}
	}
	must(json.Unmarshal(raw, &c))
	n := 0
	for _, k := range c.Cs {
		args, intact := guarded(fmtArgs(k.Args))
		obs := formatPaths(string(c.M), args)
		if !intact() {
			return Result{Verdict: "bad", Checks: n, Note: fmt.Sprintf("formatting %q with %v changed the caller's slice", c.M, k.Args)}
		}
		for path, o := range obs {
			n++
			if len(k.Exp) == 1 && o != string(k.Exp[0]) {
				return Result{Verdict: "bad", Checks: n, Obs: o, Exp: string(k.Exp[0]),
					Note: fmt.Sprintf("%s(%q, %v)", path, c.M, args)}
			}
		}
	}
	return Result{Verdict: "ok", Checks: n}
}

func recordFmt(r *rand.Rand, n int, emit func(any)) {
	parts := []string{"%d", "%s", "%v", "%%", "%", "a", " ", "%[1]d", "%[2]s", "%[3]v", "%5d", "%-6s", "%03d", "%+d", "%t", "%x",
		"世界", "100%", "é", "\n", "\"", "%!", "(", "%*d", "%-*s", "%.2f", "%.1s", "%f", "%g", "%[2]*[1]d", "%v", "%v", "EXTRA", "%[1]", "%b", "% d", "\xff", "%[2]d", "%q", "[1]", "0"}
	for i := 0; i < n; i++ {
		m := ""
		for k := r.Intn(8); k > 0; k-- {
			m += parts[r.Intn(len(parts))]
		}
		as := []fmtArg{}
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(12) {
			case 8:
				as = append(as, fmtArg{"int32", Bytes(strconv.Itoa(r.Intn(2000) - 200))})
			case 9:
				as = append(as, fmtArg{"uint", Bytes(strconv.Itoa(r.Intn(2000)))})
			case 10:
				as = append(as, fmtArg{"list", Bytes([]string{"[]", "[1]", "[1 2]", "[-3 0 7]"}[r.Intn(4)])})
			case 11:
				as = append(as, fmtArg{"stringer", Bytes([]string{"", "s", "%s", "né"}[r.Intn(4)])})
			case 4:
				as = append(as, fmtArg{"nil", Bytes("<nil>")})
			case 5:
				as = append(as, fmtArg{"int64", Bytes(strconv.FormatInt(int64(r.Uint64())>>r.Intn(64), 10))})
			case 6:
				as = append(as, fmtArg{"float64", Bytes([]string{"0", "1.5", "-2.25", "1000", "0.125"}[r.Intn(5)])})
			case 7:
				as = append(as, fmtArg{"error", Bytes([]string{"", "failed", "%d", "né"}[r.Intn(4)])})
			case 0, 1:
				as = append(as, fmtArg{"int", Bytes(strconv.Itoa(r.Intn(2000) - 200))})
			case 2:
				as = append(as, fmtArg{"string", Bytes([]string{"", "x", "世界", "%d", "%!(EXTRA", "a b"}[r.Intn(6)])})
			case 3:
				as = append(as, fmtArg{"bool", Bytes(fmt.Sprint(r.Intn(2) == 0))})
			}
		}
		args, intact := guarded(fmtArgs(as))
		paths := formatPaths(m, args)
		first := paths["f.Format"]
		name := "f.Format"
		for k, o := range paths { // all paths agree, or the odd one is logged
			if o != first {
				name, first = k, o
			}
		}
		emit(ev{"m": Bytes(m), "args": as, "obs": Bytes(first), "kept": intact(), "path": name})
	}
}
