package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
)

func init() {
	handlers["kw"] = replayKw
	recorders["kw"] = recordKw
}

type kwDecl struct {
	Name Bytes `json:"name"`
	C    int   `json:"c"`
	Id   int   `json:"id"`
	Pl   int   `json:"pl"`
}

// readKw gives what ParseKeywords makes of a list.
func readKw(src string) (st string, kws []kwDecl) {
	kws = []kwDecl{}
	defer func() {
		if e := recover(); e != nil {
			st = fmt.Sprintf("panic: %v", e)
		}
	}()
	ks, err := internal.ParseKeywords(src)
	for _, k := range ks {
		kws = append(kws, kwDecl{Bytes(k.Name), k.MsgCtxt, k.MsgID, k.MsgID2})
	}
	if err != nil {
		return "err", kws
	}
	return "ok", kws
}

func replayKw(raw []byte) Result {
	var c struct {
		Src Bytes
		St  string
		Kws []kwDecl
	}
	must(json.Unmarshal(raw, &c))
	st, kws := readKw(string(c.Src))
	bad := func(exp string) Result {
		return Result{Verdict: "bad", Obs: fmt.Sprintf("%s %v", st, kws), Exp: exp, Note: fmt.Sprintf("ParseKeywords(%q)", c.Src), Checks: 1}
	}
	switch c.St {
	case "open":
		if st != "ok" && st != "err" {
			return bad("no panic")
		}
	case "err":
		if st != "err" || len(kws) > 0 {
			return bad("an error and no keywords")
		}
	default:
		if st != "ok" || fmt.Sprint(kws) != fmt.Sprint(c.Kws) {
			return bad(fmt.Sprintf("ok %v", c.Kws))
		}
	}
	return Result{Verdict: "ok", Checks: 1}
}

func recordKw(r *rand.Rand, n int, emit func(any)) {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	num := func() string {
		return pick("1", "2", "3", fmt.Sprint(1+r.Intn(20)), fmt.Sprint(1+r.Intn(100000)), "07")
	}
	sp := func() string { return pick("", "", "", " ", "\t", "  ", "\n", "\r\n") }
	name := func() string {
		return pick("T", "N", "X", "XN", "gettext", "pN64", "_", "a1", "c", "Name"+fmt.Sprint(r.Intn(1000)))
	}
	for i := 0; i < n; i++ {
		var ds []string
		for k := 1 + r.Intn(5); k > 0; k-- {
			d := sp() + name() + sp()
			switch r.Intn(6) {
			case 0:
			case 1, 2:
				d += ":" + sp() + num() + sp()
			case 3:
				d += ":" + sp() + num() + sp() + "," + sp() + num() + sp()
			case 4:
				d += ":" + sp() + num() + "c" + sp() + "," + sp() + num() + sp()
			case 5:
				d += ":" + sp() + num() + "c" + sp() + "," + sp() + num() + sp() + "," + sp() + num() + sp()
			}
			ds = append(ds, d)
		}
		s := strings.Join(ds, ";")
		if r.Intn(2) == 0 { // damage
			for k := 1 + r.Intn(2); k > 0 && len(s) > 0; k-- {
				p := r.Intn(len(s))
				x := pick(";", ":", ",", "c", "1", "x", " ", "-", ".", "C", "\x00", "世")
				switch r.Intn(3) {
				case 0:
					s = s[:p] + x + s[p:]
				case 1:
					s = s[:p] + x + s[p+1:]
				case 2:
					s = s[:p] + s[p+1:]
				}
			}
		}
		st, kws := readKw(s)
		emit(ev{"src": Bytes(s), "st": st, "kws": kws})
	}
}
