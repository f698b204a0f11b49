package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/youthlin/t/plurals"
)

func init() {
	handlers["plural"] = replayPlural
	recorders["plural"] = recordPlural
}

func eval(text string, n int64) (res Bytes, note string) {
	defer func() {
		if e := recover(); e != nil {
			res, note = Bytes{255, 255}, fmt.Sprint("panic: ", e)
		}
	}()
	v, err := plurals.Eval(context.Background(), text, n)
	if err != nil {
		return Bytes{0}, err.Error()
	}
	return b64(v), ""
}

// exp/dev: empty = unspecified, [0] = error, eight bytes = the value
func replayPlural(raw []byte) Result {
	var c struct {
		Text, Loose Bytes
		Ns          []Bytes
		Exp, Dev    []Bytes
		Slow        bool // recorded as a finding when there is no answer in time
	}
	must(json.Unmarshal(raw, &c))
	if c.Slow {
		done := make(chan Result, 1)
		go func() {
			obs, note := eval(string(c.Text), i64(c.Ns[0]))
			if !bytes.Equal(obs, c.Exp[0]) {
				done <- Result{Verdict: "bad", Obs: obs, Exp: c.Exp[0], Checks: 1,
					Note: fmt.Sprintf("Eval of %d nested parentheses = %s, specification says %s %s", len(c.Text)/2, showVal(obs), showVal(c.Exp[0]), note)}
			}
			done <- Result{Verdict: "ok", Checks: 1}
		}()
		select {
		case r := <-done:
			return r
		case <-time.After(6 * time.Second):
			return Result{Verdict: "dev", Finding: "deep-nesting", Exp: c.Exp[0], Checks: 1,
				Note: fmt.Sprintf("Eval of %d nested parentheses does not answer within 6 s", len(c.Text)/2)}
		}
	}
	res := Result{Verdict: "ok"}
	want := opt("want", "all") // values: C03, errors: C04
	judge := func(text Bytes, i int) {
		obs, note := eval(string(text), i64(c.Ns[i]))
		again, _ := eval(string(text), i64(c.Ns[i]))
		res.Checks++
		if len(obs) == 2 || !bytes.Equal(obs, again) {
			res = Result{Verdict: "bad", Obs: obs, Exp: c.Exp[i], Checks: res.Checks,
				Note: fmt.Sprintf("Eval(%q, %d) panics or is not repeatable: %v %v %s", text, i64(c.Ns[i]), obs, again, note)}
			return
		}
		isErr := len(c.Exp[i]) == 1
		if len(c.Exp[i]) == 0 || (want == "values" && isErr) {
			return
		}
		if want == "errors" && !isErr && (len(obs) == 8 || len(c.Dev[i]) != 8) {
			return // a wrong value is C03's; an error where there is a value is judged here too
		}
		if bytes.Equal(obs, c.Exp[i]) || res.Verdict == "bad" {
			return
		}
		if len(c.Dev[i]) == 0 {
			return // the recorded deviation leads to an unspecified operation
		}
		r := Result{Verdict: "bad", Obs: obs, Exp: c.Exp[i], Checks: res.Checks,
			Note: fmt.Sprintf("Eval(%q, %d) = %s, specification says %s %s", text, i64(c.Ns[i]), showVal(obs), showVal(c.Exp[i]), note)}
		if bytes.Equal(obs, c.Dev[i]) {
			r.Verdict = "dev"
			switch {
			case isErr:
				r.Finding = "trailing-tokens"
			case bytes.IndexByte(text, '^') >= 0:
				r.Finding = "xor-is-and"
			default:
				r.Finding = "relational-precedence"
			}
		}
		res = r
	}
	first := make([]Bytes, len(c.Ns))
	for i := range c.Ns {
		judge(c.Text, i)
		judge(c.Loose, i)
		first[i], _ = eval(string(c.Text), i64(c.Ns[i]))
	}
	for i := len(c.Ns) - 1; i >= 0 && want == "errors" && res.Verdict == "ok"; i-- {
		// the same answers in another order: nothing evaluated before matters
		res.Checks++
		if obs, note := eval(string(c.Text), i64(c.Ns[i])); !bytes.Equal(obs, first[i]) {
			return Result{Verdict: "bad", Obs: obs, Exp: first[i], Checks: res.Checks,
				Note: fmt.Sprintf("Eval(%q, %d) answers differently after other evaluations: %s", c.Text, i64(c.Ns[i]), note)}
		}
	}
	return res
}

func showVal(b Bytes) string {
	if len(b) != 8 {
		return "an error"
	}
	return fmt.Sprint(i64(b))
}

// recordPlural logs evaluations of random texts: grammatical expressions of
// any depth with literals and n over the whole int64 range, and mutations.
func recordPlural(r *rand.Rand, n int, emit func(any)) {
	common := []string{"0", "n!=1", "n>1", "n%10==1&&n%100!=11?0:n!=0?1:2", "n==1?0:n==2?1:2",
		"n==1?0:(n==0||(n%100>0&&n%100<20))?1:2", "n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2",
		"n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "(n==1)?0:(n>=2&&n<=4)?1:2",
		"n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3",
		"n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"}
	ops := []string{"*", "/", "%", "+", "-", ">>", "<<", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "||"}
	lits := []string{"0", "1", "2", "3", "5", "10", "11", "20", "63", "64", "100", "255", "65536", "1073741823", "1073741824",
		"2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999"}
	blank := func() string { return []string{"", "", "", " ", "  ", "\t"}[r.Intn(6)] }
	var gen func(d int) string
	gen = func(d int) string {
		if d <= 0 || r.Intn(8) == 0 {
			if r.Intn(2) == 0 {
				return "n"
			}
			if r.Intn(3) == 0 {
				return lits[r.Intn(len(lits))]
			}
			return fmt.Sprint(r.Intn(30))
		}
		switch k := r.Intn(22); {
		case k >= 20: // by a number of places there is
			return gen(d-1) + blank() + []string{"<<", ">>"}[r.Intn(2)] + blank() + fmt.Sprint(r.Intn(64))
		case k < 11:
			return gen(d-1) + blank() + ops[r.Intn(len(ops))] + blank() + gen(d-1)
		case k < 14:
			return gen(d-1) + blank() + "?" + blank() + gen(d-1) + blank() + ":" + blank() + gen(d-1)
		case k < 17:
			return "(" + blank() + gen(d-1) + blank() + ")"
		default:
			return []string{"!", "~", "-", "+"}[r.Intn(4)] + blank() + "(" + gen(d-1) + ")"
		}
	}
	ns := []int64{0, 1, 2, 3, 4, 5, 10, 11, 12, 14, 19, 20, 21, 22, 100, 101, 102, 103, 111, 112, 1000, -1, -2,
		1 << 30, 1 << 31, 1<<31 + 1, 1<<32 + 1, 1 << 62, -1 << 63, 1<<63 - 1}
	var pool []string // texts come back with other counts: what was evaluated before must not matter
	for i := 0; i < n; i++ {
		var text string
		again := len(pool) > 0 && r.Intn(3) == 0
		switch r.Intn(10) {
		case 0, 1:
			text = common[r.Intn(len(common))]
			if r.Intn(2) == 0 { // blanks between tokens do not matter
				var sb strings.Builder
				for j, c := range text {
					if j > 0 && !strings.ContainsRune("=&|", c) && !isDigit(c) && r.Intn(2) == 0 {
						sb.WriteByte(' ')
					}
					sb.WriteRune(c)
				}
				text = sb.String()
			}
		default:
			text = gen(1 + r.Intn(5))
		}
		if again {
			text = pool[r.Intn(len(pool))]
		} else if r.Intn(5) == 0 { // damage it
			b := []byte(text)
			for k := 0; k <= r.Intn(2); k++ {
				if len(b) == 0 {
					break
				}
				p := r.Intn(len(b))
				switch r.Intn(4) {
				case 0:
					b = append(b[:p], b[p+1:]...)
				case 1:
					b[p] = "n0129+-*/%<>=!&|^?:() ;x"[r.Intn(24)]
				case 2:
					b = append(b[:p], append([]byte{"n1+-<>=!&|^?:() #"[r.Intn(17)]}, b[p:]...)...)
				case 3:
					b = b[:p]
				}
			}
			text = string(b)
		}
		v := ns[r.Intn(len(ns))]
		if r.Intn(3) == 0 {
			v = int64(r.Intn(250))
		} else if r.Intn(6) == 0 {
			v = int64(r.Uint64())
		}
		if strings.ContainsAny(text, "\n") || len(text) > 160 {
			i--
			continue
		}
		if !again {
			if pool = append(pool, text); len(pool) > 12 {
				pool = pool[1:]
			}
		}
		obs, note := eval(text, v)
		emit(map[string]any{"text": Bytes(text), "n": b64(v), "obs": obs, "src": text, "note": note})
	}
}

func isDigit(c rune) bool { return c >= '0' && c <= '9' }
