package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Val is a decoded ITF value: *big.Int, string, bool, []Val (lists, tuples, sets) or map[string]Val (records).
type Val interface{}

func decodeITF(x interface{}) Val {
	switch t := x.(type) {
	case json.Number:
		b, ok := new(big.Int).SetString(t.String(), 10)
		if !ok {
			panic("bad number " + t.String())
		}
		return b
	case string, bool, nil:
		return t
	case []interface{}:
		r := make([]Val, len(t))
		for i := range t {
			r[i] = decodeITF(t[i])
		}
		return r
	case map[string]interface{}:
		if s, ok := t["#bigint"]; ok {
			b, ok := new(big.Int).SetString(s.(string), 10)
			if !ok {
				panic("bad bigint")
			}
			return b
		}
		if s, ok := t["#tup"]; ok {
			return decodeITF(s)
		}
		if s, ok := t["#set"]; ok {
			return decodeITF(s)
		}
		r := map[string]Val{}
		for k, v := range t {
			if i := strings.LastIndex(k, "::"); i >= 0 {
				k = k[i+2:]
			}
			r[k] = decodeITF(v)
		}
		return r
	}
	panic(fmt.Sprintf("unexpected ITF value %T", x))
}

type State map[string]Val

// loadITF reads one trace; keys are the unqualified variable names.
func loadITF(path string) []State {
	f, err := os.Open(path)
	if err != nil {
		fatal("cannot read trace %s: %v", path, err)
	}
	defer f.Close()
	d := json.NewDecoder(f)
	d.UseNumber()
	var raw struct {
		States []map[string]interface{} `json:"states"`
	}
	if err := d.Decode(&raw); err != nil {
		fatal("cannot parse trace %s: %v", path, err)
	}
	out := make([]State, 0, len(raw.States))
	for _, s := range raw.States {
		delete(s, "#meta")
		out = append(out, State(decodeITF(s).(map[string]Val)))
	}
	return out
}

func (s State) I(k string) *big.Int         { return s[k].(*big.Int) }
func (s State) L(k string) []Val            { return s[k].([]Val) }
func (s State) Rec(k string) map[string]Val { return s[k].(map[string]Val) }
func vi(v Val) *big.Int                     { return v.(*big.Int) }
func vn(v Val) int                          { return int(v.(*big.Int).Int64()) }
func vs(v Val) string                       { return v.(string) }
func vl(v Val) []Val                        { return v.([]Val) }
func vr(v Val) map[string]Val               { return v.(map[string]Val) }

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(3)
}
