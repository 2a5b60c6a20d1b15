package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/gadget"
)

func init() { extra["intprog"] = replayIntPrograms }

type iIns struct {
	op           string
	a, b, n, out int
	m            *big.Int
}

// programs of spec/intprog.qnt: every register of the real circuit against the specified integer
func replayIntPrograms(files []string, targets []Sys, rep *Report) {
	type run struct {
		w       int
		prog    []iIns
		regs    []*big.Int
		verdict string
		desc    string
	}
	var rs []run
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			if vs(s["verdict"]) == "open" {
				continue
			}
			r := run{w: int(vi(s["tabw"]).Int64()), verdict: vs(s["verdict"])}
			var d []string
			for _, x := range s.L("prog") {
				m := vr(x)
				p := iIns{vs(m["op"]), vn(m["a"]), vn(m["b"]), vn(m["n"]), vn(m["out"]), vi(m["m"])}
				r.prog = append(r.prog, p)
				switch p.op {
				case "in", "const":
					d = append(d, fmt.Sprintf("r%d=%s(%v)", p.out, p.op, p.m))
				case "range":
					d = append(d, fmt.Sprintf("range(r%d,%d,mode %v)", p.a, p.n, p.m))
				case "add", "sub", "max", "min", "eq", "or":
					d = append(d, fmt.Sprintf("r%d=%s(r%d,r%d;%d)", p.out, p.op, p.a, p.b, p.n))
				default:
					d = append(d, fmt.Sprintf("r%d=%s(r%d;%d)", p.out, p.op, p.a, p.n))
				}
			}
			for _, x := range s.L("regs") {
				r.regs = append(r.regs, vi(x))
			}
			r.desc = strings.Join(d, "; ")
			rs = append(rs, r)
		}
	}
	parallel(len(rs), func(i int) {
		r := rs[i]
		sys := targets[i%len(targets)]
		sys.Range = uint(r.w)
		rep.eval(1)
		rep.count("verdict "+r.verdict, 1)
		rep.distinct(r.desc)
		if i%251 == 0 {
			rep.sample(r.desc + " -> " + r.verdict)
		}
		rp := map[string]interface{}{"program": r.desc, "expect": r.verdict, "target": sys.String()}
		var inputs []*big.Int
		for _, p := range r.prog {
			if p.op == "in" {
				inputs = append(inputs, p.m)
			}
		}
		nOut := 0
		c, err := compile(sys, len(inputs), func(api frontend.API, in []frontend.Variable) {
			g := gadget.New(api, uint(r.w), 8)
			v := []frontend.Variable{big.NewInt(0), big.NewInt(1)}
			k := 0
			for _, p := range r.prog {
				for _, q := range []int{p.a, p.b} {
					if q >= len(v) {
						panic("register")
					}
				}
				x, y, n := v[p.a], v[p.b], uint(p.n)
				switch p.op {
				case "in":
					v = append(v, in[k])
					k++
				case "const":
					v = append(v, new(big.Int).Set(p.m))
				case "abs":
					a, s := g.Abs(x, n)
					v = append(v, a, s)
				case "pos":
					v = append(v, g.IsPositive(x, n))
				case "max":
					v = append(v, g.Max(x, y, n))
				case "min":
					v = append(v, g.Min(x, y, n))
				case "eq":
					v = append(v, g.IsEq(x, y))
				case "or":
					v = append(v, g.Or(x, y))
				case "pow2":
					v = append(v, g.QueryPowerOf2(x))
				case "range":
					g.AssertBitLength(x, n, gadget.Mode(p.m.Int64()))
				case "add":
					v = append(v, api.Add(x, y))
				case "sub":
					v = append(v, api.Sub(x, y))
				case "neg":
					v = append(v, api.Neg(x))
				default:
					panic("op " + p.op)
				}
			}
			nOut = len(v)
			spy(api, 0, v...)
		})
		if err != nil {
			rep.violate("compile", rp, "program {%s} does not compile [%v]: %v", r.desc, sys, err)
			return
		}
		if nOut != len(r.regs) {
			fatal("intprog: %d registers for %d", nOut, len(r.regs))
		}
		in := make([]*big.Int, len(inputs))
		for j := range in {
			in[j] = toField(inputs[j], c.field)
		}
		wrong := func(sp Spied) string {
			for j, x := range r.regs {
				if sp[0][j].Cmp(toField(x, c.field)) != 0 {
					return fmt.Sprintf("register r%d is %v instead of %v", j, signed(sp[0][j], c.field), x)
				}
			}
			return ""
		}
		signs := 0
		sp, err := c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
			e := honest()
			_ = n
			if e == nil && len(hout) == 2 && len(hin) == 1 {
				signs++
			}
			return nil
		})
		switch {
		case err != nil && r.verdict == "accept":
			rep.violate("rejected", rp, "every declared length holds but the program {%s} is refused [%v]: %.200s", r.desc, sys, err.Error())
			return
		case err == nil && r.verdict == "reject":
			rep.violate("lost", rp, "a declared length does not hold but the program {%s} is accepted [%v]", r.desc, sys)
			return
		case err == nil:
			if w := wrong(sp); w != "" {
				rep.violate("wrong", rp, "program {%s} [%v]: %s", r.desc, sys, w)
				return
			}
		}
		// a malicious prover lies about one sign, or about all signs of the same number
		rng := rand.New(rand.NewSource(int64(i)*7919 + 1))
		for t := 0; t < 4 && signs > 0; t++ {
			lies := signLies(c.field)
			x := lies[rng.Intn(len(lies))]
			flip := rng.Intn(2) == 0
			all := rng.Intn(3) == 0
			site := rng.Intn(signs)
			k := -1
			var arg *big.Int
			told := []string{}
			sp, err := c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
				e := honest()
				if e != nil {
					return e
				}
				if len(hout) != 2 || len(hin) != 1 {
					return nil
				}
				k++
				if k == site {
					arg = new(big.Int).Set(hin[0])
				}
				if k == site || (all && arg != nil && arg.Cmp(hin[0]) == 0) {
					if flip {
						hout[0].Sub(big.NewInt(1), hout[0])
					} else {
						hout[0].Set(x)
					}
					told = append(told, fmt.Sprintf("sign query %d answered %v", k, signed(hout[0], f)))
				}
				return nil
			})
			rep.eval(1)
			rep.count("lies", 1)
			if err != nil {
				continue
			}
			rp["lies"] = told
			if r.verdict == "reject" {
				rep.violate("forged", rp, "a declared length does not hold but the program {%s} is accepted [%v] with %v", r.desc, sys, told)
				return
			}
			if w := wrong(sp); w != "" {
				rep.violate("forged", rp, "program {%s} [%v] with %v: %s", r.desc, sys, told, w)
				return
			}
		}
	})
}
