package main

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"
)

// Histories of the specification module ledger: what a context reports about its cost after every call,
// against what the finished circuit has.

func init() { extra["ledger"] = replayLedgers }

type entry struct {
	op         string
	x, y, n, m int
}
type ledger struct {
	E, M, w   uint
	calls     []entry
	constants bool
}

func (l ledger) String() string {
	var s []string
	for _, c := range l.calls {
		s = append(s, fmt.Sprintf("%s(%d,%d,%d,%d)", c.op, c.x, c.y, c.n, c.m))
	}
	return fmt.Sprintf("E=%d M=%d w=%d %s", l.E, l.M, l.w, strings.Join(s, " "))
}

// define plays the first n calls and returns what is reported then; asking on the way makes no difference
func (l ledger) define(api frontend.API, in []frontend.Variable, n int, asking bool) (reported int) {
	ctx := float.NewContext(api, l.w, l.E, l.M)
	g := ctx.Gadget
	var fs []float.FloatVar
	k := 0
	next := func() frontend.Variable { k++; return in[k-1] }
	lookups := func() int {
		return int(g.LookupQueryConstraints() + g.LookupEntryConstraints() + g.LookupFinalizeConstraints())
	}
	for _, c := range l.calls[:n] {
		if asking {
			lookups()
		}
		add := func(f float.FloatVar) { fs = append(fs, f) }
		switch c.op {
		case "new":
			add(ctx.NewFloat(next()))
		case "const":
			add(ctx.NewConstant(uint64(c.n) % (1 << (l.E + l.M))))
		case "add":
			add(ctx.Add(fs[c.x], fs[c.y]))
		case "sub":
			add(ctx.Sub(fs[c.x], fs[c.y]))
		case "mul":
			add(ctx.Mul(fs[c.x], fs[c.y]))
		case "div":
			add(ctx.Div(fs[c.x], fs[c.y]))
		case "sqrt":
			add(ctx.Sqrt(fs[c.x]))
		case "trunc":
			add(ctx.Trunc(fs[c.x]))
		case "floor":
			add(ctx.Floor(fs[c.x]))
		case "ceil":
			add(ctx.Ceil(fs[c.x]))
		case "abs":
			add(ctx.Abs(fs[c.x]))
		case "neg":
			add(ctx.Neg(fs[c.x]))
		case "toint":
			ctx.ToInt(fs[c.x])
		case "lt":
			ctx.IsLt(fs[c.x], fs[c.y])
		case "ge":
			ctx.IsGe(fs[c.x], fs[c.y])
		case "eq":
			ctx.AssertIsEqual(fs[c.x], fs[c.y])
		case "ulp":
			ctx.AssertIsEqualOrULP(fs[c.x], fs[c.y])
		case "range":
			g.AssertBitLength(next(), uint(c.n), gadget.Mode(c.m))
		case "pow2":
			g.QueryPowerOf2(next())
		case "iabs":
			g.Abs(next(), uint(c.n))
		case "ipos":
			g.IsPositive(next(), uint(c.n))
		case "imax":
			g.Max(next(), next(), uint(c.n))
		case "imin":
			g.Min(next(), next(), uint(c.n))
		case "ieq":
			g.IsEq(next(), next())
		case "ior":
			a, b := next(), next()
			api.AssertIsBoolean(a)
			api.AssertIsBoolean(b)
			g.Or(a, b)
		default:
			panic("unknown call " + c.op)
		}
	}
	return api.Compiler().(interface{ GetNbConstraints() int }).GetNbConstraints() + lookups()
}

func replayLedgers(files []string, targets []Sys, rep *Report) {
	var ls []ledger
	for _, f := range files {
		rep.Traces++
		cur := -1
		for _, s := range loadITF(f) {
			rep.States++
			if n := int(s.I("circuit").Int64()); n != cur {
				cur = n
				ls = append(ls, ledger{})
			}
			fm := vl(s["fmt"])
			l := ledger{E: uint(vn(fm[0])), M: uint(vn(fm[1])), w: uint(s.I("w").Int64()), constants: s["constants"].(bool)}
			for _, c := range s.L("calls") {
				m := vr(c)
				l.calls = append(l.calls, entry{vs(m["op"]), vn(m["x"]), vn(m["y"]), vn(m["n"]), vn(m["mode"])})
			}
			ls[len(ls)-1] = l
		}
	}
	parallel(len(ls), func(i int) {
		l := ls[i]
		curve := targets[i%len(targets)].Curve
		// finished after every call of the history, or after some
		for n := 1; n <= len(l.calls); n++ {
			if rep.full() || (n < len(l.calls) && (n+i)%3 != 0) {
				continue
			}
			why := ""
			// the builder's compression of long sums is not the library's cost: two thresholds, and circuits that do not depend on it
			build := func(threshold int, asking bool) (reported, have int) {
				defer func() {
					if r := recover(); r != nil {
						why = fmt.Sprint(r)
					}
				}()
				c := &inCircuit{In: make([]frontend.Variable, 64), f: func(api frontend.API, in []frontend.Variable) { reported = l.define(api, in, n, asking) }}
				ccs, err := frontend.Compile(curve.ScalarField(), r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs(), frontend.WithCompressThreshold(threshold))
				if err != nil {
					why = err.Error()
					return
				}
				return reported, ccs.GetNbConstraints()
			}
			reported, have := build(2000, false)
			asked, h := build(3000, true)
			if h != have {
				rep.count("left out: compressed", 1)
				continue
			}
			d := ledger{l.E, l.M, l.w, l.calls[:n], l.constants}
			rep.eval(1)
			rep.distinct(d.String())
			rep.count(fmt.Sprintf("width %d, constants %v", l.w, l.constants), 1)
			if i%61 == 0 {
				rep.sample(fmt.Sprintf("%s: %d", d, have))
			}
			rp := map[string]interface{}{"case": d.String(), "curve": curve.String()}
			if why != "" {
				rep.violate("compile", rp, "%s does not compile: %s", d, why)
			} else if reported < have || (reported != have && !l.constants) {
				rep.violate("wrong", rp, "%s has %d constraints, reported are %d", d, have, reported)
			} else if asked != reported {
				rep.violate("asked", rp, "%s: reported are %d, and %d when asked after every call", d, reported, asked)
			}
		}
	})
}
