package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"
)

type call struct {
	op         string
	x, y, u, v int
	val        *big.Int
	cst        bool
	more       *big.Int // the integer a call yields, or the selector
	how, ctx   int
}

func (c call) String() string {
	switch c.op {
	case "load":
		if c.cst {
			return fmt.Sprintf("const(0x%x)", c.val)
		}
		return fmt.Sprintf("load(0x%x)", c.val)
	case "lt", "le", "gt", "ge":
		return fmt.Sprintf("r%d %s r%d ? r%d : r%d", c.x, c.op, c.y, c.u, c.v)
	}
	if c.op == "pick" {
		return fmt.Sprintf("%s%v ? r%d : r%d", [...]string{"const ", "bit ", "negated bit ", "computed bit "}[c.how], c.more, c.u, c.v)
	}
	if binary(c.op) || c.op == "asserteq" || c.op == "assertulp" || c.op == "falseeq" || c.op == "falseulp" {
		return fmt.Sprintf("%s(r%d,r%d)", c.op, c.x, c.y)
	}
	return fmt.Sprintf("%s(r%d)", c.op, c.x)
}

type prog struct {
	E, M  uint // the format of the first context
	calls []call
	fm    [][2]uint // the formats of all contexts, if there are several
}

func (p prog) String() string {
	var s []string
	for _, c := range p.calls {
		t := c.String()
		if c.ctx > 0 {
			t += "'"
		}
		s = append(s, t)
	}
	f := fmt.Sprintf("E=%d M=%d", p.E, p.M)
	if len(p.fm) > 1 {
		f += fmt.Sprintf(" and ' E=%d M=%d", p.fm[1][0], p.fm[1][1])
	}
	return f + ": " + strings.Join(s, "; ")
}

func (p prog) format(c call) (E, M uint) {
	if len(p.fm) > 0 {
		return p.fm[c.ctx][0], p.fm[c.ctx][1]
	}
	return p.E, p.M
}

func (p prog) inputs() (in []*big.Int) {
	for _, c := range p.calls {
		switch {
		case c.op == "load" && !c.cst:
			in = append(in, c.val)
		case c.op == "pick" && c.how == 1:
			in = append(in, c.more)
		case c.op == "pick" && c.how > 1:
			in = append(in, new(big.Int).Sub(big.NewInt(1), c.more))
		}
	}
	return
}

func programCircuit(p prog, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctxs := []float.Context{float.NewContext(api, rng, p.E, p.M)}
		for i := 1; i < len(p.fm); i++ {
			ctxs = append(ctxs, float.NewContext(api, rng, p.fm[i][0], p.fm[i][1]))
		}
		var regs []float.FloatVar
		k := 0
		for i, c := range p.calls {
			var r float.FloatVar
			ctx := &ctxs[c.ctx]
			switch c.op {
			case "load":
				if c.cst {
					r = ctx.NewConstant(c.val.Uint64())
				} else {
					r = ctx.NewFloat(in[k])
					k++
				}
			case "add":
				r = ctx.Add(regs[c.x], regs[c.y])
			case "sub":
				r = ctx.Sub(regs[c.x], regs[c.y])
			case "mul":
				r = ctx.Mul(regs[c.x], regs[c.y])
			case "div":
				r = ctx.Div(regs[c.x], regs[c.y])
			case "sqrt":
				r = ctx.Sqrt(regs[c.x])
			case "abs":
				r = ctx.Abs(regs[c.x])
			case "neg":
				r = ctx.Neg(regs[c.x])
			case "trunc":
				r = ctx.Trunc(regs[c.x])
			case "floor":
				r = ctx.Floor(regs[c.x])
			case "ceil":
				r = ctx.Ceil(regs[c.x])
			case "lt":
				r = ctx.Select(ctx.IsLt(regs[c.x], regs[c.y]), regs[c.u], regs[c.v])
			case "le":
				r = ctx.Select(ctx.IsLe(regs[c.x], regs[c.y]), regs[c.u], regs[c.v])
			case "gt":
				r = ctx.Select(ctx.IsGt(regs[c.x], regs[c.y]), regs[c.u], regs[c.v])
			case "ge":
				r = ctx.Select(ctx.IsGe(regs[c.x], regs[c.y]), regs[c.u], regs[c.v])
			case "asserteq", "falseeq":
				ctx.AssertIsEqual(regs[c.x], regs[c.y])
				r = regs[c.x]
			case "assertulp", "falseulp":
				ctx.AssertIsEqualOrULP(regs[c.x], regs[c.y])
				r = regs[c.x]
			case "pick":
				var b frontend.Variable = c.more
				if c.how > 0 {
					b = in[k]
					k++
				}
				if c.how == 2 {
					b = api.Sub(1, b)
				} else if c.how == 3 {
					b = api.IsZero(b)
				}
				r = ctx.Select(b, regs[c.u], regs[c.v])
			case "toint":
				spy(api, 2000+i, ctx.ToInt(regs[c.x]))
				r = regs[c.x]
			default:
				panic("unknown call " + c.op)
			}
			regs = append(regs, r)
			spy(api, i, fvars(r)...)
		}
		// no call may have touched what earlier ones returned
		for i, r := range regs {
			spy(api, 1000+i, fvars(r)...)
		}
	}
}

func replayPrograms(files []string, targets []Sys, rep *Report) {
	var ps []prog
	for _, f := range files {
		rep.Traces++
		cur := -1
		for _, s := range loadITF(f) {
			rep.States++
			l := s.Rec("last")
			op := vs(l["op"])
			if n := int(s.I("prog").Int64()); n != cur {
				cur = n
				var fm [][2]uint
				for _, x := range s.L("fm") {
					t := vl(x)
					fm = append(fm, [2]uint{uint(vn(t[0])), uint(vn(t[1]))})
				}
				ps = append(ps, prog{E: fm[0][0], M: fm[0][1], fm: fm})
			}
			if op == "start" {
				continue
			}
			p := &ps[len(ps)-1]
			p.calls = append(p.calls, call{op: op, x: vn(l["x"]), y: vn(l["y"]), u: vn(l["u"]), v: vn(l["v"]),
				val: vi(l["value"]), cst: l["asConst"].(bool), more: vi(l["more"]), how: vn(l["how"]), ctx: vn(l["ctx"])})
		}
	}
	parallel(len(ps), func(i int) {
		p := ps[i]
		if len(p.calls) == 0 {
			return
		}
		rep.distinct(p.String())
		if i%97 == 0 {
			rep.sample(p.String())
		}
		for k, sys := range targets {
			// every program on the first two targets of its turn
			if d := (k - i%len(targets) + len(targets)) % len(targets); d > 1 {
				continue
			}
			runProgram(p, sys, rep)
		}
	})
}

func runProgram(p prog, sys Sys, rep *Report) bool {
	in := p.inputs()
	rep.eval(int64(len(p.calls)))
	rep.count("program calls on "+sys.String(), int64(len(p.calls)))
	for _, c := range p.calls {
		rep.count("call "+c.op, 1)
	}
	rp := map[string]interface{}{"program": p.String(), "target": sys.String()}
	c, err := compile(sys, len(in), programCircuit(p, sys.Range))
	if l := p.calls[len(p.calls)-1]; l.op == "falseeq" || l.op == "falseulp" {
		// its last assertion is false: the program without it is accepted, with it refused
		if err == nil {
			if _, err = c.Solve(in, nil); err == nil {
				rep.violate("accepted", rp, "the last assertion of program [%v] does not hold, but is accepted {%s}", sys, p)
				return false
			}
		}
		if len(p.calls) == 1 {
			return true
		}
		return runProgram(prog{p.E, p.M, p.calls[:len(p.calls)-1], p.fm}, sys, rep)
	}
	if err == nil {
		var sp Spied
		sp, err = c.Solve(in, nil)
		if err == nil {
			for j, cl := range p.calls {
				E, M := p.format(cl)
				if m := canonOf(E, M, cl.val).mismatch(sp[j], c.field); m != "" {
					rep.violate("wrong", rp, "call %d %s of program [%v] {%s}: %s", j, cl, sys, p, m)
					return false
				}
				if m := canonOf(E, M, cl.val).mismatch(sp[1000+j], c.field); m != "" {
					rep.violate("overwritten", rp, "result of call %d %s, at the end of program [%v] {%s}: %s", j, cl, sys, p, m)
					return false
				}
				if cl.op == "toint" {
					if w := new(big.Int).Mod(cl.more, c.field); len(sp[2000+j]) != 1 || sp[2000+j][0].Cmp(w) != 0 {
						rep.violate("wrong", rp, "call %d %s of program [%v] {%s}: got %v want %v", j, cl, sys, p, sp[2000+j], cl.more)
						return false
					}
				}
			}
			return true
		}
	}
	// shortest refused prefix
	for n := 1; n < len(p.calls); n++ {
		q := prog{p.E, p.M, p.calls[:n], p.fm}
		if c, e := compile(sys, len(in), programCircuit(q, sys.Range)); e == nil {
			if _, e = c.Solve(in, nil); e == nil {
				continue
			}
		}
		p = q
		break
	}
	rep.violate("rejected", rp, "honest program refused [%v] {%s}: %.200s", sys, p, err.Error())
	return false
}

// ---- life of the collected checks ------------------------------------------------------

type ev struct {
	ev     string
	ctx, n int
	v      *big.Int
	mode   int
	src    [2]int
	form   int // how the value is computed from those of two earlier events; < 0: an input
}

var lcFM = [][2]uint{{4, 3}, {8, 23}, {5, 5}, {11, 52}}

func lifecycleCircuit(log []ev) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctxs := make([]*float.Context, 0, 4)
		val := make([]frontend.Variable, len(log))
		for i, e := range log {
			e, v := e, in[i]
			a, b := val[e.src[0]], val[e.src[1]]
			switch e.form {
			case 0:
				v = a
			case 1:
				v = api.Add(a, b)
			case 2:
				v = api.Sub(a, b)
			case 3:
				v = api.Sub(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(e.n)), big.NewInt(1)), a)
			case 4:
				v = api.Add(a, a, 1)
			}
			val[i] = v
			switch e.ev {
			case "context":
				c := float.NewContext(api, uint(e.v.Int64()), lcFM[e.n][0], lcFM[e.n][1])
				ctxs = append(ctxs, &c)
			case "early":
				var c float.Context
				api.Compiler().Defer(func(api frontend.API) error {
					c.Gadget.AssertBitLength(v, uint(e.n), gadget.Mode(e.mode))
					return nil
				})
				c = float.NewContext(api, 3, 4, 3)
				ctxs = append(ctxs, &c)
			case "laterange":
				c := ctxs[e.ctx]
				api.Compiler().Defer(func(api frontend.API) error {
					c.Gadget.AssertBitLength(v, uint(e.n), gadget.Mode(e.mode))
					return nil
				})
			case "latepow2":
				c := ctxs[e.ctx]
				api.Compiler().Defer(func(api frontend.API) error {
					c.Gadget.QueryPowerOf2(v)
					return nil
				})
			case "range":
				ctxs[e.ctx].Gadget.AssertBitLength(v, uint(e.n), gadget.Mode(e.mode))
			case "pow2":
				ctxs[e.ctx].Gadget.QueryPowerOf2(v)
			case "abs":
				ctxs[e.ctx].Gadget.Abs(v, uint(e.n))
			case "alloc":
				ctxs[e.ctx].NewFloat(v)
			default:
				panic("unknown event " + e.ev)
			}
		}
	}
}

func replayLifecycles(files []string, targets []Sys, rep *Report) {
	type hist struct {
		log     []ev
		verdict string
		desc    string
	}
	var hs []hist
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			if vs(s["verdict"]) == "open" {
				continue
			}
			h := hist{verdict: vs(s["verdict"])}
			var d []string
			for _, x := range s.L("log") {
				m := vr(x)
				e := ev{vs(m["ev"]), vn(m["ctx"]), vn(m["n"]), vi(m["v"]), vn(m["mode"]), [2]int{vn(m["src"]), vn(m["src2"])}, vn(m["form"])}
				h.log = append(h.log, e)
				t := fmt.Sprintf("%s(c%d,n=%d,v=%v,mode=%d)", e.ev, e.ctx, e.n, e.v, e.mode)
				if e.form >= 0 {
					t += []string{fmt.Sprintf("=x%d", e.src[0]), fmt.Sprintf("=x%d+x%d", e.src[0], e.src[1]), fmt.Sprintf("=x%d-x%d", e.src[0], e.src[1]),
						fmt.Sprintf("=2^n-1-x%d", e.src[0]), fmt.Sprintf("=2*x%d+1", e.src[0])}[e.form]
				}
				d = append(d, t)
			}
			h.desc = strings.Join(d, "; ")
			hs = append(hs, h)
		}
	}
	parallel(len(hs), func(i int) {
		h := hs[i]
		sys := targets[i%len(targets)]
		rep.eval(1)
		rep.count("verdict "+h.verdict, 1)
		if i%61 == 0 {
			rep.sample(h.desc + " -> " + h.verdict)
		}
		rep.distinct(h.desc)
		rp := map[string]interface{}{"history": h.desc, "expect": h.verdict, "target": sys.String()}
		c, err := compile(sys, len(h.log), lifecycleCircuit(h.log))
		if err != nil {
			if h.verdict != "refuse" {
				rep.violate("compile", rp, "history {%s} does not compile [%v]: %v", h.desc, sys, err)
			}
			return
		}
		if h.verdict == "refuse" {
			rep.violate("dropped", rp, "a check requested after its context was closed is silently dropped [%v]: {%s}", sys, h.desc)
			return
		}
		in := make([]*big.Int, len(h.log))
		for j, e := range h.log {
			in[j] = toField(e.v, c.field)
		}
		_, err = c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
			if honest() != nil { // an honest helper cannot answer: the prover answers anything
				for _, o := range hout {
					o.SetInt64(1)
				}
			}
			return nil
		})
		if h.verdict == "accept" && err != nil {
			rep.violate("rejected", rp, "all queued checks hold but the circuit refuses [%v]: {%s}: %.200s", sys, h.desc, err.Error())
		}
		if h.verdict == "reject" && err == nil {
			rep.violate("lost", rp, "a queued check is not enforced [%v]: {%s}", sys, h.desc)
		}
	})
}
