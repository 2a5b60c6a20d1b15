package main

import (
	"fmt"
	"math"
	"math/big"
	"sync"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
)

// compileCache shares compiled circuits between rows
type compileCache struct {
	mu sync.Mutex
	m  map[string]*compileOnce
}
type compileOnce struct {
	once sync.Once
	c    *Compiled
	err  error
}

func newCache() *compileCache { return &compileCache{m: map[string]*compileOnce{}} }
func (cc *compileCache) get(key string, f func() (*Compiled, error)) (*Compiled, error) {
	cc.mu.Lock()
	o := cc.m[key]
	if o == nil {
		o = &compileOnce{}
		cc.m[key] = o
	}
	cc.mu.Unlock()
	o.once.Do(func() { o.c, o.err = f() })
	return o.c, o.err
}

// unless builds anew in the given case: a program used once
func (cc *compileCache) unless(once bool, key string, f func() (*Compiled, error)) (*Compiled, error) {
	if once {
		return f()
	}
	return cc.get(key, f)
}

type aRow struct {
	op      string
	E, M    uint
	a, b, t *big.Int
	verdict int
}

func (r aRow) String() string {
	return fmt.Sprintf("assert-%s E=%d M=%d a=0x%x b=0x%x tol=0x%x", r.op, r.E, r.M, r.a, r.b, r.t)
}

func applyAssert(ctx *float.Context, r aRow, x, y float.FloatVar) {
	switch r.op {
	case "eq":
		ctx.AssertIsEqual(x, y)
	case "ulp":
		ctx.AssertIsEqualOrULP(x, y)
	case "tol":
		if r.E == 8 {
			ctx.AssertIsEqualOrCustomULP32(x, y, math.Float32frombits(uint32(r.t.Uint64())))
		} else {
			ctx.AssertIsEqualOrCustomULP64(x, y, math.Float64frombits(r.t.Uint64()))
		}
	}
}

func assertCircuit(r aRow, mode string, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, r.E, r.M)
		mk := func(i int, m byte, v *big.Int) float.FloatVar {
			switch m {
			case 'c':
				return ctx.NewConstant(v.Uint64())
			case 'r': // components handed over directly
				api.AssertIsBoolean(in[4*i])
				api.AssertIsBoolean(in[4*i+3])
				return float.FloatVar{Sign: in[4*i], Exponent: in[4*i+1], Mantissa: in[4*i+2], IsAbnormal: in[4*i+3]}
			}
			return ctx.NewFloat(in[4*i])
		}
		x, y := mk(0, mode[0], r.a), mk(1, mode[1], r.b)
		applyAssert(&ctx, r, x, y)
	}
}

func replayAsserts(files []string, targets []Sys, constRows int, rep *Report) {
	var rows []aRow
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			cfg := s.Rec("cfg")
			for _, v := range s.L("rows") {
				l := vl(v)
				r := aRow{vs(cfg["op"]), uint(vn(cfg["E"])), uint(vn(cfg["M"])), vi(l[0]), vi(l[1]), vi(l[2]), vn(l[3])}
				if r.op == "tol" && !(r.E == 8 && r.M == 23) && !(r.E == 11 && r.M == 52) {
					continue
				}
				rows = append(rows, r)
			}
		}
	}
	cache := newCache()
	parallel(len(rows), func(i int) {
		r := rows[i]
		sys := targets[i%len(targets)]
		modes := []string{"vv"}
		if i%8 == 0 {
			modes = append(modes, "rr")
		}
		if i < constRows {
			modes = append(modes, []string{"cv", "vc", "cc"}[i%3])
		}
		for _, mode := range modes {
			checkAssert(r, mode, sys, cache, rep)
		}
		rep.distinct(r.String())
		if i%1009 == 0 {
			rep.sample(fmt.Sprintf("%s -> verdict %d", r, r.verdict))
		}
	})
}

func checkAssert(r aRow, mode string, sys Sys, cache *compileCache, rep *Report) {
	key := fmt.Sprintf("%s/%d/%d/%v/%s/%s", r.op, r.E, r.M, sys, mode, r.t)
	build := func() (*Compiled, error) { return compile(sys, 8, assertCircuit(r, mode, sys.Range)) }
	var c *Compiled
	var err error
	if mode == "vv" || mode == "rr" {
		c, err = cache.get(key, build)
	} else {
		c, err = build()
	}
	rp := map[string]interface{}{"row": r.String(), "verdict": r.verdict, "mode": mode, "target": sys.String()}
	rep.eval(1)
	rep.count(fmt.Sprintf("%s %s verdict=%d", r.op, mode, r.verdict), 1)
	in := make([]*big.Int, 8)
	for i := range in {
		in[i] = new(big.Int)
	}
	if err == nil {
		for i, v := range []*big.Int{r.a, r.b} {
			if mode[i] == 'r' {
				cn := canonOf(r.E, r.M, v)
				in[4*i], in[4*i+1], in[4*i+2], in[4*i+3] = big.NewInt(int64(cn.S)), toField(big.NewInt(cn.E), c.field), cn.M, big.NewInt(int64(cn.A))
			} else {
				in[4*i] = v
			}
		}
		_, err = c.Solve(in, nil)
	} else if mode == "vv" || mode == "rr" {
		rep.violate("compile", rp, "%s does not compile on %v: %v", r, sys, err)
		return
	}
	// a constant contradiction may be refused by the compiler as well
	if r.verdict == 1 && err != nil {
		rep.violate("rejected", rp, "must be accepted but is refused: %s [%v %s]: %.160s", r, sys, mode, err.Error())
	}
	if r.verdict == 0 && err == nil {
		rep.violate("accepted", rp, "must be refused but is accepted: %s [%v %s]", r, sys, mode)
	}
	if r.verdict != 0 || err == nil || mode != "rr" || c == nil {
		return
	}
	// no prover may get it accepted
	sites := []siteRec{}
	c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
		e := honest()
		for len(sites) <= n {
			sites = append(sites, siteRec{})
		}
		sites[n] = siteRec{name, clone(hin), clone(hout)}
		return e
	})
	for _, l := range enumerateLies(sites, c.field, r.E, r.M, false, 0) {
		rep.eval(1)
		rep.count("lies told", 1)
		if _, err := c.solveWith(in, l); err == nil {
			rp["lie"] = l.what
			rep.violate("forged", rp, "must be refused but a prover gets it accepted: %s [%v] with %s", r, sys, l.what)
			return
		}
	}
}
