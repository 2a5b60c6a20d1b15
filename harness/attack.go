package main

import (
	"fmt"
	"math/big"
	"sort"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
)

// The adversarial prover.  The circuit and its inputs are fixed; the prover may answer every
// hint with any field element.  A lie is one such answer pattern; a violation is a lie that the
// real constraint system ACCEPTS together with an output the specification does not allow.

type siteRec struct {
	name string
	in   []*big.Int
	out  []*big.Int
}

func clone(v []*big.Int) []*big.Int {
	r := make([]*big.Int, len(v))
	for i := range v {
		r[i] = new(big.Int).Set(v[i])
	}
	return r
}

func recordSites(c *Compiled, in []*big.Int) (sites []siteRec, sp Spied, err error) {
	sp, err = c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
		if e := honest(); e != nil {
			return e
		}
		for len(sites) <= n {
			sites = append(sites, siteRec{})
		}
		sites[n] = siteRec{name, clone(hin), clone(hout)}
		return nil
	})
	return
}

// decompositions: the hint splits a value (times a scale) into limbs; told from what it answers.
// Every reading (limb width, value) its answer allows.
type reading struct {
	limb  uint
	value *big.Int
}

func decompositions(field *big.Int, in, out []*big.Int) (l []reading) {
	if len(in) < 3 || len(out) == 0 {
		return
	}
	seen := map[string]bool{}
	for j, b := range in {
		if !b.IsInt64() || b.Int64() < 1 || b.Int64() > 64 {
			continue
		}
		w := uint(b.Int64())
		sum := new(big.Int)
		for i := len(out) - 1; i >= 0; i-- {
			sum.Lsh(sum, w).Add(sum, out[i])
		}
		mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w*uint(len(out))), big.NewInt(1))
		for k := range in {
			for m := k; m < len(in); m++ {
				if k == j || m == j {
					continue
				}
				t := new(big.Int).Set(in[k])
				if m != k {
					t.Mul(t, in[m])
				}
				r := new(big.Int).Mod(t, field)
				if new(big.Int).And(t, mask).Cmp(sum) == 0 || new(big.Int).And(r, mask).Cmp(sum) == 0 {
					if key := fmt.Sprint(w, r); !seen[key] {
						seen[key] = true
						l = append(l, reading{w, r})
					}
				}
			}
		}
	}
	return
}

func isDecomposition(field *big.Int, in, out []*big.Int) bool {
	return len(decompositions(field, in, out)) > 0
}

type lieSpec struct {
	site int
	vals map[int]*big.Int // output index -> value told
	what string
}

// candidates: false answers derived from the honest answer v
func candidates(v, field *big.Int, E, M uint, rich bool) []*big.Int {
	one := big.NewInt(1)
	var l []*big.Int
	add := func(x *big.Int) { l = append(l, new(big.Int).Mod(x, field)) }
	p2 := func(k uint) *big.Int { return new(big.Int).Lsh(one, k) }
	add(big.NewInt(0))
	add(one)
	add(big.NewInt(2))
	add(big.NewInt(-1))
	for _, d := range []int64{1, -1, 2, -2, 3} {
		add(new(big.Int).Add(v, big.NewInt(d)))
	}
	add(new(big.Int).Neg(v))
	add(new(big.Int).Sub(one, v))
	add(new(big.Int).Add(v, v))
	add(new(big.Int).Mul(v, new(big.Int).ModInverse(big.NewInt(2), field)))
	ks := map[uint]bool{}
	for _, k := range []uint{2, 3, E - 1, E, E + 1, E + 2, M - 1, M, M + 1, M + 2, M + 3, M + 4, M + E, M + E + 1, M + E + 2, 2 * M, 2*M + 1, 2*M + 2, 2*M + 3, 2*M + 4, 2*M + 5} {
		ks[k] = true
	}
	if rich {
		for k := uint(0); k < 2*M+10; k++ {
			ks[k] = true
		}
	}
	for k := range ks {
		add(new(big.Int).Add(v, p2(k)))
		add(new(big.Int).Sub(v, p2(k)))
	}
	// a power of two: move the exponent by k and hide k in the bits above the table
	if v.Sign() > 0 && new(big.Int).And(v, new(big.Int).Sub(v, one)).Sign() == 0 {
		size := M + E + 1
		for k := uint(1); k <= M+4; k++ {
			t := new(big.Int).Lsh(v, k)
			add(t)
			add(new(big.Int).Add(t, new(big.Int).Lsh(big.NewInt(int64(k)), size)))
			if uint(v.BitLen()) > k {
				t := new(big.Int).Rsh(v, k)
				add(t)
				add(new(big.Int).Sub(t, new(big.Int).Lsh(big.NewInt(int64(k)), size)))
			}
		}
	}
	seen := map[string]bool{v.String(): true}
	var r []*big.Int
	for _, x := range l {
		if !seen[x.String()] {
			seen[x.String()] = true
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Cmp(r[j]) < 0 })
	return r
}

func enumerateLies(sites []siteRec, field *big.Int, E, M uint, rich bool, window int) []lieSpec {
	var r []lieSpec
	one := big.NewInt(1)
	for i, s := range sites {
		if s.name == "" || isDecomposition(field, s.in, s.out) {
			continue // the range-check decomposition has its own property
		}
		if len(s.out) > 6 {
			continue
		}
		for j, v := range s.out {
			cs := candidates(v, field, E, M, rich)
			for w := -window; w <= window && window > 0; w++ {
				if x := new(big.Int).Mod(big.NewInt(int64(w)), field); x.Cmp(v) != 0 {
					cs = append(cs, x)
				}
			}
			for _, c := range cs {
				r = append(r, lieSpec{i, map[int]*big.Int{j: c}, fmt.Sprintf("%s#%d out%d: %v -> %v", s.name, i, j, v, signed(c, field))})
			}
		}
		// two outputs of one hint moved together along a linear relation a + c*b = const
		for a := range s.out {
			for b := range s.out {
				if a == b {
					continue
				}
				for k := -3; k < int(2*M)+8; k++ {
					// by a power of two, or by a half, quarter, eighth (which a field has)
					step := new(big.Int).Lsh(one, uint(max(k, 0)))
					if k < 0 {
						step.ModInverse(new(big.Int).Lsh(one, uint(-k)), field)
					}
					for _, d := range []int64{1, -1} {
						for _, sg := range []int64{1, -1} {
							na := new(big.Int).Add(s.out[a], big.NewInt(d))
							nb := new(big.Int).Add(s.out[b], new(big.Int).Mul(big.NewInt(d*sg), step))
							na.Mod(na, field)
							nb.Mod(nb, field)
							r = append(r, lieSpec{i, map[int]*big.Int{a: na, b: nb}, fmt.Sprintf("%s#%d out%d,out%d: %v,%v -> %v,%v", s.name, i, a, b, s.out[a], s.out[b], signed(na, field), signed(nb, field))})
						}
					}
				}
			}
		}
	}
	return r
}

func (c *Compiled) solveWith(in []*big.Int, ls ...lieSpec) (Spied, error) {
	return c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
		e := honest()
		for _, l := range ls {
			if l.site == n {
				for j, v := range l.vals {
					if j < len(hout) {
						hout[j].Set(v)
					}
				}
				e = nil
			}
		}
		return e
	})
}

// single operation whose operands are given as canonical components (the form every
// operation receives), so that lies concern the operation only
func rawOpCircuit(op string, E, M, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, E, M)
		mk := func(o int) float.FloatVar {
			api.AssertIsBoolean(in[o])
			api.AssertIsBoolean(in[o+3])
			return float.FloatVar{Sign: in[o], Exponent: in[o+1], Mantissa: in[o+2], IsAbnormal: in[o+3]}
		}
		x := mk(0)
		var y float.FloatVar
		if binary(op) {
			y = mk(4)
		}
		spy(api, 0, applyOp(&ctx, op, x, y)...)
	}
}

func allocCircuit(E, M, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, E, M)
		spy(api, 0, fvars(ctx.NewFloat(in[0]))...)
	}
}

func rawInputs(r FRow, field *big.Int) []*big.Int {
	var in []*big.Int
	for _, v := range []*big.Int{r.A, r.B} {
		c := canonOf(r.E, r.M, v)
		in = append(in, big.NewInt(int64(c.S)), toField(big.NewInt(c.E), field), c.M, big.NewInt(int64(c.A)))
	}
	if !binary(r.Op) {
		return in[:4]
	}
	return in
}

type attackOpts struct {
	sys    []Sys
	rich   bool
	window int // small formats: every answer in [-window, window] as well
	budget time.Duration
	limit  int
}

func attackRows(g map[string][]FRow, o attackOpts, rep *Report) {
	keys := make([]string, 0, len(g))
	for k := range g {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type job struct {
		r FRow
		c *Compiled
		w int
	}
	var jobs []job
	for _, k := range keys {
		rows := g[k]
		for si, sys := range o.sys {
			f := rawOpCircuit(rows[0].Op, rows[0].E, rows[0].M, sys.Range)
			n := 8
			if rows[0].Op == "id" {
				f, n = allocCircuit(rows[0].E, rows[0].M, sys.Range), 1
			} else if !binary(rows[0].Op) {
				n = 4
			}
			c, err := compile(sys, n, f)
			if err != nil {
				rep.violate("compile", k, "%s on %v does not compile: %v", k, sys, err)
				continue
			}
			for i, r := range rows {
				if o.limit > 0 && i >= o.limit {
					break
				}
				if i%len(o.sys) != si { // every case against one target, targets in turn
					continue
				}
				jobs = append(jobs, job{r, c, i})
			}
		}
	}
	// first rows of every group first, so that a budget cut is even
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].w < jobs[j].w })
	deadline := time.Now().Add(o.budget)
	var cut int64
	parallel(len(jobs), func(i int) {
		if o.budget > 0 && time.Now().After(deadline) {
			atomic.AddInt64(&cut, 1)
			return
		}
		attackOne(jobs[i].r, jobs[i].c, o.rich, o.window, rep)
	})
	rep.count("cases cut by time budget", cut)
}

func attackOne(r FRow, c *Compiled, rich bool, window int, rep *Report) {
	in := rawInputs(r, c.field)
	if r.Op == "id" {
		in = []*big.Int{r.A}
	}
	sites, sp, err := recordSites(c, in)
	if err != nil {
		rep.violate("rejected", replayOf(r, "raw", c.sys), "honest computation rejected: %s [%v]: %.200s", r, c.sys, err.Error())
		return
	}
	if m := checkOut(r, sp[0], c.field); m != "" {
		rep.violate("wrong", replayOf(r, "raw", c.sys), "wrong result: %s [%v]: %s", r, c.sys, m)
		return
	}
	lies := enumerateLies(sites, c.field, r.E, r.M, rich, window)
	rep.distinct(r.String() + c.sys.String())
	acc := int64(0)
	for _, l := range lies {
		sp, err := c.solveWith(in, l)
		if err != nil {
			continue
		}
		acc++
		if m := checkOut(r, sp[0], c.field); m != "" {
			rp := replayOf(r, "raw", c.sys)
			rp["lie"] = l.what
			rep.violate("forged", rp, "a false result is provable: %s [%v] with %s: %s", r, c.sys, l.what, m)
			break
		}
	}
	rep.eval(int64(len(lies)))
	rep.count("lies told: "+r.Op, int64(len(lies)))
	rep.count("lies accepted without effect: "+r.Op, acc)
	if len(lies) > 0 {
		rep.sample(r.String() + " [" + c.sys.String() + "] e.g. " + lies[len(lies)/2].what)
	}
}
