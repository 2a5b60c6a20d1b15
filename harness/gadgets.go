package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/gadget"
)

type gRow struct {
	kind string
	v    []*big.Int
}

func (r gRow) n(i int) int { return int(r.v[i].Int64()) }
func (r gRow) String() string {
	s := r.kind
	for _, x := range r.v {
		s += " " + signed(x, bn254).String()
	}
	return s
}

var bn254 = curveByName("bn254").ScalarField()

// replayGadgets: the rows' field is BN254
func replayGadgets(files []string, targets []Sys, rep *Report) {
	var rows []gRow
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			for _, v := range s.L("rows") {
				r := gRow{kind: vs(s["kind"])}
				for _, x := range vl(v) {
					r.v = append(r.v, vi(x))
				}
				rows = append(rows, r)
			}
		}
	}
	cache := newCache()
	parallel(len(rows), func(i int) {
		r := rows[i]
		plonk := targets[i%len(targets)].Plonk
		switch r.kind {
		case "range":
			gRange(r, plonk, cache, rep)
		case "pow2":
			gPow2(r, plonk, cache, rep)
		case "abs":
			gAbs(r, plonk, cache, rep)
		case "max":
			gMax(r, plonk, cache, rep)
		case "logic":
			gLogic(r, plonk, cache, rep)
		}
		rep.distinct(r.String())
		if i%1499 == 0 {
			rep.sample(r.String())
		}
	})
}

func gsys(plonk bool, w int) Sys {
	return Sys{Plonk: plonk, Curve: curveByName("bn254"), Range: uint(w)}
}

func gv(rep *Report, kind string, r gRow, s Sys, f string, a ...interface{}) {
	rep.violate(kind, map[string]interface{}{"row": r.String(), "target": s.String()}, "%s [%v]: %s", r, s, fmt.Sprintf(f, a...))
}

func gRange(r gRow, plonk bool, cache *compileCache, rep *Report) {
	mode, bits, w, v, verdict := r.n(0), r.n(1), r.n(2), r.v[3], r.n(4)
	sys := gsys(plonk, w)
	constant := r.n(5) == 1
	build := func() (*Compiled, error) {
		return compile(sys, 1, func(api frontend.API, in []frontend.Variable) {
			g := gadget.New(api, uint(w), 8)
			x := in[0]
			if constant {
				x = new(big.Int).Set(v)
			}
			g.AssertBitLength(x, uint(bits), gadget.Mode(mode))
		})
	}
	if constant {
		gConstantRange(r, sys, build, rep)
		return
	}
	c, err := cache.get(fmt.Sprintf("range/%d/%d/%v", mode, bits, sys), build)
	if err != nil {
		gv(rep, "compile", r, sys, "does not compile: %v", err)
		return
	}
	_, err = c.Solve([]*big.Int{v}, nil)
	rep.eval(1)
	rep.count(fmt.Sprintf("range mode %d verdict %d", mode, verdict), 1)
	if verdict == 1 && err != nil {
		gv(rep, "rejected", r, sys, "a value of %d bits is refused: %.160s", bits, err.Error())
	}
	if verdict != 0 {
		return
	}
	if err == nil {
		gv(rep, "accepted", r, sys, "a value outside %d bits is accepted", bits)
		return
	}
	// the prover chooses the limbs: hide the excess in each limb in turn
	p := c.field
	nl, nd := 0, 0
	c.Solve([]*big.Int{v}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
		e := honest()
		if ds := decompositions(f, in, out); len(ds) > 0 {
			nl, nd = max(nl, len(out)), max(nd, len(ds))
		}
		return e
	})
	for j := 0; j < nl; j++ {
		for variant := 0; variant < 4*nd; variant++ {
			variant, d := variant%4, variant/4
			_, err := c.Solve([]*big.Int{v}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
				e := honest()
				ds := decompositions(f, in, out)
				if d >= len(ds) || e != nil || j >= len(out) {
					return e
				}
				limb, target := ds[d].limb, new(big.Int).Set(ds[d].value)
				if variant == 3 { // of v itself, whatever scaling the gadget applies
					target.Set(v)
				}
				for i := range out {
					if i == j {
						continue
					}
					if variant == 1 {
						out[i].SetInt64(0)
					}
					if variant == 2 {
						out[i].Sub(new(big.Int).Lsh(big.NewInt(1), limb), big.NewInt(1))
					}
					target.Sub(target, new(big.Int).Mul(out[i], new(big.Int).Lsh(big.NewInt(1), limb*uint(i))))
				}
				inv := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), limb*uint(j)), p)
				out[j].Mul(target, inv)
				out[j].Mod(out[j], p)
				return nil
			})
			rep.eval(1)
			rep.count("limb lies", 1)
			if err == nil {
				gv(rep, "forged", r, sys, "a value outside %d bits is accepted when limb %d absorbs the excess", bits, j)
				return
			}
		}
	}
	// ... or offers the limbs of another representative of the same field element
	for d := 0; d < nd; d++ {
		for _, own := range []bool{false, true} {
			told := false
			_, err := c.Solve([]*big.Int{v}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
				e := honest()
				ds := decompositions(f, in, out)
				if d >= len(ds) || e != nil {
					return e
				}
				t := new(big.Int).Set(ds[d].value)
				if own {
					t.Set(v)
				}
				t.Mod(t, p).Add(t, p)
				if t.BitLen() > len(out)*int(ds[d].limb) {
					return nil
				}
				told = true
				one := big.NewInt(1)
				mask := new(big.Int).Sub(new(big.Int).Lsh(one, ds[d].limb), one)
				for i := range out {
					out[i].And(new(big.Int).Rsh(t, uint(i)*ds[d].limb), mask)
				}
				return nil
			})
			if told {
				rep.eval(1)
				rep.count("wrapped decompositions", 1)
				if err == nil {
					gv(rep, "forged", r, sys, "a value outside %d bits is accepted with the limbs of v + p", bits)
					return
				}
			}
		}
	}
}

// a constant may be refused when the circuit is compiled or when it is solved
func gConstantRange(r gRow, sys Sys, build func() (*Compiled, error), rep *Report) {
	c, err := build()
	if err == nil {
		_, err = c.Solve([]*big.Int{r.v[3]}, nil)
	}
	rep.eval(1)
	rep.count(fmt.Sprintf("constant range verdict %d", r.n(4)), 1)
	if r.n(4) == 1 && err != nil {
		gv(rep, "rejected", r, sys, "the constant %v of %d bits is refused: %.160s", r.v[3], r.n(1), err.Error())
	}
	if r.n(4) == 0 && err == nil {
		gv(rep, "accepted", r, sys, "the constant %v outside %d bits is accepted", r.v[3], r.n(1))
	}
}

func gPow2(r gRow, plonk bool, cache *compileCache, rep *Report) {
	E, M, w, e, claim, verdict := r.n(0), r.n(1), r.n(2), r.v[3], r.v[4], r.n(5)
	sys := gsys(plonk, w)
	c, err := cache.get(fmt.Sprintf("pow2/%d/%d/%v", E, M, sys), func() (*Compiled, error) {
		return compile(sys, 1, func(api frontend.API, in []frontend.Variable) {
			g := gadget.New(api, uint(w), uint(E+M+1))
			spy(api, 0, g.QueryPowerOf2(in[0]))
		})
	})
	if err != nil {
		gv(rep, "compile", r, sys, "does not compile: %v", err)
		return
	}
	rep.eval(1)
	rep.count(fmt.Sprintf("pow2 verdict %d", verdict), 1)
	if verdict == 1 {
		sp, err := c.Solve([]*big.Int{e}, nil)
		if err != nil {
			gv(rep, "rejected", r, sys, "the true power of two is refused: %.160s", err.Error())
		} else if sp[0][0].Cmp(claim) != 0 {
			gv(rep, "wrong", r, sys, "returned %v", sp[0][0])
		}
		return
	}
	sp, err := c.Solve([]*big.Int{e}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
		if len(out) == 1 && len(in) == 1 {
			out[0].Set(claim)
			return nil
		}
		return honest()
	})
	if err == nil && sp[0][0].Cmp(claim) == 0 {
		gv(rep, "forged", r, sys, "claimed 2^%v = %v is accepted", signed(e, c.field), claim)
	}
}

func signLies(field *big.Int) []*big.Int {
	return []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(field, big.NewInt(1)),
		new(big.Int).ModInverse(big.NewInt(2), field)}
}

func gAbs(r gRow, plonk bool, cache *compileCache, rep *Report) {
	v, l, w, abs, pos, verdict := r.v[0], r.n(1), r.n(2), r.v[3], r.v[4], r.n(5)
	sys := gsys(plonk, w)
	constant := r.n(6) == 1
	key := fmt.Sprintf("abs/%d/%v", l, sys)
	c, err := cache.unless(constant, key, func() (*Compiled, error) {
		return compile(sys, 1, func(api frontend.API, in []frontend.Variable) {
			g := gadget.New(api, uint(w), 8)
			x := in[0]
			if constant {
				x = new(big.Int).Set(v)
			}
			a, s := g.Abs(x, uint(l))
			spy(api, 0, a, s, g.IsPositive(x, uint(l)))
		})
	})
	if err != nil && constant && verdict != 1 {
		return // refused before anything is proved
	}
	if err != nil {
		gv(rep, "compile", r, sys, "does not compile: %v", err)
		return
	}
	good := func(sp Spied) bool {
		return sp[0][0].Cmp(abs) == 0 && sp[0][1].Cmp(pos) == 0 && sp[0][2].Cmp(pos) == 0
	}
	sp, err := c.Solve([]*big.Int{v}, nil)
	rep.eval(1)
	rep.count(fmt.Sprintf("abs verdict %d", verdict), 1)
	if verdict == 1 && err != nil {
		gv(rep, "rejected", r, sys, "refused: %.160s", err.Error())
		return
	}
	if err == nil && (verdict == 0 || !good(sp)) {
		gv(rep, "wrong", r, sys, "got |v|=%v sign=%v/%v", signed(sp[0][0], c.field), sp[0][1], sp[0][2])
		return
	}
	for _, x := range signLies(c.field) {
		for k := 0; k < 3; k++ { // lie to the first, the second, both
			sp, err := c.Solve([]*big.Int{v}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
				if e := honest(); e != nil || len(out) != 2 || isDecomposition(f, in, out) {
					return e
				}
				if k == 2 || k == n {
					out[0].Set(x)
				}
				return nil
			})
			rep.eval(1)
			rep.count("abs lies", 1)
			if err == nil && (verdict == 0 || !good(sp)) {
				gv(rep, "forged", r, sys, "with the sign hint %v: |v|=%v sign=%v/%v", signed(x, c.field), signed(sp[0][0], c.field), sp[0][1], sp[0][2])
				return
			}
		}
	}
}

func gMax(r gRow, plonk bool, cache *compileCache, rep *Report) {
	a, b, l, w := r.v[0], r.v[1], r.n(2), r.n(3)
	sys := gsys(plonk, w)
	key := fmt.Sprintf("max/%d/%v", l, sys)
	constant := r.n(7) == 1
	c, err := cache.unless(constant, key, func() (*Compiled, error) {
		return compile(sys, 2, func(api frontend.API, in []frontend.Variable) {
			g := gadget.New(api, uint(w), 8)
			y := in[1]
			if constant {
				y = new(big.Int).Set(b)
			}
			spy(api, 0, g.Max(in[0], y, uint(l)), g.Min(in[0], y, uint(l)), g.IsPositive(api.Sub(in[0], y), uint(l)))
		})
	})
	if err != nil {
		gv(rep, "compile", r, sys, "does not compile: %v", err)
		return
	}
	good := func(sp Spied) bool {
		return sp[0][0].Cmp(r.v[4]) == 0 && sp[0][1].Cmp(r.v[5]) == 0 && sp[0][2].Cmp(r.v[6]) == 0
	}
	sp, err := c.Solve([]*big.Int{a, b}, nil)
	rep.eval(1)
	rep.count("max/min", 1)
	if err != nil {
		gv(rep, "rejected", r, sys, "refused: %.160s", err.Error())
		return
	}
	if !good(sp) {
		gv(rep, "wrong", r, sys, "got max=%v min=%v", signed(sp[0][0], c.field), signed(sp[0][1], c.field))
		return
	}
	for _, x := range signLies(c.field) {
		for k := 0; k < 4; k++ {
			i := -1
			sp, err := c.Solve([]*big.Int{a, b}, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
				if e := honest(); e != nil || len(out) != 2 || isDecomposition(f, in, out) {
					return e
				}
				i++
				if k == 3 || k == i {
					out[0].Set(x)
				}
				return nil
			})
			rep.eval(1)
			rep.count("max/min lies", 1)
			if err == nil && !good(sp) {
				gv(rep, "forged", r, sys, "with the sign hint %v: max=%v min=%v", signed(x, c.field), signed(sp[0][0], c.field), signed(sp[0][1], c.field))
				return
			}
		}
	}
}

func gLogic(r gRow, plonk bool, cache *compileCache, rep *Report) {
	form := r.n(2)
	sys := gsys(plonk, 3)
	isBool := r.n(4) != 2 || !r.v[4].IsInt64()
	f := func(api frontend.API, in []frontend.Variable) {
		g := gadget.New(api, 3, 8)
		x, y := in[0], in[1]
		if form&1 == 1 {
			x = new(big.Int).Set(r.v[0])
		}
		if form&2 == 2 {
			y = new(big.Int).Set(r.v[1])
		}
		out := []frontend.Variable{g.IsEq(x, y)}
		if isBool {
			out = append(out, g.Or(x, y))
		}
		spy(api, 0, out...)
	}
	var c *Compiled
	var err error
	build := func() (*Compiled, error) { return compile(sys, 2, f) }
	if form == 0 {
		c, err = cache.get(fmt.Sprintf("logic/%v/%v", sys, isBool), build)
	} else {
		c, err = build()
	}
	if err != nil {
		gv(rep, "compile", r, sys, "does not compile: %v", err)
		return
	}
	sp, err := c.Solve([]*big.Int{r.v[0], r.v[1]}, nil)
	rep.eval(1)
	rep.count(fmt.Sprintf("logic form %d", form), 1)
	if err != nil {
		gv(rep, "rejected", r, sys, "refused: %.160s", err.Error())
		return
	}
	if sp[0][0].Cmp(r.v[3]) != 0 || (isBool && sp[0][1].Cmp(r.v[4]) != 0) {
		gv(rep, "wrong", r, sys, "got %v", sp[0])
	}
}
