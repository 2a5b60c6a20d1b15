package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
)

// Rows about real-valued behaviour (specification modules h3 and mathfn): a call with every admissible
// result.  tol: >= 0 number within that distance (both scaled 2^160), -1 integer, -2 datum bit for bit.

func init() { extra["real"] = replayReal }

// kind -> circuit over the row's arguments; outputs are observed with spy(api, index of component, ...)
var realCircuits = map[string]func(E, M, rng uint) func(frontend.API, []frontend.Variable){}

// kind -> result of plain code (per component: one integer, or four components), or what went wrong
var realDirect = map[string]func(r realRow) ([][]*big.Int, string){}

// kind -> the row's circuit with some arguments built in as constants (used for every other row)
var realConst = map[string]func(r realRow, i int, rng uint) func(frontend.API, []frontend.Variable){}

type realRow struct {
	kind  string
	E, M  uint
	args  []*big.Int
	cands [][]*big.Int
	tol   []*big.Int
}

func (r realRow) String() string {
	s := fmt.Sprintf("%s E=%d M=%d", r.kind, r.E, r.M)
	for _, a := range r.args {
		s += fmt.Sprintf(" 0x%x", a)
	}
	return s
}

const fixScale = 160

// fixed-point value (scaled 2^160) of spied components; "" unless canonical and finite
func fixOf(v []*big.Int, E, M uint, field *big.Int) (*big.Int, string) {
	if len(v) != 4 {
		return nil, "no value observed"
	}
	if v[3].Sign() != 0 {
		return nil, "result is infinite or NaN"
	}
	if v[0].BitLen() > 1 {
		return nil, fmt.Sprintf("sign is %v", v[0])
	}
	if v[2].Sign() != 0 && v[2].BitLen() != int(M)+1 {
		return nil, fmt.Sprintf("mantissa %v is not normalised", v[2])
	}
	e := signed(v[1], field)
	zero := 1 - int64(1)<<(E-1) - int64(M)
	if !e.IsInt64() || e.Int64() >= int64(1)<<(E-1) || e.Int64() < zero || (v[2].Sign() == 0) != (e.Int64() == zero) {
		return nil, fmt.Sprintf("exponent is %v", e)
	}
	k := int(e.Int64()) - int(M) + fixScale
	r := new(big.Int).Set(v[2])
	if k >= 0 {
		r.Lsh(r, uint(k))
	} else {
		r.Rsh(r, uint(-k))
	}
	if v[0].Sign() != 0 {
		r.Neg(r)
	}
	return r, ""
}

func loadReal(files []string, rep *Report) (rows []realRow) {
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			kind := vs(s["kind"])
			fm := vl(s["fmt"])
			for _, x := range s.L("rows") {
				m := vr(x)
				r := realRow{kind: kind, E: uint(vn(fm[0])), M: uint(vn(fm[1]))}
				for _, a := range vl(m["args"]) {
					r.args = append(r.args, vi(a))
				}
				for _, c := range vl(m["cands"]) {
					var t []*big.Int
					for _, a := range vl(c) {
						t = append(t, vi(a))
					}
					r.cands = append(r.cands, t)
				}
				for _, a := range vl(m["tol"]) {
					r.tol = append(r.tol, vi(a))
				}
				if len(r.args) > 0 {
					rows = append(rows, r)
				}
			}
		}
	}
	return
}

func replayReal(files []string, targets []Sys, rep *Report) {
	rows := loadReal(files, rep)
	cache := newCache()
	parallel(len(rows), func(i int) {
		if rep.full() {
			return
		}
		r := rows[i]
		sys := targets[i%len(targets)]
		rp := map[string]interface{}{"case": r.String()}
		rep.eval(1)
		rep.count(fmt.Sprintf("%s E%dM%d", r.kind, r.E, r.M), 1)
		rep.distinct(r.String())
		if i%503 == 0 {
			rep.sample(fmt.Sprintf("%s -> %d admissible outcome(s)", r, len(r.cands)))
		}
		if len(r.cands) > 1 {
			rep.count(r.kind+" on a border (several admissible outcomes)", 1)
		}
		var out func(j int) []*big.Int
		where := "plain code"
		field := big.NewInt(0)
		if d, ok := realDirect[r.kind]; ok {
			o, why := d(r)
			if why != "" {
				rep.violate("wrong", rp, "%s: %s", r, why)
				return
			}
			out = func(j int) []*big.Int {
				if j < len(o) {
					return o[j]
				}
				return nil
			}
		} else {
			where = sys.String()
			rp["target"] = where
			build, ok := realCircuits[r.kind]
			if !ok {
				fatal("unknown kind %s", r.kind)
			}
			c, err := cache.get(fmt.Sprintf("%s/%d/%d/%d/%v", r.kind, r.E, r.M, len(r.args), sys), func() (*Compiled, error) {
				return compile(sys, len(r.args), build(r.E, r.M, sys.Range))
			})
			if kc, ok := realConst[r.kind]; ok && (i/2)%2 == 0 {
				where += " (constants)"
				rep.count(r.kind+" with constant arguments", 1)
				c, err = compile(sys, len(r.args), kc(r, i/4, sys.Range))
			}
			if err != nil {
				rep.violate("compile", rp, "%s does not compile on %v: %v", r.kind, sys, err)
				return
			}
			sp, err := c.Solve(r.args, nil)
			if err != nil {
				rep.violate("rejected", rp, "honest computation refused: %s [%v]: %.160s", r, sys, err.Error())
				return
			}
			field = c.field
			out = func(j int) []*big.Int { return sp[j] }
		}
		why := ""
		for _, cand := range r.cands {
			worst := make([]*big.Int, len(cand))
			why = ""
			for j, want := range cand {
				if why, worst[j] = r.compare(out(j), want, r.tol[j], field); why != "" {
					why = fmt.Sprintf("component %d: %s", j, why)
					break
				}
			}
			if why == "" {
				for j, d := range worst {
					if d != nil && (r.kind != "plane" || cand[j].Sign() != 0) { // bearing undefined: anything up to the radius
						rep.maxRatio(fmt.Sprintf("%s E%d component %d", r.kind, r.E, j), d, r.tol[j])
					}
				}
				return
			}
		}
		if len(r.cands) > 1 {
			why = fmt.Sprintf("none of %d admissible outcomes, last: %s", len(r.cands), why)
		}
		rep.violate("wrong", rp, "%s [%v]: %s", r, where, why)
	})
}

// compare one observed component with one specified one; also the distance if it is a number
func (r realRow) compare(got []*big.Int, want, tol, field *big.Int) (string, *big.Int) {
	if len(got) == 0 {
		return "no value observed", nil
	}
	switch {
	case tol.Sign() < 0 && len(got) == 4:
		return canonOf(r.E, r.M, want).mismatch(got, field), nil
	case tol.Sign() < 0:
		g := got[0]
		if field.Sign() > 0 {
			g = signed(g, field)
		}
		if g.Cmp(want) != 0 && !(tol.Int64() == -2 && canonOf(r.E, r.M, g).NaN && canonOf(r.E, r.M, want).NaN) {
			return fmt.Sprintf("got %v want %v", g, want), nil
		}
		return "", nil
	}
	g := got[0]
	if len(got) == 4 {
		var m string
		if g, m = fixOf(got, r.E, r.M, field); m != "" {
			return m, nil
		}
	}
	d := new(big.Int).Sub(g, want)
	d.Abs(d)
	if d.Cmp(tol) > 0 {
		return fmt.Sprintf("got %s want %s +- %s", dec(g), dec(want), dec(tol)), d
	}
	return "", d
}

func dec(x *big.Int) string {
	f := new(big.Float).SetPrec(200).SetInt(x)
	f.SetMantExp(f, -fixScale)
	return f.Text('g', 20)
}
