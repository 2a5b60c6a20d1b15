package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"
)

// A lying prover against the steps of the location circuits: inputs fixed, hints answered at will.
// Whatever is accepted must still be an admissible outcome of the row.

func init() { extra["realattack"] = realAttack }

var attackBudget = 60 * time.Second
var attackLies = 400

func (r realRow) admissible(sp Spied, field *big.Int) string {
	why := "no admissible outcome"
	for _, cand := range r.cands {
		why = ""
		for j, want := range cand {
			if why, _ = r.compare(sp[j], want, r.tol[j], field); why != "" {
				why = fmt.Sprintf("component %d: %s", j, why)
				break
			}
		}
		if why == "" {
			return ""
		}
	}
	return why
}

func realAttack(files []string, targets []Sys, rep *Report) {
	rows := loadReal(files, rep)
	cache := newCache()
	deadline := time.Now().Add(attackBudget)
	parallel(len(rows), func(i int) {
		if rep.full() || time.Now().After(deadline) {
			return
		}
		r := rows[i]
		sys := targets[i%len(targets)]
		rp := map[string]interface{}{"case": r.String(), "target": sys.String()}
		c, err := cache.get(fmt.Sprintf("%s/%d/%d/%d/%v", r.kind, r.E, r.M, len(r.args), sys), func() (*Compiled, error) {
			return compile(sys, len(r.args), realCircuits[r.kind](r.E, r.M, sys.Range))
		})
		if err != nil {
			rep.violate("compile", rp, "%s does not compile on %v: %v", r.kind, sys, err)
			return
		}
		if len(r.cands) == 0 { // no outcome is admissible: the circuit refuses, whatever the prover answers
			if _, err := c.Solve(r.args, nil); err == nil {
				rep.violate("accepted", rp, "accepted without an admissible outcome: %s [%v]", r, sys)
				return
			}
			_, err := c.Solve(r.args, func(name string, n int, f *big.Int, in, out []*big.Int, honest func() error) error {
				if honest() != nil {
					for _, o := range out {
						o.SetInt64(1)
					}
				}
				return nil
			})
			if err == nil {
				rep.violate("accepted", rp, "accepted without an admissible outcome: %s [%v]", r, sys)
			}
			rep.eval(2)
			rep.distinct(r.String())
			rep.count(r.kind+" to be refused", 1)
			return
		}
		in := make([]*big.Int, len(r.args))
		for j, a := range r.args {
			in[j] = toField(a, c.field)
		}
		sites, sp, err := recordSites(c, in)
		if err != nil {
			rep.violate("rejected", rp, "honest computation refused: %s [%v]: %.160s", r, sys, err.Error())
			return
		}
		if m := r.admissible(sp, c.field); m != "" {
			rep.violate("wrong", rp, "%s [%v]: %s", r, sys, m)
			return
		}
		// lies are drawn evenly from the kinds of hints, then from the sites of a kind
		byName := map[string][]int{}
		for j, s := range sites {
			if s.name != "" && !isDecomposition(c.field, s.in, s.out) && len(s.out) <= 6 {
				byName[s.name] = append(byName[s.name], j)
			}
		}
		var names []string
		for n := range byName {
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) == 0 {
			return
		}
		rng := rand.New(rand.NewSource(int64(i)*7919 + r.args[0].Int64()))
		told, accepted := int64(0), int64(0)
		for k := 0; k < attackLies && !time.Now().After(deadline); k++ {
			name := names[k%len(names)]
			j := byName[name][rng.Intn(len(byName[name]))]
			one := make([]siteRec, j+1)
			one[j] = sites[j]
			var l lieSpec
			if k/len(names)%3 < 2 { // small answers about every output, mostly
				o := rng.Intn(len(sites[j].out))
				cs := candidates(sites[j].out[o], c.field, r.E, r.M, false)
				x := cs[rng.Intn(len(cs))]
				if rng.Intn(2) == 0 {
					x = cs[rng.Intn(min(len(cs), 5))]
				}
				l = lieSpec{j, map[int]*big.Int{o: x}, fmt.Sprintf("%s#%d out%d: %v -> %v", name, j, o, sites[j].out[o], signed(x, c.field))}
			} else {
				ls := enumerateLies(one, c.field, r.E, r.M, false, 0)
				l = ls[rng.Intn(len(ls))]
			}
			told++
			sp, err := c.solveWith(in, l)
			if err != nil {
				continue
			}
			accepted++
			if m := r.admissible(sp, c.field); m != "" {
				rp["lie"] = l.what
				rep.violate("forged", rp, "a false outcome is provable: %s [%v] with %s: %s", r, sys, l.what, m)
				break
			}
		}
		rep.eval(told)
		rep.distinct(r.String() + sys.String())
		rep.count("lies told: "+r.kind, told)
		rep.count("lies accepted without effect: "+r.kind, accepted)
		rep.count(fmt.Sprintf("hint calls of %s", r.kind), int64(len(sites)))
	})
}
