package main

import (
	"fmt"
	"math/big"
)

// replayAlloc confronts NewFloat with every kind of field element: encodings must come out in
// canonical form, everything else must be refused even if the prover lies.
func replayAlloc(files []string, targets []Sys, rep *Report) {
	type row struct {
		E, M    uint
		v       *big.Int
		verdict int
	}
	var rows []row
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			cfg := s.Rec("cfg")
			for _, x := range s.L("rows") {
				l := vl(x)
				rows = append(rows, row{uint(vn(cfg["E"])), uint(vn(cfg["M"])), vi(l[0]), vn(l[1])})
			}
		}
	}
	cache := newCache()
	parallel(len(rows), func(i int) {
		r := rows[i]
		sys := targets[i%len(targets)]
		c, err := cache.get(fmt.Sprintf("%d/%d/%v", r.E, r.M, sys), func() (*Compiled, error) {
			return compile(sys, 1, allocCircuit(r.E, r.M, sys.Range))
		})
		desc := fmt.Sprintf("allocation E=%d M=%d v=0x%x", r.E, r.M, r.v)
		rp := map[string]interface{}{"case": desc, "verdict": r.verdict, "target": sys.String()}
		if err != nil {
			rep.violate("compile", rp, "allocation does not compile on %v: %v", sys, err)
			return
		}
		rep.distinct(desc)
		rep.count(fmt.Sprintf("E%dM%d verdict=%d", r.E, r.M, r.verdict), 1)
		rep.eval(1)
		if i%997 == 0 {
			rep.sample(fmt.Sprintf("%s -> verdict %d", desc, r.verdict))
		}
		in := []*big.Int{r.v}
		if r.verdict == 1 {
			sp, err := c.Solve(in, nil)
			if err != nil {
				rep.violate("rejected", rp, "an encoding is refused: %s [%v]: %.160s", desc, sys, err.Error())
			} else if m := canonOf(r.E, r.M, r.v).mismatch(sp[0], c.field); m != "" {
				rep.violate("wrong", rp, "an encoding is decoded wrongly: %s [%v]: %s", desc, sys, m)
			}
			return
		}
		var sites []siteRec
		_, err = c.Solve(in, func(name string, n int, f *big.Int, hin, hout []*big.Int, honest func() error) error {
			e := honest()
			for len(sites) <= n {
				sites = append(sites, siteRec{})
			}
			sites[n] = siteRec{name, clone(hin), clone(hout)}
			return e
		})
		if err == nil {
			rep.violate("accepted", rp, "a field element that encodes nothing is accepted: %s [%v]", desc, sys)
			return
		}
		var lies []lieSpec
		for si, s := range sites {
			if len(s.out) != 2 {
				continue
			}
			// sign and exponent answers from the neighbourhood of a consistent split
			top := new(big.Int).Rsh(r.v, r.M)
			neg := new(big.Int).Rsh(signed(r.v, c.field), r.M)
			for sgn := int64(-1); sgn <= 3; sgn++ {
				for _, base := range []*big.Int{top, neg} {
					for d := int64(-1); d <= 1; d++ {
						e := new(big.Int).Sub(base, new(big.Int).Lsh(big.NewInt(sgn), r.E))
						e.Add(e, big.NewInt(d))
						for _, y := range []*big.Int{e, new(big.Int).And(e, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), r.E), big.NewInt(1)))} {
							lies = append(lies, lieSpec{si, map[int]*big.Int{0: toField(big.NewInt(sgn), c.field), 1: toField(y, c.field)},
								fmt.Sprintf("sign=%d exponent=%v", sgn, y)})
						}
					}
				}
			}
			break
		}
		if i%16 == 0 {
			lies = append(lies, enumerateLies(sites, c.field, r.E, r.M, false, 0)...)
		}
		rep.eval(int64(len(lies)))
		rep.count("lies told", int64(len(lies)))
		for _, l := range lies {
			if _, err := c.solveWith(in, l); err == nil {
				rp["lie"] = l.what
				rep.violate("forged", rp, "a prover gets a field element that encodes nothing accepted: %s [%v] with %s", desc, sys, l.what)
				return
			}
		}
	})
}
