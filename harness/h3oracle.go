package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os/exec"
	"strings"
)

// h3oracle compares the specification (not the code under test) with H3's reference implementation.
// A difference means the specification is broken: an error of the check, no violation.

func init() { extra["h3oracle"] = h3Oracle }

var h3Ref string

func h3Oracle(files []string, _ []Sys, rep *Report) {
	rows := loadReal(files, rep)
	var asked []realRow
	var q strings.Builder
	for _, r := range rows {
		x := func(i int) uint64 {
			if r.E == 8 {
				return math.Float64bits(float64(math.Float32frombits(uint32(r.args[i].Uint64()))))
			}
			return r.args[i].Uint64()
		}
		switch r.kind {
		case "cell":
			fmt.Fprintf(&q, "cell %x %x %d\n", x(0), x(1), r.args[2])
		case "hex":
			fmt.Fprintf(&q, "hex %x %x\n", x(0), x(1))
		case "norm":
			s := func(i int) *big.Int {
				if r.args[i].Sign() != 0 {
					return new(big.Int).Neg(r.args[i+1])
				}
				return r.args[i+1]
			}
			fmt.Fprintf(&q, "norm %d %d %d\n", s(0), s(2), s(4))
		default:
			continue
		}
		asked = append(asked, r)
	}
	cmd := exec.Command(h3Ref)
	cmd.Stdin = strings.NewReader(q.String())
	o, err := cmd.Output()
	if err != nil {
		fatal("reference implementation: %v", err)
	}
	in := bytes.NewReader(o)
	for _, r := range asked {
		var i, j, k int64
		if _, err := fmt.Fscan(in, &i, &j, &k); err != nil {
			fatal("reference implementation: %v", err)
		}
		ok := false
		for _, c := range r.cands {
			ok = ok || c[0].Int64() == i && c[1].Int64() == j && c[2].Int64() == k
		}
		if !ok {
			fatal("the specification disagrees with the reference implementation of H3 on %s: %d %d %d, specified %v", r, i, j, k, r.cands)
		}
		rep.count("specification rows confirmed by H3's reference implementation", 1)
	}
}
