package main

import (
	"math"
)

// oracleRows compares the specification (not the code under test) with the machine's own IEEE-754
// arithmetic.  A difference means the specification is broken: an error of the check, no violation.
func oracleRows(g map[string][]FRow, rep *Report) {
	for _, rows := range g {
		for _, r := range rows {
			var want uint64
			switch {
			case r.E == 8 && r.M == 23:
				x, y := math.Float32frombits(uint32(r.A.Uint64())), math.Float32frombits(uint32(r.B.Uint64()))
				w, p, ok := machine(r.Op, float64(x), float64(y))
				if !ok {
					continue
				}
				if p {
					want = uint64(w)
				} else {
					var f float32
					switch r.Op {
					case "add":
						f = x + y
					case "sub":
						f = x - y
					case "mul":
						f = x * y
					case "div":
						f = x / y
					default: // correctly rounded twice is harmless here (sqrt), or exact
						f = float32(w)
					}
					want = uint64(math.Float32bits(f))
					if f != f {
						want = 0x7fc00000
					}
				}
			case r.E == 11 && r.M == 52:
				w, p, ok := machine(r.Op, math.Float64frombits(r.A.Uint64()), math.Float64frombits(r.B.Uint64()))
				if !ok {
					continue
				}
				if p {
					want = uint64(w)
				} else {
					want = math.Float64bits(w)
					if w != w {
						want = 0x7ff8000000000000
					}
				}
			default:
				continue
			}
			got := r.R.Uint64()
			c := canonOf(r.E, r.M, r.R)
			if !isPredicate(r.Op) && c.NaN {
				got = 0x7fc00000
				if r.E == 11 {
					got = 0x7ff8000000000000
				}
			}
			if got != want {
				fatal("the specification disagrees with the hardware on %s: hardware 0x%x", r, want)
			}
			rep.eval(1)
			rep.count("specification rows confirmed by the hardware", 1)
		}
	}
}

func machine(op string, x, y float64) (v float64, pred, ok bool) {
	b := func(c bool) (float64, bool, bool) {
		if c {
			return 1, true, true
		}
		return 0, true, true
	}
	switch op {
	case "add":
		return x + y, false, true
	case "sub":
		return x - y, false, true
	case "mul":
		return x * y, false, true
	case "div":
		return x / y, false, true
	case "sqrt":
		return math.Sqrt(x), false, true
	case "trunc":
		return math.Trunc(x), false, true
	case "floor":
		return math.Floor(x), false, true
	case "ceil":
		return math.Ceil(x), false, true
	case "lt":
		return b(x < y)
	case "le":
		return b(x <= y)
	case "gt":
		return b(x > y)
	case "ge":
		return b(x >= y)
	}
	return 0, false, false
}
