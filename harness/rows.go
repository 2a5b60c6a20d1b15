package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
)

// FRow is one specification row: operation, format, operands (encodings) and prescribed result.
type FRow struct {
	Op      string
	E, M    uint
	A, B, R *big.Int
}

func (r FRow) String() string {
	return fmt.Sprintf("%s E=%d M=%d a=0x%x b=0x%x expect=0x%x", r.Op, r.E, r.M, r.A, r.B, r.R)
}

// Canon is the documented in-circuit form of an encoding.
type Canon struct {
	S, A uint
	E    int64
	M    *big.Int
	NaN  bool
}

func canonOf(E, M uint, v *big.Int) Canon {
	one := big.NewInt(1)
	s := uint(v.Bit(int(E + M)))
	mag := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(one, E+M), one))
	ef := new(big.Int).Rsh(mag, M).Int64()
	mf := new(big.Int).And(mag, new(big.Int).Sub(new(big.Int).Lsh(one, M), one))
	emax := int64(1) << (E - 1)
	if ef == int64(1)<<E-1 {
		if mf.Sign() != 0 {
			return Canon{s, 1, emax, big.NewInt(0), true}
		}
		return Canon{s, 1, emax, new(big.Int).Lsh(one, M), false}
	}
	if mag.Sign() == 0 {
		return Canon{s, 0, 2 - emax - int64(M) - 1, big.NewInt(0), false}
	}
	if ef == 0 {
		sh := int64(M) + 1 - int64(mf.BitLen())
		return Canon{s, 0, 2 - emax - sh, new(big.Int).Lsh(mf, uint(sh)), false}
	}
	return Canon{s, 0, ef - (emax - 1), new(big.Int).Add(mf, new(big.Int).Lsh(one, M)), false}
}

func fvars(x float.FloatVar) []frontend.Variable {
	return []frontend.Variable{x.Sign, x.Exponent, x.Mantissa, x.IsAbnormal}
}

// matches compares a spied FloatVar with the canonical form ("" if equal). A NaN has no sign.
func (c Canon) mismatch(v []*big.Int, field *big.Int) string {
	if len(v) != 4 {
		return fmt.Sprintf("no value observed (%d)", len(v))
	}
	if v[3].Cmp(big.NewInt(int64(c.A))) == 0 && signed(v[1], field).Cmp(big.NewInt(c.E)) == 0 && v[2].Cmp(c.M) == 0 &&
		(v[0].Cmp(big.NewInt(int64(c.S))) == 0 || (c.NaN && v[0].IsUint64() && v[0].Uint64() <= 1)) {
		return ""
	}
	return fmt.Sprintf("got (s=%v e=%v m=%v abn=%v) want (s=%d e=%d m=%v abn=%d nan=%v)", v[0], signed(v[1], field), v[2], v[3], c.S, c.E, c.M, c.A, c.NaN)
}

func isPredicate(op string) bool {
	switch op {
	case "lt", "le", "gt", "ge", "eq", "toint":
		return true
	}
	return false
}

// applyOp runs the real code's operation
func applyOp(ctx *float.Context, op string, x, y float.FloatVar) []frontend.Variable {
	switch op {
	case "add":
		return fvars(ctx.Add(x, y))
	case "sub":
		return fvars(ctx.Sub(x, y))
	case "mul":
		return fvars(ctx.Mul(x, y))
	case "div":
		return fvars(ctx.Div(x, y))
	case "sqrt":
		return fvars(ctx.Sqrt(x))
	case "abs":
		return fvars(ctx.Abs(x))
	case "neg":
		return fvars(ctx.Neg(x))
	case "trunc":
		return fvars(ctx.Trunc(x))
	case "floor":
		return fvars(ctx.Floor(x))
	case "ceil":
		return fvars(ctx.Ceil(x))
	case "id":
		return fvars(x)
	case "lt":
		return []frontend.Variable{ctx.IsLt(x, y)}
	case "le":
		return []frontend.Variable{ctx.IsLe(x, y)}
	case "gt":
		return []frontend.Variable{ctx.IsGt(x, y)}
	case "ge":
		return []frontend.Variable{ctx.IsGe(x, y)}
	case "toint":
		return []frontend.Variable{ctx.ToInt(x)}
	}
	panic("unknown op " + op)
}

func binary(op string) bool {
	switch op {
	case "add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq":
		return true
	}
	return false
}

func checkOut(r FRow, got []*big.Int, field *big.Int) string {
	if isPredicate(r.Op) {
		if len(got) != 1 {
			return "no value observed"
		}
		if got[0].Cmp(toField(r.R, field)) != 0 {
			return fmt.Sprintf("got %v want %v", signed(got[0], field), r.R)
		}
		return ""
	}
	return canonOf(r.E, r.M, r.R).mismatch(got, field)
}

// operand modes: how the operands enter the circuit
//
//	vv: both allocated from witness values; cv/vc/cc: constants; f: constants given as Go floats
func rowsCircuit(rows []FRow, mode string, rng uint) func(frontend.API, []frontend.Variable) {
	E, M := rows[0].E, rows[0].M
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, E, M)
		for i, r := range rows {
			var x, y float.FloatVar
			if mode[0] == 'c' {
				x = ctx.NewConstant(r.A.Uint64())
			} else if mode[0] == 'f' {
				x = goConstant(&ctx, E, M, r.A.Uint64())
			} else {
				x = ctx.NewFloat(in[2*i])
			}
			if binary(r.Op) {
				if mode[1] == 'c' {
					y = ctx.NewConstant(r.B.Uint64())
				} else {
					y = ctx.NewFloat(in[2*i+1])
				}
			}
			spy(api, i, applyOp(&ctx, r.Op, x, y)...)
		}
	}
}

func goConstant(ctx *float.Context, E, M uint, v uint64) float.FloatVar {
	if f := math.Float32frombits(uint32(v)); E == 8 && M == 23 && f == f {
		return ctx.NewF32Constant(f)
	}
	if f := math.Float64frombits(v); E == 11 && M == 52 && f == f {
		return ctx.NewF64Constant(f)
	}
	return ctx.NewConstant(v)
}

func rowInputs(rows []FRow) []*big.Int {
	in := make([]*big.Int, 2*len(rows))
	for i, r := range rows {
		in[2*i], in[2*i+1] = r.A, r.B
	}
	return in
}

// loadRows groups the specification's rows by (op, format)
func loadRows(files []string, rep *Report) map[string][]FRow {
	g := map[string][]FRow{}
	for _, f := range files {
		states := loadITF(f)
		rep.Traces++
		for _, s := range states {
			rep.States++
			cfg := s.Rec("cfg")
			op := vs(cfg["op"])
			for _, v := range s.L("rows") {
				l := vl(v)
				r := FRow{op, uint(vn(cfg["E"])), uint(vn(cfg["M"])), vi(l[0]), vi(l[1]), vi(l[2])}
				k := fmt.Sprintf("%s/%d/%d", op, r.E, r.M)
				g[k] = append(g[k], r)
			}
		}
	}
	return g
}

type rowsOpts struct {
	sys   []Sys
	modes []string
	batch int
	// constant modes compile a circuit per batch: cap how many rows go through them
	constRows int
	// targets (usually of other range-table widths) on which one batch of diverse rows is tried
	widths []Sys
}

// dataClass tells the kinds of data apart whose components are extreme
func dataClass(E, M uint, v *big.Int) int {
	c := canonOf(E, M, v)
	bias := int64(1)<<(E-1) - 1
	switch {
	case c.NaN:
		return 0
	case c.A == 1:
		return 1
	case c.M.Sign() == 0:
		return 2
	case c.E <= 1-bias-int64(M)+1:
		return 3
	case c.E < 1-bias:
		return 4
	case c.E >= bias-1:
		return 5
	case c.E < 1-bias+int64(M):
		return 6
	}
	return 7
}

// diverse picks at most n rows: first one of every combination of classes (operands and result), then any
func diverse(rows []FRow, n, from int) []FRow {
	var out []FRow
	seen := map[[3]int]int{}
	taken := make([]bool, len(rows))
	for pass := 0; pass < 3 && len(out) < n; pass++ {
		for k := range rows {
			i := (k*7919 + from*104729) % len(rows)
			if taken[i] || len(out) >= n {
				continue
			}
			r := rows[i]
			key := [3]int{dataClass(r.E, r.M, r.A), 9, 9}
			if binary(r.Op) {
				key[1] = dataClass(r.E, r.M, r.B)
			}
			if !isPredicate(r.Op) {
				key[2] = dataClass(r.E, r.M, r.R)
			}
			if seen[key] <= pass || pass == 2 {
				seen[key]++
				taken[i] = true
				out = append(out, r)
			}
		}
	}
	return out
}

// replayRows steps the specification's rows through the real code as an honest prover.
func replayRows(g map[string][]FRow, o rowsOpts, rep *Report) {
	keys := make([]string, 0, len(g))
	for k := range g {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type job struct {
		rows []FRow
		mode string
		c    *Compiled
		sys  Sys
	}
	var jobs []job
	for _, k := range keys {
		rows := g[k]
		if rows[0].Op == "eq" {
			continue
		}
		for _, r := range rows {
			rep.distinct(fmt.Sprintf("%s|%x|%x", k, r.A, r.B))
		}
		rep.sample(rows[len(rows)/2].String())
		for wi, sys := range o.widths {
			rs := diverse(rows, o.batch, wi)
			c, err := compile(sys, 2*len(rs), rowsCircuit(rs, "vv", sys.Range))
			if err != nil {
				rep.violate("compile", k, "%s on %v: circuit does not compile: %v", k, sys, err)
				continue
			}
			jobs = append(jobs, job{rs, "vv", c, sys})
		}
		for si, sys := range o.sys {
			for _, mode := range o.modes {
				if !binary(rows[0].Op) && mode[1] == 'c' {
					continue
				}
				if mode == "vv" {
					// the whole set on the first target, a share on the others
					rs := rows
					if si > 0 {
						rs = nil
						for i := si; i < len(rows); i += 3 {
							rs = append(rs, rows[i])
						}
					}
					if len(rs) == 0 {
						continue
					}
					b := o.batch
					if b > len(rs) {
						b = len(rs)
					}
					c, err := compile(sys, 2*b, rowsCircuit(rs[:b], "vv", sys.Range))
					if err != nil {
						rep.violate("compile", k, "%s on %v: circuit does not compile: %v", k, sys, err)
						continue
					}
					for i := 0; i < len(rs); i += b {
						j := i + b
						if j > len(rs) {
							j = len(rs)
						}
						part := rs[i:j]
						for len(part) < b { // pad with rows already known
							part = append(append([]FRow{}, part...), rs[0])
						}
						jobs = append(jobs, job{part, mode, c, sys})
					}
				} else {
					n := o.constRows
					step := 1
					if len(rows) > n {
						step = len(rows)/n + 1
					}
					var rs []FRow
					for i := si % step; i < len(rows); i += step {
						rs = append(rs, rows[i])
					}
					for i := 0; i < len(rs); i += o.batch {
						j := i + o.batch
						if j > len(rs) {
							j = len(rs)
						}
						jobs = append(jobs, job{rs[i:j], mode, nil, sys})
					}
				}
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		replayBatch(j.rows, j.mode, j.sys, j.c, rep)
	})
}

func replayBatch(rows []FRow, mode string, sys Sys, c *Compiled, rep *Report) {
	var err error
	if c == nil {
		c, err = compile(sys, 2*len(rows), rowsCircuit(rows, mode, sys.Range))
	}
	var sp Spied
	if err == nil {
		sp, err = c.Solve(rowInputs(rows), nil)
	}
	rep.eval(int64(len(rows)))
	rep.count(fmt.Sprintf("%s E%dM%d %v %s", rows[0].Op, rows[0].E, rows[0].M, sys, mode), int64(len(rows)))
	if err != nil {
		if len(rows) == 1 {
			r := rows[0]
			rep.violate("rejected", replayOf(r, mode, sys), "honest computation rejected: %s [%v %s]: %.200s", r, sys, mode, err.Error())
			return
		}
		// locate the operand(s) the real code cannot handle
		h := len(rows) / 2
		if rep.full() {
			return
		}
		replayBatch(rows[:h], mode, sys, nil, rep)
		replayBatch(rows[h:], mode, sys, nil, rep)
		return
	}
	for i, r := range rows {
		if m := checkOut(r, sp[i], c.field); m != "" {
			rep.violate("wrong", replayOf(r, mode, sys), "wrong result: %s [%v %s]: %s", r, sys, mode, m)
		}
	}
}

func (r *Report) full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.NViol >= 25
}

func replayOf(r FRow, mode string, sys Sys) map[string]interface{} {
	return map[string]interface{}{"op": r.Op, "E": r.E, "M": r.M, "a": "0x" + r.A.Text(16), "b": "0x" + r.B.Text(16),
		"expect": "0x" + r.R.Text(16), "mode": mode, "target": sys.String()}
}
