package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/util"
)

// Histories of the specification module bench, run with real proof systems.

func init() { extra["bench"] = replayBench }

type claim struct {
	X, Y      frontend.Variable
	Z         frontend.Variable `gnark:",public"`
	op        string
	e, m, rng uint

	define, solve int // how long writing it down and solving it take at least, in milliseconds
}

func init() { solver.RegisterHint(dawdle) }

// dawdle answers 1 after a while
func dawdle(_ *big.Int, in, out []*big.Int) error {
	time.Sleep(time.Duration(in[0].Int64()) * time.Millisecond)
	out[0].SetUint64(1)
	return nil
}

func (c *claim) Define(api frontend.API) error {
	time.Sleep(time.Duration(c.define) * time.Millisecond)
	one, err := api.Compiler().NewHint(dawdle, 1, c.solve)
	if err != nil {
		return err
	}
	api.AssertIsEqual(one[0], 1)
	ctx := float.NewContext(api, c.rng, c.e, c.m)
	x, y := ctx.NewFloat(c.X), ctx.NewFloat(c.Y)
	if r := applyOp(&ctx, c.op, x, y); len(r) == 1 {
		api.AssertIsEqual(r[0], c.Z)
	} else {
		ctx.AssertIsEqual(float.FloatVar{Sign: r[0], Exponent: r[1], Mantissa: r[2], IsAbnormal: r[3]}, ctx.NewFloat(c.Z))
	}
	return nil
}

// one call with the benchmark object of a real benchmark
func benched(f func(b *testing.B) error) (err error, panicked string) {
	done := false
	testing.Benchmark(func(b *testing.B) {
		if done {
			return
		}
		done = true
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		err = fmt.Errorf("stopped")
		err = f(b)
	})
	return
}

func replayBench(files []string, targets []Sys, rep *Report) {
	testing.Init() // a benchmark that fails writes about it
	dir, err := os.MkdirTemp(".", "bench-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	b := book{sizes: map[string]map[string]bool{}, whole: map[string]time.Duration{}, times: map[string]stages{}}
	for n, f := range files {
		rep.Traces++
		path := func(i int) string {
			if i == 2 {
				return filepath.Join(dir, "gone", "x.txt")
			}
			return filepath.Join(dir, fmt.Sprintf("%d-%d.txt", n, i))
		}
		history := ""
		for _, s := range loadITF(f) {
			rep.States++
			l := vr(s["last"])
			how, op := vs(l["how"]), vs(l["op"])
			if how == "start" || rep.full() {
				continue
			}
			c := claim{op: op, e: uint(vn(l["E"])), m: uint(vn(l["M"])), rng: 3, define: vn(l["define"]), solve: vn(l["solve"])}
			a := c
			a.X, a.Y, a.Z = vi(l["x"]), vi(l["y"]), vi(l["z"])
			res, idx, file, ok := vi(l["res"]).Int64(), vi(l["idx"]).Int64(), vn(l["file"]), l["ok"].(bool)
			desc := fmt.Sprintf("%s %s E=%d M=%d x=0x%x y=0x%x z=0x%x file %d resolution %d index %d", how, op, c.e, c.m, a.X, a.Y, a.Z, file, res, idx)
			history += desc + "\n"
			rp := map[string]interface{}{"history": strings.Split(strings.TrimSpace(history), "\n")}
			start := time.Now()
			err, panicked := benched(func(b *testing.B) error {
				switch how {
				case "groth16":
					return util.BenchProofToFileGroth16(b, &c, &a, res, idx, path(file))
				case "plonk":
					return util.BenchProofToFilePlonk(b, &c, &a, res, idx, path(file))
				case "plain":
					util.BenchProof(b, &c, &a)
					return nil
				case "mem-groth16":
					return util.BenchProofMemoryGroth16(b, &c, &a)
				}
				return util.BenchProofMemoryPlonk(b, &c, &a)
			})
			if recorded := how == "groth16" || how == "plonk"; ok && recorded {
				b.whole[fmt.Sprintf("%s#%d", path(file), len(vl(vl(s["files"])[file])))] = time.Since(start)
			}
			rep.eval(1)
			rep.distinct(desc)
			rep.count(fmt.Sprintf("%s %v", how, map[bool]string{true: "proved", false: "to fail"}[ok]), 1)
			if panicked != "" {
				rep.count("panics", 1)
			}
			if rep.States%13 == 0 {
				rep.sample(desc)
			}
			switch {
			case ok && (err != nil || panicked != ""):
				rep.violate("rejected", rp, "%s: a true statement is not proved: %v %s", desc, err, panicked)
				continue
			case !ok && err == nil && panicked == "":
				rep.violate("accepted", rp, "%s: success is reported", desc)
				continue
			}
			// the records of both files
			for i := 0; i < 2; i++ {
				begun := vl(s["begun"])[i].(bool)
				want := vl(vl(s["files"])[i])
				t, err := os.ReadFile(path(i))
				if err != nil {
					if begun && len(want) > 0 {
						rep.violate("wrong", rp, "%s: no record was written", desc)
					}
					continue
				}
				if why := b.records(path(i), string(t), want); why != "" {
					rep.violate("wrong", rp, "after %s: %s", desc, why)
				}
			}
		}
	}
	for _, how := range []string{"groth16", "plonk"} {
		if why := b.sensible(how); why != "" {
			rep.violate("wrong", map[string]interface{}{"how": how}, "%s", why)
		}
	}
}

// what is known about the records besides the specification
type book struct {
	sizes map[string]map[string]bool // what was proved and how -> the numbers of constraints it may have
	whole map[string]time.Duration   // record -> how long the whole run took
	times map[string]stages
}

type stages struct {
	how           string
	setup, verify int64
}

// setting up thousands of constraints takes tens of times as long as verifying one proof
func (b *book) sensible(how string) string {
	var n, setup, verify int64
	for _, t := range b.times {
		if t.how == how {
			n, setup, verify = n+1, setup+t.setup, verify+t.verify
		}
	}
	if n >= 5 && setup < verify {
		return fmt.Sprintf("by %d records of %s, setting up took %d, verifying %d microseconds", n, how, setup, verify)
	}
	return ""
}

// the sizes of a statement, for every threshold at which long linear expressions may be split
func (b *book) sizesOf(how, op string, e, m uint) map[string]bool {
	key := fmt.Sprintf("%s %s %d", how, op, e)
	if b.sizes[key] == nil {
		b.sizes[key] = map[string]bool{}
		for _, t := range []int{0, 30, 100, 300, 500, 1000, 3000, 10000} {
			nb := r1cs.NewBuilder
			if how == "plonk" {
				nb = scs.NewBuilder
			}
			ccs, err := frontend.Compile(ecc.BN254.ScalarField(), nb, &claim{op: op, e: e, m: m, rng: 3}, frontend.WithCompressThreshold(t))
			if err != nil {
				fatal("%v", err)
			}
			b.sizes[key][fmt.Sprint(ccs.GetNbConstraints())] = true
		}
	}
	return b.sizes[key]
}

func (b *book) records(path, text string, want []Val) string {
	squeeze := func(s string) []string { return strings.Split(strings.ReplaceAll(s, " ", ""), ",") }
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	col := map[string]int{}
	for i, n := range squeeze(lines[0]) {
		col[n] = i
	}
	for _, n := range []string{"Resolution", "Index", "NbConstraints", "CompilationTime", "SetupTime", "ProverTime", "VerifierTime"} {
		if _, ok := col[n]; !ok {
			return fmt.Sprintf("the header is %q", lines[0])
		}
	}
	if len(lines) != len(want)+1 {
		return fmt.Sprintf("%d records for %d proofs", len(lines)-1, len(want))
	}
	for i, w := range want {
		m := vr(w)
		fs := squeeze(lines[i+1])
		if len(fs) != len(col) {
			return fmt.Sprintf("record %q", lines[i+1])
		}
		at := map[string]*big.Int{}
		for n, c := range col {
			v, ok := new(big.Int).SetString(fs[c], 10)
			if !ok {
				return fmt.Sprintf("record %q", lines[i+1])
			}
			at[n] = v
		}
		if at["Resolution"].Cmp(vi(m["res"])) != 0 || at["Index"].Cmp(vi(m["idx"])) != 0 {
			return fmt.Sprintf("record %q is not about resolution %v, index %v", lines[i+1], m["res"], m["idx"])
		}
		what := vl(m["what"])
		e := uint(vn(what[1]))
		if sizes := b.sizesOf(vs(m["how"]), vs(what[0]), e, map[uint]uint{8: 23, 5: 5, 11: 52}[e]); !sizes[at["NbConstraints"].String()] {
			return fmt.Sprintf("record %q: %s of %v has %v constraints", lines[i+1], vs(m["how"]), m["what"], keys(sizes))
		}
		// each time where it was spent, and no more of them than there was
		var sum int64
		for _, n := range []string{"CompilationTime", "SetupTime", "ProverTime", "VerifierTime"} {
			if at[n].Sign() < 0 || !at[n].IsInt64() {
				return fmt.Sprintf("record %q", lines[i+1])
			}
			sum += at[n].Int64()
		}
		// (the clock may be set by a millisecond)
		if d := int64(vn(m["define"])); at["CompilationTime"].Int64() < (d-1)*1000 {
			return fmt.Sprintf("record %q: compilation took %d ms at least", lines[i+1], d)
		}
		if d := int64(vn(m["solve"])); at["ProverTime"].Int64() < (d-1)*1000 {
			return fmt.Sprintf("record %q: proving took %d ms at least", lines[i+1], d)
		}
		if d := b.whole[fmt.Sprintf("%s#%d", path, i+1)]; sum > d.Microseconds()+5000 {
			return fmt.Sprintf("record %q: the whole run took %v", lines[i+1], d)
		}
		b.times[fmt.Sprintf("%s#%d", path, i+1)] = stages{vs(m["how"]), at["SetupTime"].Int64(), at["VerifierTime"].Int64()}
	}
	return ""
}

func keys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
