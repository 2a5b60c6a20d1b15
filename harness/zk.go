package main

import (
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"
)

func init() {
	logger.Set(zerolog.Nop())
	solver.RegisterHint(spyHint)
}

// Sys is a compilation target of the code under test.
type Sys struct {
	Plonk bool
	Curve ecc.ID
	Range uint // range_size handed to NewContext (0: the library picks)
}

func (s Sys) String() string {
	n := "r1cs"
	if s.Plonk {
		n = "scs"
	}
	return fmt.Sprintf("%s/%s/w%d", n, s.Curve, s.Range)
}

// spyHint carries in-circuit values to the harness at solving time without constraining anything.
func spyHint(_ *big.Int, in []*big.Int, out []*big.Int) error { out[0].SetUint64(0); return nil }

func spy(api frontend.API, tag int, vars ...frontend.Variable) {
	in := make([]frontend.Variable, 0, len(vars)+1)
	in = append(in, tag)
	in = append(in, vars...)
	if _, err := api.Compiler().NewHint(spyHint, 1, in...); err != nil {
		panic(err)
	}
}

type inCircuit struct {
	In []frontend.Variable
	f  func(api frontend.API, in []frontend.Variable)
}

func (c *inCircuit) Define(api frontend.API) error { c.f(api, c.In); return nil }

// Compiled is a constraint system produced by the real library code.
type Compiled struct {
	ccs   constraint.ConstraintSystem
	nIn   int
	field *big.Int
	sys   Sys
}

func compile(sys Sys, nIn int, f func(api frontend.API, in []frontend.Variable)) (c *Compiled, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while compiling: %v", r)
		}
	}()
	nb := frontend.NewBuilder(r1cs.NewBuilder)
	if sys.Plonk {
		nb = scs.NewBuilder
	}
	pad := nIn
	if pad == 0 {
		pad = 1
	}
	circ := &inCircuit{In: make([]frontend.Variable, pad), f: f}
	ccs, err := frontend.Compile(sys.Curve.ScalarField(), nb, circ, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, err
	}
	return &Compiled{ccs, pad, sys.Curve.ScalarField(), sys}, nil
}

// Lie answers one prover hint in place of the honest prover (who answers honest()).
// n is the running number of the hint call in this solve.
type Lie func(name string, n int, field *big.Int, in, out []*big.Int, honest func() error) error

type hintInfo struct {
	id   solver.HintID
	name string
	fn   solver.Hint
}

var repoHints []hintInfo // hints of the code under test (what a malicious prover controls)
var repoHintsOnce sync.Once

func loadHints() {
	repoHintsOnce.Do(func() {
		for _, h := range solver.GetRegisteredHints() {
			n := solver.GetHintName(h)
			if strings.Contains(n, "zk-Location") {
				repoHints = append(repoHints, hintInfo{solver.GetHintID(h), n[strings.LastIndex(n, ".")+1:], h})
			}
		}
	})
}

var placeholderID = solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder)
var spyID = solver.GetHintID(spyHint)

// the verifier's challenge: any value the prover cannot predict; derived from the committed values
func challenge(mod *big.Int, in []*big.Int, out []*big.Int) error {
	h := uint64(1469598103934665603)
	for _, v := range in {
		for _, w := range v.Bits() {
			h ^= uint64(w)
			h *= 1099511628211
			h ^= h >> 29
		}
		h = h*0x9E3779B97F4A7C15 + 1
	}
	c := new(big.Int).SetUint64(h)
	c.Mul(c, c)
	c.Mul(c, new(big.Int).SetUint64(h^0xD1B54A32D192ED03))
	c.Lsh(c, 60)
	c.Add(c, new(big.Int).SetUint64(h*31))
	out[0].Mod(c, mod)
	return nil
}

type Spied map[int][]*big.Int

// Solve runs the real solver (the prover's side plus the check of every constraint).
// err == nil means: a proof of this assignment would verify.
func (c *Compiled) Solve(inputs []*big.Int, lie Lie) (sp Spied, err error) {
	sp = Spied{}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while solving: %v", r)
		}
	}()
	a := &inCircuit{In: make([]frontend.Variable, c.nIn)}
	for i := range a.In {
		if i < len(inputs) {
			a.In[i] = inputs[i]
		} else {
			a.In[i] = 0
		}
	}
	w, err := frontend.NewWitness(a, c.field)
	if err != nil {
		return nil, fmt.Errorf("witness: %w", err)
	}
	opts := []solver.Option{
		solver.WithNbTasks(1),
		solver.OverrideHint(placeholderID, challenge),
		solver.OverrideHint(spyID, func(_ *big.Int, in []*big.Int, out []*big.Int) error {
			vals := make([]*big.Int, len(in)-1)
			for i := range vals {
				vals[i] = new(big.Int).Set(in[i+1])
			}
			sp[int(in[0].Int64())] = vals
			out[0].SetUint64(0)
			return nil
		}),
	}
	if lie != nil {
		loadHints()
		n := 0
		for _, hi := range repoHints {
			hi := hi
			opts = append(opts, solver.OverrideHint(hi.id, func(f *big.Int, in []*big.Int, out []*big.Int) (e error) {
				k := n
				n++
				// a lying prover can present out-of-contract inputs to later hints
				defer func() {
					if r := recover(); r != nil {
						e = fmt.Errorf("hint panic %v", r)
					}
				}()
				if e := lie(hi.name, k, f, in, out, func() error {
					if hi.name == "PowerOfTwoHint" && in[0].BitLen() > 14 {
						return fmt.Errorf("absurd shift")
					}
					return hi.fn(f, in, out)
				}); e != nil {
					return e
				}
				for i := range out {
					out[i].Mod(out[i], f)
				}
				return nil
			}))
		}
	}
	if _, err = c.ccs.Solve(w, opts...); err != nil {
		return sp, err
	}
	return sp, nil
}

// ---- small helpers -------------------------------------------------------------------

func parallel(n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	k := runtime.NumCPU()
	if k > n {
		k = n
	}
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// signed representative of a field element
func signed(v, field *big.Int) *big.Int {
	h := new(big.Int).Rsh(field, 1)
	if v.Cmp(h) > 0 {
		return new(big.Int).Sub(v, field)
	}
	return new(big.Int).Set(v)
}

func toField(v, field *big.Int) *big.Int { return new(big.Int).Mod(v, field) }

func curveByName(s string) ecc.ID {
	for _, id := range []ecc.ID{ecc.BN254, ecc.BLS12_377, ecc.BLS12_381, ecc.BW6_761, ecc.BLS24_315, ecc.BLS24_317, ecc.BW6_633} {
		if strings.EqualFold(id.String(), s) {
			return id
		}
	}
	panic("unknown curve " + s)
}
