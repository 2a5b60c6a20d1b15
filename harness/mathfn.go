package main

import (
	"github.com/uber/h3-go/v4"

	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"
	zkmath "github.com/tumberger/zk-Location/math"
	"github.com/tumberger/zk-Location/util"
)

func init() {
	realConst["eval"], realConst["evalk"] = polyConst, polyConst
	for _, k := range []string{"atan", "sin", "atan2", "half", "eval", "evalk"} {
		k := k
		realCircuits[k] = func(E, M, rng uint) func(frontend.API, []frontend.Variable) { return mathCircuit(k, E, M, rng) }
	}
	realDirect["convert"] = convertRow
	realDirect["scaled"] = func(r realRow) ([][]*big.Int, string) {
		return [][]*big.Int{{bits64(util.ScaledIntToFloat64(int(r.args[0].Int64())))}}, ""
	}
	realDirect["degrees"] = func(r realRow) ([][]*big.Int, string) {
		d := util.RadiansToDegrees(math.Float64frombits(r.args[0].Uint64()))
		if math.IsNaN(d) || math.IsInf(d, 0) {
			return nil, fmt.Sprintf("got %v", d)
		}
		return [][]*big.Int{{fix64(d)}}, ""
	}
	realDirect["digits"] = hexRow
	realDirect["table"] = tableRow
	// the origin is the cell of another place in the same base cell
	realDirect["local"] = func(r realRow) ([][]*big.Int, string) {
		x := func(i int) float64 { return math.Float64frombits(r.args[i].Uint64()) }
		res := int(r.args[2].Int64())
		i, j := util.LatLngToIJ(x(0), x(1), res, h3.LatLngToCell(h3.NewLatLng(x(3), x(4)), res))
		return [][]*big.Int{{big.NewInt(int64(i))}, {big.NewInt(int64(j))}}, ""
	}
	realDirect["bytes"] = func(r realRow) ([][]*big.Int, string) {
		var b []byte
		for _, a := range r.args[1:] {
			b = append(b, byte(a.Int64()))
		}
		l := util.StrToIntSlice(string(b), r.args[0].Sign() > 0)
		o := [][]*big.Int{{big.NewInt(int64(len(l)))}}
		for _, x := range l {
			o = append(o, []*big.Int{big.NewInt(int64(x))})
		}
		return o, ""
	}
}

func bits64(f float64) *big.Int { return new(big.Int).SetUint64(math.Float64bits(f)) }
func bits32(f float32) *big.Int { return new(big.Int).SetUint64(uint64(math.Float32bits(f))) }

// value of a finite float64 scaled by 2^160 (rounded towards zero)
func fix64(f float64) *big.Int {
	b := new(big.Float).SetPrec(2000).SetFloat64(f)
	if f != 0 {
		b.SetMantExp(b, fixScale)
	}
	r, _ := b.Int(nil)
	return r
}

func mathCircuit(kind string, E, M, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, E, M)
		var x []float.FloatVar
		for _, v := range in {
			x = append(x, ctx.NewFloat(v))
		}
		one := func(f float.FloatVar) {
			spy(api, 0, fvars(f)...)
			spy(api, 1, f.Sign)
		}
		switch kind {
		case "atan":
			if E == 8 {
				one(zkmath.AtanRemez32(&ctx, x[0]))
			} else {
				one(zkmath.AtanRemez64(&ctx, x[0]))
			}
		case "sin":
			if E == 8 {
				one(zkmath.SinTaylor32(&ctx, x[0]))
			} else {
				one(zkmath.SinTaylor64(&ctx, x[0]))
			}
		case "atan2":
			one(zkmath.Atan2(&ctx, x[0], x[1]))
		case "half":
			h := hint.PrecomputeHint64
			if E == 8 {
				h = hint.PrecomputeHint32
			}
			o, err := api.Compiler().NewHint(h, 16, in[0], E, M)
			if err != nil {
				panic(err)
			}
			for j := 0; j < 4; j++ {
				spy(api, j, o[4*j:4*j+4]...)
			}
		case "eval":
			spy(api, 0, fvars(zkmath.Polynomial(x[1:]).Eval(&ctx, x[0]))...)
		case "evalk":
			spy(api, 0, fvars(zkmath.Polynomial(x[1:]).EvalK(&ctx, x[0], 1))...)
		}
	}
}

func convertRow(r realRow) (out [][]*big.Int, why string) {
	E, M, v := r.args[0].Uint64(), r.args[1].Uint64(), r.args[2].Uint64()
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprintf("panic: %v", p)
		}
	}()
	check := func(name string, c []*big.Int) bool {
		if len(c) != 4 {
			why = fmt.Sprintf("%s returns %d components", name, len(c))
			return false
		}
		cn := canonOf(uint(E), uint(M), r.args[2])
		if m := cn.mismatch(c, new(big.Int).Lsh(big.NewInt(1), 100)); m != "" {
			why = name + ": " + m
			return false
		}
		return true
	}
	c := util.ComponentsOf(v, E, M)
	if !check("ComponentsOf", c) {
		return
	}
	for _, a := range c {
		out = append(out, []*big.Int{new(big.Int).Set(a)})
	}
	out[0][0] = r.cands[0][0] // a NaN has no sign, compared above
	out = append(out, []*big.Int{new(big.Int).SetUint64(util.ValueOf(c, E, M))})
	nan := canonOf(uint(E), uint(M), r.args[2]).NaN
	switch {
	case E == 8 && M == 23:
		f := math.Float32frombits(uint32(v))
		if !check("F32ToComponents", util.F32ToComponents(f)) {
			return
		}
		if g := util.ComponentsToF32(c); math.Float32bits(g) != uint32(v) && !(nan && g != g) {
			why = fmt.Sprintf("ComponentsToF32: got %v", g)
		}
	case E == 11 && M == 52:
		f := math.Float64frombits(v)
		if !check("F64ToComponents", util.F64ToComponents(f)) {
			return
		}
		if g := util.ComponentsToF64(c); math.Float64bits(g) != v && !(nan && g != g) {
			why = fmt.Sprintf("ComponentsToF64: got %v", g)
		}
	}
	return
}

func hexRow(r realRow) ([][]*big.Int, string) {
	var b []byte
	for _, c := range r.args {
		b = append(b, byte(c.Int64()))
	}
	var v *big.Int
	var err error
	if r.E == 8 {
		var f float32
		f, err = util.HexToFloat32(string(b))
		v = bits32(f)
	} else {
		var f float64
		f, err = util.HexToFloat(string(b))
		v = bits64(f)
	}
	if err != nil {
		return [][]*big.Int{{big.NewInt(0)}, {big.NewInt(0)}}, ""
	}
	return [][]*big.Int{{big.NewInt(1)}, {v}}, ""
}

// table number -> entries, per precision
func tableOf(t, E int) (l []float64) {
	add32 := func(v ...float32) {
		for _, x := range v {
			l = append(l, float64(x))
		}
	}
	if E == 8 {
		switch t {
		case 0:
			add32(util.FaceCenterPoint_32[:]...)
		case 1:
			add32(util.FaceCenterGeoLng_32[:]...)
		case 2:
			add32(util.CosFaceLat_32[:]...)
		case 3:
			add32(util.SinFaceLat_32[:]...)
		case 4:
			add32(util.Azimuth_32[:]...)
		case 5:
			add32(util.Sin60_32, util.Sqrt7_32, util.ResConst_32, util.Ap7rot_32)
		case 6:
			add32(float32(util.IEEE32ExponentBitwidth), float32(util.IEEE32Precision), number(util.MaxResolution))
		}
		return
	}
	switch t {
	case 0:
		l = util.FaceCenterPoint_64[:]
	case 1:
		l = util.FaceCenterGeoLng_64[:]
	case 2:
		l = util.CosFaceLat_64[:]
	case 3:
		l = util.SinFaceLat[:]
	case 4:
		l = util.Azimuth[:]
	case 5:
		l = []float64{util.Sin60_64, util.Sqrt7_64, util.ResConst_64, util.Ap7rot_64}
	case 6:
		l = []float64{float64(util.IEEE64ExponentBitwidth), float64(util.IEEE64Precision), float64(number(util.MaxResolution))}
	}
	return
}

func number(v frontend.Variable) float32 {
	f, err := strconv.ParseFloat(fmt.Sprint(v), 32)
	if err != nil {
		return -1
	}
	return float32(f)
}

func tableRow(r realRow) ([][]*big.Int, string) {
	t, i := int(r.args[0].Int64()), int(r.args[1].Int64())
	l := tableOf(t, int(r.E))
	if i < 0 {
		return [][]*big.Int{{big.NewInt(int64(len(l)))}}, ""
	}
	if i >= len(l) || math.IsNaN(l[i]) || math.IsInf(l[i], 0) {
		return nil, "no such entry"
	}
	return [][]*big.Int{{fix64(l[i])}}, ""
}

// a polynomial's coefficients (all, or every other one) and possibly the point are constants of the circuit
func polyConst(r realRow, i int, rng uint) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, r.E, r.M)
		var x []float.FloatVar
		for j, v := range in {
			if (j > 0 && (i%3 != 2 || j%2 == 0)) || (j == 0 && i%5 == 0) {
				x = append(x, ctx.NewConstant(r.args[j].Uint64()))
			} else {
				x = append(x, ctx.NewFloat(v))
			}
		}
		if r.kind == "eval" {
			spy(api, 0, fvars(zkmath.Polynomial(x[1:]).Eval(&ctx, x[0]))...)
		} else {
			spy(api, 0, fvars(zkmath.Polynomial(x[1:]).EvalK(&ctx, x[0], 1))...)
		}
	}
}
