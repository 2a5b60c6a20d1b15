//go:build loc

package main

import (
	"math/big"

	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"
)

func init() {
	for _, k := range []string{"face", "radius", "plane", "hex", "norm", "cell", "resolution", "orientation", "scale"} {
		k := k
		realCircuits[k] = func(E, M, rng uint) func(frontend.API, []frontend.Variable) { return geoCircuit(k, E, M, rng) }
	}
}

type locFns struct {
	face  func(f *float.Context, x, y, z, lng float.FloatVar) [9]float.FloatVar
	r     func(f *float.Context, s float.FloatVar, res frontend.Variable) float.FloatVar
	plane func(f *float.Context, a, b, c, d, e, g, h, i, j, k, l, m, r float.FloatVar, res frontend.Variable) [2]float.FloatVar
	ijk   func(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
	norm  func(f *float.Context, a, b, c, d, e, g frontend.Variable) [3]frontend.Variable
	trig  func(*big.Int, []*big.Int, []*big.Int) error
}

func locOf(E uint) locFns {
	if E == 8 {
		return locFns{loc32.VClosestFace, loc32.VCalculateR, loc32.VHex2d, loc32.VCoordIJK, loc32.NormalizeIJK, hint.PrecomputeHint32}
	}
	return locFns{loc64.VClosestFace, loc64.VCalculateR, loc64.VHex2d, loc64.VCoordIJK, loc64.NormalizeIJK, hint.PrecomputeHint64}
}

func geoCircuit(kind string, E, M, rng uint) func(frontend.API, []frontend.Variable) {
	l := locOf(E)
	return func(api frontend.API, in []frontend.Variable) {
		ctx := float.NewContext(api, rng, E, M)
		fl := func(i int) float.FloatVar { return ctx.NewFloat(in[i]) }
		out := func(fs ...float.FloatVar) {
			for i, f := range fs {
				spy(api, i, fvars(f)...)
			}
		}
		ints := func(v [3]frontend.Variable) {
			for i := range v {
				spy(api, i, v[i])
			}
		}
		switch kind {
		case "face":
			r := l.face(&ctx, fl(0), fl(1), fl(2), ctx.NewConstant(0))
			out(r[:]...)
		case "radius", "resolution":
			out(l.r(&ctx, fl(0), in[1]))
		case "plane", "orientation":
			r := l.plane(&ctx, fl(0), fl(1), fl(2), fl(3), fl(4), fl(5), fl(6), fl(7), fl(8), fl(9), fl(10), fl(11), fl(12), in[13])
			out(r[:]...)
		case "hex":
			ints(l.ijk(&ctx, fl(0), fl(1)))
		case "norm":
			for i := 0; i < 6; i += 2 {
				api.AssertIsBoolean(in[i])
			}
			ints(l.norm(&ctx, in[0], in[1], in[2], in[3], in[4], in[5]))
		case "cell", "scale":
			ints(locate(api, &ctx, l, in))
		default:
			panic("unknown kind " + kind)
		}
	}
}

// locate chains the library's steps the way the repository's location circuits do
func locate(api frontend.API, ctx *float.Context, l locFns, in []frontend.Variable) [3]frontend.Variable {
	half := func(v frontend.Variable) (alpha, beta, gamma, delta float.FloatVar) {
		ctx.NewFloat(v)
		o, err := api.Compiler().NewHint(l.trig, 16, v, ctx.E, ctx.M)
		if err != nil {
			panic(err)
		}
		f := func(i int) float.FloatVar {
			return float.FloatVar{Sign: o[i], Exponent: o[i+1], Mantissa: o[i+2], IsAbnormal: o[i+3]}
		}
		return f(0), f(4), f(8), f(12)
	}
	_, sinLat, gammaLat, deltaLat := half(in[0])
	_, sinLng, gammaLng, deltaLng := half(in[1])
	cosLat := ctx.Sub(ctx.Mul(deltaLat, deltaLat), ctx.Mul(gammaLat, gammaLat))
	cosLng := ctx.Sub(ctx.Mul(deltaLng, deltaLng), ctx.Mul(gammaLng, gammaLng))
	x := ctx.Mul(cosLat, cosLng)
	y := ctx.Mul(cosLat, sinLng)
	c := l.face(ctx, x, y, sinLat, ctx.NewConstant(0))
	r := l.r(ctx, c[0], in[2])
	p := l.plane(ctx, sinLat, cosLat, sinLng, cosLng, c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], r, in[2])
	return l.ijk(ctx, p[0], p[1])
}
