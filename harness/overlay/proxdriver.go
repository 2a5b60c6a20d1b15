package main

import (
	"bufio"
	"encoding/json"
	"math"
	"os"
)

// Answers calls from the harness instead of running the program, if asked to.
func init() {
	if os.Getenv("ZKLOC_VERIF_DRIVER") == "" {
		return
	}
	type req struct {
		F string
		S string
		N []int
		X []uint64
	}
	type resp struct {
		Err string
		N   []int
		X   []uint64
		S   string
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	d := json.NewDecoder(in)
	e := json.NewEncoder(os.Stdout)
	f := math.Float64frombits
	b := math.Float64bits
	for {
		var q req
		if d.Decode(&q) != nil {
			os.Exit(0)
		}
		var r resp
		var err error
		switch q.F {
		case "pijk":
			var i, j, k int
			i, j, k, err = executeLatLngToIJK(q.S, q.N[0], f(q.X[0]), f(q.X[1]))
			r.N = []int{i, j, k}
		case "tocell":
			r.S, err = latLngToCell(q.N[0], f(q.X[0]), f(q.X[1]))
		case "tolatlng":
			var la, ln float64
			la, ln, err = cellToLatLng(q.S)
			r.X = []uint64{b(la), b(ln)}
		case "toboundary":
			var l [][2]float64
			l, err = cellToBoundary(q.S)
			for _, p := range l {
				r.X = append(r.X, b(p[0]), b(p[1]))
			}
		case "cells":
			var l []HexCell
			for i := 0; i+1 < len(q.X); i += 2 {
				l = append(l, HexCell{CenterLat: f(q.X[i]), CenterLon: f(q.X[i+1])})
			}
			err = WriteHexCellsToFile(l, q.S, q.N[0] == 1)
		case "distance":
			r.X = []uint64{b(OldHaversine(f(q.X[0]), f(q.X[1]), f(q.X[2]), f(q.X[3])))}
		default:
			r.Err = "unknown call"
		}
		if err != nil {
			r.Err = err.Error()
		}
		e.Encode(r)
	}
}
