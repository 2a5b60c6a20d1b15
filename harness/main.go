package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func parseSys(s string) []Sys {
	var out []Sys
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ",") {
		// r1cs:bn254:0
		f := strings.Split(p, ":")
		var w uint
		fmt.Sscanf(f[2], "%d", &w)
		out = append(out, Sys{Plonk: f[0] == "scs", Curve: curveByName(f[1]), Range: w})
	}
	return out
}

// commands of optional parts of the harness
var extra = map[string]func(files []string, targets []Sys, rep *Report){}

func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	out := fs.String("out", "/dev/stdout", "")
	sys := fs.String("sys", "r1cs:bn254:0", "")
	modes := fs.String("modes", "vv", "")
	batch := fs.Int("batch", 64, "")
	constRows := fs.Int("const-rows", 256, "")
	rich := fs.Bool("rich", false, "")
	budget := fs.Int("budget", 0, "seconds")
	window := fs.Int("window", 0, "")
	widths := fs.String("widths", "", "range-table widths tried with a selection of rows")
	limit := fs.Int("limit", 0, "rows per operation and format")
	fs.StringVar(&proxMain, "prox", "", "the proximity program")
	fs.StringVar(&proxDriver, "prox-driver", "", "the proximity program with a driver")
	fs.StringVar(&h3Ref, "h3ref", "", "the reference implementation of H3")
	fs.Parse(os.Args[2:])
	if *budget > 0 {
		attackBudget = time.Duration(*budget) * time.Second
	}
	if *limit > 0 {
		attackLies, weaveLimit = *limit, *limit
	}
	rep := newReport()
	switch os.Args[1] {
	case "rows":
		g := loadRows(fs.Args(), rep)
		replayRows(g, rowsOpts{parseSys(*sys), strings.Split(*modes, ","), *batch, *constRows, parseSys(*widths)}, rep)
	case "oracle":
		oracleRows(loadRows(fs.Args(), rep), rep)
	case "attack":
		g := loadRows(fs.Args(), rep)
		attackRows(g, attackOpts{parseSys(*sys), *rich, *window, time.Duration(*budget) * time.Second, *limit}, rep)
	case "asserts":
		replayAsserts(fs.Args(), parseSys(*sys), *constRows, rep)
	case "gadgets":
		replayGadgets(fs.Args(), parseSys(*sys), rep)
	case "alloc":
		replayAlloc(fs.Args(), parseSys(*sys), rep)
	case "program":
		replayPrograms(fs.Args(), parseSys(*sys), rep)
	case "lifecycle":
		replayLifecycles(fs.Args(), parseSys(*sys), rep)
	default:
		f, ok := extra[os.Args[1]]
		if ok {
			f(fs.Args(), parseSys(*sys), rep)
			break
		}
		fatal("unknown command %s", os.Args[1])
	}
	rep.write(*out)
}
