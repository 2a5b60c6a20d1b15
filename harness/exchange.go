package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/tumberger/zk-Location/util"
)

// Rows of the specification module exchange, stepped through the real code with stand-ins for the external
// H3 tools: they record their arguments, print the text the specification gives them, and exit as told.

func init() { extra["exchange"] = replayExchange }

var proxMain, proxDriver string // the program, and the program with a driver for its functions ("": not available)

type exReq struct {
	F, S string
	N    []int
	X    []uint64
}
type exResp struct {
	Err string
	N   []int
	X   []uint64
	S   string
}

type tok struct {
	s string
	n *big.Int
	d int
}

func render(v Val) string {
	var b strings.Builder
	for _, x := range vl(v) {
		m := vr(x)
		t := tok{vs(m["s"]), vi(m["n"]), vn(m["d"])}
		b.WriteString(strings.NewReplacer(`\n`, "\n", `\t`, "\t").Replace(t.s))
		switch {
		case t.d == 0:
			b.WriteString(t.n.String())
		case t.d == -2:
			b.WriteString(fmt.Sprintf("%x", t.n))
		case t.d > 0:
			if t.n.Sign() < 0 {
				b.WriteString("-")
			}
			a := new(big.Int).Abs(t.n)
			q, r := new(big.Int).QuoRem(a, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.d)), nil), new(big.Int))
			b.WriteString(fmt.Sprintf("%d.%0*d", q, t.d, r))
		}
	}
	return b.String()
}

type exRow struct {
	what        string
	nums        []*big.Int
	tool, tool2 string
	code, code2 int
	ok          int
	res, tol    []*big.Int
	given       []*big.Int
}

func (r exRow) String() string {
	s := r.what
	for _, n := range r.nums {
		s += fmt.Sprintf(" 0x%x", n)
	}
	if r.what != "cells" && r.what != "distance" {
		s += fmt.Sprintf(" <- exit %d %q", r.code, r.tool)
	}
	if r.what == "main" {
		s += fmt.Sprintf(" exit %d %q", r.code2, r.tool2)
	}
	return s
}

// a scratch directory with the stand-ins, and the driver running in it
type exBox struct {
	dir string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
}

const standIn = `#!/bin/sh
d="$(dirname "$0")"; n="$(basename "$0")"
printf '%s\n' "$@" > "$d/$n.args"
cat "$d/$n.out"
exit "$(cat "$d/$n.code")"
`

func newBox() *exBox {
	wd, _ := os.Getwd()
	dir, err := os.MkdirTemp(wd, "exchange-")
	if err != nil {
		fatal("%v", err)
	}
	b := &exBox{dir: dir}
	os.MkdirAll(filepath.Join(dir, "cwd"), 0o755)
	os.MkdirAll(b.bin(""), 0o755)
	for _, n := range []string{"latLngToCell", "cellToLatLng", "cellToBoundary"} {
		if err := os.WriteFile(b.bin(n), []byte(standIn), 0o755); err != nil {
			fatal("%v", err)
		}
	}
	if proxDriver != "" {
		b.cmd = exec.Command(proxDriver)
		b.cmd.Dir = filepath.Join(dir, "cwd")
		b.cmd.Env = append(os.Environ(), "ZKLOC_VERIF_DRIVER=1")
		b.in, _ = b.cmd.StdinPipe()
		o, _ := b.cmd.StdoutPipe()
		b.out = json.NewDecoder(bufio.NewReader(o))
		if err := b.cmd.Start(); err != nil {
			fatal("driver: %v", err)
		}
	}
	return b
}

func (b *exBox) bin(n string) string { return filepath.Join(b.dir, "h3-master/build/bin", n) }

func (b *exBox) close() {
	if b.cmd != nil {
		b.in.Close()
		b.cmd.Wait()
	}
	os.RemoveAll(b.dir)
}

func (b *exBox) arm(n, out string, code int) {
	os.Remove(b.bin(n) + ".args")
	os.WriteFile(b.bin(n)+".out", []byte(out), 0o644)
	os.WriteFile(b.bin(n)+".code", []byte(strconv.Itoa(code)), 0o644)
}

// the arguments the tool saw, as flag -> value
func (b *exBox) told(n string) map[string]string {
	t, err := os.ReadFile(b.bin(n) + ".args")
	if err != nil {
		return nil
	}
	l := strings.Split(strings.TrimSuffix(string(t), "\n"), "\n")
	m := map[string]string{}
	for i := 0; i+1 < len(l); i += 2 {
		m[l[i]] = l[i+1]
	}
	if len(l)%2 != 0 {
		m[l[len(l)-1]] = ""
	}
	return m
}

func toldLocation(m map[string]string, given []*big.Int) string {
	if m == nil {
		return "the tool was not called"
	}
	if len(m) != 3 || m["--resolution"] != given[0].String() {
		return fmt.Sprintf("the tool was told %v", m)
	}
	for i, k := range []string{"--latitude", "--longitude"} {
		q, ok := new(big.Rat).SetString(m[k])
		if !ok {
			return fmt.Sprintf("the tool was told %v", m)
		}
		q.Mul(q, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), fixScale)))
		q.Sub(q, new(big.Rat).SetInt(given[i+1]))
		q.Abs(q)
		if q.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), fixScale-80))) > 0 {
			return fmt.Sprintf("the tool was told %s %s", k, m[k])
		}
	}
	return ""
}

func toldIndex(m map[string]string, index *big.Int) string {
	if m == nil {
		return "the tool was not called"
	}
	if len(m) != 1 || m["--index"] != fmt.Sprintf("%x", index) {
		return fmt.Sprintf("the tool was told %v instead of index %x", m, index)
	}
	return ""
}

func (b *exBox) call(q exReq) (r exResp, ok bool) {
	if b.cmd == nil {
		return r, false
	}
	if err := json.NewEncoder(b.in).Encode(q); err != nil {
		fatal("driver: %v", err)
	}
	if err := b.out.Decode(&r); err != nil {
		// the call crashed: start over
		b.cmd.Wait()
		n := newBox()
		os.RemoveAll(b.dir)
		*b = *n
		return exResp{Err: "CRASH"}, true
	}
	return r, true
}

var ijkMutex sync.Mutex // util's call is relative to the working directory of this process

// run performs the row's call; why != "" : what is wrong; skipped: the function cannot be reached
func (b *exBox) run(r exRow) (why string, skipped bool) {
	u := func(i int) uint64 { return r.nums[i].Uint64() }
	var got []*big.Int
	fail := false // the call reported an error
	switch r.what {
	case "ijk", "pijk", "tocell":
		b.arm("latLngToCell", r.tool, r.code)
		var p exResp
		ok := true
		switch r.what {
		case "ijk":
			ijkMutex.Lock()
			wd, _ := os.Getwd()
			os.Chdir(filepath.Join(b.dir, "cwd"))
			i, j, k, err := util.ExecuteLatLngToIJK(int(u(0)), math.Float64frombits(u(1)), math.Float64frombits(u(2)))
			os.Chdir(wd)
			ijkMutex.Unlock()
			p.N = []int{i, j, k}
			if err != nil {
				p.Err = err.Error()
			}
		case "pijk":
			p, ok = b.call(exReq{F: "pijk", S: b.bin("latLngToCell"), N: []int{int(u(0))}, X: []uint64{u(1), u(2)}})
		case "tocell":
			p, ok = b.call(exReq{F: "tocell", N: []int{int(u(0))}, X: []uint64{u(1), u(2)}})
		}
		if !ok {
			return "", true
		}
		if why = toldLocation(b.told("latLngToCell"), r.given); why != "" {
			return
		}
		fail = p.Err != ""
		for _, n := range p.N {
			got = append(got, big.NewInt(int64(n)))
		}
		if r.what == "tocell" && !fail {
			v, ok := new(big.Int).SetString(p.S, 16)
			if !ok {
				return fmt.Sprintf("got index %q", p.S), false
			}
			got = []*big.Int{v}
		}
	case "tolatlng", "toboundary":
		t := map[string]string{"tolatlng": "cellToLatLng", "toboundary": "cellToBoundary"}[r.what]
		b.arm(t, r.tool, r.code)
		p, ok := b.call(exReq{F: r.what, S: fmt.Sprintf("%x", r.nums[0])})
		if !ok {
			return "", true
		}
		if why = toldIndex(b.told(t), r.given[0]); why != "" {
			return
		}
		fail = p.Err != ""
		for _, x := range p.X {
			got = append(got, fix64(math.Float64frombits(x)))
		}
	case "cells":
		f := filepath.Join(b.dir, "cells.txt")
		os.Remove(f)
		var xs []uint64
		for _, n := range r.nums[1:] {
			xs = append(xs, n.Uint64())
		}
		p, ok := b.call(exReq{F: "cells", S: f, N: []int{int(u(0))}, X: xs})
		if !ok {
			return "", true
		}
		fail = p.Err != ""
		t, err := os.ReadFile(f)
		if err != nil {
			return "no file was written", false
		}
		lines := strings.Split(string(t), "\n")
		if len(lines) != len(xs)/2+1 || lines[len(lines)-1] != "" {
			return fmt.Sprintf("%d cells were written as %q", len(xs)/2, t), false
		}
		for _, l := range lines[:len(lines)-1] {
			fs := strings.Fields(l)
			if len(fs) != 2 {
				return fmt.Sprintf("a cell was written as %q", l), false
			}
			for _, h := range fs {
				v, err := util.HexToFloat(h)
				if err != nil {
					return fmt.Sprintf("a coordinate was written as %q: %v", h, err), false
				}
				got = append(got, bits64(v))
			}
		}
	case "distance":
		p, ok := b.call(exReq{F: "distance", X: []uint64{u(0), u(1), u(2), u(3)}})
		if !ok {
			return "", true
		}
		if fail = p.Err != ""; !fail {
			d := math.Float64frombits(p.X[0])
			if math.IsNaN(d) || math.IsInf(d, 0) {
				return fmt.Sprintf("the distance is %v", d), false
			}
			got = append(got, fix64(d))
		}
	case "main":
		return b.program(r), false
	default:
		fatal("unknown call %s", r.what)
	}
	if fail != (r.ok == 0) {
		if fail {
			return "an error is reported", false
		}
		return fmt.Sprintf("no error is reported, the result is %v", got), false
	}
	if fail {
		return "", false
	}
	if len(got) != len(r.res) {
		return fmt.Sprintf("%d numbers were read, %d were printed", len(got), len(r.res)), false
	}
	for i := range got {
		d := new(big.Int).Sub(got[i], r.res[i])
		t := r.tol[i]
		if t.Sign() < 0 {
			t = new(big.Int)
		}
		if d.Abs(d).Cmp(t) > 0 {
			if r.tol[i].Sign() < 0 {
				return fmt.Sprintf("number %d: got %v want %v", i, got[i], r.res[i]), false
			}
			return fmt.Sprintf("number %d: got %s want %s +- %s", i, dec(got[i]), dec(r.res[i]), dec(t)), false
		}
	}
	return "", false
}

var reDist = regexp.MustCompile(`(?i)closest distance[^\n]*?:\s*(\S+)\s*kilometers`)

func (b *exBox) program(r exRow) string {
	b.arm("latLngToCell", r.tool, r.code)
	b.arm("cellToBoundary", r.tool2, r.code2)
	cmd := exec.Command(proxMain)
	cmd.Dir = filepath.Join(b.dir, "cwd")
	o, _ := cmd.CombinedOutput()
	if why := toldLocation(b.told("latLngToCell"), r.given); why != "" {
		return why
	}
	if r.code == 0 {
		if why := toldIndex(b.told("cellToBoundary"), r.nums[0]); why != "" {
			return why
		}
	}
	all := reDist.FindAllStringSubmatch(string(o), -1)
	if r.ok == 0 && len(all) > 0 {
		return fmt.Sprintf("a tool failed, but the program reports the distance %s", all[len(all)-1][1])
	}
	if r.ok != 1 {
		return ""
	}
	if len(all) == 0 {
		return fmt.Sprintf("no distance is reported: %.300q", o)
	}
	q, ok := new(big.Rat).SetString(all[len(all)-1][1])
	if !ok {
		return fmt.Sprintf("reported distance: %s", all[len(all)-1][1])
	}
	q.Mul(q, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), fixScale)))
	d := new(big.Rat).Sub(q, new(big.Rat).SetInt(r.res[0]))
	if d.Abs(d).Cmp(new(big.Rat).SetInt(r.tol[0])) > 0 {
		return fmt.Sprintf("the closest point of the boundary is %s km away, reported: %s", dec(r.res[0]), all[len(all)-1][1])
	}
	return ""
}

func replayExchange(files []string, targets []Sys, rep *Report) {
	var rows []exRow
	ints := func(v Val) (l []*big.Int) {
		for _, x := range vl(v) {
			l = append(l, vi(x))
		}
		return
	}
	for _, f := range files {
		rep.Traces++
		for _, s := range loadITF(f) {
			rep.States++
			for _, x := range s.L("rows") {
				m := vr(x)
				rows = append(rows, exRow{vs(m["what"]), ints(m["nums"]), render(m["tool"]), render(m["tool2"]), vn(m["code"]), vn(m["code2"]),
					vn(m["ok"]), ints(m["res"]), ints(m["tol"]), ints(m["given"])})
			}
		}
	}
	boxes := make(chan *exBox, 16)
	for i := 0; i < 8; i++ {
		boxes <- newBox()
	}
	parallel(len(rows), func(i int) {
		if rep.full() {
			return
		}
		r := rows[i]
		b := <-boxes
		defer func() { boxes <- b }()
		why, skipped := b.run(r)
		if skipped {
			rep.count(r.what+" not reachable", 1)
			return
		}
		rep.eval(1)
		rep.distinct(r.String())
		rep.count(fmt.Sprintf("%s %s", r.what, []string{"without an answer", "answered", "left open"}[r.ok]), 1)
		if i%211 == 0 {
			rep.sample(r.String())
		}
		if why != "" {
			rep.violate("wrong", map[string]interface{}{"case": r.String()}, "%s: %s", r, why)
		}
	})
	for i := 0; i < 8; i++ {
		(<-boxes).close()
	}
}
