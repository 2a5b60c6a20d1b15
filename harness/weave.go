package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"

	"github.com/tumberger/zk-Location/float"
)

func init() { extra["weave"] = replayWeave }

type wTask struct {
	prog
	width uint
	alts  [][]*big.Int // per assignment: the register file
}

func (t wTask) inputs(alt int) (in []*big.Int) {
	for i, c := range t.calls {
		if c.op == "load" && !c.cst {
			in = append(in, t.alts[alt][i])
		}
	}
	return
}

// circuit performs call i only after wait(i); wait(len) comes before it is finished
func (t wTask) circuit(wait func(i int)) func(frontend.API, []frontend.Variable) {
	return func(api frontend.API, in []frontend.Variable) {
		wait(-1)
		ctx := float.NewContext(api, t.width, t.E, t.M)
		var regs []float.FloatVar
		k := 0
		for i, c := range t.calls {
			wait(i)
			var r float.FloatVar
			switch c.op {
			case "load":
				if c.cst {
					r = ctx.NewConstant(c.val.Uint64())
				} else {
					r = ctx.NewFloat(in[k])
					k++
				}
			case "add":
				r = ctx.Add(regs[c.x], regs[c.y])
			case "sub":
				r = ctx.Sub(regs[c.x], regs[c.y])
			case "mul":
				r = ctx.Mul(regs[c.x], regs[c.y])
			case "div":
				r = ctx.Div(regs[c.x], regs[c.y])
			case "sqrt":
				r = ctx.Sqrt(regs[c.x])
			case "abs":
				r = ctx.Abs(regs[c.x])
			case "neg":
				r = ctx.Neg(regs[c.x])
			case "trunc":
				r = ctx.Trunc(regs[c.x])
			case "floor":
				r = ctx.Floor(regs[c.x])
			case "ceil":
				r = ctx.Ceil(regs[c.x])
			default:
				panic("unknown call " + c.op)
			}
			regs = append(regs, r)
			spy(api, i, fvars(r)...)
		}
		wait(len(t.calls))
	}
}

func fingerprint(c *Compiled) string {
	var b bytes.Buffer
	if _, err := c.ccs.WriteTo(&b); err != nil {
		fatal("cannot write a constraint system: %v", err)
	}
	return fmt.Sprintf("%d constraints, %x", c.ccs.GetNbConstraints(), sha256.Sum256(b.Bytes()))
}

// solveThreads solves with the given number of solver threads, all hints honest
func (c *Compiled) solveThreads(inputs []*big.Int, threads int) (sp Spied, err error) {
	sp = Spied{}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while solving: %v", r)
		}
	}()
	a := &inCircuit{In: make([]frontend.Variable, c.nIn)}
	for i := range a.In {
		a.In[i] = 0
		if i < len(inputs) {
			a.In[i] = inputs[i]
		}
	}
	w, err := frontend.NewWitness(a, c.field)
	if err != nil {
		return nil, err
	}
	var mu sync.Mutex
	_, err = c.ccs.Solve(w, solver.WithNbTasks(threads), solver.OverrideHint(placeholderID, challenge),
		solver.OverrideHint(spyID, func(_ *big.Int, in []*big.Int, out []*big.Int) error {
			vals := make([]*big.Int, len(in)-1)
			for i := range vals {
				vals[i] = new(big.Int).Set(in[i+1])
			}
			mu.Lock()
			sp[int(in[0].Int64())] = vals
			mu.Unlock()
			out[0].SetUint64(0)
			return nil
		}))
	return sp, err
}

type wEv struct {
	ev        string
	task, alt int
}

func replayWeave(files []string, targets []Sys, rep *Report) {
	type run struct {
		tasks []wTask
		log   []wEv
		desc  string
	}
	formats := weaveFormats
	var runs []run
	for _, f := range files {
		rep.Traces++
		sts := loadITF(f)
		for i, s := range sts {
			rep.States++
			if i+1 < len(sts) && sts[i+1].I("rn").Cmp(s.I("rn")) == 0 {
				continue
			}
			var r run
			var d []string
			for _, x := range s.L("tasks") {
				m := vr(x)
				if m["finished"] != true {
					break
				}
				t := wTask{width: uint(vn(m["width"]))}
				fm := formats[vn(m["fmt"])]
				t.E, t.M = fm[0], fm[1]
				for _, y := range vl(m["regs"]) {
					var rs []*big.Int
					for _, z := range vl(y) {
						rs = append(rs, vi(z))
					}
					t.alts = append(t.alts, rs)
				}
				for j, y := range vl(m["calls"]) {
					c := vr(y)
					t.calls = append(t.calls, call{op: vs(c["op"]), x: vn(c["x"]), y: vn(c["y"]), val: t.alts[0][j], cst: c["asConst"].(bool)})
				}
				d = append(d, fmt.Sprintf("w%d %s", t.width, t.prog))
				r.tasks = append(r.tasks, t)
			}
			if len(r.tasks) < len(s.L("tasks")) { // the trace ends before the run does
				continue
			}
			sch := ""
			for _, x := range s.L("log") {
				m := vr(x)
				e := wEv{vs(m["ev"]), vn(m["task"]), vn(m["alt"])}
				r.log = append(r.log, e)
				sch += " " + e.ev[:1] + fmt.Sprint(e.task)
			}
			r.desc = strings.Join(d, " || ") + " schedule" + sch
			runs = append(runs, r)
		}
	}
	if weaveLimit > 0 && len(runs) > weaveLimit {
		runs = runs[:weaveLimit]
	}
	one := func(i int) {
		r := runs[i]
		sys := make([]Sys, len(r.tasks))
		for j := range sys {
			sys[j] = targets[(i+j/2)%len(targets)]
			sys[j].Range = r.tasks[j].width
		}
		rep.distinct(r.desc)
		if i%37 == 0 {
			rep.sample(r.desc)
		}
		rp := map[string]interface{}{"run": r.desc}
		bad := func(kind, f string, a ...interface{}) {
			rep.violate(kind, rp, "%s {%s}", fmt.Sprintf(f, a...), r.desc)
		}
		build := func(j int, wait func(int)) (*Compiled, error) {
			return compile(sys[j], len(r.tasks[j].inputs(0)), r.tasks[j].circuit(wait))
		}
		judge := func(kind string, j, alt int, sp Spied, err error) bool {
			rep.eval(1)
			rep.count(kind, 1)
			t := r.tasks[j]
			if err != nil {
				bad(kind, "task %d assignment %d is refused: %.160s", j, alt, err.Error())
				return false
			}
			for k := range t.calls {
				if m := canonOf(t.E, t.M, t.alts[alt][k]).mismatch(sp[k], sys[j].Curve.ScalarField()); m != "" {
					bad(kind, "task %d assignment %d register %d: %s", j, alt, k, m)
					return false
				}
			}
			return true
		}
		// every program alone
		alone := make([]string, len(r.tasks))
		for j := range r.tasks {
			c, err := build(j, func(int) {})
			if err != nil {
				bad("alone", "task %d does not compile: %v", j, err)
				return
			}
			alone[j] = fingerprint(c)
		}
		// as the schedule says
		type built struct {
			c   *Compiled
			err error
		}
		turn := make([]chan struct{}, len(r.tasks))
		back := make([]chan bool, len(r.tasks)) // true: finished
		res := make([]built, len(r.tasks))
		for j := range r.tasks {
			j := j
			turn[j], back[j] = make(chan struct{}), make(chan bool)
			go func() {
				<-turn[j]
				res[j].c, res[j].err = build(j, func(k int) {
					if k >= 0 {
						back[j] <- false
						<-turn[j]
					}
				})
				back[j] <- true
			}()
		}
		resume := func(j int) bool { turn[j] <- struct{}{}; return <-back[j] }
		over := make([]bool, len(r.tasks))
		for j := range r.tasks { // up to the first call
			over[j] = resume(j)
		}
		ok := true
		for _, e := range r.log {
			if !ok {
				break
			}
			switch e.ev {
			case "call":
				if !over[e.task] {
					over[e.task] = resume(e.task)
				}
			case "finish":
				for !over[e.task] {
					over[e.task] = resume(e.task)
				}
				if res[e.task].err != nil {
					bad("woven", "task %d does not compile: %v", e.task, res[e.task].err)
					ok = false
				} else if fp := fingerprint(res[e.task].c); fp != alone[e.task] {
					bad("woven", "task %d: another circuit (%s) than alone (%s)", e.task, fp, alone[e.task])
					ok = false
				}
				rep.count("circuits woven", 1)
			case "prove":
				sp, err := res[e.task].c.solveThreads(r.tasks[e.task].inputs(e.alt), 1)
				ok = judge("proved in turn", e.task, e.alt, sp, err)
			}
		}
		for j := range over {
			for !over[j] {
				over[j] = resume(j)
			}
		}
		if !ok {
			return
		}
		// all at once, under the machine's own schedule
		var wg sync.WaitGroup
		again := make([]built, len(r.tasks))
		type solved struct {
			sp  Spied
			err error
		}
		sol := make([][]solved, len(r.tasks))
		copies := 2
		if weaveLimit > 0 {
			copies = 12
		}
		start := make(chan struct{})
		for j, t := range r.tasks {
			j, t := j, t
			sol[j] = make([]solved, copies*len(t.alts))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				again[j].c, again[j].err = build(j, func(int) {})
			}()
			for a := range sol[j] {
				a := a
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					sol[j][a].sp, sol[j][a].err = res[j].c.solveThreads(t.inputs(a%len(t.alts)), 1+7*((a/len(t.alts))%2))
				}()
			}
		}
		close(start)
		wg.Wait()
		for j, t := range r.tasks {
			if again[j].err != nil {
				bad("at once", "task %d does not compile: %v", j, again[j].err)
				return
			}
			if fp := fingerprint(again[j].c); fp != alone[j] {
				bad("at once", "task %d: another circuit (%s) than alone (%s)", j, fp, alone[j])
				return
			}
			for a := range sol[j] {
				if !judge("proved at once", j, a%len(t.alts), sol[j][a].sp, sol[j][a].err) {
					return
				}
			}
		}
	}
	parallel(len(runs), one)
}

// weaveLimit, if positive, bounds the number of runs
var weaveLimit int

var weaveFormats = [][2]uint{{8, 23}, {4, 3}, {11, 52}, {8, 7}}
