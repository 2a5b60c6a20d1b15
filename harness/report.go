package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"
)

// Violation is an input / history on which the real code contradicts the specification.
type Violation struct {
	Kind   string      `json:"kind"`
	Desc   string      `json:"desc"`
	Replay interface{} `json:"replay"`
}

type Report struct {
	mu          sync.Mutex
	Evaluations int64               `json:"evaluations"`
	Distinct    int64               `json:"distinct"`
	Traces      int64               `json:"traces"`
	States      int64               `json:"states"`
	Counts      map[string]int64    `json:"counts"`
	Samples     []interface{}       `json:"samples"`
	Violations  []Violation         `json:"violations"`
	NViol       int64               `json:"nviol"`
	Known       map[string][]string `json:"known"`
	Ratios      map[string]float64  `json:"ratios"`
	seen        map[string]bool
}

func newReport() *Report {
	return &Report{Counts: map[string]int64{}, Known: map[string][]string{}, Ratios: map[string]float64{}, seen: map[string]bool{}}
}

func (r *Report) count(k string, n int64) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}
func (r *Report) eval(n int64) {
	r.mu.Lock()
	r.Evaluations += n
	r.mu.Unlock()
}

// distinct registers a non-trivial case under a key; repeated keys count once
func (r *Report) distinct(key string) {
	r.mu.Lock()
	if !r.seen[key] {
		r.seen[key] = true
		r.Distinct++
	}
	r.mu.Unlock()
}
func (r *Report) sample(v interface{}) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}
func (r *Report) violate(kind string, replay interface{}, f string, a ...interface{}) {
	r.mu.Lock()
	r.NViol++
	if len(r.Violations) < 25 {
		r.Violations = append(r.Violations, Violation{kind, fmt.Sprintf(f, a...), replay})
	}
	r.mu.Unlock()
}
func (r *Report) write(path string) {
	b, err := json.Marshal(r)
	if err != nil {
		fatal("report: %v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("report: %v", err)
	}
}

// known records a deviation that belongs to a committed known-finding entry
func (r *Report) known(id, what string) {
	r.mu.Lock()
	if len(r.Known[id]) < 3 {
		r.Known[id] = append(r.Known[id], what)
	}
	r.mu.Unlock()
}

// maxRatio keeps the largest observed error as a fraction of the admissible one
func (r *Report) maxRatio(k string, d, tol *big.Int) {
	if tol.Sign() <= 0 {
		return
	}
	q, _ := new(big.Rat).SetFrac(d, tol).Float64()
	r.mu.Lock()
	if q > r.Ratios[k] {
		r.Ratios[k] = q
	}
	r.mu.Unlock()
}
