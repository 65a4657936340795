// Package core is the engine-independent part of the harness: cases, the worker
// protocol, the driver that generates, runs, confirms and shrinks cases, evidence.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
)

// Op is one step of a case. Fields are interpreted by the engine.
type Op struct {
	K string `json:"k"`
	P string `json:"p,omitempty"`
	Q string `json:"q,omitempty"`
	S string `json:"s,omitempty"`
	C int    `json:"c,omitempty"`
	N int    `json:"n,omitempty"`
	E uint32 `json:"e,omitempty"`
	R bool   `json:"r,omitempty"`
}

// Case is a self-contained, replayable input.
type Case struct {
	Prop   string         `json:"prop"`
	Engine string         `json:"engine"`
	Index  int            `json:"index"`
	Cfg    map[string]int `json:"cfg,omitempty"`
	Ops    []Op           `json:"ops"`
}

func (c Case) Clone() Case {
	d := c
	d.Ops = append([]Op(nil), c.Ops...)
	d.Cfg = map[string]int{}
	for k, v := range c.Cfg {
		d.Cfg[k] = v
	}
	return d
}

// Hash identifies the content of a case (its position in the run excluded).
func (c Case) Hash() uint64 {
	d := c
	d.Index = 0
	b, _ := json.Marshal(d)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Verdicts of a single execution.
const (
	OK        = "ok"
	Violation = "violation"
	Hang      = "hang"
	Crash     = "crash" // set by the driver when a worker dies
	Error     = "error" // the harness could not decide
)

type Result struct {
	Index      int            `json:"index"`
	Verdict    string         `json:"verdict"`
	Msg        string         `json:"msg,omitempty"`
	Nontrivial bool           `json:"nontrivial,omitempty"`
	Stats      map[string]int `json:"stats,omitempty"`
	Dirty      bool           `json:"dirty,omitempty"` // worker should not be reused
	Known      []string       `json:"known,omitempty"` // listed findings that were seen
}

// Engine generates and executes cases of one or more properties.
type Engine struct {
	Name string
	// Gen builds case number i.
	Gen func(prop, tier string, r *rand.Rand) Case
	// Run executes a case inside a worker.
	Run func(c Case) Result
	// Simplify proposes smaller variants of a case beyond removing operations.
	Simplify func(c Case) []Case
	// Count is the number of cases of a tier.
	Count func(prop, tier string) int
	// Rule describes generation and non-triviality (evidence).
	Rule func(prop string) string
	// Races is set when the engine wants a race-detector build.
	Races bool
}

func NewRand(seed uint64, prop string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", prop, i)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}
