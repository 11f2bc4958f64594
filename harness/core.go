//go:build go1.27

// Package harness runs simulated executions of the programs of the repository
// and decides properties of them.
package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

// Violation is one broken property, observed in one run.
type Violation struct {
	Prop   string `json:"property"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Run is the context of one simulated execution.
type Run struct {
	Prop    string
	T       *rt.Tapes
	K       *kernel.Kernel
	Viol    []Violation
	Probes  map[string]int64
	Sample  []string
	Checked int64 // observations the oracles of Prop judged
	Notes   []string
	Thor    bool
	onEnd   func(reason string)
}

func (r *Run) C() *rt.Tape { return &r.T[rt.TConf] }
func (r *Run) W() *rt.Tape { return &r.T[rt.TWork] }
func (r *Run) F() *rt.Tape { return &r.T[rt.TFault] }

// Violate records that a property does not hold. Other properties than the
// one of the running check are ignored.
func (r *Run) Violate(prop, class, format string, args ...any) {
	if prop != r.Prop || rt.Down() && rt.W != nil {
		return
	}
	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{prop, class, fmt.Sprintf(format, args...)})
	}
	if rt.W != nil {
		rt.Event("VIOLATION %s", prop+" "+class+": "+r.Viol[len(r.Viol)-1].Detail)
	}
}

// Check counts an observation that was judged for a property.
func (r *Run) Check(prop string) {
	if prop == r.Prop {
		r.Checked++
	}
}

// Probe counts a rare condition that was reached.
func (r *Run) Probe(name string) { r.Probes[name]++ }

func (r *Run) Say(format string, args ...any) {
	if len(r.Sample) < 60 {
		r.Sample = append(r.Sample, fmt.Sprintf(format, args...))
	}
}

// Result is what is kept of a run.
type Result struct {
	Seed     uint64
	Viol     []Violation
	Probes   map[string]int64
	Counters map[string]int64
	Checked  int64
	Hash     uint64
	Steps    int64
	Picks    int64
	Switches int64
	SimNs    int64
	Policy   string
	Reason   string
	Err      string // the harness itself failed
	Tapes    [][]uint32
	Trace    []string
	Sample   []string
}

const (
	stepCap = 30_000_000
	timeCap = 4000 * time.Hour
)

// execute performs one run.
func execute(t *testing.T, prop string, tapes *rt.Tapes, thorough, tracing bool) (res *Result) {
	res = &Result{}
	def := props[prop]
	r := &Run{Prop: prop, T: tapes, Probes: map[string]int64{}, Thor: thorough}
	var w *rt.World
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if w == nil || !strings.Contains(s, "deadlock") {
					res.Err = "simulation: " + s
				}
				rt.W = nil
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			w = rt.Run(tapes, stepCap, timeCap, tracing, func() {
				r.K = kernel.New()
				def.run(r)
				rt.Stop("done")
			})
		})
	}()
	if w == nil {
		if res.Err == "" {
			res.Err = "no world"
		}
		return res
	}
	if w.HarnessPanic != "" {
		res.Err = w.HarnessPanic
	}
	if w.Reason != "done" && res.Err == "" {
		switch w.Reason {
		case "stepcap", "deadlock", "timecap":
			if r.onEnd != nil {
				r.onEnd(w.Reason)
			}
			if len(r.Viol) == 0 {
				if w.Reason == "stepcap" {
					r.Viol = append(r.Viol, Violation{prop, "livelock", fmt.Sprintf("the programs were still busy after %d statements", w.Steps)})
				} else {
					res.Err = "run ended by " + w.Reason
				}
			}
		default:
			res.Err = "run ended by " + w.Reason
		}
	}
	res.Viol = r.Viol
	res.Probes = r.Probes
	res.Counters = w.Counters
	res.Checked = r.Checked
	res.Hash = w.Hash
	res.Steps = w.Steps
	res.Picks = w.Picks
	res.Switches = w.Switches
	res.SimNs = w.NowNs()
	res.Policy = w.Policy()
	res.Reason = w.Reason
	res.Tapes = tapes.Copy()
	res.Trace = w.Trace
	res.Sample = r.Sample
	return res
}

// waitUntil blocks the calling actor until cond holds, nothing happens any
// more for the virtual duration d, or the process p is gone.
func waitUntil(why string, p *kernel.Proc, d time.Duration, cond func() bool) bool {
	return rt.Block(why, func() bool { return cond() || (p != nil && p.Exited) }, rt.W.Now()+int64(d)) && cond()
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s...(%d bytes)", s[:n], len(s))
	}
	return s
}

type propDef struct {
	run     func(r *Run)
	quick   int // runs
	deep    int
	real    []string
	stub    []string
	rule    string
	assume  []string
	levelOf string
}

var props = map[string]*propDef{}
