//go:build go1.27

package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif.local/sim/rt"
)

var modes = map[string]func(t *testing.T) int{
	"drive": drive, "worker": worker, "replay": replayMode, "minimise": minimiseMode, "one": oneMode,
}

// seedOf derives the seed of one run.
func seedOf(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	return h.Sum64()
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// aggregate is what a worker knows about its runs.
type aggregate struct {
	Runs       int
	Nontrivial int
	Checked    int64
	Steps      int64
	Picks      int64
	Switches   int64
	SimNs      int64
	Hashes     []uint64
	Shapes     []uint64 // hashes of non-trivial runs
	Counters   map[string]int64
	Probes     map[string]int64
	Policies   map[string]int
	Rechecked  int
	Mismatches []string
	Errors     []string
	Viol       *Result
	Samples    [][]string
	Done       bool
}

func newAggregate() *aggregate {
	return &aggregate{Counters: map[string]int64{}, Probes: map[string]int64{}, Policies: map[string]int{}}
}

func (a *aggregate) add(b *aggregate) {
	a.Runs += b.Runs
	a.Nontrivial += b.Nontrivial
	a.Checked += b.Checked
	a.Steps += b.Steps
	a.Picks += b.Picks
	a.Switches += b.Switches
	a.SimNs += b.SimNs
	a.Hashes = append(a.Hashes, b.Hashes...)
	a.Shapes = append(a.Shapes, b.Shapes...)
	for k, v := range b.Counters {
		a.Counters[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	for k, v := range b.Policies {
		a.Policies[k] += v
	}
	a.Rechecked += b.Rechecked
	a.Mismatches = append(a.Mismatches, b.Mismatches...)
	a.Errors = append(a.Errors, b.Errors...)
	if a.Viol == nil {
		a.Viol = b.Viol
	}
	if len(a.Samples) < 3 {
		a.Samples = append(a.Samples, b.Samples...)
	}
}

// known are the findings that are listed, by property.
type known struct{ prop, match, text string }

func readKnown() []known {
	var out []known
	f, err := os.Open(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=<id> match="<class: detail fragment>" <text>
		rest, ok := strings.CutPrefix(sc.Text(), "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		q, err := strconv.QuotedPrefix(strings.TrimPrefix(rest, "match="))
		if err != nil {
			continue
		}
		m, _ := strconv.Unquote(q)
		out = append(out, known{id, m, strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(rest, "match="), q))})
	}
	return out
}

func isKnown(ks []known, v Violation) bool {
	for _, k := range ks {
		if k.prop == v.Prop && k.match != "" && strings.Contains(v.Class+": "+v.Detail, k.match) {
			return true
		}
	}
	return false
}

const runLimit = 150 * time.Second

// guard ends the process when a run takes too long in real time.
func guard(seed uint64) func() {
	tm := time.AfterFunc(runLimit, func() {
		fmt.Fprintf(os.Stderr, "watchdog: seed %d took more than %v\n", seed, runLimit)
		os.Exit(4)
	})
	return func() { tm.Stop() }
}

func worker(t *testing.T) int {
	prop := os.Getenv("VERIF_PROP")
	base := uint64(envInt("VERIF_SEED", 1))
	from, to, step := envInt("VERIF_FROM", 0), envInt("VERIF_TO", 10), envInt("VERIF_STEP", 1)
	end := time.Unix(int64(envInt("VERIF_DEADLINE", 1<<40)), 0)
	thor := os.Getenv("VERIF_TIER") == "thorough"
	recheck := envInt("VERIF_RECHECK", 40)
	ks := readKnown()
	a := newAggregate()
	debug.SetMemoryLimit(1500 << 20)
	def := props[prop]
	if def == nil {
		a.Errors = append(a.Errors, "no property "+prop)
	} else {
		n := 0
		for i := from; i < to && time.Now().Before(end); i += step {
			seed := seedOf(base, prop, i)
			stop := guard(seed)
			res := execute(t, prop, rt.NewTapes(seed), thor, false)
			stop()
			res.Seed = seed
			a.Runs++
			a.Checked += res.Checked
			a.Steps += res.Steps
			a.Picks += res.Picks
			a.Switches += res.Switches
			a.SimNs += res.SimNs
			a.Hashes = append(a.Hashes, res.Hash)
			if res.Checked > 0 {
				a.Nontrivial++
				a.Shapes = append(a.Shapes, res.Hash)
			}
			for k, v := range res.Counters {
				a.Counters[k] += v
			}
			for k, v := range res.Probes {
				a.Probes[k] += v
			}
			a.Policies[res.Policy]++
			if len(a.Samples) < 1 && res.Checked > 0 {
				a.Samples = append(a.Samples, append([]string{fmt.Sprintf("seed %d, policy %s, %d statements, %d scheduling decisions, %v simulated", seed, res.Policy, res.Steps, res.Picks, time.Duration(res.SimNs))}, head(res.Sample, 14)...))
			}
			if res.Err != "" {
				a.Errors = append(a.Errors, fmt.Sprintf("seed %d (run %d): %s", seed, i, res.Err))
				if len(a.Errors) > 3 {
					break
				}
			}
			bad := false
			for _, v := range res.Viol {
				if isKnown(ks, v) {
					a.Probes["known-finding"]++
				} else {
					bad = true
				}
			}
			if bad {
				var left []Violation
				for _, v := range res.Viol {
					if !isKnown(ks, v) {
						left = append(left, v)
					}
				}
				res.Viol = left
				a.Viol = res
				break
			}
			if n < 2 || n%recheck == 0 {
				stop := guard(seed)
				again := execute(t, prop, rt.NewTapes(seed), thor, false)
				stop()
				a.Rechecked++
				if again.Hash != res.Hash || again.Steps != res.Steps || len(again.Viol) != len(res.Viol) {
					a.Mismatches = append(a.Mismatches, fmt.Sprintf("seed %d: %x/%d then %x/%d", seed, res.Hash, res.Steps, again.Hash, again.Steps))
				}
			}
			n++
		}
	}
	a.Done = true
	b, err := json.Marshal(a)
	if err == nil {
		err = os.WriteFile(os.Getenv("VERIF_RESULT"), b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// spawn runs this binary again in another mode.
func spawn(env map[string]string, limit time.Duration) ([]byte, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-test.run=^TestSim$", "-test.timeout=0")
	cmd.Env = os.Environ()
	cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	for _, k := range sortedKeys(env) {
		cmd.Env = append(cmd.Env, k+"="+env[k])
	}
	type outT struct {
		b   []byte
		err error
	}
	var tm *time.Timer
	var buf strings.Builder
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	tm = time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	return []byte(buf.String()), err
}

func drive(t *testing.T) int {
	prop := os.Getenv("VERIF_PROP")
	def := props[prop]
	if def == nil {
		fmt.Printf("no check for %q\n", prop)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base := envInt("VERIF_SEED", 1)
	total := def.quick
	wall := 100 * time.Second
	if tier == "thorough" {
		total = def.deep
		wall = 40 * time.Minute
	}
	if n := envInt("VERIF_RUNS", 0); n > 0 {
		total = n
	}
	if n := envInt("VERIF_WALL", 0); n > 0 {
		wall = time.Duration(n) * time.Second
	}
	start := time.Now()
	deadline := start.Add(wall)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "run")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	workers := envInt("VERIF_WORKERS", runtime.NumCPU())
	chunk := 100
	if total < workers*chunk {
		chunk = (total + workers - 1) / workers
	}
	if chunk < 1 {
		chunk = 1
	}
	var mu sync.Mutex
	next := 0
	sum := newAggregate()
	var wg sync.WaitGroup
	fmt.Printf("%s: %d runs, VERIF_SEED=%d, tier %s\n", prop, total, base, tier)
	for wk := 0; wk < workers; wk++ {
		wg.Add(1)
		go func(wk int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= total || sum.Viol != nil || len(sum.Errors) > 3 || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				to := from + chunk
				if to > total {
					to = total
				}
				next = to
				mu.Unlock()
				file := filepath.Join(dir, fmt.Sprintf("%d.json", from))
				out, err := spawn(map[string]string{"VERIF_WK": fmt.Sprintf("%02d", wk%90), "VERIF_MODE": "worker", "VERIF_PROP": prop, "VERIF_FROM": strconv.Itoa(from), "VERIF_TO": strconv.Itoa(to),
					"VERIF_RESULT": file, "VERIF_SEED": strconv.Itoa(base), "VERIF_TIER": tier,
					"VERIF_DEADLINE": strconv.FormatInt(deadline.Unix(), 10)}, wall+runLimit+30*time.Second)
				a := newAggregate()
				if b, e := os.ReadFile(file); e == nil {
					if e := json.Unmarshal(b, a); e != nil {
						a.Errors = append(a.Errors, e.Error())
					}
				}
				if err != nil || !a.Done {
					a.Errors = append(a.Errors, fmt.Sprintf("worker for runs %d..%d: %v %s", from, to, err, clip(string(out), 3000)))
				}
				mu.Lock()
				sum.add(a)
				mu.Unlock()
			}
		}(wk)
	}
	wg.Wait()
	explore := time.Since(start)
	code := 0
	nviol := 0
	if sum.Viol != nil {
		nviol = 1
		code = 1
		path := filepath.Join(os.Getenv("VERIF_REPLAYS"), fmt.Sprintf("%s-%d.json", prop, sum.Viol.Seed))
		raw := filepath.Join(dir, "raw.json")
		b, _ := json.Marshal(toReplay(prop, tier, sum.Viol))
		os.WriteFile(raw, b, 0644)
		limit := 60 * time.Second
		if tier == "thorough" {
			limit = 5 * time.Minute
		}
		out, err := spawn(map[string]string{"VERIF_MODE": "minimise", "VERIF_REPLAY": raw, "VERIF_RESULT": path,
			"VERIF_DEADLINE": strconv.FormatInt(time.Now().Add(limit).Unix(), 10)}, limit+2*runLimit)
		if err != nil {
			fmt.Printf("minimising failed: %v %s\n", err, clip(string(out), 2000))
			os.WriteFile(path, b, 0644)
		} else {
			fmt.Print(string(out))
		}
		// replay in a fresh process
		rep, _ := spawn(map[string]string{"VERIF_MODE": "replay", "VERIF_REPLAY": path, "VERIF_QUIET": "1"}, 2*runLimit)
		fmt.Print(string(rep))
		for _, v := range sum.Viol.Viol {
			fmt.Printf("  %s: %s\n", v.Class, clip(v.Detail, 1500))
		}
		if !strings.Contains(string(rep), "VIOLATION property="+prop) {
			fmt.Printf("note: the replay did not reproduce it\nVIOLATION property=%s replay=%s\n", prop, path)
		}
	}
	if code == 0 && (len(sum.Errors) > 0 || len(sum.Mismatches) > 0) {
		code = 2
	}
	for _, e := range sum.Errors {
		fmt.Println("error:", clip(e, 3000))
	}
	for _, e := range sum.Mismatches {
		fmt.Println("not deterministic:", e)
	}
	if code == 0 && sum.Runs == 0 {
		fmt.Println("error: no run was made")
		code = 2
	}
	if code == 0 && sum.Nontrivial == 0 {
		fmt.Println("error: nothing was judged")
		code = 2
	}
	for _, k := range readKnown() {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	if err := evidence(prop, tier, base, def, sum, explore, time.Since(start), nviol, workers, total); err != nil {
		fmt.Println("error:", err)
		if code == 0 {
			code = 2
		}
	}
	os.RemoveAll(dir)
	fmt.Printf("%s: %d runs (%d judged), %d observations, %v simulated, %v real, exit %d\n", prop, sum.Runs, sum.Nontrivial, sum.Checked, time.Duration(sum.SimNs).Round(time.Second), time.Since(start).Round(time.Millisecond), code)
	return code
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

func evidence(prop, tier string, seed int, def *propDef, a *aggregate, explore, wall time.Duration, nviol, workers, total int) error {
	faults, other := map[string]int64{}, map[string]int64{}
	for k, v := range a.Counters {
		if f, ok := strings.CutPrefix(k, "fault:"); ok {
			faults[f] = v
		} else {
			other[k] = v
		}
	}
	hours := explore.Hours()
	cov := map[string]any{
		"evaluations":                     a.Runs,
		"distinct_nontrivial":             distinct(a.Shapes),
		"rule":                            def.rule + "; distinct by the hash of the whole event and scheduling history of the run",
		"samples":                         a.Samples,
		"planned_runs":                    total,
		"distinct_histories":              distinct(a.Hashes),
		"observations_judged":             a.Checked,
		"statements_executed":             a.Steps,
		"scheduling_decisions":            a.Picks,
		"task_switches":                   a.Switches,
		"runs_per_hour":                   int64(float64(a.Runs) / hours),
		"seeds_per_hour":                  int64(float64(a.Runs) / hours),
		"simulated_seconds":               a.SimNs / 1e9,
		"faults_injected":                 faults,
		"environment_events":              other,
		"conditions_reached":              a.Probes,
		"scheduling_policies":             a.Policies,
		"determinism_reexecuted_runs":     a.Rechecked,
		"determinism_mismatches":          len(a.Mismatches),
		"worker_processes":                workers,
		"components_running_real_code":    def.real,
		"components_replaced_by_a_model":  def.stub,
		"harness_errors":                  len(a.Errors),
		"interleaving_measure_of_reached": "hash over every scheduling decision (task, statement count) and every event (system calls, messages, faults, time) of a run",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": def.level(), "coverage": cov,
		"assumptions": append([]string{
			"the instrumented copy of the packages behaves like the packages (simgen only adds scheduler calls and replaces imports)",
			"the models of kernel, Emacs, browser and POSIX tools stand for the real ones",
			"a clean batch is evidence from sampled schedules and faults, not proof",
		}, def.assume...),
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	path := filepath.Join(os.Getenv("VERIF_EVIDENCE"), prop+".json")
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, append(b, '\n'), 0644)
}

func (d *propDef) level() string {
	if d.levelOf != "" {
		return d.levelOf
	}
	return "exploration"
}

// --- replay files

type replayFile struct {
	Property   string              `json:"property"`
	Class      string              `json:"class"`
	Detail     string              `json:"detail"`
	Tier       string              `json:"tier"`
	Seed       uint64              `json:"seed"`
	Hash       string              `json:"history_hash"`
	Sizes      map[string][2]int   `json:"tape_sizes_before_and_after_minimising"`
	Tapes      map[string][]uint32 `json:"tapes"`
	Trace      []string            `json:"trace"`
	Candidates int                 `json:"minimiser_candidates"`
}

func toReplay(prop, tier string, r *Result) *replayFile {
	f := &replayFile{Property: prop, Tier: tier, Seed: r.Seed, Tapes: map[string][]uint32{}, Sizes: map[string][2]int{}, Hash: fmt.Sprintf("%016x", r.Hash)}
	if len(r.Viol) > 0 {
		f.Class, f.Detail = r.Viol[0].Class, r.Viol[0].Detail
	}
	for i, t := range r.Tapes {
		f.Tapes[rt.TapeNames[i]] = t
		f.Sizes[rt.TapeNames[i]] = [2]int{len(t), len(t)}
	}
	return f
}

func (f *replayFile) tapes() [][]uint32 {
	out := make([][]uint32, rt.NTapes)
	for i := range out {
		out[i] = f.Tapes[rt.TapeNames[i]]
	}
	return out
}

func readReplay(path string) (*replayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f := &replayFile{}
	return f, json.Unmarshal(b, f)
}

func replayMode(t *testing.T) int {
	path := os.Getenv("VERIF_REPLAY")
	f, err := readReplay(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer guard(f.Seed)()
	res := execute(t, f.Property, rt.ReplayTapes(f.tapes()), f.Tier == "thorough", true)
	if os.Getenv("VERIF_QUIET") == "" {
		for _, l := range res.Trace {
			fmt.Println(l)
		}
	} else {
		n := len(res.Trace)
		if n > 40 {
			fmt.Printf("  ... %d earlier events\n", n-40)
			res.Trace = res.Trace[n-40:]
		}
		for _, l := range res.Trace {
			fmt.Println("  " + clip(l, 400))
		}
	}
	if res.Err != "" {
		fmt.Println("error:", res.Err)
	}
	for _, v := range res.Viol {
		if v.Class == f.Class {
			fmt.Printf("  %s: %s\n", v.Class, clip(v.Detail, 1500))
			same := "same history"
			if h := fmt.Sprintf("%016x", res.Hash); f.Hash != h {
				same = "history hash " + h + " instead of " + f.Hash
			}
			fmt.Printf("replayed seed %d: %s\nVIOLATION property=%s replay=%s\n", f.Seed, same, f.Property, path)
			return 1
		}
	}
	fmt.Printf("the violation %s of %s does not occur\n", f.Class, f.Property)
	return 0
}

func oneMode(t *testing.T) int {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_ONE"), 10, 64)
	if seed < 1000000 {
		seed = seedOf(uint64(envInt("VERIF_SEED", 1)), os.Getenv("VERIF_PROP"), int(seed))
	}
	defer guard(seed)()
	res := execute(t, os.Getenv("VERIF_PROP"), rt.NewTapes(seed), os.Getenv("VERIF_TIER") == "thorough", true)
	for _, l := range res.Trace {
		fmt.Println(clip(l, 600))
	}
	fmt.Printf("seed=%d hash=%x steps=%d picks=%d sim=%v policy=%s reason=%s checked=%d\n", seed, res.Hash, res.Steps, res.Picks, time.Duration(res.SimNs), res.Policy, res.Reason, res.Checked)
	for _, v := range res.Viol {
		fmt.Printf("VIOLATED %s %s: %s\n", v.Prop, v.Class, v.Detail)
	}
	if res.Err != "" {
		fmt.Println("error:", res.Err)
		return 2
	}
	return 0
}

// --- minimising

func minimiseMode(t *testing.T) int {
	f, err := readReplay(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	end := time.Unix(int64(envInt("VERIF_DEADLINE", 0)), 0)
	best := f.tapes()
	thor := f.Tier == "thorough"
	tries := 0
	var bestRes *Result
	try := func(c [][]uint32) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		defer guard(f.Seed)()
		res := execute(t, f.Property, rt.ReplayTapes(c), thor, false)
		if res.Err != "" {
			return false
		}
		for _, v := range res.Viol {
			if v.Class == f.Class {
				// keep what was really read
				best = c
				for i := range best {
					if i < len(res.Tapes) && len(res.Tapes[i]) < len(best[i]) {
						best[i] = res.Tapes[i]
					}
				}
				bestRes = res
				return true
			}
		}
		return false
	}
	if !try(clone(best)) {
		fmt.Println("the violation does not occur again from its tapes")
		return 3
	}
	before := map[string]int{}
	for i := range best {
		before[rt.TapeNames[i]] = len(best[i])
	}
	order := []int{rt.TFault, rt.TIO, rt.TMap, rt.TSched, rt.TWork, rt.TConf}
	for round := 0; round < 6; round++ {
		size := weight(best)
		// whole streams
		for _, i := range order {
			if len(best[i]) > 0 {
				c := clone(best)
				c[i] = nil
				try(c)
			}
		}
		// truncate
		for _, i := range order {
			for n := len(best[i]) / 2; n > 0; n /= 2 {
				for len(best[i]) > n {
					c := clone(best)
					c[i] = c[i][:len(c[i])-n]
					if !try(c) {
						break
					}
				}
			}
		}
		// zero blocks, delete blocks
		for _, i := range order {
			for n := (len(best[i]) + 1) / 2; n > 0; n /= 2 {
				for at := 0; at < len(best[i]); at += n {
					e := min(at+n, len(best[i]))
					zero := true
					for _, v := range best[i][at:e] {
						zero = zero && v == 0
					}
					if zero {
						continue
					}
					c := clone(best)
					for j := at; j < e; j++ {
						c[i][j] = 0
					}
					try(c)
				}
				if time.Now().After(end) {
					break
				}
			}
			for n := (len(best[i]) + 1) / 2; n > 0; n /= 2 {
				for at := 0; at+n <= len(best[i]); {
					c := clone(best)
					c[i] = append(c[i][:at:at], c[i][at+n:]...)
					if !try(c) {
						at += n
					}
				}
				if time.Now().After(end) {
					break
				}
			}
			for at := 0; at < len(best[i]); at++ {
				for best[i][at] > 0 {
					c := clone(best)
					c[i][at] /= 2
					if !try(c) || at >= len(best[i]) {
						break
					}
				}
			}
		}
		if weight(best) >= size || time.Now().After(end) {
			break
		}
	}
	res := execute(t, f.Property, rt.ReplayTapes(clone(best)), thor, true)
	res.Seed = f.Seed
	_ = bestRes
	out := toReplay(f.Property, f.Tier, res)
	out.Class = f.Class
	for _, v := range res.Viol {
		if v.Class == f.Class {
			out.Detail = v.Detail
		}
	}
	for i := range best {
		n := rt.TapeNames[i]
		out.Tapes[n] = best[i]
		if out.Tapes[n] == nil {
			out.Tapes[n] = []uint32{}
		}
		out.Sizes[n] = [2]int{before[n], len(best[i])}
	}
	out.Trace = res.Trace
	out.Candidates = tries
	b, _ := json.MarshalIndent(out, "", " ")
	path := os.Getenv("VERIF_RESULT")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("minimised in %d runs:", tries)
	var names []string
	for n := range out.Sizes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf(" %s %d->%d", n, out.Sizes[n][0], out.Sizes[n][1])
	}
	fmt.Println()
	return 0
}

func clone(t [][]uint32) [][]uint32 {
	out := make([][]uint32, len(t))
	for i := range t {
		out[i] = append([]uint32(nil), t[i]...)
	}
	return out
}

func weight(t [][]uint32) int64 {
	var n int64
	for _, s := range t {
		n += int64(len(s)) * 1000
		for _, v := range s {
			if v != 0 {
				n += 100
			}
			n += int64(min(v, 99))
		}
	}
	return n
}
