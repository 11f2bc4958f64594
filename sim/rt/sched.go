//go:build go1.27

// Package rt is the deterministic scheduler of the simulator. The code under
// test is a copy of /repo with a call of Y before every statement; its
// goroutines are real goroutines inside a testing/synctest bubble of which
// exactly one is allowed to run. Which one, and for how many statements, is
// decided here from the schedule tape. Time is the fake clock of the bubble.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

func getg() uintptr

const (
	stReady = iota
	stRunning
	stBlocked
	stForeign // blocked in a native operation (channel, timer)
	stDone
)

// Group is the unit that is killed together: one simulated process.
type Group struct {
	Name    string
	ID      int
	Dead    bool
	Live    int // goroutines not finished
	Peak    int
	Data    any
	OnPanic func(val any, stack string)
}

type G struct {
	ID       int
	Grp      *Group
	gp       uintptr
	wake     chan struct{}
	state    int8
	idle     bool
	cond     func() bool
	deadline int64
	prio     uint32
	Why      string
}

type World struct {
	mapBusy map[uintptr]int // maps being written

	T            *Tapes
	curg         uintptr
	quantum      int
	granted      int
	cur          *G
	gs           []*G
	byGp         map[uintptr]*G
	mu           sync.Mutex
	arrivals     []*G
	foreign      int
	notify       chan struct{}
	down         bool
	ended        bool
	Reason       string
	start        time.Time
	nowNs        int64
	Steps        int64
	StepCap      int64
	Picks        int64
	Switches     int64
	Hash         uint64
	policy       int
	qrange       int
	hotSeed      uint32
	hotMask      uint32
	pctLeft      []int
	nextID       int
	Tracing      bool
	Trace        []string
	TimeCap      int64
	HarnessPanic string
	Harness      *Group
	en           []*G
	Counters     map[string]int64
	jump         bool
}

// W is the world of the current run, nil outside runs.
var W *World

var PolicyNames = []string{"run-to-block", "quantum<=4", "quantum<=32", "quantum<=512", "pct", "hot-sites"}

// Run executes main as the first task of a new world and returns the world.
// It must be called inside a synctest bubble.
func Run(t *Tapes, stepCap int64, timeCap time.Duration, tracing bool, main func()) *World {
	w := &World{T: t, byGp: map[uintptr]*G{}, notify: make(chan struct{}, 1), StepCap: stepCap,
		TimeCap: int64(timeCap), Tracing: tracing, Counters: map[string]int64{}}
	w.start = time.Now()
	w.Harness = &Group{Name: "harness"}
	W = w
	c := &t[TConf]
	w.policy = c.Weighted(2, 3, 3, 3, 3, 3)
	switch w.policy {
	case 1:
		w.qrange = 4
	case 2:
		w.qrange = 32
	case 3:
		w.qrange = 512
	case 4:
		n := c.Range(1, 6)
		for i := 0; i < n; i++ {
			w.pctLeft = append(w.pctLeft, 1+c.Skewed(6000))
		}
	case 5:
		w.hotSeed = c.Raw()
		w.hotMask = []uint32{63, 15, 255, 7}[c.N(4)]
	}
	w.jump = c.Chance(1, 4)
	w.spawn(w.Harness, main)
	w.loop()
	w.teardown()
	W = nil
	return w
}

func (w *World) Policy() string { return PolicyNames[w.policy] }

func (w *World) mixin(a, b uint64) {
	h := w.Hash ^ (a*0x9e3779b97f4a7c15 + b)
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	w.Hash = h ^ h>>32
}

func (w *World) spawn(grp *Group, f func()) *G {
	g := &G{ID: w.nextID, Grp: grp, wake: make(chan struct{}, 1), state: stReady}
	w.nextID++
	if w.policy == 4 {
		g.prio = w.T[TSched].Raw()>>1 + 1000
	}
	w.gs = append(w.gs, g)
	grp.Live++
	if grp.Live > grp.Peak {
		grp.Peak = grp.Live
	}
	go w.body(g, f)
	return g
}

func (w *World) body(g *G, f func()) {
	g.gp = getg()
	w.mu.Lock()
	w.byGp[g.gp] = g
	w.mu.Unlock()
	normal := false
	defer func() {
		if !normal && !w.down {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if g.Grp.OnPanic != nil {
					g.Grp.OnPanic(r, st)
				} else if w.HarnessPanic == "" {
					w.HarnessPanic = fmt.Sprintf("%v\n%s", r, st)
					w.ended = true
					w.Reason = "harness-panic"
				}
			}
		} else if w.down {
			recover()
		}
		if !w.down && w.cur != g {
			// it ends right after a native operation
			w.arriveEnd(g)
		}
		w.finish(g)
	}()
	<-g.wake
	if w.down {
		normal = true
		return
	}
	w.curg = g.gp
	f()
	normal = true
}

func (w *World) finish(g *G) {
	w.mu.Lock()
	delete(w.byGp, g.gp)
	w.mu.Unlock()
	g.state = stDone
	g.Grp.Live--
	if w.down {
		return
	}
	if w.cur == g {
		w.charge()
		w.cur = nil
		w.curg = 0
	}
	if w.foreign == 0 && !w.ended {
		if n := w.pick(nil); n != nil {
			w.grant(n)
		}
	}
}

func (w *World) charge() {
	w.Steps += int64(w.granted - w.quantum)
	w.granted = w.quantum
	if w.StepCap > 0 && w.Steps > w.StepCap && !w.ended {
		w.ended = true
		w.Reason = "stepcap"
	}
}

func (w *World) newQuantum() {
	q := 0
	switch w.policy {
	case 0:
		q = 0
	case 1, 2, 3:
		q = w.T[TSched].Skewed(w.qrange)
	case 4:
		if len(w.pctLeft) > 0 {
			q = w.pctLeft[0]
		}
	case 5:
		q = -1
	}
	switch {
	case q == 0:
		q = 100000
	case q < 0:
		q = 0
	}
	w.quantum = q
	w.granted = q
}

// pick chooses the next task among the enabled ones; nil if there is none.
func (w *World) pick(self *G) *G {
	w.Picks++
	en := w.en[:0]
	live := w.gs[:0]
	idle := false
	for _, g := range w.gs {
		if g.state == stDone {
			continue
		}
		live = append(live, g)
		if g.Grp.Dead {
			continue
		}
		switch g.state {
		case stReady:
			en = append(en, g)
		case stBlocked:
			if g.idle {
				idle = true
				continue
			}
			if (g.deadline != 0 && w.nowNs >= g.deadline) || (g.cond != nil && g.cond()) {
				en = append(en, g)
			}
		}
	}
	for i := len(live); i < len(w.gs); i++ {
		w.gs[i] = nil
	}
	w.gs = live
	if len(en) == 0 && idle {
		for _, g := range w.gs {
			if g.state == stBlocked && g.idle && !g.Grp.Dead && w.nowNs >= g.deadline {
				en = append(en, g)
			}
		}
	}
	w.en = en
	if len(en) == 0 {
		return nil
	}
	var n *G
	if len(en) == 1 {
		n = en[0]
	} else if w.policy == 4 {
		n = en[0]
		for _, g := range en[1:] {
			if g.prio > n.prio {
				n = g
			}
		}
	} else {
		// put the task that runs already first, so that 0 means "go on"
		if self != nil {
			for i, g := range en {
				if g == self {
					copy(en[1:i+1], en[:i])
					en[0] = self
					break
				}
			}
		}
		n = en[w.T[TSched].N(len(en))]
	}
	if n != self {
		w.Switches++
	}
	w.mixin(uint64(n.ID)+1, uint64(w.Steps))
	return n
}

func (w *World) grant(g *G) {
	w.cur = g
	g.state = stRunning
	w.newQuantum()
	g.wake <- struct{}{}
}

// park waits to be granted.
func (w *World) park(g *G) {
	<-g.wake
	if w.down {
		runtime.Goexit()
	}
	w.curg = g.gp
}

// reschedule is called by the running task after setting its state.
func (w *World) reschedule(g *G) {
	w.charge()
	w.curg = 0
	if w.foreign == 0 && !w.ended {
		if n := w.pick(g); n == g {
			g.state = stRunning
			w.newQuantum()
			w.curg = g.gp
			return
		} else if n != nil {
			w.grant(n)
		} else {
			w.cur = nil
		}
	} else {
		w.cur = nil
	}
	w.park(g)
}

func (w *World) self() *G {
	gp := getg()
	if c := w.cur; c != nil && c.gp == gp {
		return c
	}
	w.mu.Lock()
	g := w.byGp[gp]
	w.mu.Unlock()
	return g
}

// arrive brings a goroutine that a native operation has woken back under
// control.
func (w *World) arrive(g *G) {
	w.mu.Lock()
	w.arrivals = append(w.arrivals, g)
	w.mu.Unlock()
	select {
	case w.notify <- struct{}{}:
	default:
	}
	w.park(g)
}

// arriveEnd is arrive for a task that is ending.
func (w *World) arriveEnd(g *G) {
	w.mu.Lock()
	w.arrivals = append(w.arrivals, g)
	w.mu.Unlock()
	select {
	case w.notify <- struct{}{}:
	default:
	}
	<-g.wake
}

// Y is called before every statement of the code under test.
func Y(site uint32) {
	w := W
	if w == nil {
		return
	}
	if w.quantum > 0 && getg() == w.curg {
		w.quantum--
		return
	}
	w.slowY(site)
}

// YF is called after statements that may have woken a goroutine natively.
func YF(site uint32) {
	w := W
	if w == nil || w.down {
		return
	}
	g := w.enter()
	if g == nil {
		return
	}
	g.state = stReady
	w.charge()
	w.curg = 0
	w.cur = nil
	select {
	case w.notify <- struct{}{}:
	default:
	}
	w.park(g)
}

// enter makes sure that the calling goroutine is the running task.
func (w *World) enter() *G {
	if w.down {
		return nil
	}
	g := w.self()
	if g == nil {
		// started by uninstrumented code (timer callback)
		g = &G{gp: getg(), wake: make(chan struct{}, 1), state: stForeign, Grp: w.Harness}
		w.mu.Lock()
		g.ID = 1<<20 + w.nextID
		w.nextID++
		if c := w.cur; c != nil {
			g.Grp = c.Grp
		}
		w.byGp[g.gp] = g
		w.mu.Unlock()
		w.arrive(g)
		return g
	}
	if g != w.cur {
		w.arrive(g)
		return g
	}
	if g.Grp.Dead {
		g.state = stBlocked
		g.cond = nil
		g.deadline = 0
		w.reschedule(g)
	}
	return g
}

func (w *World) slowY(site uint32) {
	if w.down {
		return
	}
	g := w.enter()
	if g == nil {
		return
	}
	switch w.policy {
	case 5:
		w.Steps++
		if (site*2654435761^w.hotSeed)>>7&w.hotMask != 0 {
			if w.Steps&0xfff == 0 {
				w.charge()
				if w.ended {
					break
				}
			}
			return
		}
	case 4:
		w.charge()
		if len(w.pctLeft) > 0 {
			w.pctLeft = w.pctLeft[1:]
			g.prio = uint32(len(w.pctLeft))
		}
	}
	g.state = stReady
	w.reschedule(g)
}

// Point is a preemption point at a system call or lock operation.
func Point() {
	w := W
	if w == nil || w.down {
		return
	}
	g := w.enter()
	if g == nil {
		return
	}
	switch w.policy {
	case 0:
		return
	case 4:
		if w.quantum > 0 {
			w.quantum--
			return
		}
		w.slowY(0)
		return
	case 5:
		if w.T[TSched].N(3) != 1 {
			return
		}
	default:
		if w.quantum >= 8 {
			w.quantum -= 8
			return
		}
	}
	g.state = stReady
	w.reschedule(g)
}

// Block parks the calling task until cond holds or until the deadline (in
// virtual nanoseconds since the start, 0 for none) has passed. It reports
// whether cond holds.
func Block(why string, cond func() bool, deadline int64) bool {
	w := W
	if w == nil {
		return true
	}
	if w.down {
		if cond != nil && cond() {
			return true
		}
		runtime.Goexit()
	}
	g := w.enter()
	if cond != nil && cond() {
		return true
	}
	g.state = stBlocked
	g.cond = cond
	g.deadline = deadline
	g.Why = why
	w.reschedule(g)
	g.cond = nil
	g.deadline = 0
	g.Why = ""
	return cond == nil || cond()
}

// Sleep waits for a virtual duration.
func Sleep(d time.Duration) {
	w := W
	if w == nil || w.down {
		return
	}
	Point()
	if d > 0 {
		Block("sleep", nil, w.Now()+int64(d))
	}
}

// Idle waits until nothing else can run for the virtual duration d.
func Idle(d time.Duration) {
	w := W
	if w == nil || w.down {
		return
	}
	g := w.enter()
	g.idle = true
	Block("idle", nil, w.Now()+int64(d))
	g.idle = false
}

// Now is the virtual time since the start of the run in nanoseconds.
func (w *World) Now() int64 {
	n := int64(time.Since(w.start))
	if n > w.nowNs {
		w.nowNs = n
	}
	return w.nowNs
}

// Go starts a task in the group of the calling task.
func Go(f func()) {
	w := W
	if w == nil {
		go f()
		return
	}
	if w.down {
		return
	}
	g := w.enter()
	w.spawn(g.Grp, f)
}

// NowNs is the virtual time reached.
func (w *World) NowNs() int64 { return w.nowNs }

// GoIn starts a task in a group.
func GoIn(grp *Group, f func()) {
	W.spawn(grp, f)
}

func NewGroup(name string) *Group {
	W.nextID++
	return &Group{Name: name, ID: W.nextID}
}

// Stop ends the run after the current task yields; it does not return.
func Stop(reason string) {
	w := W
	if w == nil || w.down {
		return
	}
	if !w.ended {
		w.ended = true
		w.Reason = reason
	}
	g := w.enter()
	g.state = stBlocked
	g.cond = nil
	w.reschedule(g)
}

// Die parks the calling task for ever (its group has been killed).
func Die() {
	w := W
	if w == nil {
		return
	}
	if w.down {
		runtime.Goexit()
	}
	g := w.enter()
	g.state = stBlocked
	g.cond = nil
	g.deadline = 0
	w.reschedule(g)
}

func Down() bool { return W == nil || W.down }

// Cur returns the group of the calling task.
func Cur() *Group {
	if W == nil {
		return nil
	}
	if g := W.self(); g != nil {
		return g.Grp
	}
	return nil
}

func CurID() int {
	if W == nil {
		return -1
	}
	if g := W.self(); g != nil {
		return g.ID
	}
	return -1
}

func (w *World) loop() {
	for {
		synctest.Wait()
		w.Now()
		if c := w.cur; c != nil && c.state == stRunning {
			c.state = stForeign
			w.foreign++
			w.charge()
		}
		w.cur = nil
		w.curg = 0
		w.mu.Lock()
		arr := w.arrivals
		w.arrivals = nil
		w.mu.Unlock()
		if len(arr) > 1 {
			sort.Slice(arr, func(i, j int) bool { return arr[i].ID < arr[j].ID })
		}
		for _, g := range arr {
			if g.ID >= 1<<20 && !w.has(g) {
				g.Grp.Live++
				w.gs = append(w.gs, g)
			} else {
				w.foreign--
			}
			g.state = stReady
		}
		if w.ended {
			return
		}
		if w.jump && w.T[TSched].Chance(1, 16) {
			time.Sleep(time.Duration(1+w.T[TSched].Skewed(2000)) * time.Millisecond)
			w.Now()
		}
		select {
		case <-w.notify:
		default:
		}
		w.mu.Lock()
		late := len(w.arrivals) > 0
		w.mu.Unlock()
		if late {
			continue
		}
		if n := w.pick(nil); n != nil {
			w.grant(n)
			continue
		}
		// Nothing is enabled: let time pass.
		var min int64
		for _, g := range w.gs {
			if g.state == stBlocked && !g.Grp.Dead && g.deadline != 0 && (min == 0 || g.deadline < min) {
				min = g.deadline
			}
		}
		wait := w.TimeCap - w.nowNs
		capped := true
		if min != 0 && min-w.nowNs < wait {
			wait = min - w.nowNs
			capped = false
		}
		if min == 0 && w.foreign == 0 {
			w.ended = true
			w.Reason = "deadlock"
			return
		}
		if wait > 0 {
			tm := time.NewTimer(time.Duration(wait))
			select {
			case <-w.notify:
				capped = false
			case <-tm.C:
			}
			tm.Stop()
		}
		w.Now()
		if capped {
			w.ended = true
			w.Reason = "timecap"
			return
		}
	}
}

func (w *World) has(g *G) bool {
	for _, x := range w.gs {
		if x == g {
			return true
		}
	}
	return false
}

func (w *World) teardown() {
	w.down = true
	w.curg = 0
	for round := 0; round < 3; round++ {
		for _, g := range w.gs {
			if g.state == stDone {
				continue
			}
			select {
			case g.wake <- struct{}{}:
			default:
			}
			synctest.Wait()
		}
	}
}

// Stuck lists what the live tasks of a group wait for.
func (w *World) Stuck(grp *Group) []string {
	count := map[string]int{}
	for _, g := range w.gs {
		if g.Grp == grp && g.state != stDone {
			s := g.Why
			if g.state == stForeign {
				s = "native operation"
			}
			count[s]++
		}
	}
	var out []string
	for s, n := range count {
		if n > 1 {
			s = fmt.Sprintf("%d times %s", n, s)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// Hide is a scratch directory of the real file system whose name differs
// between processes; histories do not depend on it.
var Hide string

// Event folds an observable event into the hash of the run and traces it.
func Event(format string, args ...any) {
	w := W
	if w == nil || w.down {
		return
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(format); i++ {
		h = (h ^ uint64(format[i])) * 1099511628211
	}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = (h ^ uint64(v)) * 1099511628211
		case string:
			if Hide != "" && strings.Contains(v, Hide) {
				v = strings.ReplaceAll(v, Hide, "@")
			}
			for i := 0; i < len(v); i++ {
				h = (h ^ uint64(v[i])) * 1099511628211
			}
		}
	}
	w.mixin(h, uint64(w.nowNs))
	if w.Tracing && len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, fmt.Sprintf("t=%v step=%d task=%d ", time.Duration(w.nowNs), w.Steps+int64(w.granted-w.quantum), CurID())+fmt.Sprintf(format, args...))
	}
}

func Count(name string, n int64) {
	if W != nil && !W.down {
		W.Counters[name] += n
	}
}
