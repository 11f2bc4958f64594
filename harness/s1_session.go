//go:build go1.27

package harness

import (
	"fmt"
	"runtime/metrics"
	"strings"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

func stuckOf(g *rt.Group) []string {
	if rt.W == nil {
		return nil
	}
	return rt.W.Stuck(g)
}

var mixKinds = map[string]int{"hello": 4, "helloOld": 1, "capture": 4, "preview": 2, "capFormat": 1, "capURI": 1, "mentions": 4,
	"mentionsEmpty": 1, "linkSet": 3, "linkSetBad": 1, "visit": 3, "visitBad": 1, "unknown": 2, "badShape": 2}

// general is the configuration most properties start from.
func general(r *Run) sessCfg {
	c := r.C()
	n := 2 + c.Skewed(14)
	if r.Thor && c.Chance(1, 4) {
		n += c.N(40)
	}
	crowd := c.N(1000) == 999
	if crowd {
		n = 60 + c.N(500)
		if c.N(4) == 3 {
			n = 1030 + c.N(100)
		}
	}
	kinds := map[string]int{}
	for _, k := range sortedKeys(mixKinds) {
		// swarm: leave kinds out
		if c.N(4) != 3 {
			kinds[k] = mixKinds[k]
		}
	}
	kinds["hello"] += 1
	cfg := sessCfg{
		Reqs: n, Kinds: kinds, Window: 1 + c.Skewed(n+4), Slow: c.N(3) != 0, Notes: c.N(4), PerFile: 4 + c.Skewed(20), Deep: 4,
		Multi: c.N(2) == 1, Frag: c.N(2) == 1, Pad: c.N(3) == 1, LinkSet: c.N(8) != 7, UserArgs: c.N(2) == 1,
		Log: []string{"-", "", "file"}[c.N(3)], SlowOut: c.N(4) == 1, Schemes: true,
	}
	if c.N(3) == 1 {
		cfg.Window = n + 1
	}
	if crowd {
		cfg.Window, cfg.Notes, cfg.PerFile, cfg.Crowd = n+1, c.N(2), 4, n
		rt.Count("env:crowd", 1)
	}
	return cfg
}

// note makes everything in the environment misbehave a bit.
func rough(r *Run, cfg *sessCfg) {
	c := r.C()
	if c.N(3) == 1 {
		cfg.Emacs = true
	}
	if c.N(2) == 1 {
		cfg.EmacsBad = 2 + c.N(6)
	}
	if c.N(4) == 1 {
		cfg.ExecBad = 2 + c.N(6)
	}
}

var sessionReal = []string{"cmd/burl_backend", "pkg/webextensions", "pkg/burl_links", "pkg/burl_emacs", "pkg/burl_rpc", "pkg/burl_url", "pkg/burl_util", "pkg/burl_fileutil", "pkg/burl_fuzzy", "pkg/version", "net/rpc", "net/rpc/jsonrpc", "log", "flag"}
var sessionStub = []string{"kernel (processes, pipes, files)", "os", "os/exec", "clock", "goroutine scheduler", "sync", "browser", "Emacs and emacsclient", "note editor"}

func init() {
	add := func(id string, quick, deep int, run func(r *Run), rule string) {
		props[id] = &propDef{run: run, quick: quick, deep: deep, real: sessionReal, stub: sessionStub, rule: rule}
	}
	add("R01", 80000, 4000000, runR01, "a case is a session of the real backend with a seeded mix of requests, client behaviour, fragmentation and schedule; it is non-trivial if at least two requests were judged and the schedule had at least one preemption")
	add("R03", 80000, 4000000, runR03, "a case is a session or a pair of library codecs fed with a seeded fragmentation and padding; non-trivial if at least one read was cut short")
	add("R04", 80000, 4000000, runR04, "a case is a session whose input ends at a seeded point (between, inside or before messages, or by an error) while requests are in flight; non-trivial if at least one request was judged")
	add("R05", 40000, 2400000, runR05, "a case is a session with seeded odd messages and odd note files, ended by a seeded bad message or not; non-trivial if at least one odd request was judged")
	add("R06", 60000, 3000000, runR06, "a case is a session in which Emacs, one hand-over, or a note file is stalled while other requests are sent; non-trivial if at least one request was stalled and one was not")
	add("R08", 80000, 4000000, runR08, "a case is a session with seeded captures and visits against a seeded Emacs; non-trivial if at least one client invocation was judged")
	add("R09", 80000, 4000000, runR09, "a case is a session with seeded failures of emacsclient; non-trivial if at least one Emacs request was judged")
	add("R10", 80000, 4000000, runR10, "a case is a session with accepted and refused visits in flight together; non-trivial if at least one visit was judged")
	add("R11", 60000, 3000000, runR11, "a case is a session over seeded notes with several mentions queries in flight, notes read in seeded pieces; non-trivial if at least one mentions reply was judged")
	add("R12", 60000, 3000000, runR12, "a case is a session over seeded notes replaced by an editor meanwhile; non-trivial if at least one link set reply was judged")
	add("R13", 60000, 3000000, runR13, "a case is a session over notes that become unreadable by seeded faults; non-trivial if at least one link set or mentions reply was judged")
	add("R18", 60000, 3000000, runR18, "a case is a session with a seeded log destination and seeded failures of the log file; non-trivial if at least one request was judged")
	add("R23", 60000, 3000000, runR23, "a case is a session with seeded offers of formats, configurations and failures of everything else; non-trivial if at least one hello request was judged")
	add("R21", 10000, 600000, runR21, "a case is a session of several equal batches of requests, many of them failing; non-trivial if at least three batches were measured")
}

func runR01(r *Run) {
	cfg := general(r)
	rough(r, &cfg)
	cfg.Huge = r.C().N(1000) == 1
	newSession(r, cfg).run()
}

func runR03(r *Run) {
	if r.C().N(2) == 1 {
		runCodecFrag(r)
		return
	}
	cfg := general(r)
	cfg.Frag = true
	cfg.Huge = r.C().N(400) == 1
	cfg.Pad = r.C().N(3) != 0
	cfg.Slow = false
	if r.C().N(2) == 1 {
		cfg.Window = 1 // each message must be served before the next one comes
	}
	newSession(r, cfg).run()
}

func runR04(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.End = []string{"eof", "cut", "readerr", "cut"}[c.N(4)]
	if c.N(3) == 1 {
		rough(r, &cfg)
	}
	if c.N(2) == 1 {
		cfg.Window = cfg.Reqs + 1
	}
	s := newSession(r, cfg)
	s.start()
	var qs []*req
	for i := 0; i < cfg.Reqs; i++ {
		qs = append(qs, s.make(s.pick()))
	}
	s.sendAll(qs)
	switch s.r.W().N(4) {
	case 1:
		rt.Sleep(time.Duration(s.r.W().Skewed(2000)) * time.Millisecond)
	case 2:
		waitUntil("all answered", s.h.P, patience, s.settled)
	}
	if n, _ := s.inflight(); n > 0 {
		r.Probe("ended-with-requests-in-flight")
	}
	s.finish(cfg.End)
	s.judge()
}

func runR05(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Kinds = map[string]int{"weird": 6, "hello": 2, "mentions": 2, "linkSet": 1, "badShape": 2, "unknown": 1}
	cfg.Heavy = c.N(8) == 1
	cfg.Huge = c.N(400) == 1
	if !cfg.Heavy && c.N(2) == 1 {
		cfg.Kinds = map[string]int{"weird": 2, "hello": 1, "mentions": 4, "linkSet": 3, "capture": 2, "visit": 2, "badShape": 1, "unknown": 1, "linkSetBad": 1, "visitBad": 1}
		cfg.Window = 1000
	}
	cfg.Notes = 1 + c.N(3)
	cfg.Deep = []int{4, 30, 300}[c.N(3)]
	cfg.LinkSet = true
	cfg.End = []string{"eof", "badjson", "oversize", "cut"}[c.N(4)]
	s := newSession(r, cfg)
	odd := false
	if c.N(2) == 1 {
		for i := range s.Files {
			if c.N(2) == 1 {
				odd = true
				s.oddNote(i)
			}
		}
	}
	s.start()
	var qs []*req
	for i := 0; i < cfg.Reqs; i++ {
		q := s.make(s.pick())
		if odd && (q.Kind == "mentions" || q.Kind == "linkSet") {
			q.Want = "any"
			q.Kind = "weird"
		}
		qs = append(qs, q)
	}
	s.grow(qs)
	size := 0
	if c.N(100) == 1 {
		qs = append(qs, s.greedy())
	}
	for _, q := range qs {
		size += len(q.Body) + len(q.Tail)
	}
	heap := allocated()
	s.sendAll(qs)
	waitUntil("all answered", s.h.P, patience, s.settled)
	// The memory of the whole simulation is counted, so the limit is far above
	// what is needed.
	if n := allocated() - heap; n > 300<<20+2000*uint64(size) {
		r.Violate("R05", "memory", "more than 300 MB and 2000 bytes for each byte of the requests have been allocated to serve %d bytes of requests", size)
	}
	if !s.h.P.Exited {
		// later requests are still served
		q := s.make("hello")
		s.sendAll([]*req{q})
		waitUntil("all answered", s.h.P, patience, s.settled)
	}
	s.finish(cfg.End)
	s.judge()
}

// allocated is the number of bytes allocated since the start.
func allocated() uint64 {
	v := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(v)
	return v[0].Value.Uint64()
}

// greedy makes a request that needs much memory if it is served carelessly.
func (s *session) greedy() *req {
	w := s.r.W()
	q := s.make([]string{"mentions", "mentions", "linkSet", "hello"}[w.N(4)])
	n := 20000 + w.N(25000)
	long := strings.Repeat([]string{"/", "&", "a", "(", "https:", "//?&#", "/", "&"}[w.N(8)], n)
	url := s.someURL() + long
	if w.N(4) == 1 {
		url = long
	}
	var p any
	switch q.Kind {
	case "mentions":
		p = map[string]any{"variants": []string{"https://absent.example/", url}, "options": map[string]any{"countLimit": n}}
	case "linkSet":
		p = map[string]any{"prefix": []string{"https:" + url, "mid"}}
	case "hello":
		p = map[string]any{"formats": []any{map[string]any{"format": url, "version": url}, map[string]any{"format": "org-protocol", "version": url}}}
	}
	q.Kind, q.Want = "weird", "any"
	q.Body = s.shape(q.Method, q.ID, jstr([]any{p}))
	rt.Count("io:greedy-request", 1)
	return q
}

// oddNote puts strange content into a note file.
func (s *session) oddNote(i int) {
	w := s.r.W()
	var b strings.Builder
	lines := []string{"*", "* ", "**", "*** ", "****\t", "*x", " * no", "* [[", "]]", "[[][]]", "[[https://q.example/]]", "[[https://q.example/][", "<https:", "<https://x>", "https://",
		"http://a", "doi:10.1/x", "mid:x@y", "https://f0.example/v0/p1", "\x00\x00", "\xff\xfe", "[[https://f0.example/\xff]]", "\r", "((((((((((", "https://a((((((b", strings.Repeat("[[", 300), strings.Repeat("x", 60000),
		"* [[https://f0.example/v0/p2][t]]", "https://f0.example/v0/p1 https://f0.example/v0/p1 https://f0.example/v0/p1"}
	n := 1 + w.Skewed(40)
	for j := 0; j < n; j++ {
		l := lines[w.N(len(lines))]
		if !s.c.Heavy && len(l) > 1000 {
			l = l[:1000]
		}
		switch w.N(6) {
		case 1:
			l = strings.Repeat("*", 1+w.Skewed(400)) + " " + l
		case 2:
			l = strings.Repeat("*", 1+w.Skewed(6)) + " h https://f0.example/v0/p1"
		}
		b.WriteString(l)
		if w.N(30) != 29 {
			b.WriteString("\n")
		}
	}
	f := s.Files[i]
	text := b.String()
	if w.N(2) == 1 {
		text = f.Text + text
	}
	s.r.K.FS.Replace(f.Path, text)
	s.r.Say("odd note %s: %q", f.Path, clip(text, 300))
}

func runR06(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Window = 1000
	cfg.Stall = []string{"emacs", "notes", "hand"}[c.N(3)]
	cfg.Kinds = map[string]int{"hello": 3, "capture": 4, "preview": 2, "visit": 3, "visitBad": 1, "mentions": 3, "linkSet": 2, "unknown": 1, "linkSetBad": 1}
	cfg.Notes = 1 + c.N(3)
	cfg.Reqs = 4 + c.Skewed(20)
	if cfg.Crowd == 0 && c.N(1200) == 1199 {
		// a crowd of which almost all wait for Emacs
		cfg.Crowd, cfg.Stall = 500+c.N(600), []string{"emacs", "hand"}[c.N(2)]
		cfg.Notes, cfg.PerFile = 1, 4
		cfg.Kinds["capture"] += 60
		if cfg.Stall == "hand" {
			cfg.Crowd, cfg.Kinds["capture"] = cfg.Crowd*2, cfg.Kinds["capture"]+100
		}
		cfg.Reqs, cfg.Window = cfg.Crowd, cfg.Crowd+1
		rt.Count("env:crowd", 1)
	} else if cfg.Crowd > 0 {
		cfg.Reqs = cfg.Crowd
		cfg.Kinds[[]string{"capture", "capture", "mentions", "linkSet", "visit"}[c.N(5)]] += 60
	}
	cfg.LinkSet = true
	newSession(r, cfg).run()
}

// stallPhase waits until everything is answered that can be, then ends the
// stall.
func (s *session) stallPhase() {
	r := s.r
	ok := waitUntil("requests that need nothing stalled", s.h.P, patience, func() bool {
		for _, q := range s.Reqs {
			if q.Sent && !q.Stalled && len(q.Replies) == 0 {
				return false
			}
		}
		return true
	})
	stalled, free := 0, 0
	for _, q := range s.Reqs {
		switch {
		case q.Stalled && len(q.Replies) == 0:
			stalled++
		case !q.Stalled:
			free++
			if q.Sent && len(q.Replies) == 0 && !ok {
				r.Violate("R06", "delayed", "%s request %s was not answered within %v while %s was stalled; tasks wait for: %s", q.Kind, q.ID, patience, s.c.Stall, strings.Join(s.stuck(), ", "))
			}
		}
	}
	for _, q := range s.Reqs {
		if !q.Sent && !s.h.P.Exited && s.ended == false {
			r.Violate("R06", "not-accepted", "the host stopped reading requests while %s was stalled", s.c.Stall)
			break
		}
	}
	if stalled > 0 && free > 0 {
		r.Probe("stalled-and-free-requests")
	}
	s.E.Released = true
	for _, f := range s.Files {
		if n := r.K.FS.Lookup(f.Path); n != nil {
			n.Stalled = false
		}
	}
	rt.Event("stall ends, %d requests waiting", stalled)
	if !waitUntil("stalled requests", s.h.P, patience, s.settled) {
		for _, q := range s.Reqs {
			if q.Sent && len(q.Replies) == 0 {
				r.Violate("R06", "never-answered", "%s request %s was not answered within %v after %s stopped stalling; tasks wait for: %s", q.Kind, q.ID, patience, s.c.Stall, strings.Join(s.stuck(), ", "))
				break
			}
		}
	}
}

func runR08(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = c.N(3)
	cfg.Kinds = map[string]int{"capture": 8, "visit": 2, "preview": 1, "capFormat": 1, "capURI": 1, "hello": 1, "linkSet": 1}
	cfg.Reqs = 2 + c.Skewed(12)
	if cfg.Crowd > 0 {
		cfg.Reqs = cfg.Crowd
	}
	cfg.UserArgs = c.N(4) != 0
	rough(r, &cfg)
	newSession(r, cfg).run()
}

func runR09(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(2)
	cfg.Kinds = map[string]int{"capture": 6, "visit": 4, "hello": 1, "mentions": 1}
	cfg.Reqs = 2 + c.Skewed(10)
	cfg.OneEmacs = c.N(3) != 0
	cfg.Emacs = c.N(2) == 1
	cfg.EmacsBad = []int{2, 3, 5, 0}[c.N(4)]
	cfg.ExecBad = []int{0, 0, 3, 6}[c.N(4)]
	s := newSession(r, cfg)
	if c.N(12) == 1 {
		// the program is not there at all
		r.K.FS.Delete(exeEmacs)
		r.Probe("client-missing")
		s.runMissing()
		return
	}
	if cfg.Emacs && c.N(2) == 1 {
		// Emacs is started and stopped meanwhile
		rt.Go(func() {
			for i := 0; i < 6; i++ {
				rt.Sleep(time.Duration(r.F().Skewed(8000)) * time.Millisecond)
				switch r.F().N(3) {
				case 0:
					s.E.Up = !s.E.Up
				case 1:
					s.E.OrgLoaded = !s.E.OrgLoaded
				case 2:
					s.E.HasX = !s.E.HasX
				}
			}
		})
	}
	s.run()
}

func (s *session) runMissing() {
	s.start()
	var qs []*req
	for i := 0; i < 4; i++ {
		q := s.make([]string{"capture", "visit"}[i%2])
		qs = append(qs, q)
	}
	s.sendAll(qs)
	waitUntil("all answered", s.h.P, patience, s.settled)
	for _, q := range qs {
		s.r.Check("R09")
		if len(q.Replies) == 0 {
			s.r.Violate("R09", "no-reply", "%s was not answered though the client program is missing; the host is %s", q.Kind, s.h.exitText())
		} else if !q.Replies[0].isErr() {
			s.r.Violate("R09", "failure-masked", "the client program is missing but success was replied")
		} else if strings.Contains(q.Replies[0].errText(), "not running") {
			s.r.Violate("R09", "wrong-reason", "the error says %q though the client program is missing", q.Replies[0].errText())
		}
	}
	s.finish("eof")
}

func runR10(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(3)
	cfg.Kinds = map[string]int{"visit": 6, "visitBad": 4, "capture": 2, "hello": 1, "linkSet": 1}
	cfg.Reqs = 2 + c.Skewed(12)
	if c.N(3) == 1 {
		cfg.Window = 1
	}
	if c.N(3) == 1 {
		rough(r, &cfg)
	}
	if c.N(30) == 1 {
		cfg.Notes = 4 + c.N(16)
	}
	cfg.Far = c.N(6) == 1
	newSession(r, cfg).run()
}

func runR11(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(4)
	cfg.PerFile = 3 + c.Skewed(30)
	cfg.Deep = []int{3, 6, 12}[c.N(3)]
	cfg.Dups = c.N(3) == 1
	cfg.Multi = c.N(4) != 0
	cfg.Kinds = map[string]int{"mentions": 8, "linkSet": 1, "hello": 1, "mentionsEmpty": 1}
	cfg.Window = []int{1, 2, 30}[c.N(3)]
	cfg.Long = c.N(4) == 1
	scale(c, &cfg)
	newSession(r, cfg).run()
}

func runR23(r *Run) {
	c := r.C()
	cfg := general(r)
	rough(r, &cfg)
	cfg.LinkSet = c.N(2) == 1
	cfg.Kinds["hello"] += 2
	cfg.Kinds["helloMix"] = 8
	cfg.Kinds["helloOld"] = 2
	switch c.N(5) {
	case 1:
		cfg.Window = 1
	case 2:
		// with a history of bad requests
		cfg.Kinds["linkSetBad"], cfg.Kinds["badShape"], cfg.Kinds["weird"] = 3, 3, 2
	}
	s := newSession(r, cfg)
	if len(s.Files) > 0 && r.F().N(4) == 1 {
		s.breakNote(r.F().N(len(s.Files)))
	}
	s.run()
}

// scale makes some sessions use notes of the size that years of use give.
func scale(c *rt.Tape, cfg *sessCfg) {
	cfg.Far = c.N(6) == 1
	switch c.N(60) {
	case 55:
		cfg.Tall = true
	case 56:
		cfg.Notes = 4 + c.N(12)
		if c.N(4) == 3 {
			cfg.Notes, cfg.PerFile = 20+c.N(160), 2
		}
	case 57, 58:
		cfg.Deep = []int{40, 40, 150}[c.N(3)]
	case 59:
		if k := c.N(6); k > 0 {
			cfg.Big = 60 + c.Skewed(300)
			if k == 1 {
				cfg.Big = 200 + c.Skewed(2000)
				cfg.Reqs = 4
			}
			cfg.Notes = 2
			rt.Count("io:note-of-many-links", 1)
		}
	}
}

func runR12(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(4)
	cfg.PerFile = 3 + c.Skewed(12)
	cfg.Multi = c.N(2) == 1
	cfg.Dups = true
	cfg.Editor = c.N(5) != 0
	cfg.LinkSet = c.N(10) != 9
	cfg.Kinds = map[string]int{"linkSet": 8, "linkSetBad": 2, "mentions": 1, "hello": 1}
	cfg.Window = []int{1, 3, 30}[c.N(3)]
	cfg.Long = c.N(4) == 1
	scale(c, &cfg)
	newSession(r, cfg).run()
}

func runR13(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(4)
	cfg.PerFile = 2 + c.Skewed(12)
	cfg.NoteBad = true
	cfg.LinkSet = true
	cfg.Kinds = map[string]int{"linkSet": 5, "mentions": 3, "hello": 1}
	cfg.Reqs = 3 + c.Skewed(10)
	cfg.Window = []int{1, 3, 30}[c.N(3)]
	scale(c, &cfg)
	cfg.Far = false
	s := newSession(r, cfg)
	k := r.K
	f := r.F()
	s.start()
	batch := func(n int) {
		var qs []*req
		for i := 0; i < n; i++ {
			qs = append(qs, s.make(s.pick()))
		}
		s.sendAll(qs)
		waitUntil("all answered", s.h.P, patience, s.settled)
	}
	if f.N(3) != 0 {
		// transient faults
		if cfg.Window == 1 {
			s.h.P.MaxFds = 16 + len(s.Files)
		}
		for _, op := range []string{"open:note", "read:note"} {
			if f.N(3) != 2 {
				k.Rates[op] = 1 + f.N(6)
			}
		}
		k.Budget = 1 + f.Skewed(12)
		batch(cfg.Reqs)
		k.Budget = 0
		batch(2 + f.N(3))
	} else {
		if f.N(2) == 1 {
			batch(1 + f.N(3))
		}
		i := f.N(len(s.Files))
		s.breakNote(i)
		batch(1 + f.N(cfg.Reqs))
		s.mendNote(i)
		batch(2 + f.N(3))
	}
	s.finish("eof")
	s.judge()
}

// breakNote makes a note file unreadable for good.
func (s *session) breakNote(i int) {
	f := s.r.F()
	k := s.r.K
	n := s.Files[i]
	in := k.FS.Lookup(n.Path)
	what := ""
	s.badFrom = k.Seq()
	how := f.N(5)
	if how == 3 && len(in.Data) == 0 {
		how = 0 // no block to be bad
	}
	switch how {
	case 0:
		k.FS.Delete(n.Path)
		what = "missing"
	case 1:
		in.Mode = 0
		what = "no-permission"
	case 2:
		k.FS.Delete(n.Path)
		k.FS.MkdirAll(n.Path)
		what = "directory"
	case 3:
		in.BadAt = f.N(len(in.Data))
		what = "bad-block"
	case 4:
		// a line that is too long; behind or before links
		size := 65536 + f.Skewed(5000)
		if f.N(16) == 1 {
			size -= 200
		}
		if f.N(4) == 1 {
			size = 100000 + f.N(300000)
		}
		if text, ok := padLine(string(in.Data), size, f.N(1000)); ok && f.N(4) != 1 {
			in.Data = []byte(text)
		} else {
			in.Data = append(append([]byte(nil), in.Data...), []byte("\n"+strings.Repeat("z", size)+"\n")...)
		}
		what = "soft long line"
	}
	s.bad = []string{what + " " + n.Path}
	rt.Event("note %s becomes unreadable: %s", n.Path, what)
	rt.Count("fault:note:"+what, 1)
	s.r.Say("note %s becomes unreadable: %s", n.Path, what)
}

func (s *session) mendNote(i int) {
	k := s.r.K
	n := s.Files[i]
	k.FS.Delete(n.Path)
	k.FS.Put(n.Path, n.Text, 0644)
	s.badEnd = k.Seq()
	rt.Event("note %s is readable again", n.Path)
}

func runR18(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Kinds = map[string]int{"hello": 2, "capture": 2, "mentions": 3, "linkSetBad": 3, "linkSet": 2, "unknown": 1, "badShape": 2, "visitBad": 1}
	cfg.Log = []string{"file", "file", "file", "-", "", "bad"}[c.N(6)]
	cfg.LinkSet = true
	if c.N(3) == 1 {
		cfg.EmacsBad = 3
		cfg.Emacs = true
	}
	s := newSession(r, cfg)
	k := r.K
	f := r.F()
	if cfg.Emacs && f.N(3) == 1 {
		s.E.Up = false
	}
	if cfg.Log == "bad" {
		s.runBadLog()
		return
	}
	if cfg.Log == "file" && f.N(3) != 0 {
		k.Rates["write:log"] = 1 + f.N(3)
		k.Rates["fsync:log"] = 1 + f.N(3)
		k.Rates["close:log"] = 2
		k.Budget = 1 << 20
	}
	other := 0 // lines of other hosts
	var last []byte
	check := func() {
		in := k.FS.Lookup(s.logPath)
		if in == nil {
			if s.logOld != "" || last != nil {
				r.Violate("R18", "log-removed", "the log file disappeared")
			}
			return
		}
		if last == nil {
			last = []byte(s.logOld)
		}
		if !strings.HasPrefix(string(in.Data), string(last)) {
			r.Violate("R18", "log-overwritten", "the log file held %q and now holds %q", clip(string(last), 200), clip(string(in.Data), 200))
		}
		last = append([]byte(nil), in.Data...)
	}
	if cfg.Log == "file" {
		// another host with the same configuration
		others := f.N(3) == 1
		k.OnOp = func(p *kernel.Proc, op, path string) {
			check()
			if others && path == s.logPath && f.N(4) == 1 {
				if in := k.FS.Lookup(s.logPath); in != nil && in.Kind == kernel.KFile {
					other++
					in.Data = append(append([]byte(nil), in.Data...), fmt.Sprintf("2021/01/01 00:00:00 other host %d\n", other)...)
					last = append([]byte(nil), in.Data...)
					r.Probe("log-shared")
				}
			}
		}
	}
	s.run()
	if cfg.Log == "file" {
		check()
		r.Check("R18")
	}
	if s.exited && s.h.P.Code == 0 && k.Rates["write:log"] == 0 && (cfg.Log == "file" || cfg.Log == "-") {
		// what is logged reaches its destination
		lost := 0
		for _, q := range s.Reqs {
			if q.answered() && q.Replies[0].isErr() && strings.Contains(q.Replies[0].errText(), "server is not running") {
				lost++
			}
		}
		lines := s.h.ErrLines
		if cfg.Log == "file" {
			lines = strings.Count(string(last), "\n") - strings.Count(s.logOld, "\n") - other
		}
		if lost > 0 {
			r.Probe("log-demanded")
		}
		if lines < lost {
			r.Violate("R18", "log-lost", "%d requests were refused since Emacs is not running but %d lines were logged to %q", lost, lines, s.logPath)
		}
	}
	if cfg.Log != "-" && s.exited && s.h.P.Code == 0 && len(s.h.Stderr) > 0 {
		r.Violate("R18", "log-elsewhere", "log destination is %q but stderr got %q", s.logPath, clip(string(s.h.Stderr), 300))
	}
	if cfg.Log != "file" && k.FS.Lookup("/var/log/burl/burl.log") != nil {
		r.Violate("R18", "log-elsewhere", "a log file was created that is not configured")
	}
	if len(last) > len(s.logOld) {
		r.Probe("log-written")
	}
}

func (s *session) runBadLog() {
	r := s.r
	k := r.K
	f := r.F()
	k.FS.Delete(s.logPath)
	switch f.N(5) {
	case 0:
		k.FS.Delete("/var/log/burl")
	case 1:
		k.FS.MkdirAll(s.logPath)
	case 2:
		k.FS.Put(s.logPath, "precious\n", 0400)
	case 3:
		k.Rates["openw:log"] = 1
		k.Budget = 1000
	case 4:
		k.FS.Delete("/var/log/burl")
		k.FS.Put("/var/log/burl", "a file", 0644)
	}
	s.start()
	for i := 0; i < 3; i++ {
		q := s.make([]string{"capture", "hello", "linkSet"}[i])
		s.send(q)
	}
	waitUntil("exit", nil, patience, func() bool { return s.h.P.Exited })
	s.h.closeIn()
	s.exited = waitUntil("exit", nil, patience, func() bool { return s.h.P.Exited })
	s.h.drained()
	r.Check("R18")
	r.Probe("log-unopenable")
	switch {
	case !s.exited:
		r.Violate("R18", "bad-log-served", "the host did not end though its log file could not be opened")
	case s.h.P.Crash != "" || s.h.P.Sig != 0:
		r.Violate("R18", "host-crash", "the host %s", s.h.exitText())
	case s.h.P.Code == 0:
		r.Violate("R18", "bad-log-exit", "the host exited with success though its log file could not be opened")
	case s.h.O.Total > 0:
		r.Violate("R18", "bad-log-served", "the host wrote %d bytes to its output though its log file could not be opened", s.h.O.Total)
	case len(s.E.Inv) > 0:
		r.Violate("R18", "bad-log-served", "the host ran emacsclient though its log file could not be opened")
	}
	if len(strings.TrimSpace(string(s.h.Stderr))) == 0 && s.exited && s.h.P.Code != 0 {
		r.Violate("R18", "bad-log-silent", "the host failed without a message")
	}
}

func runR21(r *Run) {
	c := r.C()
	cfg := general(r)
	cfg.Notes = 1 + c.N(3)
	cfg.LinkSet = true
	cfg.Kinds = map[string]int{"hello": 2, "capture": 3, "mentions": 2, "linkSet": 3, "linkSetBad": 1, "unknown": 1, "badShape": 1, "visit": 2, "visitBad": 1, "preview": 2, "capURI": 1, "capFormat": 1, "helloOld": 1, "mentionsEmpty": 1, "weird": 1}
	cfg.End = "eof"
	cfg.EmacsBad = []int{0, 2, 3}[c.N(3)]
	cfg.Log = []string{"-", "", "file"}[c.N(3)]
	rough(r, &cfg)
	cfg.ExecBad = 0
	s := newSession(r, cfg)
	mode := r.F().N(4)
	if mode == 1 {
		s.breakNote(r.F().N(len(s.Files)))
	}
	s.start()
	if mode == 2 || mode == 3 {
		for _, op := range []string{"open:note", "read:note", "exec:exec", "pipe:pipe", "write:log"} {
			if r.F().N(2) == 1 {
				r.K.Rates[op] = 1 + r.F().N(4)
			}
		}
		r.K.Budget = 1 << 20
	}
	var kinds []string
	n := 2 + c.Skewed(8)
	for i := 0; i < n; i++ {
		kinds = append(kinds, s.pick())
	}
	batches := 4 + c.N(3)
	r.Say("batch %v, %d times", kinds, batches)
	for b := 0; b < batches; b++ {
		var qs []*req
		for _, k := range kinds {
			q := s.make(k)
			if mode > 0 {
				if q.Want == "ok" {
					q.Want = "any"
				}
			}
			qs = append(qs, q)
		}
		s.sendAll(qs)
		if !waitUntil("all answered", s.h.P, patience, s.settled) {
			break
		}
		s.measure()
	}
	s.finish("eof")
	s.judge()
}

var _ = fmt.Sprint
