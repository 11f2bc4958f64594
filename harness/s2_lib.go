//go:build go1.27

package harness

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"strings"
	"syscall"
	"time"

	slot0 "gen.local/s0"
	"gen.local/s0/burl/pkg/webextensions"
	"gen.local/s0/std/net/rpc"
	"gen.local/s0/std/net/rpc/jsonrpc"
	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

var libReal = []string{"pkg/webextensions", "net/rpc", "net/rpc/jsonrpc"}
var libStub = []string{"reader and writer of the transport", "peer", "handlers", "kernel (processes, pipes)", "os", "os/exec", "clock", "goroutine scheduler", "sync"}

func init() {
	both := append(append([]string{}, sessionReal...), "client half of pkg/webextensions")
	props["R02"] = &propDef{run: runR02, quick: 60000, deep: 3000000, real: both, stub: append(append([]string{}, sessionStub...), libStub[:3]...),
		rule: "a case is a session of the real backend, a library server or a library client with concurrent senders of seeded sizes over a transport that cuts, blocks or fails; non-trivial if at least one written message was judged"}
	props["R07"] = &propDef{run: runR07, quick: 60000, deep: 3000000, real: libReal, stub: libStub,
		rule: "a case is a client of the library with seeded concurrent calls against a scripted peer that answers in any order, misbehaves or dies, and a client closed at a seeded moment; non-trivial if at least one call was judged"}
}

// source is the reading half of a transport.
type source struct {
	buf    []byte
	ended  bool
	err    error
	closed bool
	frag   int // reads are cut with probability 1/frag
	max    int
	frags  int
	zero   bool // sometimes returns 0, nil
	join   bool // the last bytes come together with io.EOF
	reads  int
}

func (s *source) Read(b []byte) (int, error) {
	rt.Point()
	rt.Block("transport read", func() bool { return s.closed || len(s.buf) > 0 || s.ended || s.err != nil }, 0)
	s.reads++
	if s.closed {
		return 0, fs.ErrClosed
	}
	if len(s.buf) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	t := &rt.W.T[rt.TIO]
	if s.zero && t.Chance(1, 12) {
		rt.Count("io:empty-read", 1)
		return 0, nil
	}
	n := min(len(b), len(s.buf))
	if s.frag > 0 && n > 1 && s.frags < 20000 && t.Chance(1, s.frag) {
		s.frags++
		m := n - 1
		if s.max > 0 && m > s.max {
			m = s.max
		}
		n = 1 + t.Skewed(m)
		rt.Count("io:short-read", 1)
	}
	copy(b, s.buf[:n])
	s.buf = s.buf[n:]
	rt.Event("transport read %d", n)
	if s.join && len(s.buf) == 0 && s.ended {
		rt.Count("io:data-with-eof", 1)
		return n, io.EOF
	}
	return n, nil
}

func (s *source) Close() error {
	rt.Point()
	if s.closed {
		return fs.ErrClosed
	}
	s.closed = true
	return nil
}

// sink is the writing half of a transport.
type sink struct {
	O       *outParser
	closed  bool
	pieces  bool
	slow    bool
	failAt  int // fails once so many bytes were accepted; <0 never
	lasting bool
	failed  int
	blocked bool // accepts nothing
	midway  bool // a write failed inside a message
	after   int  // bytes written after that
	on      func(b []byte)
}

func (s *sink) Write(b []byte) (int, error) {
	t := &rt.W.T[rt.TIO]
	done := 0
	for {
		rt.Point()
		if s.blocked {
			rt.Block("transport write", func() bool { return !s.blocked || s.closed }, 0)
		}
		if s.closed {
			return done, fs.ErrClosed
		}
		if s.slow && t.Chance(1, 6) {
			rt.Sleep(time.Duration(t.Skewed(400)) * time.Millisecond)
		}
		if s.closed {
			return done, fs.ErrClosed
		}
		n := len(b) - done
		if n == 0 {
			return done, nil
		}
		if s.pieces && n > 1 && t.Chance(1, 2) {
			n = 1 + t.Skewed(n)
		}
		fail := false
		if s.failAt >= 0 && (s.failed == 0 || s.lasting) && s.O.Total+n > s.failAt {
			n = max(0, min(n, s.failAt-s.O.Total))
			fail = true
		}
		if n > 0 {
			if s.midway {
				s.after += n
			}
			rt.Event("transport write %d", n)
			s.O.feed(b[done : done+n])
			if s.on != nil {
				s.on(b[done : done+n])
			}
			done += n
		}
		if fail {
			s.failed++
			if s.O.tail() > 0 {
				s.midway = true
			}
			rt.Count("fault:transport-write", 1)
			rt.Event("transport write fails after %d", s.O.Total)
			return done, []error{syscall.EIO, syscall.ENOSPC, io.ErrClosedPipe, io.ErrShortWrite, syscall.EAGAIN, syscall.EINTR, io.ErrUnexpectedEOF}[rt.W.T[rt.TFault].N(7)]
		}
	}
}

func (s *sink) Close() error {
	rt.Point()
	if s.closed {
		return fs.ErrClosed
	}
	s.closed = true
	return nil
}

// judgeSink: what was written is a sequence of whole messages.
func (s *sink) judge(r *Run, who string) {
	for _, p := range s.O.Replies {
		r.Check("R02")
		if p.Bad != "" {
			r.Violate("R02", "frames", "message of the %s is not one JSON value: %s", who, p.Bad)
		}
	}
	if s.O.Broken != "" {
		r.Violate("R02", "frames", "output of the %s is no sequence of messages: %s", who, s.O.Broken)
	}
	if s.after > 0 {
		r.Violate("R02", "after-partial", "the %s wrote %d bytes after a message of which only a part was written", who, s.after)
	}
	if s.O.tail() > 0 && s.failed == 0 && !s.closed {
		r.Violate("R02", "frames", "output of the %s ends with %d bytes of an incomplete message", who, s.O.tail())
	}
	if s.midway {
		r.Probe("failed-inside-message")
	}
}

// inProc runs f inside a simulated process with a fresh copy of the packages.
func inProc(r *Run, f func(p *kernel.Proc)) *kernel.Proc {
	k := r.K
	k.FS.MkdirAll("/opt")
	k.FS.MkdirAll("/work")
	k.FS.Put("/opt/lib", "ELF", 0755)
	k.Programs["/opt/lib"] = func(p *kernel.Proc) int {
		slot0.Start(p)
		f(p)
		return 0
	}
	return k.Spawn(nil, "/opt/lib", []string{"lib"}, baseEnv, "/work", [3]*kernel.Desc{})
}

// --- library server

type LibArg struct {
	N    int
	Text string
	Gate int
}
type LibReply struct {
	N    int
	Text string
	F    float64 `json:",omitempty"`
}
type LibService struct {
	gates map[int]bool
	order []int
}

func (s *LibService) Echo(a *LibArg, reply *LibReply) error {
	s.order = append(s.order, a.N)
	*reply = LibReply{N: a.N, Text: a.Text}
	return nil
}
func (s *LibService) Big(a *LibArg, reply *LibReply) error {
	*reply = LibReply{N: a.N, Text: strings.Repeat(a.Text, 1+a.N%50*a.Gate)}
	return nil
}
func (s *LibService) Gate(a *LibArg, reply *LibReply) error {
	rt.Block("gate", func() bool { return s.gates[a.Gate] }, 0)
	*reply = LibReply{N: a.N, Text: a.Text}
	return nil
}
func (s *LibService) Fail(a *LibArg, reply *LibReply) error {
	return errors.New("failure <" + a.Text + ">")
}
func (s *LibService) Nan(a *LibArg, reply *LibReply) error {
	*reply = LibReply{N: a.N, F: math.NaN()} // cannot be encoded
	return nil
}

var libTexts = []string{"a", "ünï", "日本語テキスト", "\U0001F600", "quote\"s\\", "\x01\x1f", "end", "{\"id\":7}", "\u2028"}

func libText(w *rt.Tape) string {
	s := libTexts[w.N(len(libTexts))]
	switch w.N(6) {
	case 1:
		s = strings.Repeat(s, 1+w.Skewed(300))
	case 2:
		// around sizes of buffers
		n := []int{512, 1024, 4096, 8192, 65536}[w.N(5)] - 60 + w.N(120)
		s = strings.Repeat("p", n) + s
	}
	return s
}

func padding(w *rt.Tape) string {
	switch w.N(5) {
	case 1:
		return strings.Repeat(" ", 1+w.Skewed(20))
	case 2:
		return "\r\n"
	case 3:
		return strings.Repeat([]string{" ", "\n", "\t", "\r"}[w.N(4)], []int{511, 512, 513, 1, 1024, 1025, 4096}[w.N(7)])
	}
	return ""
}

type libServer struct {
	r    *Run
	src  *source
	snk  *sink
	svc  *LibService
	p    *kernel.Proc
	got  map[string][]*reply
	done bool
}

func newLibServer(r *Run) *libServer {
	l := &libServer{r: r, src: &source{}, snk: &sink{O: &outParser{k: r.K}, failAt: -1}, svc: &LibService{gates: map[int]bool{}}, got: map[string][]*reply{}}
	l.snk.O.On = func(p *reply) { l.got[p.ID] = append(l.got[p.ID], p) }
	return l
}

func (l *libServer) start(mapped bool) {
	l.p = inProc(l.r, func(p *kernel.Proc) {
		srv := rpc.NewServer()
		if err := srv.RegisterName("T", l.svc); err != nil {
			panic(err)
		}
		factory := webextensions.CodecFactory(jsonrpc.NewServerCodec)
		if mapped {
			factory = webextensions.MappedServerCodecFactory(map[string]string{"a.echo": "T.Echo", "a.big": "T.Big", "a.gate": "T.Gate", "a.fail": "T.Fail", "a.nan": "T.Nan"}, jsonrpc.NewServerCodec)
		}
		srv.ServeCodec(webextensions.NewServerCodecSplit(l.src, l.snk, factory))
		l.done = true
	})
}

func libMethod(mapped bool, m string) string {
	if mapped {
		return "a." + strings.ToLower(m)
	}
	return "T." + m
}

func libMessage(id int, method string, a *LibArg, pad string) []byte {
	b, _ := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": id, "method": method, "params": []any{a}})
	return frame(append(b, pad...))
}

// feed puts bytes into the source in pieces.
func (s *source) feed(b []byte, pieces bool) {
	t := &rt.W.T[rt.TIO]
	for len(b) > 0 {
		n := len(b)
		if pieces && n > 1 && t.Chance(1, 2) {
			n = 1 + t.Skewed(n)
		}
		s.buf = append(s.buf, b[:n]...)
		b = b[n:]
		rt.Point()
		if pieces && t.Chance(1, 5) {
			rt.Sleep(time.Duration(t.Skewed(30)) * time.Millisecond)
		}
	}
}

func fragment(c *rt.Tape, s *source) {
	s.frag = 1 + c.N(3)
	s.max = []int{0, 1, 3, 40, 600}[c.N(5)]
	s.zero = c.N(3) == 1
	s.join = c.N(3) == 1
}

// huge: one run of many has a message of megabytes, up to the largest one
// browsers send. It is the text of message number at.
func huge(c *rt.Tape, n int) (at int, text string) {
	if c.N(800) != 1 {
		return -1, ""
	}
	size := []int{1 << 20, 1 << 20, 3 << 20, 1 << 24, 1 << 26}[c.Skewed(5)]
	rt.Count("io:message-of-megabytes", 1)
	return c.N(n), strings.Repeat("0123456789abcde\n", size/16+c.N(100)-50)
}

// runCodecFrag feeds one half of the library with a fragmented stream.
func runCodecFrag(r *Run) {
	if r.C().N(2) == 1 {
		clientFrag(r)
		return
	}
	c, w := r.C(), r.W()
	l := newLibServer(r)
	fragment(c, l.src)
	mapped := c.N(2) == 1
	gated := c.N(2) == 1
	pieces := c.N(2) == 1
	eager := c.N(4) == 1 // nothing at all before the end of input
	l.start(mapped)
	n := 1 + c.Skewed(10)
	var args []*LibArg
	failed := false
	hugeAt, hugeText := huge(c, n)
	for i := 0; i < n; i++ {
		a := &LibArg{N: i + 1, Text: libText(w)}
		if i == hugeAt {
			a.Text = hugeText
		}
		args = append(args, a)
		msg := libMessage(i+1, libMethod(mapped, "Echo"), a, padding(w))
		r.Say("message of %d bytes", len(msg))
		if eager {
			l.src.buf = append(l.src.buf, msg...)
		} else {
			l.src.feed(msg, pieces)
		}
		if i == n-1 && (l.src.join || eager) {
			l.src.ended = true // the end is known together with the last bytes
		}
		if gated && !eager {
			id := fmt.Sprint(i + 1)
			if !waitUntil("reply", l.p, patience, func() bool { return len(l.got[id]) > 0 }) {
				r.Violate("R03", "waits", "message %d of %d bytes was not handled though all its bytes had arrived; the server %s, tasks wait for %v", i+1, len(msg), (&host{P: l.p}).exitText(), stuckOf(l.p.Grp))
				failed = true
				break
			}
		}
	}
	l.src.ended = true
	if !waitUntil("end of server", nil, patience, func() bool { return l.p.Exited }) && !failed {
		r.Violate("R03", "no-end", "the server did not end after the end of input, tasks wait for %v", stuckOf(l.p.Grp))
	}
	if l.p.Crash != "" {
		r.Violate("R03", "crash", "%s", l.p.Crash)
	}
	if failed {
		return
	}
	if l.snk.O.Broken != "" {
		r.Violate("R03", "broken-output", "%s", l.snk.O.Broken)
		return
	}
	for i, a := range args {
		r.Check("R03")
		got := l.got[fmt.Sprint(i+1)]
		if len(got) != 1 {
			r.Violate("R03", "count", "message %d of %d bytes got %d replies", i+1, len(a.Text), len(got))
			continue
		}
		var v LibReply
		if json.Unmarshal(got[0].Result, &v) != nil || v.N != a.N || v.Text != a.Text {
			r.Violate("R03", "content", "message %d was decoded as %s", i+1, clip(string(got[0].Raw), 300))
		}
	}
	if len(l.snk.O.Replies) != len(args) {
		r.Violate("R03", "count", "%d messages, %d replies", len(args), len(l.snk.O.Replies))
	}
}

// clientFrag: the client half decodes fragmented replies.
func clientFrag(r *Run) {
	c, w := r.C(), r.W()
	src := &source{}
	fragment(c, src)
	src.zero = false
	snk := &sink{O: &outParser{k: r.K}, failAt: -1, pieces: c.N(2) == 1}
	n := 1 + c.Skewed(10)
	par := 1 + c.N(n)
	pieces := c.N(2) == 1
	type ask struct {
		id  string
		arg LibArg
	}
	var asked []ask
	dec := &outParser{k: r.K}
	dec.On = func(p *reply) {
		var m struct{ Params []LibArg }
		if json.Unmarshal(p.Raw, &m) == nil && len(m.Params) == 1 {
			asked = append(asked, ask{p.ID, m.Params[0]})
		} else {
			r.Violate("R03", "request", "odd request %s", clip(string(p.Raw), 200))
		}
	}
	snk.on = dec.feed
	type res struct {
		arg  LibArg
		rep  LibReply
		err  error
		done bool
	}
	hugeAt, hugeText := huge(c, n)
	var results []*res
	started := 0
	p := inProc(r, func(p *kernel.Proc) {
		cl := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(src, snk, jsonrpc.NewClientCodec))
		live := 0
		for i := 0; i < n; i++ {
			rt.Block("client window", func() bool { return live < par }, 0)
			x := &res{arg: LibArg{N: i + 1, Text: libText(w)}}
			if i == hugeAt {
				x.arg.Text = hugeText
			}
			results = append(results, x)
			live++
			started++
			rt.Go(func() {
				x.err = cl.Call("T.Echo", &x.arg, &x.rep)
				x.done = true
				live--
			})
		}
		rt.Block("calls", func() bool { return live == 0 }, rt.W.Now()+int64(2*patience))
		cl.Close()
	})
	for answered := 0; answered < n && !p.Exited; {
		if !waitUntil("request", p, patience, func() bool { return len(asked) > answered }) {
			break
		}
		a := asked[answered]
		answered++
		body := fmt.Sprintf(`{"id":%s,"result":%s,"error":null}`, a.id, jstr(LibReply{N: a.arg.N, Text: a.arg.Text}))
		src.feed(frame([]byte(body+padding(w))), pieces)
	}
	waitUntil("client", nil, 3*patience, func() bool { return p.Exited })
	if p.Crash != "" {
		r.Violate("R03", "crash", "%s", p.Crash)
	}
	for _, x := range results {
		r.Check("R03")
		switch {
		case !x.done:
			r.Violate("R03", "waits", "reply to call %d was not decoded though all its bytes had arrived", x.arg.N)
		case x.err != nil:
			r.Violate("R03", "content", "call %d of %d bytes failed: %v", x.arg.N, len(x.arg.Text), x.err)
		case x.rep.N != x.arg.N || x.rep.Text != x.arg.Text:
			r.Violate("R03", "content", "call %d was answered with %d %q", x.arg.N, x.rep.N, clip(x.rep.Text, 100))
		}
	}
}

// --- R02

func runR02(r *Run) {
	switch r.C().N(3) {
	case 0:
		serverFrames(r)
	case 1:
		clientFrames(r)
	case 2:
		sessionFrames(r)
	}
}

func transport(r *Run, s *sink) {
	c, f := r.C(), r.F()
	s.pieces = c.N(4) != 3
	s.slow = c.N(3) == 1
	if c.N(2) == 1 {
		s.failAt = f.Skewed(3000)
		if f.N(4) == 1 {
			s.failAt = f.N(100000)
		}
		s.lasting = f.N(3) == 0
	}
}

func serverFrames(r *Run) {
	c, w := r.C(), r.W()
	l := newLibServer(r)
	transport(r, l.snk)
	mapped := c.N(2) == 1
	l.start(mapped)
	n := 2 + c.Skewed(14)
	if c.N(1500) == 1499 {
		n = 300 + c.N(900)
		rt.Count("env:marathon", 1)
	}
	hugeAt, hugeText := huge(c, n)
	for i := 0; i < n; i++ {
		m := []string{"Echo", "Big", "Gate", "Fail", "Nan", "Nothing", "Echo"}[w.N(7)]
		a := &LibArg{N: i + 1, Text: libText(w), Gate: w.N(4)}
		if i == hugeAt {
			a.Text = hugeText
		}
		l.src.feed(libMessage(i+1, libMethod(mapped, m), a, ""), false)
		if w.N(4) == 1 {
			rt.Sleep(time.Duration(w.Skewed(1000)) * time.Millisecond)
		}
		if w.N(5) == 1 {
			l.svc.gates[w.N(4)] = true
		}
	}
	for g := 0; g < 4; g++ {
		l.svc.gates[g] = true
	}
	if w.N(3) != 1 {
		rt.Idle(time.Duration(w.Skewed(3000)) * time.Millisecond)
	}
	l.src.ended = true
	waitUntil("end of server", nil, patience, func() bool { return l.p.Exited })
	if l.p.Crash != "" {
		r.Violate("R02", "crash", "%s", l.p.Crash)
	}
	r.Say("%d requests, transport fails at %d", n, l.snk.failAt)
	closed := l.snk.closed
	if l.p.Exited && l.done {
		l.snk.closed = false // the server closes its end; all had been sent by then
	}
	l.snk.judge(r, "server")
	l.snk.closed = closed
}

func clientFrames(r *Run) {
	c, w := r.C(), r.W()
	src := &source{}
	snk := &sink{O: &outParser{k: r.K}, failAt: -1}
	transport(r, snk)
	snk.O.On = func(p *reply) {
		if w.N(8) != 7 {
			src.buf = append(src.buf, frame([]byte(fmt.Sprintf(`{"id":%s,"result":{"N":1},"error":null}`, p.ID)))...)
		}
	}
	tasks := 1 + c.N(6)
	per := 1 + c.Skewed(6)
	live := tasks
	p := inProc(r, func(p *kernel.Proc) {
		cl := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(src, snk, jsonrpc.NewClientCodec))
		for t := 0; t < tasks; t++ {
			rt.Go(func() {
				for i := 0; i < per; i++ {
					var rep LibReply
					var arg any = &LibArg{N: i, Text: libText(w)}
					if w.N(7) == 1 {
						arg = map[string]any{"f": math.Inf(1)}
					}
					call := cl.Go("T.Echo", arg, &rep, make(chan *rpc.Call, 4))
					if w.N(3) == 1 {
						rt.Block("reply", func() bool { return len(call.Done) > 0 }, rt.W.Now()+int64(time.Second))
					}
				}
				live--
			})
		}
		rt.Block("senders", func() bool { return live == 0 }, rt.W.Now()+int64(patience))
		if w.N(2) == 1 {
			cl.Close()
		}
	})
	waitUntil("client", nil, 2*patience, func() bool { return p.Exited })
	if p.Crash != "" {
		r.Violate("R02", "crash", "%s", p.Crash)
	}
	r.Say("%d tasks with %d calls each, transport fails at %d", tasks, per, snk.failAt)
	snk.judge(r, "client")
}

func sessionFrames(r *Run) {
	c := r.C()
	cfg := general(r)
	rough(r, &cfg)
	cfg.Kinds["mentions"] += 4
	cfg.Kinds["linkSet"] += 2
	cfg.Window = cfg.Reqs + 1
	cfg.SlowOut = c.N(2) == 1
	s := newSession(r, cfg)
	s.start()
	broken := c.N(3) == 1
	if broken {
		s.h.Out.BreakAfter = int64(r.F().Skewed(3000))
		s.breakOut = true
	}
	var qs []*req
	for i := 0; i < cfg.Reqs; i++ {
		qs = append(qs, s.make(s.pick()))
	}
	s.sendAll(qs)
	if r.W().N(2) == 1 {
		waitUntil("all answered", s.h.P, patience, s.settled)
	}
	s.finish("eof")
	s.judge()
}

// --- R07

// peerScript says how the peer of a client behaves.
type libCall struct {
	n       int
	arg     LibArg
	rep     LibReply
	call    *rpc.Call
	id      string
	sent    []string // outcomes the peer sent for it, complete: "result" or "error:<text>"
	started bool
	seen    int   // completions
	doneNs  int64 // when
	first   error
	begun   int64
	late    bool // started after the connection was lost or closed
}

func runR07(r *Run) {
	c, w, f := r.C(), r.W(), r.F()
	k := r.K
	baseFS(k)
	cmdMode := c.N(3) != 0 // a real child process behind NewClientCommand
	n := 1 + c.Skewed(12)
	tasks := 1 + c.N(min(n, 5))
	if c.N(1500) == 1499 {
		n = 300 + c.N(900)
		tasks = 1 + c.N(60)
		rt.Count("env:marathon", 1)
	}
	var calls []*libCall
	for i := 0; i < n; i++ {
		calls = append(calls, &libCall{n: i, arg: LibArg{N: 1000 + i, Text: libText(w)}})
	}
	byN := map[int]*libCall{}
	for _, x := range calls {
		byN[x.arg.N] = x
	}
	maxIn := []uint32{0, 2000, 200000}[c.N(3)]
	// the fate of the connection
	fate := []string{"none", "none", "close-out", "die", "garbage", "truncate", "oversize", "read-error", "mute", "badvalue", "exit-early"}[f.Weighted(4, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1)]
	if !cmdMode && (fate == "die" || fate == "exit-early") {
		fate = "close-out"
	}
	if cmdMode && fate == "read-error" {
		fate = "die"
	}
	fateAt := f.N(n + 1) // after so many replies
	closeAt := -1        // the client is closed when so many calls were started
	closeDelay := time.Duration(0)
	if c.N(2) == 1 {
		closeAt = c.N(n + 1)
		closeDelay = time.Duration(c.Skewed(3000)) * time.Millisecond
	}
	r.Say("%d calls by %d tasks, child process %v, peer: %s after %d replies, closed at %d", n, tasks, cmdMode, fate, fateAt, closeAt)

	var fromClient *kernel.Pipe // cmd mode
	src := &source{}
	snk := &sink{O: &outParser{k: k}, failAt: -1, pieces: c.N(2) == 1, slow: c.N(3) == 1}
	// the peer cannot be started
	noStart, startFaults := cmdMode && f.N(24) == 23, false
	sure := fate == "none" // there is no reason for a call to stay unanswered till the client is closed
	lost := false          // the peer did something after which replies need not be understood
	var pending []*libCall
	dec := &outParser{k: k}
	badReq := ""
	dec.On = func(p *reply) {
		var m struct{ Params []LibArg }
		if p.Bad != "" || json.Unmarshal(p.Raw, &m) != nil || len(m.Params) != 1 || byN[m.Params[0].N] == nil {
			badReq = clip(string(p.Raw), 200)
			return
		}
		x := byN[m.Params[0].N]
		x.id = p.ID
		pending = append(pending, x)
	}
	snk.on = dec.feed
	if c.N(5) == 1 && !cmdMode {
		snk.failAt = f.Skewed(2000)
		snk.lasting = f.N(2) == 1
	}
	noReadFor := time.Duration(0)
	if c.N(5) == 1 {
		noReadFor = time.Duration(f.N(20000)) * time.Millisecond
	}
	// peer sends bytes through send and closes through closeOut
	frag := c.N(2) == 1
	peer := func(send func(b []byte) bool, closeOut func(), ended func() bool) bool {
		replies := 0
		io := &rt.W.T[rt.TIO]
		put := func(b []byte) bool {
			for len(b) > 0 {
				m := len(b)
				if frag && m > 1 && io.Chance(1, 2) {
					m = 1 + io.Skewed(m)
				}
				if !send(b[:m]) {
					return false
				}
				b = b[m:]
				rt.Point()
			}
			return true
		}
		for {
			if fate != "none" && replies >= fateAt {
				rt.Count("fault:peer-"+fate, 1)
				rt.Event("peer: %s", fate)
				lost = true
				sure = true
				switch fate {
				case "close-out":
					closeOut()
				case "die", "exit-early":
					return true
				case "mute", "badvalue":
					sure = false
				case "garbage":
					g := []string{"\x05\x00\x00\x00{bad}", "\x02\x00\x00\x00[]", "\x00\x00\x00\x00", "GARBAGE!", "\x04\x00\x00\x00null", "\x0c\x00\x00\x00{\"id\":\"text\"}", "\x03\x00\x00\x00{}x"}[f.N(7)]
					put([]byte(g))
					if f.N(2) == 1 {
						closeOut()
					} else {
						sure = false // it may be waiting for the rest
					}
				case "truncate":
					full := []byte{}
					if len(pending) > 0 {
						full = frame([]byte(fmt.Sprintf(`{"id":%s,"result":%s,"error":null}`, pending[0].id, jstr(LibReply{N: pending[0].arg.N, Text: pending[0].arg.Text}))))
					} else {
						full = frame([]byte(`{"id":0,"result":{},"error":null}`))
					}
					put(full[:1+f.N(len(full)-1)])
					closeOut()
				case "oversize":
					lim := maxIn
					if lim == 0 {
						lim = 1 << 30
					}
					put(binary.NativeEndian.AppendUint32(nil, lim+1+uint32(f.N(1000))))
					put([]byte(`{"id":0,"result":{"N":1},"error":null}`))
				case "read-error":
					src.err = syscall.EIO
				}
				if fate == "badvalue" {
					if len(pending) > 0 {
						put(frame([]byte(fmt.Sprintf(`{"id":%s,"result":"text","error":null}`, pending[0].id))))
					}
				}
				return false
			}
			if !rt.Block("peer input", func() bool { return len(pending) > 0 || ended() }, rt.W.Now()+int64(time.Hour)) {
				return false
			}
			if len(pending) == 0 {
				return false
			}
			if io.Chance(1, 2) {
				rt.Sleep(time.Duration(io.Skewed(800)) * time.Millisecond)
			}
			i := f.N(len(pending))
			x := pending[i]
			pending = append(pending[:i:i], pending[i+1:]...)
			var body, out string
			switch f.N(10) {
			case 1, 2:
				out = "error:bad <" + fmt.Sprint(x.arg.N) + ">"
				body = fmt.Sprintf(`{"id":%s,"result":null,"error":%s}`, x.id, jstr(out[6:]))
			case 3:
				// somebody unknown first
				if !put(frame([]byte(fmt.Sprintf(`{"id":%d,"result":{"N":-1,"Text":"stray"},"error":%s}`, 100000+f.N(1000), []string{"null", "\"stray\""}[f.N(2)])))) {
					return false
				}
				rt.Count("fault:peer-unknown-id", 1)
				fallthrough
			default:
				out = "result"
				body = fmt.Sprintf(`{"id":%s,"result":%s,"error":null}`, x.id, jstr(LibReply{N: x.arg.N, Text: x.arg.Text}))
			}
			full := body + padding(f)
			if maxIn != 0 && len(full) > int(maxIn) {
				lost = true // the client must refuse it
				out = "toolarge"
			}
			// the reply may be complete for the client before its padding is
			x.sent = append(x.sent, out)
			if !put(frame([]byte(full))) {
				return false
			}
			replies++
			if f.N(12) == 11 {
				// the same again
				rt.Count("fault:peer-duplicate", 1)
				if !put(frame([]byte(body))) {
					return false
				}
			}
			if f.N(16) == 15 {
				noReadFor = time.Duration(f.N(5000)) * time.Millisecond
			}
		}
	}
	var peerProc *kernel.Proc
	peerExit := f.N(4) == 1
	if cmdMode {
		k.FS.Put("/opt/peer", "ELF", 0755)
		k.Programs["/opt/peer"] = func(p *kernel.Proc) int {
			peerProc = p
			eof := false
			rt.Go(func() {
				buf := make([]byte, 4096)
				for {
					if noReadFor > 0 {
						d := noReadFor
						noReadFor = 0
						rt.Sleep(d)
					}
					n, err, end := p.In(buf)
					if end || err != nil {
						eof = true
						return
					}
					dec.feed(buf[:n])
				}
			})
			if peer(func(b []byte) bool { return p.Out(1, b) == nil }, func() { p.CloseStd(1) }, func() bool { return eof }) {
				return 3
			}
			// it ends when its input does
			rt.Block("peer", func() bool { return eof }, 0)
			if peerExit {
				rt.Sleep(time.Duration(f.Skewed(4000)) * time.Millisecond)
			}
			return 0
		}
	}
	_ = fromClient
	var started, finished int
	closed, closing := false, false
	var closeNs, closedNs int64
	startErr := ""
	proc := inProc(r, func(p *kernel.Proc) {
		if maxIn != 0 {
			webextensions.MaxInSize = maxIn
		}
		var cl *rpc.Client
		var closer io.Closer
		if cmdMode {
			if noStart {
				k.Rates["exec:other"], k.Rates["pipe:pipe"], k.Budget = 2, 3, 1+f.N(2)
			}
			cc, err := webextensions.NewClientCommand([]string{"/opt/peer", "arg"})
			if noStart {
				k.Budget = 0
				if k.FaultsSince(0, "") > 0 {
					// each call must fail at once if the client exists at all
					startFaults, lost, sure = true, true, true
				}
			}
			if err != nil {
				startErr = err.Error()
				return
			}
			cl, closer = cc.Client, cc
		} else {
			cl = rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(src, snk, jsonrpc.NewClientCodec))
			closer = cl
		}
		doClose := func() {
			if closing {
				return
			}
			closing = true
			closeNs = rt.W.Now()
			rt.Event("client is closed")
			closer.Close()
			closed = true
			closedNs = rt.W.Now()
			rt.Event("close returned")
		}
		next := 0
		for t := 0; t < tasks; t++ {
			rt.Go(func() {
				for next < len(calls) {
					x := calls[next]
					next++
					x.begun = rt.W.Now()
					x.late = closed
					x.call = cl.Go("T.Echo", &x.arg, &x.rep, make(chan *rpc.Call, 8))
					x.started = true
					started++
					rt.Event("call %d started", x.n)
					if f.N(3) != 1 {
						rt.Block("completion", func() bool { return len(x.call.Done) > 0 }, rt.W.Now()+int64(patience))
						finished++
					} else if f.N(2) == 1 {
						rt.Sleep(time.Duration(f.Skewed(500)) * time.Millisecond)
					}
				}
			})
		}
		if closeAt >= 0 {
			rt.Block("time to close", func() bool { return started >= closeAt }, rt.W.Now()+int64(patience))
			if closeDelay > 0 {
				rt.Sleep(closeDelay)
			}
			doClose()
		}
		rt.Block("calls to start", func() bool { return started == len(calls) }, rt.W.Now()+int64(2*patience))
		complete := func() bool {
			for _, x := range calls {
				if x.call != nil && len(x.call.Done) == 0 {
					return false
				}
			}
			return true
		}
		// a peer that went silent never answers: the client gets closed then
		ok := rt.Block("completions", complete, rt.W.Now()+int64(2*patience))
		if !ok && !sure && !closing {
			doClose()
			ok = rt.Block("completions", complete, rt.W.Now()+int64(2*patience))
		}
		// extra completions would come late
		rt.Sleep(10 * time.Minute)
		for _, x := range calls {
			if x.call == nil {
				continue
			}
			x.seen = len(x.call.Done)
			x.first = x.call.Error
		}
		if !closing {
			doClose()
		}
	})
	if !cmdMode {
		rt.Go(func() {
			peer(func(b []byte) bool {
				if src.closed {
					return false
				}
				src.buf = append(src.buf, b...)
				return true
			}, func() { src.ended = true }, func() bool { return snk.closed })
		})
	}
	waitUntil("client process", nil, 20*patience, func() bool { return proc.Exited })
	if proc.Crash != "" {
		r.Violate("R07", "crash", "%s", proc.Crash)
		return
	}
	if startErr != "" && startFaults {
		r.Check("R07")
		r.Probe("peer-not-started")
		if peerProc != nil && !peerProc.Exited {
			r.Violate("R07", "start-leak", "the client could not be created (%s) but the peer runs", startErr)
		}
		return
	}
	if startFaults && peerProc == nil {
		r.Violate("R07", "start-unreported", "a client was returned though its peer could not be started")
		return
	}
	if startErr != "" {
		r.Violate("R07", "start", "the client could not be created: %s", startErr)
		return
	}
	if badReq != "" {
		r.Violate("R07", "request", "the peer received %s", badReq)
	}
	if closing && !closed {
		r.Violate("R07", "close-hangs", "closing the client did not return; tasks wait for %v", stuckOf(proc.Grp))
		return
	}
	if !proc.Exited {
		r.Violate("R07", "hangs", "the client process hangs; tasks wait for %v", stuckOf(proc.Grp))
		return
	}
	if closed && closedNs-closeNs > int64(patience) {
		r.Violate("R07", "close-slow", "closing the client took %v", time.Duration(closedNs-closeNs))
	}
	undisturbed := !lost && closeAt < 0 && snk.failed == 0
	for _, x := range calls {
		if !x.started {
			r.Violate("R07", "never-started", "call %d could not be started", x.n)
			continue
		}
		r.Check("R07")
		if x.seen != 1 {
			r.Violate("R07", "completions", "call %d completed %d times (peer: %s, closed %v)", x.n, x.seen, fate, closed)
			continue
		}
		err := x.first
		_, isServer := err.(rpc.ServerError)
		if err == nil {
			r.Probe("call-ok")
			if x.rep.N != x.arg.N || x.rep.Text != x.arg.Text {
				r.Violate("R07", "foreign-result", "call %d got the result %d %q", x.n, x.rep.N, clip(x.rep.Text, 80))
			}
			if len(x.sent) == 0 || x.sent[0] != "result" {
				if !contains(x.sent, "result") && fate != "truncate" {
					r.Violate("R07", "foreign-result", "call %d got a result though the peer sent %v for it", x.n, x.sent)
				}
			}
			continue
		}
		if isServer {
			r.Probe("call-peer-error")
			if !contains(x.sent, "error:"+err.Error()) && !lost {
				r.Violate("R07", "foreign-error", "call %d got the error %q though the peer sent %v for it", x.n, err, x.sent)
			}
			continue
		}
		r.Probe("call-transport-error")
		if undisturbed {
			r.Violate("R07", "needless-error", "call %d failed with %q on a sound connection; the peer sent %v", x.n, err, x.sent)
		}
	}
	if cmdMode && peerProc != nil && closed && fate == "none" {
		if !peerProc.Reaped {
			r.Violate("R07", "unreaped", "the peer process was not waited for")
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
