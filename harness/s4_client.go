//go:build go1.27

package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	slot1 "gen.local/s1"
	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

func init() {
	props["R19"] = &propDef{run: runR19, quick: 60000, deep: 3000000,
		real:   []string{"tools/burl_client", "pkg/webextensions (client)", "net/rpc, net/rpc/jsonrpc", "os/exec", "cmd/burl_backend (a part of the cases)"},
		stub:   []string{"kernel (files, pipes, processes)", "a scripted backend (a part of the cases)", "emacsclient and Emacs", "goroutine scheduler"},
		rule:   "a case is one execution of the client with a seeded subcommand against a scripted or the real backend that misbehaves at a seeded point; non-trivial if the exit status was judged",
		assume: []string{"a backend that neither answers nor closes anything is waited for, as documented by the property"},
	}
}

const exeClient = "/opt/burl/burl_client"

func clientProgram(p *kernel.Proc) int {
	slot1.Start(p)
	slot1.Mains["tools/burl_client"]()
	return 0
}

// clientCmd is one subcommand and the request it stands for.
type clientCmd struct {
	args   []string
	method string
	param  any // what the parameter has to contain
	bad    bool
}

func genClientCmd(w *rt.Tape, files []string) *clientCmd {
	c := &clientCmd{}
	url := func() string { return "https://" + fmt.Sprintf("f%d.example/v0/p%d", w.N(3), w.N(4)) }
	switch w.N(8) {
	case 0:
		c.args = []string{"hello"}
		c.method = "linkremark.hello"
		c.param = map[string]any{"version": "0.2"}
	case 1:
		p := map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}, "version": "0." + fmt.Sprint(w.N(9))}
		c.args = []string{"hello", jstr(p)}
		c.method = "linkremark.hello"
		c.param = p
	case 2:
		u := "org-protocol:/capture?template=c&url=" + url() + []string{"", "&title=a%20b", "'\"\\"}[w.N(3)]
		c.args = []string{"capture", u}
		c.method = "linkremark.capture"
		c.param = map[string]any{"format": "org-protocol", "version": "0.2", "data": map[string]any{"url": u}}
	case 3, 4:
		var u []any
		c.args = []string{"mentions"}
		for i := w.N(3); i >= 0; i-- {
			u = append(u, url())
			if w.N(16) == 1 {
				u[len(u)-1] = []string{"--", "-", "--help", "-x"}[w.N(4)]
			}
			c.args = append(c.args, u[len(u)-1].(string))
		}
		c.method = "linkremark.urlMentions"
		c.param = map[string]any{"variants": u}
	case 5:
		f := "/home/u/notes/x.org"
		if len(files) > 0 {
			f = files[w.N(len(files))]
		}
		n := w.N(4)
		c.args = []string{"visit", "--file", f}
		if n > 0 {
			c.args = []string{"visit", "-line", fmt.Sprint(n), "-file=" + f}
		}
		c.method = "linkremark.visit"
		c.param = map[string]any{"file": f, "lineNo": float64(n)}
	case 6:
		var u []any
		c.args = []string{"set"}
		for i := w.N(3); i >= 0; i-- {
			u = append(u, []string{"https://", "http:", "https://f0.example/", "nonsense"}[w.N(4)])
			c.args = append(c.args, u[len(u)-1].(string))
		}
		c.method = "linkremark.linkSet"
		c.param = map[string]any{"prefix": u}
	case 7:
		c.bad = true
		c.args = [][]string{{"nothing"}, {"capture"}, {"hello", "{"}, {"visit", "--line", "x"}, {"capture", "a", "b"}}[w.N(5)]
	}
	return c
}

// covers tells whether got has everything that want has.
func covers(got, want any) bool {
	w, ok := want.(map[string]any)
	if !ok {
		return reflect.DeepEqual(got, want)
	}
	g, ok := got.(map[string]any)
	if !ok {
		return false
	}
	for k := range w {
		if !covers(g[k], w[k]) {
			return false
		}
	}
	return true
}

// genJSON makes some result.
func genJSON(w *rt.Tape, deep int) any {
	switch w.N(9) {
	case 0:
		return map[string]any{"preview": w.N(2) == 1, "status": "success"}
	case 1:
		return strings.Repeat([]string{"x", "ü", "\"", "<&>", "\n", "日本 "}[w.N(6)], w.Skewed(3000))
	case 2:
		return float64(w.N(100000)) / 4
	case 3:
		return w.N(2) == 1
	case 4:
		if deep > 3 {
			return "deep"
		}
		l := []any{}
		for i := w.N(5); i > 0; i-- {
			l = append(l, genJSON(w, deep+1))
		}
		return l
	case 5:
		n := 10000 + w.Skewed(40000)
		if w.N(100) == 1 && deep == 0 {
			n *= 1 + w.N(20)
		}
		return strings.Repeat("long ", n)
	case 6:
		return ""
	case 7:
		return map[string]any{}
	}
	if deep > 3 {
		return 7.0
	}
	m := map[string]any{}
	for i := w.N(4); i > 0; i-- {
		m[fmt.Sprintf("k%d", i)] = genJSON(w, deep+1)
	}
	if deep > 0 && w.N(3) == 1 {
		m["nil"] = nil
	}
	return m
}

// printedIs tells whether out is exactly the value.
func printedIs(out string, want any, set bool) string {
	dec := json.NewDecoder(strings.NewReader(out))
	var got any
	if err := dec.Decode(&got); err != nil {
		return fmt.Sprintf("no complete JSON value (%v)", err)
	}
	if rest := strings.TrimSpace(out[dec.InputOffset():]); rest != "" {
		return fmt.Sprintf("followed by %q", clip(rest, 80))
	}
	if set {
		got, want = sortURLs(got), sortURLs(want)
	}
	if !reflect.DeepEqual(got, want) {
		return "another value: " + clip(jstr(got), 300) + " instead of " + clip(jstr(want), 300)
	}
	return ""
}

func sortURLs(v any) any {
	m, _ := v.(map[string]any)
	l, _ := m["urls"].([]any)
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprint(x))
	}
	sort.Strings(s)
	return s
}

func runR19(r *Run) {
	c, w, f := r.C(), r.W(), r.F()
	k := r.K
	baseFS(k)
	k.FS.Put(exeClient, "ELF client", 0755)
	k.Programs[exeClient] = clientProgram
	k.FS.MkdirAll("/out")
	k.FS.MkdirAll("/opt/dir")
	class := k.Class
	k.Class = func(p string) string {
		switch {
		case strings.HasPrefix(p, "/out/"):
			return "out"
		case strings.HasPrefix(p, "/opt/"):
			return "peer"
		}
		return class(p)
	}
	o := &progOpt{slow: c.N(3) == 1}
	// the output device
	device := []string{"pipe", "file", "small-pipe", "broken-pipe", "full-file"}[f.Weighted(5, 2, 1, 2, 2)]
	switch device {
	case "file", "full-file":
		o.outPath = "/out/reply"
		o.outFile = k.FS.Put(o.outPath, "", 0644)
		if device == "full-file" {
			k.Rates["write:out"] = 1 + f.N(2)
			k.Budget = 1
			if f.N(2) == 1 {
				k.Budget = 1000
			}
		}
	case "small-pipe":
		o.outCap = 512
	case "broken-pipe":
		o.breaks = true
		o.outBreak = int64(f.Skewed(200))
		if f.N(4) == 1 {
			o.outBreak = int64(f.Skewed(200000))
		}
	}
	if c.N(4) == 3 {
		k.Rates["exec:peer"], k.Rates["pipe:pipe"] = 2, 3
		k.Budget = 1
		if device == "full-file" {
			k.Rates["write:out"] = 0
			device = "file"
		}
	}
	if c.N(3) == 2 {
		realBackend(r, o, device)
	} else {
		scriptedBackend(r, o, device)
	}
	_ = w
}

// expect is what is known of the backend's part.
type expect struct {
	peer     *kernel.Proc
	answered bool // the whole result has been sent
	result   any
	set      bool
	normal   bool // it ends normally
	sound    bool // nothing went wrong: success is expected
	reason   string
	silent   func() bool // its output is closed without an answer, or it is gone
}

// judgeClient decides about the end of the client.
func judgeClient(r *Run, g *prog, args []string, e *expect) {
	k := r.K
	r.Check("R19")
	if !g.P.Exited {
		if e.silent() {
			r.Violate("R19", "hangs", "the client %q hangs though %s; tasks wait for %v", args, e.reason, stuckOf(g.P.Grp))
		} else if e.answered {
			r.Violate("R19", "hangs", "the client %q hangs though the backend answered and ended; tasks wait for %v", args, stuckOf(g.P.Grp))
		} else {
			r.Probe("client-waits")
		}
		return
	}
	if g.P.Crash != "" {
		r.Violate("R19", "crash", "the client %q: %s", args, g.text())
		return
	}
	out := g.output()
	if g.ok() {
		r.Probe("client-success")
		switch {
		case !e.answered:
			r.Violate("R19", "false-success", "the client %q reported success though %s; it printed %q", args, e.reason, clip(out, 200))
		case !e.normal:
			r.Violate("R19", "false-success", "the client %q reported success though %s", args, e.reason)
		default:
			if why := printedIs(out, e.result, e.set); why != "" {
				r.Violate("R19", "output", "the client %q reported success, its output %q is %s", args, clip(out, 200), why)
			}
		}
		if e.peer != nil && (!e.peer.Exited || !e.peer.Reaped || e.peer.EndSeq > g.P.EndSeq) {
			r.Violate("R19", "left-running", "the client %q reported success before the backend ended", args)
		}
		return
	}
	r.Probe("client-failure")
	if len(g.Err) == 0 && g.P.Sig == 0 {
		r.Violate("R19", "silent", "the client %q failed without a message: %s", args, g.text())
	}
	if e.sound && e.answered && e.normal && k.FaultsSince(0, "") == 0 {
		r.Violate("R19", "false-failure", "the client %q failed though nothing went wrong: %s", args, g.text())
	}
}

func scriptedBackend(r *Run, o *progOpt, device string) {
	c, w, f := r.C(), r.W(), r.F()
	k := r.K
	cmd := genClientCmd(w, nil)
	e := &expect{}
	fates := []string{"ok", "error", "both", "die-first", "die-asked", "truncate", "status-early", "status-late", "killed", "close-out", "garbage", "unknown-first", "unknown-only", "more", "close-in", "mute", "oversize", "missing", "no-exec", "directory", "null", "linger"}
	fate := fates[f.Weighted(8, 3, 1, 2, 2, 5, 2, 2, 2, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2)]
	exe := "/opt/peer"
	k.FS.Put("/opt/peer", "ELF", 0755)
	switch fate {
	case "missing":
		exe = []string{"/opt/none", "none"}[f.N(2)]
	case "no-exec":
		k.FS.Put("/opt/peer", "ELF", 0644)
	case "directory":
		exe = "/opt/dir"
	}
	e.result = genJSON(w, 0)
	e.sound = !cmd.bad && (fate == "ok" || fate == "linger") && (device == "pipe" || device == "file" || device == "small-pipe")
	e.reason = "the backend did: " + fate
	status := []int{1, 3, 127, 2, 9, 100, 126, 128, 129, 141, 200, 254, 255}[f.N(13)]
	signal := []syscall.Signal{syscall.SIGKILL, syscall.SIGSEGV, syscall.SIGPIPE}[f.N(3)]
	frag := c.N(2) == 1
	io := &rt.W.T[rt.TIO]
	wait := func() {
		if io.Chance(1, 2) {
			d := time.Duration(io.Skewed(30000)) * time.Millisecond
			if io.Chance(1, 20) {
				d = time.Duration(20+io.Skewed(7200)) * time.Second // the user has to decide something
				rt.Count("fault:backend-slow", 1)
			}
			rt.Sleep(d)
		}
	}
	var requests []string
	badReq := ""
	outClosed := false
	k.Programs["/opt/peer"] = func(p *kernel.Proc) int {
		e.peer = p
		eof := false
		dec := &outParser{k: k}
		asked := 0
		id := "0"
		dec.On = func(q *reply) {
			asked++
			requests = append(requests, clip(string(q.Raw), 300))
			var m struct {
				Method string
				Params []any
				Id     any
			}
			if q.Bad != "" || json.Unmarshal(q.Raw, &m) != nil || len(m.Params) != 1 || m.Method != cmd.method || !covers(m.Params[0], cmd.param) {
				badReq = clip(string(q.Raw), 300)
			}
			id = q.ID
		}
		readIn := func() {
			buf := make([]byte, 4096)
			for {
				n, err, end := p.In(buf)
				if end || err != nil {
					eof = true
					return
				}
				dec.feed(buf[:n])
			}
		}
		if fate == "die-first" {
			wait()
			e.reason = "the backend died at once"
			return []int{0, status}[f.N(2)]
		}
		if fate == "close-in" {
			p.CloseStd(0)
			wait()
			return 0
		}
		rt.Go(readIn)
		if !rt.Block("peer request", func() bool { return asked > 0 || eof || dec.Broken != "" }, rt.W.Now()+int64(patience)) {
			return 0
		}
		if asked == 0 {
			return 0
		}
		wait()
		put := func(b []byte) bool {
			for len(b) > 0 {
				n := len(b)
				if frag && n > 1 && io.Chance(1, 2) {
					n = 1 + io.Skewed(n)
				}
				if p.Out(1, b[:n]) != nil {
					return false
				}
				b = b[n:]
				rt.Point()
			}
			return true
		}
		good := frame([]byte(fmt.Sprintf(`{"id":%s,"result":%s,"error":null}`, id, jstr(e.result)) + padding(f)))
		// the rest may be space that does not matter
		sig := len(strings.TrimRight(string(good), " \t\r\n"))
		putGood := func() {
			e.answered = put(good[:sig])
			put(good[sig:])
		}
		errs := []string{`"no such thing"`, `""`, `{"code":1}`, `"x"`, `false`, `0`}
		e.normal = true
		rest := func() { // what a decent backend does at the end
			rt.Block("peer end", func() bool { return eof }, rt.W.Now()+int64(patience))
		}
		switch fate {
		case "ok":
			putGood()
			rest()
		case "linger":
			putGood()
			rest()
			rt.Sleep(time.Duration(io.Skewed(40000)) * time.Millisecond)
			wait()
		case "error":
			put(frame([]byte(fmt.Sprintf(`{"id":%s,"result":null,"error":%s}`, id, errs[f.N(4)]))))
			rest()
		case "null":
			e.answered = put(frame([]byte(fmt.Sprintf(`{"id":%s,"result":null,"error":null}`, id))))
			e.result = nil
			rest()
		case "both":
			put(frame([]byte(fmt.Sprintf(`{"id":%s,"result":%s,"error":%s}`, id, jstr(e.result), errs[f.N(len(errs))]))))
			rest()
		case "die-asked":
			if f.N(3) == 1 {
				e.normal = false
				k.Kill(p, signal)
				rt.Die()
			}
			return []int{0, status}[f.N(2)]
		case "truncate":
			n := len(good) - 1 - f.Skewed(len(good)-1)
			if f.N(3) == 1 {
				n = f.N(len(good))
			}
			e.reason = fmt.Sprintf("the backend sent only %d bytes of %d of its reply", n, len(good))
			put(good[:n])
			if sig <= n {
				e.answered = true // only insignificant space is missing
			}
			wait()
			if f.N(2) == 1 {
				p.CloseStd(1)
				outClosed = true
				rest()
			}
		case "status-early":
			putGood()
			e.normal = false
			e.reason = fmt.Sprintf("the backend ended with status %d", status)
			wait()
			return status
		case "status-late":
			putGood()
			e.normal = false
			e.reason = fmt.Sprintf("the backend ended with status %d", status)
			rest()
			wait()
			return status
		case "killed":
			putGood()
			e.normal = false
			e.reason = fmt.Sprintf("the backend was killed by signal %d", int(signal))
			if f.N(2) == 1 {
				rest()
			}
			wait()
			k.Kill(p, signal)
			rt.Die()
		case "close-out":
			p.CloseStd(1)
			outClosed = true
			rest()
		case "garbage":
			g := []string{"\x05\x00\x00\x00{bad}", "\x02\x00\x00\x00[]", "\x00\x00\x00\x00", "GARBAGE!", "\x04\x00\x00\x00null", "\x0c\x00\x00\x00{\"id\":\"text\"}", "\x03\x00\x00\x00{}x", "\x02\x00\x00\x00{}", "starting...\n" + string(good), string(good[4:]), string(good[:4]) + "x" + string(good[4:]),
				string(frame([]byte(fmt.Sprintf(`{"id":%s,"result":%s,"error":null`, id, jstr(e.result))))), string(frame([]byte(fmt.Sprintf(`{"id":%s,"result":tru,"error":null}`, id))))}[f.N(13)]
			e.reason = fmt.Sprintf("the backend sent %q", clip(g, 100))
			put([]byte(g))
			wait()
			p.CloseStd(1)
			outClosed = true
			rest()
		case "unknown-first", "unknown-only":
			put(frame([]byte(fmt.Sprintf(`{"id":%d,"result":"stray","error":%s}`, 70000+f.N(1000), []string{"null", `"stray"`}[f.N(2)]))))
			if fate == "unknown-first" {
				putGood()
			} else {
				p.CloseStd(1)
				outClosed = true
			}
			rest()
		case "more":
			putGood()
			put([]byte("\x05\x00\x00\x00trash and more"))
			rest()
		case "mute":
			rest()
		case "oversize":
			put(binary.NativeEndian.AppendUint32(nil, 1<<31-1-uint32(f.N(1000))))
			put(good[4:])
			p.CloseStd(1)
			outClosed = true
			rest()
		}
		return 0
	}
	e.silent = func() bool { return e.peer == nil || e.peer.Exited || outClosed }
	args := append([]string{exe, "--log", "x", "--"}, cmd.args...)
	r.Say("client %q, device %s, backend: %s, result %s", args, device, fate, clip(jstr(e.result), 100))
	g := startProg(r, exeClient, args, "/work", o)
	ended := waitUntil("end of client", nil, 2*patience, func() bool { return g.P.Exited })
	if !ended && !e.silent() && e.peer != nil && !e.answered {
		// it may wait for ever, but not when the backend is gone
		rt.Event("the backend is killed")
		k.Kill(e.peer, syscall.SIGKILL)
		e.normal = false
		e.reason = "the backend was killed"
		waitUntil("end of client", nil, 2*patience, func() bool { return g.P.Exited })
	}
	judgeClient(r, g, args, e)
	if badReq != "" {
		r.Violate("R19", "request", "the client %q sent the request %s", args, badReq)
	}
	if len(requests) > 1 {
		r.Violate("R19", "request", "the client %q sent %d requests", args, len(requests))
	}
	if cmd.bad && len(requests) > 0 {
		r.Violate("R19", "request", "the client %q with wrong arguments sent the request %s", args, requests[0])
	}
	if g.P.Exited && e.peer != nil && fate != "linger" {
		if !waitUntil("end of backend", nil, 2*patience, func() bool { return e.peer.Exited }) {
			r.Violate("R19", "left-running", "after the end of the client %q the backend does not see the end of its input", args)
		}
	}
}

func realBackend(r *Run, o *progOpt, device string) {
	c, w, f := r.C(), r.W(), r.F()
	k := r.K
	E := newEmacs(r)
	k.Programs[exeEmacs] = E.Main
	emacs := f.N(4)
	E.Plan = func(inv *Invocation) Behaviour {
		switch emacs {
		case 1:
			return Behaviour{Fail: true, Code: 1, Msg: "failed"}
		case 2:
			return Behaviour{Before: time.Duration(3+f.Skewed(1000)) * time.Second}
		}
		return Behaviour{}
	}
	var opts, files []string
	gen := &noteGen{r: r, perFile: 6, deep: 4}
	for i := w.N(3); i >= 0; i-- {
		p := fmt.Sprintf("/home/u/notes/n%d.org", i)
		n := gen.file(p, true, fmt.Sprintf("f%d.example", i), 0)
		k.FS.Put(p, n.Text, 0644)
		files = append(files, p)
		opts = append(opts, "-org", p)
	}
	if f.N(6) == 1 {
		opts = append(opts, "-org", "/home/u/notes/none.org")
	}
	if w.N(4) == 1 {
		opts = append(opts, "--log", "")
	}
	cmd := genClientCmd(w, files)
	e := &expect{set: cmd.method == "linkremark.linkSet"}
	budget := k.Budget
	k.Budget = 0
	// what the backend answers when asked directly
	refOK := false
	refText := ""
	if !cmd.bad {
		h := startHost(r, nil, exeBackend, append([]string{exeBackend}, opts...), baseEnv, "/work", 65536, 65536)
		var n map[string]any
		param := cmd.param
		if cmd.args[0] == "hello" && len(cmd.args) == 1 {
			json.Unmarshal([]byte(`{"version": "0.2", "formats": [{"format": "org", "version": "0.2"}, {"format": "object", "version": "0.2"}, {"format": "org-protocol", "version": "0.2", "options": {"format": "org", "version": "0.2", "clipboardForBody": false}}]}`), &n)
			param = n
		}
		h.send(frame([]byte(fmt.Sprintf(`{"id":1,"method":%s,"params":[%s]}`, jstr(cmd.method), jstr(param)))), false, 0, nil)
		waitUntil("reply", h.P, patience, func() bool { return len(h.O.Replies) > 0 })
		if len(h.O.Replies) > 0 && !h.O.Replies[0].isErr() {
			refOK = json.Unmarshal(h.O.Replies[0].Result, &e.result) == nil
		}
		if len(h.O.Replies) > 0 {
			refText = h.O.Replies[0].errText()
		}
		h.closeIn()
		if !waitUntil("exit", nil, patience, func() bool { return h.P.Exited }) || h.P.Crash != "" {
			return // a matter of other properties
		}
	}
	e.reason = "the backend answers with an error: " + refText
	e.answered = refOK
	e.normal = true
	e.sound = refOK && (device == "pipe" || device == "file" || device == "small-pipe")
	// the backend may be killed
	killAt := -1
	if c.N(2) == 1 {
		killAt = f.Skewed(400)
	}
	killed := false
	find := func() *kernel.Proc {
		for _, p := range k.Procs {
			if p.Exe == exeBackend && p.Parent != nil {
				return p
			}
		}
		return nil
	}
	steps := 0
	k.OnOp = func(p *kernel.Proc, op, path string) {
		if p.Exe != exeBackend && p.Exe != exeEmacs {
			return
		}
		steps++
		if b := find(); killAt >= 0 && steps > killAt && b != nil && !b.Exited {
			killAt = -1
			killed = true
			rt.Count("fault:backend-killed", 1)
			k.Kill(b, syscall.SIGKILL)
		}
	}
	k.Budget = budget
	args := append(append(append([]string{exeBackend}, opts...), "--"), cmd.args...)
	r.Say("client %q with the real backend, device %s, kill at %d, direct answer %s", args, device, killAt, clip(jstr(e.result), 100))
	steps = 0
	g := startProg(r, exeClient, args, "/work", o)
	if killAt >= 0 {
		at := time.Duration(f.Skewed(5000)) * time.Millisecond
		rt.Go(func() {
			rt.Sleep(at)
			for j := f.Skewed(500); j > 0; j-- {
				rt.Point()
			}
			if b := find(); killAt >= 0 && b != nil && !b.Exited {
				killAt = -1
				killed = true
				rt.Count("fault:backend-killed", 1)
				k.Kill(b, syscall.SIGKILL)
			}
		})
	}
	e.silent = func() bool { return true }
	waitUntil("end of client", nil, 2*patience, func() bool { return g.P.Exited })
	e.peer = find()
	if e.peer != nil && e.peer.Exited && (e.peer.Code != 0 || e.peer.Sig != 0) {
		e.normal = false
		e.reason = fmt.Sprintf("the backend ended with status %d, signal %d", e.peer.Code, int(e.peer.Sig))
	}
	if killed {
		r.Probe("real-backend-killed")
		e.sound = false
	}
	r.Probe("real-backend")
	judgeClient(r, g, args, e)
	if g.P.Exited && e.peer != nil {
		if !waitUntil("end of backend", nil, 2*patience, func() bool { return e.peer.Exited }) {
			r.Violate("R19", "left-running", "after the end of the client %q the backend still runs", args)
		}
	}
}
