//go:build go1.27

package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"syscall"
	"time"

	slot0 "gen.local/s0"
	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

const (
	exeBackend = "/opt/burl/burl_backend"
	exeEmacs   = "/usr/bin/emacsclient"
)

// req is one message of the browser.
type req struct {
	N        int
	ID       string // compact JSON, "" for messages that are no requests
	Kind     string
	Body     []byte
	Want     string // "ok", "error", "any", "none"
	URI      string
	Variants []string
	Limit    int
	Prefixes []string
	Path     string
	Line     int
	Version  string
	Method   string
	Tail     []byte // whitespace that pads the message
	StartSeq int64  // before any byte was sent
	LastSeq  int64  // before the last byte was sent
	SentSeq  int64  // after the last byte was accepted
	SentNs   int64
	Sent     bool
	Cut      bool // only a part was sent
	Reused   bool // a later request has its id
	rawID    string
	Replies  []*reply
	Stalled  bool // needs a resource that is stalled
	NoArg    bool // the URI can not be an argument of a program
}

func (q *req) emacs() bool { return q.Kind == "capture" || q.Kind == "visit" }
func (q *req) answered() bool {
	return len(q.Replies) > 0
}

// sessCfg says what a session looks like.
type sessCfg struct {
	Heavy    bool // long odd values
	Huge     bool // some message has megabytes
	Reqs     int
	Crowd    int            // very many requests at once
	Long     bool           // notes with long lines
	Tall     bool           // notes with very many lines
	Big      int            // notes with at least that many links
	Far      bool           // notes behind symbolic links
	Kinds    map[string]int // weights
	Window   int            // most requests in flight
	OneEmacs bool           // Emacs requests one after the other
	EmacsBad int            // a client invocation misbehaves with probability 1/EmacsBad
	Emacs    bool           // Emacs may be down, not ready, without frames
	Slow     bool           // client invocations take their time
	Notes    int            // note files at most
	PerFile  int
	Deep     int
	Dups     bool
	Multi    bool   // URLs in several places
	Editor   bool   // files are replaced meanwhile
	Log      string // "", "-", "file", "bad"
	Frag     bool
	Pad      bool
	LinkSet  bool
	End      string
	NoteBad  bool // faults on note files
	Persist  bool
	Stall    string // what stalls: "emacs", "notes", "hand"
	Batches  int
	ExecBad  int
	LogBad   bool
	OddPaths bool
	UserArgs bool
	Schemes  bool
	SlowOut  bool
}

type session struct {
	r     *Run
	c     sessCfg
	h     *host
	E     *Emacs
	Files []*note // current versions

	browserArgs []string
	Vers        [][]*note // all versions per file
	VerFrom     [][]int64 // when each became current
	Args        []string
	User        []string
	Reqs        []*req
	byID        map[string]*req
	strange     []*reply // replies to nobody
	own         []string
	gen         *noteGen
	logPath     string
	logOld      string
	logIn       *kernel.Inode
	serial      int
	ended       bool // input has been ended
	sendErr     bool
	gone        bool // the host ended though its input had not
	batchEv     []batchStat
	bad         []string // paths of persistently bad notes
	badEnd      int64
	badFrom     int64
	cutReq      *req
	endNs       int64
	exited      bool
	breakOut    bool // the browser vanishes while the host writes
}

type batchStat struct {
	fds, tasks, running, zombies int
	names                        []string
	stuck                        []string
}

func backendProgram(p *kernel.Proc) int {
	slot0.Start(p)
	slot0.Mains["cmd/burl_backend"]()
	return 0
}

func baseFS(k *kernel.Kernel) {
	for _, d := range []string{"/opt/burl", "/usr/bin", "/bin", "/tmp", "/home/u/notes", "/var/log/burl", "/work"} {
		k.FS.MkdirAll(d)
	}
	k.FS.Put(exeBackend, "ELF backend", 0755)
	k.FS.Put(exeEmacs, "ELF emacsclient", 0755)
	k.Programs[exeBackend] = backendProgram
	k.Class = func(p string) string {
		switch {
		case strings.HasPrefix(p, "/home/u/notes"):
			return "note"
		case strings.HasPrefix(p, "/var/log"):
			return "log"
		case strings.HasPrefix(p, "/usr/bin"):
			return "exec"
		case strings.HasPrefix(p, "pipe"):
			return "pipe"
		}
		return "other"
	}
}

var baseEnv = []string{"PATH=/bin:/usr/bin", "HOME=/home/u", "LANG=C.UTF-8", "TMPDIR=/tmp"}

func newSession(r *Run, c sessCfg) *session {
	if c.Stall == "" && c.Crowd == 0 && c.Big == 0 && !c.Huge && r.C().N(1500) == 1499 {
		// a day of use
		n := []int{1050, 300, 1050, 4100}[r.C().N(4)]
		c.Reqs, c.Window, c.PerFile, c.EmacsBad, c.Slow = n+r.C().N(150), 1+r.C().N(6), 3, 0, false
		if c.Notes > 1 {
			c.Notes = 1
		}
		rt.Count("env:marathon", 1)
	}
	s := &session{r: r, c: c, byID: map[string]*req{}}
	k := r.K
	w := r.W()
	baseFS(k)
	s.E = newEmacs(r)
	k.Programs[exeEmacs] = s.E.Main
	if c.Emacs {
		f := r.F()
		s.E.Up = !f.Chance(1, 6)
		s.E.OrgLoaded = !f.Chance(1, 6)
		s.E.HasX = !f.Chance(1, 3)
		s.E.HasLR = !f.Chance(1, 3)
	}
	s.E.Plan = s.plan
	// notes
	nf := 0
	if c.Notes > 0 {
		nf = 1 + w.N(c.Notes)
	}
	s.gen = &noteGen{r: r, perFile: c.PerFile, deep: c.Deep, dups: c.Dups, long: c.Long, tall: c.Tall, big: c.Big}
	if c.Multi {
		s.gen.pool = []string{"https://shared.example/a", "http://shared.example/a", "https://shared.example/b", "https://shared.example/b/", "https://shared.example/long/path"}
	}
	names := []string{"a", "todo list", "заметки", "b.c", "d'e", "f"}
	var positional []string
	for i := 0; i < nf; i++ {
		org := w.N(3) != 1
		ext := ".txt"
		if org {
			ext = ".org"
		}
		path := fmt.Sprintf("/home/u/notes/%s%d%s", names[w.N(len(names))], i, ext)
		own := fmt.Sprintf("f%d.example", i)
		s.own = append(s.own, own)
		n := s.gen.file(path, org, own, 0)
		s.Files = append(s.Files, n)
		s.Vers = append(s.Vers, []*note{n})
		s.VerFrom = append(s.VerFrom, []int64{0})
		if c.Far && w.N(3) == 1 {
			// the notes live elsewhere
			real := fmt.Sprintf("/home/u/notes/store/%d", i)
			k.FS.MkdirAll("/home/u/notes/store")
			k.FS.Put(real, n.Text, 0644)
			k.FS.Symlink([]string{real, fmt.Sprintf("store/%d", i)}[w.N(2)], path)
			rt.Count("env:note-symlink", 1)
		} else {
			k.FS.Put(path, n.Text, 0644)
		}
		opt := map[bool]string{true: "-org", false: "-txt"}[org]
		if i == nf-1 && org == strings.HasSuffix(path, ".org") && w.N(6) == 1 {
			positional = append(positional, path)
			if w.N(3) == 1 {
				positional = []string{"--", path}
			}
			continue
		}
		switch w.N(6) {
		case 1:
			s.Args = append(s.Args, "-"+opt+"="+path)
		case 2:
			s.Args = append(s.Args, opt+"="+path)
		case 3:
			s.Args = append(s.Args, "-"+opt, path)
		default:
			s.Args = append(s.Args, opt, path)
		}
	}
	k.FS.Put("/home/u/notes/secret.org", "* Secret\nhttps://secret.example/x\n", 0644)
	if !c.LinkSet {
		s.Args = append([]string{"--disable-link-set"}, s.Args...)
	}
	if c.UserArgs {
		pool := []string{"--socket-name=work", "--tramp=/ssh:host:", "-s", "my server", "--server-file=/tmp/x y", "--display=:1"}
		switch w.N(5) {
		case 1:
			s.User = []string{pool[0]}
		case 2:
			s.User = []string{pool[2], pool[3]}
		case 3:
			s.User = []string{pool[0], pool[1], pool[5]}
		case 4:
			s.User = []string{pool[0], pool[1], pool[2], pool[3], pool[4], pool[5]}
		}
		var ua []string
		for _, a := range s.User {
			ua = append(ua, "--emacsarg="+a)
		}
		s.Args = append(ua, s.Args...)
	}
	if c.Schemes && w.N(3) == 1 {
		s.Args = append(s.Args, "--scheme", "ftp")
	}
	switch c.Log {
	case "":
		s.Args = append(s.Args, "--log", "")
	case "-":
	case "file", "bad":
		s.logPath = "/var/log/burl/burl.log"
		s.Args = append([]string{"--log", s.logPath}, s.Args...)
		if w.N(2) == 1 {
			s.logOld = strings.Repeat("old line\n", 1+w.Skewed(40))
			if w.N(20) == 1 {
				s.logOld = strings.Repeat(strings.Repeat("x", 99)+"\n", 1000+w.Skewed(30000))
				if w.N(6) == 5 {
					// years of use
					s.logOld = strings.Repeat(strings.Repeat("x", 999)+"\n", 10500+w.N(1500))
				}
			}
			if w.N(10) == 1 {
				s.logOld += "interrupted li"
			}
			s.logIn = k.FS.Put(s.logPath, s.logOld, 0600)
		}
	}
	s.Args = append(s.Args, positional...)
	if len(positional) == 0 && w.N(4) == 1 {
		// started by a browser: it adds arguments, they are no note files
		s.browserArgs = [][]string{
			{"/home/u/.mozilla/native-messaging-hosts/io.github.maxnikulin.burl.json", "linkremark@maxnikulin.github.io"},
			{"/home/u/.mozilla/native-messaging-hosts/io.github.maxnikulin.burl.json", "{aaaaaaaa-1111-4222-8333-123456789abc}"},
			{"/usr/lib/mozilla/native-messaging-hosts/burl org.json", "x@y.org"},
			{"chrome-extension://mgmcoaemjnaehlliifkgljdnbpedihoe/"},
			{"chrome-extension://mgmcoaemjnaehlliifkgljdnbpedihoe/", "--parent-window=0"},
		}[w.N(5)]
		if p := s.browserArgs[0]; p[0] == '/' {
			k.FS.MkdirAll(p[:strings.LastIndex(p, "/")])
			k.FS.Put(p, `{"name": "io.github.maxnikulin.burl", "description": "https://manifest.example/x", "path": "/opt/burl/burl_backend", "type": "stdio"}`, 0644)
		}
		s.Args = append(s.Args, s.browserArgs...)
		rt.Count("env:browser-arguments", 1)
	}
	if c.Frag {
		k.FragFiles = 2
	}
	return s
}

// plan decides what an invocation of emacsclient does.
func (s *session) plan(inv *Invocation) Behaviour {
	f := s.r.F()
	var b Behaviour
	if s.c.Slow {
		b.Before = time.Duration(f.Skewed(3000)) * time.Millisecond
		if f.Chance(1, 4) {
			b.After = time.Duration(f.Skewed(3000)) * time.Millisecond
		}
		if f.Chance(1, 40) {
			b.Before = time.Duration(10+f.N(50)) * time.Second
			if f.N(3) == 1 {
				b.Before = time.Duration(2+f.Skewed(120)) * time.Minute
			}
			rt.Count("fault:emacs-slow", 1)
		}
		b.CloseFirst = f.Chance(1, 16)
	}
	if !s.E.Released {
		switch s.c.Stall {
		case "emacs":
			b.Hang = true
		case "hand":
			u, _ := inv.URI()
			o := strings.Join(inv.Opens(), " ")
			b.Hang = strings.Contains(u, "STALL") || inv.Line == "+777"
			_ = o
		}
		if b.Hang {
			rt.Count("fault:emacs-hang", 1)
		}
	}
	if s.c.EmacsBad > 0 && f.Chance(1, s.c.EmacsBad) {
		switch f.N(5) {
		case 0, 1:
			b.Fail = true
			b.Code = []int{1, 2, 3, 77, 255, 127}[f.N(6)]
			b.Msg = fmt.Sprintf("emacsclient: failure <%d> of the client\n", inv.N)
			if f.N(6) == 1 {
				b.Msg = strings.Repeat("emacsclient: a long explanation\n", 1+f.Skewed(2000)) + b.Msg
			}
			rt.Count("fault:emacs-exit-status", 1)
		case 2:
			b.Fail = true
			b.Sig = []syscall.Signal{syscall.SIGKILL, syscall.SIGSEGV, syscall.SIGTERM}[f.N(3)]
			b.Msg = fmt.Sprintf("emacsclient: dying <%d> of a signal\n", inv.N)
			rt.Count("fault:emacs-signal", 1)
		case 3:
			if inv.Check {
				b.Garbage = []string{"nil\n", "garbage\n", "\n", "*ERROR*: x\n", "nil\nno org-protocol\n", "nil ; org-protocol\n", "(org-protocol)\n", "\"org-protocol\"\n", "void-variable org-protocol\n"}[f.N(9)]
				rt.Count("fault:emacs-garbage", 1)
			} else {
				b.Noise = 1 + f.Skewed(200000)
				rt.Count("fault:emacs-noise", 1)
			}
		case 4:
			b.Noise = 1 + f.Skewed(200000)
			rt.Count("fault:emacs-noise", 1)
		}
	}
	return b
}

func (s *session) start() {
	capIn := 65536
	capOut := 65536
	if s.c.Frag {
		capIn = []int{65536, 4096, 64, 7}[s.r.C().N(4)]
		capOut = []int{65536, 4096}[s.r.C().N(2)]
	}
	if s.c.ExecBad > 0 {
		s.r.K.Rates["exec:exec"] = s.c.ExecBad
		s.r.K.Rates["pipe:pipe"] = s.c.ExecBad * 3
		s.r.K.Budget = 1 + s.r.F().N(6)
	}
	s.h = startHost(s.r, nil, exeBackend, append([]string{"burl_backend"}, s.Args...), baseEnv, "/work", capIn, capOut)
	s.h.slow = s.c.SlowOut
	if s.c.Frag {
		s.h.In.Frag = 1 + s.r.C().N(3)
		s.h.In.FragMax = []int{0, 3, 40, 1}[s.r.C().N(4)]
	}
	s.h.O.On = func(p *reply) {
		q := s.byID[p.ID]
		if q == nil || p.Bad != "" {
			s.strange = append(s.strange, p)
			return
		}
		q.Replies = append(q.Replies, p)
	}
	s.r.Say("args %q", s.Args)
}

// canonID is the identity of a request id, however it is written.
func canonID(raw []byte) string {
	var v any
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return string(raw)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (s *session) newID() string {
	w := s.r.W()
	s.serial++
	n := s.serial
	switch w.N(6) {
	case 1:
		return fmt.Sprintf("%q", fmt.Sprintf("req-%d", n))
	case 2:
		return fmt.Sprintf("%d", 9007199254740993+int64(n)) // beyond exact doubles
	case 3:
		return fmt.Sprintf("-%d", n)
	case 4:
		return fmt.Sprintf("\"ключ\\u0020%d\"", n)
	case 5:
		return fmt.Sprintf("{\"a\":[%d]}", n)
	}
	return fmt.Sprintf("%d", n)
}

func jstr(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (s *session) prefix(p string) string {
	w := s.r.W()
	opts := []string{"linkremark.", "burl.", ""}
	if p == "hello" || p == "capture" {
		return opts[w.N(3)] + p
	}
	return opts[w.N(2)] + p
}

func (s *session) shape(method, id, params string) []byte {
	w := s.r.W()
	fields := []string{`"jsonrpc":"2.0"`, `"id":` + id, `"method":` + jstr(method), `"params":` + params}
	switch w.N(4) {
	case 1:
		fields = []string{fields[3], fields[2], fields[1]}
	case 2:
		fields = []string{fields[2], fields[3], fields[1], fields[0]}
	}
	sep := ","
	if w.N(4) == 1 {
		sep = " ,\n\t"
	}
	return []byte("{" + strings.Join(fields, sep) + "}")
}

var oddStrings = []string{"plain", "with space", "quote'\"s", "日本", "a%20b&c=d", "semi;colon $HOME `x`", "--eval", "tab\tx", "new\nline", "\\back"}

func (s *session) make(kind string) *req {
	w := s.r.W()
	q := &req{N: len(s.Reqs), Kind: kind}
	id := s.newID()
	q.ID = canonID([]byte(id))
	q.rawID = id
	q.Want = "ok"
	serial := s.serial
	var params any
	switch kind {
	case "hello":
		q.Version = fmt.Sprintf("0.%d", serial)
		q.Method = s.prefix("hello")
		params = []any{map[string]any{"version": "0.2", "formats": []any{
			map[string]any{"format": "object", "version": "0.9"},
			map[string]any{"format": "org-protocol", "version": q.Version, "options": map[string]any{"x": 1}}}}}
	case "helloMix":
		// offers of several formats; the first org-protocol one counts
		q.Method = s.prefix("hello")
		q.Want = "error"
		var offers []any
		n := w.Skewed(7)
		if w.N(200) == 1 {
			n = 20 + w.N(300)
		}
		found := false
		for i := 0; i < n; i++ {
			name := []string{"object", "org-protocol", "org", "org-protocol", "Org-Protocol", "org-protocol2", "org-protoco", "", " org-protocol", "org-protocol\x00"}[w.N(10)]
			o := map[string]any{"format": name}
			v := []string{fmt.Sprintf("0.%d.%d", serial, i), "0.2", fmt.Sprintf("%d-%s", serial, oddStrings[w.N(len(oddStrings))]), "", fmt.Sprint(serial, " ", strings.Repeat("v", w.Skewed(5000)))}[w.Weighted(6, 2, 2, 1, 1)]
			if v != "" || w.N(2) == 1 {
				o["version"] = v
			}
			switch w.N(4) {
			case 1:
				o["options"] = map[string]any{"clipboardForBody": true, "nested": map[string]any{"format": "org-protocol", "version": "nested"}}
			case 2:
				o["options"] = nil
			}
			if name == "org-protocol" && !found {
				found = true
				q.Version = v
				q.Want = "ok"
				if v == "" {
					q.Want = "any" // a version is not known
				}
			}
			offers = append(offers, o)
		}
		h := map[string]any{"formats": offers}
		switch w.N(3) {
		case 1:
			h["version"] = []any{"0.1", "0.2", "7", ""}[w.N(4)]
		case 2:
			h["version"] = "0.2"
			h["formats2"] = "x"
		}
		if n == 0 && w.N(2) == 1 {
			delete(h, "formats")
		}
		params = []any{h}
	case "helloOld":
		q.Method = s.prefix("hello")
		params = []any{map[string]any{"version": "0.2", "formats": []any{map[string]any{"format": "object", "version": "0.9"}}}}
		q.Want = "error"
	case "capture", "preview", "capFormat", "capURI":
		q.Method = s.prefix("capture")
		q.URI = fmt.Sprintf("org-protocol:/capture?n=%d&t=%s", serial, oddStrings[w.N(len(oddStrings))])
		switch w.N(8) {
		case 1:
			q.URI += strings.Repeat("x", w.Skewed(9000))
			if w.N(8) == 1 {
				// as much as an argument of a program can hold
				q.URI += strings.Repeat("x", 131071-len("STALL")-len(q.URI)-w.N(3))
				if s.c.Stall != "hand" {
					q.URI += "12345"
				}
				if w.N(2) == 1 {
					q.URI = q.URI[:2000+w.N(129000)]
				}
				rt.Count("io:long-uri", 1)
			}
		case 2:
			q.URI = fmt.Sprintf("org-protocol://capture:/n%d/%s", serial, oddStrings[w.N(len(oddStrings))])
		}
		if s.c.Stall == "hand" && kind == "capture" && w.N(2) == 1 {
			q.URI += "STALL"
			q.Stalled = true
		}
		if kind == "capture" && w.Chance(1, 8) {
			// the same once more
			for i := len(s.Reqs) - 1; i >= 0; i-- {
				if o := s.Reqs[i]; o.Kind == "capture" && !o.NoArg {
					q.URI, q.Stalled = o.URI, o.Stalled
					break
				}
			}
		}
		format := "org-protocol"
		var e any
		switch kind {
		case "preview":
			e = []any{nil, "preview", map[string]any{"message": "x"}, true}[1+w.N(3)]
		case "capFormat":
			format = []string{"org", "", "object", "Org-Protocol"}[w.N(4)]
			q.Want = "error"
		case "capURI":
			q.URI = []string{"file:///etc/passwd", "http://x.example/", "", "--eval=(kill-emacs)", " org-protocol:/x", "Org-protocol:/y", "org-protocolx:/z"}[w.N(7)]
			q.Want = "error"
		case "capture":
			if s.c.Emacs || s.c.EmacsBad > 0 || s.c.ExecBad > 0 {
				q.Want = "any"
			}
			if w.N(24) == 23 && !q.Stalled {
				// can not be an argument of a program
				q.NoArg = true
				q.Want = "error"
				if w.N(6) != 1 {
					q.URI += "\x00tail"
				} else {
					q.URI += strings.Repeat("y", 131072+w.Skewed(3000))
				}
			}
		}
		params = []any{map[string]any{"format": format, "version": "0.2", "error": e, "options": map[string]any{},
			"data": map[string]any{"url": q.URI, "title": fmt.Sprintf("t%d", serial), "body": []any{1, "b"}}}}
	case "mentions":
		q.Method = s.prefix("urlMentions")
		q.Limit = 8
		m := map[string]any{}
		nv := 1 + w.N(2)
		if w.N(40) == 1 {
			nv = 3 + w.Skewed(60)
		}
		for i := 0; i < nv; i++ {
			q.Variants = append(q.Variants, s.someURL())
		}
		m["variants"] = q.Variants
		if w.N(4) == 1 {
			m["variants"] = append([]string{""}, q.Variants...)
		}
		switch w.N(4) {
		case 1, 3:
			q.Limit = 1 + w.Skewed(12)
			m["options"] = map[string]any{"countLimit": q.Limit}
		case 2:
			switch w.N(8) {
			case 1:
				m["options"] = nil
			case 2:
				m["options"] = map[string]any{}
			case 3:
				m["options"] = map[string]any{"countLimit": nil, "x": 1}
			case 4:
				q.Limit = -w.N(3)
				m["options"] = map[string]any{"countLimit": q.Limit}
			case 5:
				q.Limit = []int{100, 1 << 20, 1<<31 - 1, 1 << 40}[w.N(4)]
				m["options"] = map[string]any{"countLimit": q.Limit}
			}
		}
		if s.c.Big > 0 && w.N(3) != 1 {
			q.Limit = 10 + w.Skewed(2000)
			m["options"] = map[string]any{"countLimit": q.Limit}
		}
		params = []any{m}
		if len(s.Files) == 0 {
			q.Want = "error"
		} else {
			any := false
			for _, f := range s.Files {
				any = any || len(f.Links) > 0
			}
			if !any || s.c.NoteBad || s.c.Editor {
				q.Want = "any" // with an editor the loaded version is not known
			}
		}
	case "mentionsEmpty":
		q.Method = s.prefix("urlMentions")
		params = []any{map[string]any{"variants": [][]string{{}, {""}, {"", ""}}[w.N(3)]}}
		q.Want = "error"
	case "linkSet":
		q.Method = s.prefix("linkSet")
		for i := w.N(3); i >= 0; i-- {
			q.Prefixes = append(q.Prefixes, s.somePrefix())
		}
		params = []any{map[string]any{"prefix": q.Prefixes}}
		if s.c.NoteBad {
			q.Want = "any"
		}
		if !s.c.LinkSet || len(s.Files) == 0 {
			q.Want = "error"
			if s.c.LinkSet {
				q.Want = "any"
			}
		}
	case "linkSetBad":
		q.Method = s.prefix("linkSet")
		var list []string
		switch w.N(8) {
		case 7:
			// too long even if it repeats
			for i := 0; i < 17+w.N(3); i++ {
				list = append(list, "https://f0.example/")
			}
		case 0:
			list = []string{}
		case 1:
			list = []string{""}
		case 2:
			list = []string{"https://f0.example/", "not a prefix"}
		case 3:
			list = []string{"https:\nx"}
		case 4:
			for i := 0; i < 17+w.N(30); i++ {
				list = append(list, fmt.Sprintf("https://f%d.example/", i))
			}
		case 5:
			list = []string{".*"}
		case 6:
			list = []string{"9https:"}
		}
		params = []any{map[string]any{"prefix": list}}
		q.Want = "error"
		if len(s.Files) == 0 && s.c.LinkSet {
			q.Want = "any"
		}
	case "visit":
		q.Method = s.prefix("visit")
		q.Path = s.Files[w.N(len(s.Files))].Path
		switch w.N(3) {
		case 0:
			q.Line = 1000 + serial
			if w.N(4) == 1 {
				q.Line = []int{1 + serial, 9999 + serial, 32768 + serial, 65536 + serial, 1<<31 - 1 - serial, 1<<31 + serial, 1<<32 + serial, 1<<53 - serial}[w.N(8)]
			}
		case 1:
			q.Line = 0
		case 2:
			q.Line = -w.N(3)
		}
		if s.c.Stall == "hand" && w.N(2) == 1 {
			q.Line = 777
			q.Stalled = true
		}
		params = []any{map[string]any{"file": q.Path, "lineNo": q.Line}}
		if s.c.Emacs || s.c.EmacsBad > 0 || s.c.ExecBad > 0 {
			q.Want = "any"
		}
	case "visitBad":
		q.Method = s.prefix("visit")
		bad := []string{"/etc/passwd", "/home/u/notes/secret.org", "", "-", "--eval", "secret.org", "/home/u/notes"}
		if len(s.Files) > 0 {
			p := s.Files[w.N(len(s.Files))].Path
			bad = append(bad, p+"/", "./"+p, p[1:], strings.Replace(p, "/notes/", "/notes/../notes/", 1), strings.ToUpper(p), p+"\n", p[:len(p)-1], "//"+p[1:], p+" "+p, p+"~", "file://"+p, "file:"+p, p+"\x00", p+":10", "+5 "+p, strings.ToUpper(p[:1+len(p)/2])+p[1+len(p)/2:], "#"+p+"#", p+".org", strings.TrimSuffix(p, ".org"), "~/notes/"+p[strings.LastIndex(p, "/")+1:], " "+p, strings.ReplaceAll(p, "/", "//"), url.PathEscape(p), "file://localhost"+p)
		}
		for _, p := range s.browserArgs {
			bad = append(bad, p, p)
		}
		q.Path = bad[w.N(len(bad))]
		for i := 0; i < len(s.Files); i++ {
			if s.Files[i].Path == q.Path {
				q.Path += "~"
				i = -1
			}
		}
		q.Line = w.N(5)
		params = []any{map[string]any{"file": q.Path, "lineNo": q.Line}}
		q.Want = "error"
	case "unknown":
		q.Method = []string{"linkremark.nothing", "Burl.Capture", "Burl.Hello", "search", "burl.search", "unknown.hello", "", "hello ", "linkremark.Visit", "Burl.LinkSet", "rpc.discover", "a.b.c", "noDots", "linkSet", "visit", "urlMentions", "Burl.UrlMentions", "linkremark.search", "linkremark..hello", ".hello", "linkremark.hello.", "burl", "capture\x00", "LINKREMARK.HELLO", "burl.Hello"}[w.N(25)]
		params = []any{map[string]any{"prefix": []string{"https"}, "variants": []string{"https://f0.example/v0/p1"}, "file": "/home/u/notes/a0.org", "lineNo": 1, "query": "f0",
			"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}}}
		if w.N(2) == 1 {
			params = []any{map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}}}
		}
		q.Want = "error"
	case "badShape":
		q.Method = s.prefix([]string{"hello", "capture", "visit", "urlMentions", "linkSet"}[w.N(5)])
		params = []any{
			[]any{"string"}, []any{5}, []any{[]any{1, 2}}, map[string]any{"formats": []any{}}, "text", 7, nil, []any{}, []any{nil}, []any{true},
			[]any{map[string]any{"formats": 5, "data": 7, "file": 1, "variants": "x", "prefix": 3}},
			[]any{map[string]any{"formats": []any{1}, "data": []any{}, "lineNo": "x", "variants": []any{1, 2}, "prefix": []any{map[string]any{}}}},
		}[w.N(12)]
		q.Want = "error"
		if len(s.Files) == 0 && strings.HasSuffix(q.Method, "linkSet") {
			q.Want = "any" // the set of links of no files, whatever was asked
		}
	}
	switch s.c.Stall {
	case "emacs":
		q.Stalled = q.emacs()
	case "notes":
		// whether prefixes are valid may be decided after reading files
		q.Stalled = kind == "mentions" || kind == "linkSet" || kind == "linkSetBad" && s.c.LinkSet
	}
	if kind == "weird" {
		q.Method, params = s.weird()
		q.Want = "any"
	}
	ps := jstr(params)
	if w.N(6) == 1 {
		// escape what may be escaped
		ps = strings.ReplaceAll(ps, "o", "\\u006f")
	}
	if kind == "badShape" && params == nil && w.N(2) == 1 {
		q.Body = []byte(fmt.Sprintf(`{"id":%s,"method":%s}`, id, jstr(q.Method)))
	} else {
		q.Body = s.shape(q.Method, id, ps)
	}
	s.add(q)
	return q
}

// weird makes a well-formed request with unexpected values.
func (s *session) weird() (string, any) {
	w := s.r.W()
	nums := []json.Number{"-1", "0", "-9223372036854775808", "9223372036854775807", "2147483647", "-2147483648", "1e3", "1.5", "1e400", "99999999999999999999", "3"}
	num := func() any { return nums[w.N(len(nums))] }
	strs := []string{"", "a", "\x00", "org-protocol:", "org-protocol:\x00", strings.Repeat("x", 70000), "https", "https:", "(", "[[", "\\", "\ufffd", "org-protocol:" + strings.Repeat("y", 140000), "..", "https://f0.example/", "%s%d%n"}
	if !s.c.Heavy {
		for i, l := range strs {
			if len(l) > 1000 {
				strs[i] = l[:1000]
			}
		}
	}
	str := func() any { return strs[w.N(len(strs))] }
	var anyv func(d int) any
	anyv = func(d int) any {
		switch w.N(8) {
		case 0:
			return nil
		case 1:
			return num()
		case 2:
			return str()
		case 3:
			return w.N(2) == 1
		case 4, 5:
			if d > 0 {
				var l []any
				for i := w.N(4); i > 0; i-- {
					l = append(l, anyv(d-1))
				}
				if w.N(6) == 1 && s.c.Heavy {
					for i := 0; i < 1500; i++ {
						l = append(l, "z")
					}
				}
				return l
			}
			return []any{}
		}
		if d > 0 {
			return map[string]any{"url": anyv(d - 1), "countLimit": anyv(d - 1), "format": anyv(d - 1)}
		}
		return map[string]any{}
	}
	pick := func(f func() any) any {
		if w.N(4) == 1 {
			return anyv(2)
		}
		return f()
	}
	list := func() any {
		var l []any
		n := w.N(4)
		if w.N(5) == 1 {
			n = []int{16, 17, 500}[w.N(3)]
		}
		for i := 0; i < n; i++ {
			if w.N(3) == 1 {
				l = append(l, s.someURL())
			} else {
				l = append(l, pick(str))
			}
		}
		return l
	}
	switch w.N(6) {
	case 0:
		return s.prefix("hello"), []any{map[string]any{"formats": pick(func() any {
			return []any{map[string]any{"format": pick(str), "version": pick(str)}, map[string]any{"format": "org-protocol", "version": pick(str), "options": pick(str)}}
		}), "version": pick(str)}}
	case 1:
		return s.prefix("capture"), []any{map[string]any{"format": "org-protocol", "version": pick(str), "error": []any{nil, anyv(3)}[w.N(2)], "options": anyv(2),
			"data": map[string]any{"url": pick(str), "title": pick(str), "body": anyv(4)}}}
	case 2:
		p := any("x")
		if len(s.Files) > 0 {
			p = s.Files[w.N(len(s.Files))].Path
		}
		return s.prefix("visit"), []any{map[string]any{"file": []any{p, p, pick(str)}[w.N(3)], "lineNo": pick(num)}}
	case 3:
		return s.prefix("urlMentions"), []any{map[string]any{"variants": pick(list), "options": []any{map[string]any{"countLimit": pick(num)}, anyv(1), map[string]any{}}[w.Weighted(4, 1, 1)]}}
	case 4:
		return s.prefix("linkSet"), []any{map[string]any{"prefix": pick(list)}}
	}
	return strings.Repeat(strs[w.N(8)], 1+w.N(3)), anyv(4)
}

func (s *session) add(q *req) {
	w := s.r.W()
	if s.c.Pad && w.N(3) == 1 {
		n := 1 + w.Skewed(1500)
		for i := 0; i < n; i++ {
			q.Tail = append(q.Tail, " \n\t\r"[w.N(4)])
			if i > 20 {
				q.Tail = append(q.Tail, []byte(strings.Repeat(" ", n-i-1))...)
				break
			}
		}
	}
	s.Reqs = append(s.Reqs, q)
	if q.ID != "" {
		s.byID[q.ID] = q
	}
}

func (s *session) someURL() string {
	w := s.r.W()
	url := ""
	if len(s.Files) > 0 && w.N(8) != 7 {
		f := s.Files[w.N(len(s.Files))]
		if len(s.gen.pool) > 0 && w.N(2) == 1 {
			url = s.gen.pool[w.N(len(s.gen.pool))]
			if w.N(3) == 1 {
				url = orgPool[w.N(len(orgPool))]
			}
		} else if len(f.Links) > 0 {
			url = f.Links[w.N(len(f.Links))].URL
		}
	}
	if url == "" {
		url = fmt.Sprintf("https://absent.example/%d", s.serial)
	}
	switch w.N(6) {
	case 1:
		url += []string{"/", "#", "?", "&", "/?", "?&", "&#", "//", "/?&&#", "#x"}[w.N(10)]
	case 2:
		if r, ok := strings.CutPrefix(url, "http:"); ok {
			url = "https:" + r
		} else if r, ok := strings.CutPrefix(url, "https:"); ok {
			url = "http:" + r
		}
	case 3:
		if w.N(4) == 1 {
			// another resource
			url = []string{strings.ToUpper(url), strings.ToLower(url), strings.Replace(url, ".example", ".Example", 1), " " + url, url + " ", url[:len(url)-1], strings.ReplaceAll(url, "%20", "+"), url + "?x=1", strings.Replace(url, "://", "://www.", 1), strings.Replace(url, "https:", "ftp:", 1)}[w.N(10)]
		}
	}
	return url
}

func (s *session) somePrefix() string {
	w := s.r.W()
	i := 0
	if len(s.own) > 0 {
		i = w.N(len(s.own))
	}
	own := fmt.Sprintf("f%d.example", i)
	return []string{"https://" + own + "/", "http://" + own, "https", "http:", "https://" + own + "/v", "https://shared.example/", "mid", "https://f", "doi:10.", "mid:m1@shared.example", "https://shared.example/b", "https://Shared", "https://shared.example/a?", "HTTPS", "m"}[w.N(15)]
}

// pick draws a kind.
func (s *session) pick() string {
	total := 0
	for _, k := range sortedKeys(s.c.Kinds) {
		total += s.c.Kinds[k]
	}
	x := s.r.W().N(total)
	for _, k := range sortedKeys(s.c.Kinds) {
		if x < s.c.Kinds[k] {
			if k == "visit" && len(s.Files) == 0 {
				return "hello"
			}
			return k
		}
		x -= s.c.Kinds[k]
	}
	return "hello"
}

func (s *session) inflight() (n int, emacs int) {
	for _, q := range s.Reqs {
		if q.Sent && !q.answered() && q.ID != "" && !q.Cut {
			n++
			if q.emacs() {
				emacs++
			}
		}
	}
	return
}

// idAgain gives a request the id of one that has been answered, which is allowed.
func (s *session) idAgain(q *req) {
	if q.ID == "" || q.Kind == "weird" || s.byID[q.ID] != q || s.r.W().N(6) != 5 {
		return
	}
	old := []byte(`"id":` + q.rawID)
	if q.rawID == "" || len(q.Body) > 4096 || bytes.Count(q.Body, old) != 1 {
		return
	}
	var l []*req
	for _, p := range s.Reqs {
		if p.ID != "" && p.answered() && !p.Reused && s.byID[p.ID] == p {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return
	}
	p := l[s.r.W().N(len(l))]
	p.Reused = true
	s.r.Probe("id-used-again")
	delete(s.byID, q.ID)
	q.ID, q.rawID = p.ID, p.ID
	q.Body = bytes.Replace(q.Body, old, []byte(`"id":`+p.ID), 1)
	s.byID[q.ID] = q
}

// send transmits one message.
func (s *session) send(q *req) bool {
	k := s.r.K
	for _, f := range s.Files {
		rt.W.StepCap += 60 * int64(len(f.Text)) // it may be read for this request
	}
	s.idAgain(q)
	q.StartSeq = k.Seq()
	rt.Event("send %d %s id=%s %s", q.N, q.Kind, q.ID, clip(string(q.Body), 150))
	s.r.Say("request %s %s", q.Kind, clip(string(q.Body), 120))
	body := frame(append(append([]byte(nil), q.Body...), q.Tail...))
	err := s.h.send(body, s.c.Frag, 4+len(q.Body), func() { q.LastSeq = k.Seq() })
	q.SentSeq = k.Seq()
	q.SentNs = rt.W.Now()
	if err != nil {
		s.sendErr = true
		return false
	}
	q.Sent = true
	return true
}

// settled tells that everything sent has been answered.
func (s *session) settled() bool {
	n, _ := s.inflight()
	return n == 0
}

const patience = 24 * time.Hour

// sendAll sends requests keeping to the window.
func (s *session) sendAll(qs []*req) {
	for _, q := range qs {
		need := func() bool {
			n, e := s.inflight()
			if s.c.OneEmacs && q.emacs() && e > 0 {
				return false
			}
			return n < s.c.Window
		}
		if !waitUntil("browser window", s.h.P, patience, need) && !s.h.P.Exited {
			return
		}
		if s.h.P.Exited || !s.send(q) {
			s.gone = true
			return
		}
		if s.r.W().N(4) == 1 {
			rt.Sleep(time.Duration(s.r.W().Skewed(2000)) * time.Millisecond)
		}
	}
}

// replaceFile makes a new version of a note file current.
func (s *session) replaceFile(i int) {
	v := len(s.Vers[i])
	old := s.Files[i]
	var n *note
	w := s.r.W()
	if w.N(3) == 2 {
		n = old.sameSize(s.own[i], v)
	}
	if n == nil {
		n = s.gen.file(old.Path, old.Org, s.own[i], v)
	}
	seq := s.r.K.Seq()
	in := s.r.K.FS.Replace(old.Path, n.Text)
	if w.N(4) == 3 {
		// a copy that keeps its time of modification
		in.MTime = in.MTime.Add(-time.Duration(1+w.N(1000000)) * time.Second)
	}
	s.Files[i] = n
	s.Vers[i] = append(s.Vers[i], n)
	s.VerFrom[i] = append(s.VerFrom[i], seq)
	rt.Event("editor replaces %s with version %d", old.Path, v)
	rt.Count("env:file-replaced", 1)
}

func (s *session) editor() {
	w := s.r.W()
	n := 1 + w.N(12)
	for i := 0; i < n && !s.ended; i++ {
		if w.N(2) == 1 {
			rt.Sleep(time.Duration(w.Skewed(3000)) * time.Millisecond)
		} else {
			// wait for a request in flight
			rt.Block("editor", func() bool { n, _ := s.inflight(); return n > 0 || s.ended }, rt.W.Now()+int64(5*time.Second))
			for j := w.Skewed(60); j > 0; j-- {
				rt.Point()
			}
		}
		s.replaceFile(w.N(len(s.Files)))
	}
}

// finish ends the input and waits for the exit of the host.
func (s *session) finish(end string) {
	k := s.r.K
	w := s.r.W()
	if end == "" {
		end = "eof"
	}
	s.r.Probe("end:" + end)
	switch end {
	case "eof":
		s.h.closeIn()
	case "cut":
		q := s.make([]string{"capture", "hello", "preview"}[w.N(3)])
		q.Cut = true
		q.Want = "none"
		s.cutReq = q
		full := frame(append(append([]byte(nil), q.Body...), q.Tail...))
		// cut so that the JSON text is incomplete
		n := w.N(4 + len(q.Body))
		if w.N(3) == 1 {
			n = w.N(5)
		}
		rt.Event("send %d of %d bytes of %s and close", n, len(full), q.Kind)
		q.StartSeq = k.Seq()
		s.h.send(full[:n], s.c.Frag, 0, nil)
		s.h.closeIn()
	case "readerr":
		s.h.In.ReadErr = syscall.EIO
		rt.Count("fault:stdin-read-error", 1)
	case "badjson":
		// not a request; whatever comes behind it is not judged
		bodies := []string{"{", "nonsense", "", "[1,2]", "5", "\"x\"", "{\"id\":1,\"method\":5}", "{\"id\":", "null x", "\x00\x01", "{\"a\" \"b\"}", "[", "tru", "{\"method\":\"hello\",\"id\":1,\"params\":[}"}
		body := bodies[w.N(len(bodies))]
		rt.Event("send bad message %q", body)
		s.r.Say("bad message %q", body)
		s.h.send(frame([]byte(body)), s.c.Frag, 0, nil)
		s.h.closeIn()
	case "oversize":
		n := []uint32{0xffffffff, 0x40000001, 0x80000000, 0x7fffffff}[w.N(4)]
		b := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		q := s.make("capture")
		q.Cut = true
		q.Want = "none"
		s.cutReq = q
		rt.Event("send oversized length %d", int(n))
		s.r.Say("oversized length prefix %d", n)
		s.h.send(append(b, q.Body...), s.c.Frag, 0, nil)
		s.h.closeIn()
	}
	s.ended = true
	s.endNs = rt.W.Now()
	s.exited = waitUntil("exit of host", nil, patience, func() bool { return s.h.P.Exited })
	if s.exited {
		waitUntil("end of output", nil, time.Minute, func() bool { return s.h.eof || s.h.Out.Readers == 0 })
		s.h.drained()
	}
}

// measure waits until nothing goes on any more and counts resources.
func (s *session) measure() {
	rt.Idle(10 * time.Minute)
	p := s.h.P
	z, run := p.Zombies()
	s.batchEv = append(s.batchEv, batchStat{len(p.Open), p.Grp.Live, len(run), len(z), p.OpenNames(), nil})
	rt.Event("measure fds=%d tasks=%d", len(p.Open), p.Grp.Live)
}

// run performs the whole session.
// grow makes one of the messages as large as the largest ones of browsers.
func (s *session) grow(qs []*req) {
	if !s.c.Huge || len(qs) == 0 || s.h.In.Cap < 4096 {
		return
	}
	w := s.r.W()
	q := qs[w.N(len(qs))]
	if len(q.Body) == 0 || q.Body[0] != '{' {
		return
	}
	n := []int{1 << 20, 1 << 20, 3 << 20, 1 << 24, 1 << 26}[w.Skewed(5)] + w.N(100)
	rt.Count("io:message-of-megabytes", 1)
	if q.Kind == "hello" && w.N(3) != 1 {
		// with a reply of the same size
		long := q.Version + "-" + strings.Repeat("v", n)
		q.Body = []byte(strings.ReplaceAll(string(q.Body), `"`+q.Version+`"`, `"`+long+`"`))
		q.Version = long
		rt.Count("io:reply-of-megabytes", 1)
		return
	}
	if w.N(2) == 1 {
		q.Body = []byte("{" + strings.Repeat(" ", n) + string(q.Body[1:]))
	} else {
		q.Body = []byte(`{"extra":"` + strings.Repeat("x", n) + `",` + string(q.Body[1:]))
	}
}

func (s *session) run() {
	if s.c.Stall == "notes" {
		// one file or all
		one := s.r.F().N(len(s.Files) + 1)
		for i, f := range s.Files {
			if one == len(s.Files) || i == one {
				s.r.K.FS.Lookup(f.Path).Stalled = true
				rt.Count("fault:note-stalled", 1)
			}
		}
	}
	s.start()
	if s.c.Editor && len(s.Files) > 0 {
		rt.Go(s.editor)
	}
	n := s.c.Reqs
	var qs []*req
	for i := 0; i < n; i++ {
		qs = append(qs, s.make(s.pick()))
	}
	s.grow(qs)
	s.sendAll(qs)
	if s.c.Stall != "" {
		s.stallPhase()
	}
	end := s.c.End
	if end == "" || end == "eof" || s.r.W().N(2) == 0 {
		waitUntil("all answered", s.h.P, patience, s.settled)
	}
	s.finish(end)
	s.judge()
}
