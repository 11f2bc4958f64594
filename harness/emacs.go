//go:build go1.27

package harness

import (
	"fmt"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

// Emacs is a model of Emacs with its server and of the emacsclient program.
type Emacs struct {
	r         *Run
	Up        bool // the server runs
	OrgLoaded bool
	HasX      bool // a graphical frame exists
	HasLR     bool // linkremark-ensure-frame is defined
	Inv       []*Invocation
	// Plan decides what goes wrong with an invocation.
	Plan func(inv *Invocation) Behaviour
	// Released ends all hangs.
	Released bool
	Hanging  int
}

// Behaviour is what one invocation of the client does besides its job.
type Behaviour struct {
	Before, After time.Duration
	Hang          bool
	Fail          bool // fails instead of doing its job
	Code          int
	Sig           syscall.Signal
	Msg           string // printed when failing
	Garbage       string // printed instead of the value of an expression
	Noise         int    // bytes printed to stderr after the job
	CloseFirst    bool   // closes its output long before it exits
}

// Invocation is one execution of emacsclient.
type Invocation struct {
	N          int
	Pid        int
	Args       []string // without argv[0]
	Start, End int64
	StartNs    int64
	Ended      bool
	Code       int
	Sig        syscall.Signal
	Eval       bool
	Check      bool // asked whether org-protocol is loaded
	Frame      bool // touched frames
	Ready      bool // printed that org-protocol is loaded
	NoWait     bool
	Line       string
	Positional []string
	B          Behaviour
	Down       bool // found no server
	Usage      bool
}

func newEmacs(r *Run) *Emacs {
	return &Emacs{r: r, Up: true, OrgLoaded: true, HasX: true, HasLR: true}
}

// URI returns the org-protocol URI handed over, if any.
func (v *Invocation) URI() (string, bool) {
	if v.Eval {
		return "", false
	}
	for _, p := range v.Positional {
		if strings.HasPrefix(p, "org-protocol:") {
			return p, true
		}
	}
	return "", false
}

// Opens returns the files opened.
func (v *Invocation) Opens() []string {
	if v.Eval {
		return nil
	}
	var out []string
	for _, p := range v.Positional {
		if !strings.HasPrefix(p, "org-protocol:") {
			out = append(out, p)
		}
	}
	return out
}

// OK tells that the client reported success.
func (v *Invocation) OK() bool { return v.Ended && v.Code == 0 && v.Sig == 0 }

var emacsLong = map[string]int{ // 1: takes a value
	"quiet": 0, "no-wait": 0, "nw": 0, "tty": 0, "create-frame": 0, "reuse-frame": 0, "suppress-output": 0,
	"eval": 0, "help": 0, "version": 0, "alternate-editor": 1, "socket-name": 1, "server-file": 1,
	"display": 1, "parent-id": 1, "frame-parameters": 1, "tramp": 1, "timeout": 1,
}
var emacsShort = map[byte]string{'q': "quiet", 'n': "no-wait", 't': "tty", 'c': "create-frame", 'r': "reuse-frame",
	'u': "suppress-output", 'e': "eval", 'a': "alternate-editor", 's': "socket-name", 'f': "server-file",
	'd': "display", 'F': "frame-parameters", 'T': "tramp", 'w': "timeout"}

type emacsOpts struct {
	on    map[string]bool
	val   map[string]string
	pos   []string
	bad   string
	atEnd bool
}

// parse works like getopt_long, permuting arguments.
func parseEmacsArgs(args []string) *emacsOpts {
	o := &emacsOpts{on: map[string]bool{}, val: map[string]string{}}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			o.pos = append(o.pos, args[i+1:]...)
			return o
		case strings.HasPrefix(a, "--"):
			name, val, has := strings.Cut(a[2:], "=")
			takes, known := emacsLong[name]
			if !known {
				// unambiguous abbreviation
				var m []string
				for k := range emacsLong {
					if strings.HasPrefix(k, name) {
						m = append(m, k)
					}
				}
				if len(m) != 1 {
					o.bad = a
					return o
				}
				name = m[0]
				takes = emacsLong[name]
			}
			o.on[name] = true
			if takes == 1 {
				if !has {
					i++
					if i >= len(args) {
						o.bad = a
						return o
					}
					val = args[i]
				}
				o.val[name] = val
			} else if has {
				o.bad = a
				return o
			}
		case len(a) > 1 && a[0] == '-':
			for j := 1; j < len(a); j++ {
				name, known := emacsShort[a[j]]
				if !known {
					o.bad = a
					return o
				}
				o.on[name] = true
				if emacsLong[name] == 1 {
					if j+1 < len(a) {
						o.val[name] = a[j+1:]
					} else {
						i++
						if i >= len(args) {
							o.bad = a
							return o
						}
						o.val[name] = args[i]
					}
					break
				}
			}
		default:
			o.pos = append(o.pos, a)
		}
	}
	return o
}

// Main is the emacsclient program.
func (e *Emacs) Main(p *kernel.Proc) int {
	inv := &Invocation{N: len(e.Inv), Pid: p.Pid, Args: append([]string(nil), p.Args[1:]...), Start: p.K.Seq(), StartNs: rt.W.Now()}
	e.Inv = append(e.Inv, inv)
	o := parseEmacsArgs(inv.Args)
	inv.Eval = o.on["eval"]
	inv.NoWait = o.on["no-wait"]
	for _, a := range o.pos {
		if !inv.Eval && len(a) > 1 && a[0] == '+' {
			inv.Line = a
			continue
		}
		inv.Positional = append(inv.Positional, a)
	}
	var lispOut []string
	lispErr := ""
	ev := &lisp{e: e, inv: inv}
	if inv.Eval {
		// classify before anything happens
		for _, x := range inv.Positional {
			ev.mention(x)
		}
	}
	rt.Event("emacsclient %d: %s", inv.N, strings.Join(inv.Args, " | "))
	end := func(code int) int {
		inv.Code = code
		inv.Ended = true
		inv.End = p.K.Seq()
		rt.Event("emacsclient %d ends with %d", inv.N, code)
		return code
	}
	if e.Plan != nil {
		inv.B = e.Plan(inv)
	}
	b := inv.B
	if b.Before > 0 {
		rt.Sleep(b.Before)
	}
	if b.Hang {
		e.Hanging++
		rt.Block("emacs hangs", func() bool { return e.Released }, 0)
		e.Hanging--
	}
	if o.bad != "" {
		inv.Usage = true
		p.Out(2, []byte("emacsclient: unrecognized option '"+o.bad+"'\nTry 'emacsclient --help' for more information\n"))
		return end(1)
	}
	if !e.Up {
		inv.Down = true
		alt, has := o.val["alternate-editor"]
		msg := "emacsclient: can't find socket; have you started the server?\nemacsclient: To start the server in Emacs, type \"M-x server-start\".\n"
		p.Out(2, []byte(msg))
		if !has {
			p.Out(2, []byte("emacsclient: No socket or alternate editor.  Please use:\n\n\t--socket-name\n\t--server-file      (or environment variable EMACS_SERVER_FILE)\n\t--alternate-editor (or environment variable ALTERNATE_EDITOR)\n"))
			return end(1)
		}
		if i := strings.Index(alt, "exit "); i >= 0 {
			num := strings.Trim(alt[i+5:], "\"' ;")
			if n, err := strconv.Atoi(num); err == nil {
				return end(n & 255)
			}
		}
		// some editor runs and ends well
		return end(0)
	}
	if b.Fail {
		if b.Msg != "" {
			p.Out(2, []byte(b.Msg))
		}
		if b.Sig != 0 {
			inv.Sig = b.Sig
			end(0)
			p.K.Kill(p, b.Sig)
			rt.Die()
		}
		return end(b.Code)
	}
	if inv.Eval {
		for _, x := range inv.Positional {
			v, err := ev.run(x)
			if err != "" {
				lispErr = err
				break
			}
			lispOut = append(lispOut, show(v))
		}
		if lispErr != "" {
			p.Out(2, []byte("*ERROR*: "+lispErr+"\n"))
			return end(1)
		}
		out := strings.Join(lispOut, "\n") + "\n"
		if b.Garbage != "" {
			out = b.Garbage
		} else if inv.Check && len(lispOut) > 0 && lispOut[len(lispOut)-1] != "nil" {
			inv.Ready = true
		}
		if !o.on["suppress-output"] {
			p.Out(1, []byte(out))
		}
	} else {
		if len(inv.Positional) == 0 {
			p.Out(2, []byte("emacsclient: file name or argument required\nTry 'emacsclient --help' for more information\n"))
			return end(1)
		}
		if len(inv.Opens()) > 0 && !inv.NoWait {
			// the user finishes editing much later
			if !o.on["quiet"] {
				p.Out(1, []byte("Waiting for Emacs...\n"))
			}
			rt.Sleep(2 * time.Hour)
		}
	}
	if b.Noise > 0 {
		p.Out(2, []byte(strings.Repeat("noise ", b.Noise/6+1)))
	}
	if b.CloseFirst {
		p.CloseStd(1)
		p.CloseStd(2)
	}
	if b.After > 0 {
		rt.Sleep(b.After)
	}
	return end(0)
}

// --- a small evaluator of the expressions sent to Emacs

type sym string
type list []any

type lisp struct {
	e   *Emacs
	inv *Invocation
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		if x {
			return "t"
		}
		return "nil"
	case sym:
		return string(x)
	case string:
		return strconv.Quote(x)
	case int:
		return strconv.Itoa(x)
	case list:
		if len(x) == 0 {
			return "nil"
		}
		var s []string
		for _, y := range x {
			s = append(s, show(y))
		}
		return "(" + strings.Join(s, " ") + ")"
	}
	return fmt.Sprintf("#<%v>", v)
}

func truthy(v any) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case list:
		return len(x) > 0
	}
	return true
}

type lispReader struct {
	s   string
	pos int
}

func (r *lispReader) skip() {
	for r.pos < len(r.s) {
		c := r.s[r.pos]
		if c == ';' {
			for r.pos < len(r.s) && r.s[r.pos] != '\n' {
				r.pos++
			}
		} else if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			r.pos++
		} else {
			return
		}
	}
}

func (r *lispReader) read() (any, string) {
	r.skip()
	if r.pos >= len(r.s) {
		return nil, "end-of-file"
	}
	c := r.s[r.pos]
	switch {
	case c == '(':
		r.pos++
		var l list
		for {
			r.skip()
			if r.pos >= len(r.s) {
				return nil, "end-of-file"
			}
			if r.s[r.pos] == ')' {
				r.pos++
				return l, ""
			}
			v, err := r.read()
			if err != "" {
				return nil, err
			}
			l = append(l, v)
		}
	case c == ')':
		return nil, "invalid-read-syntax: )"
	case c == '\'' || c == '`':
		r.pos++
		v, err := r.read()
		return list{sym("quote"), v}, err
	case c == '#' && r.pos+1 < len(r.s) && r.s[r.pos+1] == '\'':
		r.pos += 2
		v, err := r.read()
		return list{sym("quote"), v}, err
	case c == '"':
		i := r.pos + 1
		var b strings.Builder
		for i < len(r.s) && r.s[i] != '"' {
			if r.s[i] == '\\' {
				i++
				if i >= len(r.s) {
					break
				}
			}
			b.WriteByte(r.s[i])
			i++
		}
		if i >= len(r.s) {
			return nil, "end-of-file"
		}
		r.pos = i + 1
		return b.String(), ""
	}
	i := r.pos
	for i < len(r.s) && !strings.ContainsRune(" \t\r\n()'\";", rune(r.s[i])) {
		i++
	}
	if i == r.pos {
		return nil, "invalid-read-syntax"
	}
	w := r.s[r.pos:i]
	r.pos = i
	if n, err := strconv.Atoi(w); err == nil {
		return n, ""
	}
	return sym(w), ""
}

// mention classifies an expression by the symbols in it.
func (l *lisp) mention(src string) {
	r := &lispReader{s: src}
	v, err := r.read()
	if err != "" {
		return
	}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case sym:
			if x == "org-protocol" {
				l.inv.Check = true
			}
			if strings.Contains(string(x), "frame") {
				l.inv.Frame = true
			}
		case list:
			for _, y := range x {
				walk(y)
			}
		}
	}
	walk(v)
}

func (l *lisp) run(src string) (any, string) {
	r := &lispReader{s: src}
	v, err := r.read()
	if err != "" {
		return nil, err
	}
	r.skip()
	if r.pos != len(r.s) {
		return nil, "trailing garbage following expression: " + r.s[r.pos:]
	}
	return l.eval(v)
}

func (l *lisp) fbound(s sym) bool {
	if s == "linkremark-ensure-frame" {
		return l.e.HasLR
	}
	switch s {
	case "and", "or", "if", "memq", "mapcar", "framep", "frame-list", "select-frame", "make-frame", "featurep", "require":
		return true
	}
	return false
}

func (l *lisp) eval(v any) (any, string) {
	switch x := v.(type) {
	case sym:
		switch x {
		case "nil":
			return nil, ""
		case "t":
			return true, ""
		case "features":
			f := list{sym("server"), sym("org")}
			if l.e.OrgLoaded {
				f = append(f, sym("org-protocol"))
			}
			return f, ""
		}
		if strings.HasPrefix(string(x), ":") {
			return x, ""
		}
		return nil, "Symbol's value as variable is void: " + string(x)
	case list:
		if len(x) == 0 {
			return nil, ""
		}
		f, ok := x[0].(sym)
		if !ok {
			return nil, "Invalid function"
		}
		args := x[1:]
		arg := func(i int) any {
			if i < len(args) {
				return args[i]
			}
			return nil
		}
		switch f {
		case "quote", "function":
			return arg(0), ""
		case "and":
			var v any = true
			var err string
			for _, a := range args {
				if v, err = l.eval(a); err != "" || !truthy(v) {
					return v, err
				}
			}
			return v, ""
		case "or":
			for _, a := range args {
				v, err := l.eval(a)
				if err != "" || truthy(v) {
					return v, err
				}
			}
			return nil, ""
		case "progn", "ignore-errors", "save-excursion":
			return l.progn(args)
		case "if":
			c, err := l.eval(arg(0))
			if err != "" {
				return nil, err
			}
			if truthy(c) {
				return l.eval(arg(1))
			}
			if len(args) > 2 {
				return l.progn(args[2:])
			}
			return nil, ""
		case "when", "unless":
			c, err := l.eval(arg(0))
			if err != "" {
				return nil, err
			}
			if truthy(c) == (f == "when") {
				return l.progn(args[1:])
			}
			return nil, ""
		}
		var vals []any
		for _, a := range args {
			v, err := l.eval(a)
			if err != "" {
				return nil, err
			}
			vals = append(vals, v)
		}
		return l.call(f, vals)
	}
	return v, ""
}

func (l *lisp) progn(body list) (any, string) {
	var v any
	var err string
	for _, b := range body {
		if v, err = l.eval(b); err != "" {
			return nil, err
		}
	}
	return v, ""
}

func (l *lisp) call(f sym, a []any) (any, string) {
	at := func(i int) any {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	switch f {
	case "not", "null":
		return !truthy(at(0)), ""
	case "eq", "equal":
		return show(at(0)) == show(at(1)), ""
	case "symbolp":
		_, ok := at(0).(sym)
		return ok || !truthy(at(0)), ""
	case "fboundp":
		s, _ := at(0).(sym)
		return l.fbound(s), ""
	case "functionp":
		s, _ := at(0).(sym)
		return l.fbound(s), ""
	case "featurep":
		s, _ := at(0).(sym)
		return s == "server" || s == "org" || s == "org-protocol" && l.e.OrgLoaded, ""
	case "memq", "member":
		lst, _ := at(1).(list)
		for i, x := range lst {
			if show(x) == show(at(0)) {
				return lst[i:], ""
			}
		}
		return nil, ""
	case "frame-list":
		fs := list{sym("frame-tty")}
		if l.e.HasX {
			fs = append(fs, sym("frame-x"))
		}
		return fs, ""
	case "framep":
		if s, _ := at(0).(sym); s == "frame-x" {
			return sym("x"), ""
		} else if s == "frame-tty" {
			return true, ""
		}
		return nil, ""
	case "mapcar":
		fn, _ := at(0).(sym)
		lst, _ := at(1).(list)
		var out list
		for _, x := range lst {
			v, err := l.call(fn, []any{x})
			if err != "" {
				return nil, err
			}
			out = append(out, v)
		}
		return out, ""
	case "make-frame":
		l.e.HasX = true
		return sym("frame-x"), ""
	case "select-frame", "raise-frame", "select-frame-set-input-focus":
		return at(0), ""
	case "linkremark-ensure-frame":
		if l.e.HasLR {
			l.e.HasX = true
			return true, ""
		}
	}
	return nil, "Symbol's function definition is void: " + string(f)
}
