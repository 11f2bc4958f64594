//go:build go1.27

package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"gen.local/s0/burl/pkg/version"
	slot1 "gen.local/s1"
	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

var instReal = []string{"cmd/burl_backend (installer)", "pkg/burl_fileutil", "pkg/burl_util", "pkg/webextensions (manifest)", "pkg/burl_links (sources)", "flag", "encoding/json", "path/filepath"}
var instStub = []string{"kernel (files, processes)", "os", "io/ioutil", "goroutine scheduler"}

func init() {
	add := func(id string, quick, deep int, run func(r *Run), rule string, real, stub []string) {
		props[id] = &propDef{run: run, quick: quick, deep: deep, real: real, stub: stub, rule: rule}
	}
	add("R14", 60000, 3000000, runR14, "a case is a history of installs with seeded options and files in the way, killed or losing power between any two file operations, with failing operations, or two at once; non-trivial if at least one state of a helper path was judged", instReal, instStub)
	add("R15", 60000, 3000000, runR15, "a case is an install over seeded existing files, with and without force, with faults and crashes; non-trivial if at least one existing file was judged", instReal, instStub)
	add("R16", 60000, 3000000, runR16, "a case is an install with seeded options, faults and crashes, followed by a forced repetition; non-trivial if at least one exit status was judged", instReal, instStub)
	add("R17", 20000, 1000000, runR17, "a case is a history of installs after which the wrapper is executed by the real shell and the backend is launched with the arguments the wrapper passed; non-trivial if at least one launch was judged",
		append(append([]string{}, sessionReal...), "/bin/sh of the sandbox"), sessionStub)
}

const stdoutFile = "/var/stdout"

// fstate is what a path holds.
type fstate struct {
	Kind byte // 0 nothing, 'f', 'd', 'l'
	Data string
	Mode uint32
}

func (s fstate) String() string {
	switch s.Kind {
	case 0:
		return "nothing"
	case 'd':
		return "a directory"
	case 'l':
		return "a link to " + s.Data
	}
	return fmt.Sprintf("a file with mode %04o and %d bytes %q", s.Mode, len(s.Data), clip(s.Data, 60))
}

func stateOf(n *kernel.Inode) fstate {
	switch {
	case n == nil:
		return fstate{}
	case n.Kind == kernel.KDir:
		return fstate{Kind: 'd'}
	case n.Kind == kernel.KLink:
		return fstate{Kind: 'l', Data: n.Target}
	}
	return fstate{'f', string(n.Data), n.Mode}
}

type entry struct {
	path, data string
	mode       uint32
	kind       byte
}

// inst is one invocation of the installer.
type inst struct {
	exe, cwd            string
	args                []string
	opts                []string // backend options as given
	canon               []string // the same in canonical form
	targets             []string // options that name the helpers
	force               bool
	wrapper, ff, chrome string // targets, "-" or ""
	ffIDs, chIDs        []string
	custom              bool
	valid               bool
	why                 string
	logFile             string
}

func (in *inst) paths() (out []string) {
	for _, p := range []string{in.wrapper, in.ff, in.chrome} {
		if p != "" && p != "-" {
			out = append(out, p)
		}
	}
	return
}

// iref is the outcome of an undisturbed install.
type iref struct {
	code   int
	stdout string
	stderr string
	files  map[string]fstate
	ops    int
}

type instSim struct {
	r       *Run
	k       *kernel.Kernel
	B       string // everything is below it
	entries []entry
	cwds    []string
	exe     string
	exe2    string
	notes   []*note
	sane    bool // only valid installs
	hook    func()
	kill    int
	how     string
	ops     int
	crashed bool
	inst    *kernel.Proc
	second  *kernel.Proc
	out     *progOpt
}

func (x *instSim) p(s string) string { return x.B + s }

func slot1Program(p *kernel.Proc) int {
	slot1.Start(p)
	slot1.Mains["cmd/burl_backend"]()
	return 0
}

func newInstSim(r *Run, base string) *instSim {
	x := &instSim{r: r, k: r.K, B: base, kill: -1}
	c := r.C()
	if c.N(3) == 2 {
		r.K.FragFiles = 2
	}
	dir := func(p string) { x.entries = append(x.entries, entry{path: p, kind: 'd'}) }
	for _, d := range []string{"/home/u/bin", "/home/u/.mozilla/native-messaging-hosts", "/home/u/.config/chromium/NativeMessagingHosts", "/home/u/notes", "/var/log/burl", "/work", "/opt/ec"} {
		dir(base + d)
	}
	dir("/usr/bin")
	x.cwds = []string{base + "/work", base + "/home/u", base + "/home/u/bin"}
	link := func(p, t string) { x.entries = append(x.entries, entry{path: p, data: t, kind: 'l'}) }
	link(base+"/home/u/b", "bin")
	link(base+"/home/u/m", base+"/home/u/.mozilla/native-messaging-hosts")
	link(base+"/home/u/o", base+"/opt/burl")
	dirname := "burl"
	if base != "" && c.N(3) == 1 {
		dirname = "burl " + fileName(c)
	}
	x.exe = base + "/opt/" + dirname + "/burl_backend"
	x.exe2 = base + "/opt/burl-new/burl_backend"
	x.file(x.exe, "ELF backend", 0755)
	x.file(x.exe2, "ELF backend 2", 0755)
	x.file("/usr/bin/emacsclient", "ELF emacsclient", 0755)
	x.file("/usr/bin/ec2", "ELF emacsclient", 0755)
	x.file("/usr/bin/printf", "ELF printf", 0755)
	k := r.K
	k.Programs[x.exe] = backendProgram
	k.Programs[x.exe2] = slot1Program
	k.Programs["/usr/bin/printf"] = realProgram("/usr/bin/printf")
	k.Class = func(p string) string {
		switch {
		case strings.HasPrefix(p, base+"/home/u/bin"), strings.HasPrefix(p, base+"/home/u/.mozilla"), strings.HasPrefix(p, base+"/home/u/.config"),
			strings.HasPrefix(p, base+"/home/u/b/"), strings.HasPrefix(p, base+"/home/u/m/"):
			return "helper"
		case strings.HasPrefix(p, base+"/home/u/notes"):
			return "note"
		case p == stdoutFile:
			return "stdout"
		}
		return "other"
	}
	k.OnOp = x.onOp
	return x
}

func (x *instSim) file(p, data string, mode uint32) {
	x.entries = append(x.entries, entry{path: p, data: data, mode: mode, kind: 'f'})
}

// freshFS installs a new file system with the common entries.
func (x *instSim) freshFS() {
	fs := kernel.NewFS()
	for _, e := range x.entries {
		switch e.kind {
		case 'd':
			fs.MkdirAll(e.path)
		case 'f':
			fs.Put(e.path, e.data, e.mode)
		case 'l':
			fs.Symlink(e.data, e.path)
		}
	}
	x.k.FS = fs
}

func (x *instSim) onOp(p *kernel.Proc, op, pth string) {
	if p != x.inst && p != x.second || p == nil {
		return
	}
	if x.hook != nil {
		x.hook()
	}
	x.ops++
	if x.kill >= 0 && x.ops > x.kill {
		x.kill = -1
		x.crash()
	}
}

func (x *instSim) crash() {
	x.crashed = true
	rt.Count("fault:crash-"+x.how, 1)
	rt.Event("CRASH (%s) at operation %d", x.how, x.ops)
	for _, p := range x.k.Procs {
		if !p.Exited {
			x.k.Kill(p, syscall.SIGKILL)
		}
	}
	if x.how == "power" {
		x.k.FS.PowerLoss(x.r.F())
	}
}

func (x *instSim) begin(in *inst) *prog {
	rt.Event("install %s", strings.Join(in.args, " | "))
	g := startProg(x.r, in.exe, in.args, in.cwd, x.out)
	if in.exe == x.exe2 {
		x.second = g.P
	} else {
		x.inst = g.P
	}
	return g
}

// run performs an install and waits for its end.
func (x *instSim) run(in *inst) *prog {
	g := x.begin(in)
	if !g.wait(patience) {
		return g
	}
	x.inst = nil
	return g
}

// ref performs an install on a fresh file system without any disturbance.
func (x *instSim) ref(in *inst) *iref {
	keep, hook, kill, budget := x.k.FS, x.hook, x.kill, x.k.Budget
	x.freshFS()
	x.hook, x.kill, x.k.Budget, x.ops = nil, -1, 0, 0
	g := x.run(in)
	f := &iref{code: g.P.Code, stdout: string(g.Out), stderr: string(g.Err), files: map[string]fstate{}, ops: x.ops}
	if !g.P.Exited || g.P.Crash != "" {
		f.code = -1
		f.stderr += g.text()
	}
	for _, p := range in.paths() {
		f.files[p] = stateOf(x.k.FS.LookupNoFollow(p))
	}
	x.judgePlaced(in, f, g, "undisturbed")
	x.k.FS, x.hook, x.kill, x.k.Budget, x.ops = keep, hook, kill, budget, 0
	return f
}

var oddValues = []string{"plain", "with space", "it's", "dq\"x", "back\\slash", "$HOME", "`touch pwned`", "$(touch pwned)", "a;touch pwned", "a&touch pwned&", "a|touch pwned", "*", "?", "[a-z]", "~", "#c", "!x",
	"new\nline", "tab\tx", "trail\n", "\nlead", "заметки", "日本", "\x01ctl\x1f", "\x7f", "bad\xffutf8", "%s%d%%", "-n", "--log", "'", "''", "'\\''", "\\", "a\\", "{a,b}", "<x>", "a=b", "x\r", "$'a'", "\"$@\"", "${x}", "\\n", "\\101", "a b  c", " ", "''touch pwned''", "'\"'\"'", "\u2028", "(a)", "^a$", ">pwned", "a\n\nb", "\\'", "%"}

func oddValue(t *rt.Tape) string {
	s := oddValues[t.N(len(oddValues))]
	switch t.N(8) {
	case 1:
		s += oddValues[t.N(len(oddValues))]
	case 2:
		s = oddValues[t.N(len(oddValues))] + "." + s
	case 3:
		s = strings.Repeat(s, 1+t.Skewed(60))
	}
	return s
}

func fileName(t *rt.Tape) string {
	s := oddValue(t)
	if len(s) > 180 {
		s = s[:180]
	}
	return s
}

// form writes an absolute path in another way.
func (x *instSim) form(w *rt.Tape, cwd, p string) string {
	switch w.N(4) {
	case 1:
		// relative
		if rest, ok := strings.CutPrefix(p, cwd+"/"); ok {
			if w.N(2) == 1 {
				return "./" + rest
			}
			return rest
		}
		if strings.HasPrefix(p, x.B+"/") {
			up := strings.Repeat("../", strings.Count(strings.TrimPrefix(cwd, x.B), "/"))
			return up + strings.TrimPrefix(p, x.B+"/")
		}
	case 2:
		i := strings.LastIndexByte(p, '/')
		return p[:i] + "//" + p[i+1:]
	case 3:
		i := strings.LastIndexByte(p, '/')
		return p[:i] + "/./" + p[i+1:]
	}
	return p
}

// gen makes an invocation; like is an earlier one whose targets are kept.
func (x *instSim) gen(like *inst, odd bool) *inst {
	w := x.r.W()
	in := &inst{exe: x.exe, valid: true}
	bad := func(why string) {
		in.valid = false
		in.why = why
	}
	if like != nil {
		*in = inst{exe: like.exe, valid: like.valid, why: like.why, targets: like.targets, wrapper: like.wrapper, ff: like.ff, chrome: like.chrome, cwd: like.cwd, ffIDs: like.ffIDs, chIDs: like.chIDs}
	} else {
		in.cwd = x.cwds[w.N(len(x.cwds))]
	}
	name := func(plain string) string {
		if odd && w.N(2) == 1 {
			return plain + fileName(w)
		}
		return plain
	}
	sized := 0
	// options of the backend
	switch w.N(7) {
	case 1:
		in.opts = append(in.opts, "--log", "-")
	case 2:
		in.opts = append(in.opts, "--log=")
		in.canon = append(in.canon, "--log=")
		in.custom = true
	case 3, 4:
		d := []string{x.p("/var/log/burl"), in.cwd}[w.N(2)]
		in.logFile = d + "/" + name("log")
		if odd && w.N(8) == 1 {
			in.logFile = d + "/" + []string{"-x.log", "--", "~", "#l", "=x", "+1", "%s", "-"}[w.N(7)]
		}
		if w.N(3) == 1 {
			// there is a log already
			x.plain(in.logFile, "2020/01/01 00:00:00 old\n", 0600)
		}
		f := x.form(w, in.cwd, in.logFile)
		if w.N(2) == 1 {
			in.opts = append(in.opts, "-log", f)
		} else {
			in.opts = append(in.opts, "--log="+f)
		}
		in.canon = append(in.canon, "--log="+in.logFile)
		in.custom = true
	}
	if w.N(4) == 1 {
		v := []string{"--disable-link-set", "-disable-link-set=true", "--disable-link-set=false", "--disable-link-set=1"}[w.N(4)]
		in.opts = append(in.opts, v)
		in.canon = append(in.canon, v)
		if !strings.HasSuffix(v, "false") {
			in.custom = true
		}
	}
	switch w.N(6) {
	case 1:
		in.opts = append(in.opts, "--emacsclient", "ec2")
		in.canon = append(in.canon, "--emacsclient=ec2")
		in.custom = true
	case 2:
		p := x.p("/opt/ec/") + name("ec")
		x.program(p)
		in.opts = append(in.opts, "--emacsclient="+p)
		in.canon = append(in.canon, "--emacsclient="+p)
		in.custom = true
	case 3:
		n := name("ec")
		p := in.cwd + "/" + n
		x.program(p)
		in.opts = append(in.opts, "--emacsclient=./"+n)
		in.canon = append(in.canon, "--emacsclient="+p)
		in.custom = true
	case 4:
		in.opts = append(in.opts, "--emacsclient=emacsclient")
	}
	if w.N(12) == 1 {
		// the size of a helper has to be of no importance
		n := []int{3000 + w.N(1500), 7000 + w.N(1500), 64000 + w.N(2000), 100000}[w.N(4)]
		if w.N(2) == 1 {
			// exactly so many bytes
			n, sized = 10, []int{4096, 4095, 4097, 4096, 8192, 65536, 16384, 4096}[w.N(8)]
		}
		v := "--socket-name=" + strings.Repeat("s", n)
		in.opts = append(in.opts, "--emacsarg="+v)
		in.canon = append(in.canon, "--emacsarg="+v)
		in.custom = true
	} else if w.N(2) == 1 {
		n := 1 + w.Skewed(4)
		if odd && w.N(20) == 1 {
			n = 10 + w.N(40)
		}
		if w.N(5) == 1 {
			in.opts = append(in.opts, "--emacsarg=")
			in.canon = append(in.canon, "--emacsarg=")
		}
		for i := 0; i < n; i++ {
			v := "work"
			if odd {
				v = oddValue(w)
			}
			if w.N(4) != 1 {
				v = []string{"--socket-name=", "--tramp=", "-s", "--display=", "--server-file="}[w.N(5)] + v
			}
			if w.N(2) == 1 {
				in.opts = append(in.opts, "--emacsarg="+v)
			} else {
				in.opts = append(in.opts, "-emacsarg", v)
			}
			in.canon = append(in.canon, "--emacsarg="+v)
		}
		in.custom = true
	}
	if w.N(3) == 1 {
		if w.N(3) == 1 {
			in.opts = append(in.opts, "--scheme=")
			in.canon = append(in.canon, "--scheme=")
		}
		for i := w.N(3); i >= 0; i-- {
			v := []string{"ftp", "gopher", "news", "x-y", "ssh"}[w.N(5)]
			in.opts = append(in.opts, "--scheme", v)
			in.canon = append(in.canon, "--scheme="+v)
		}
		in.custom = true
	}
	var pos, posCanon []string
	for _, n := range x.notes {
		if w.N(3) == 2 {
			continue
		}
		arg := n.Path
		if w.N(4) == 1 {
			arg = x.linkTo(n.Path)
		}
		form := x.form(w, in.cwd, arg)
		kind := "-txt="
		switch w.N(3) {
		case 0:
			if n.Org {
				kind = "-org="
			}
			in.opts = append(in.opts, "-"+kind+form)
		case 1:
			if w.N(2) == 1 {
				kind = "-org="
			}
			in.opts = append(in.opts, kind+form)
		case 2:
			if strings.HasPrefix(form, "-") {
				form = arg
			}
			if strings.HasSuffix(form, ".org") {
				kind = "-org="
			}
			pos = append(pos, form)
			posCanon = append(posCanon, kind+n.Path)
			in.custom = true
			continue
		}
		in.canon = append(in.canon, kind+n.Path)
		in.custom = true
	}
	if odd && len(x.notes) > 0 && w.N(8) == 1 {
		// a file that may be given already
		n := x.notes[w.N(len(x.notes))]
		kind := []string{"-org=", "-txt="}[w.N(2)]
		in.opts = append(in.opts, kind+n.Path)
		in.canon = append(in.canon, kind+n.Path)
		in.custom = true
	}
	in.canon = append(in.canon, posCanon...)
	if like == nil {
		x.genTargets(in, odd, bad)
	}
	in.force = like != nil && w.N(4) != 0
	in.compose(w, pos)
	if in.wrapper == "" && in.custom {
		in.valid = false
		in.why = "custom options without wrapper"
	}
	if sized > 0 && in.valid && in.wrapper != "" && in.wrapper != "-" {
		if n := sized - len(x.ref(in).files[in.wrapper].Data); n > 0 {
			for _, l := range [][]string{in.opts, in.canon, in.args} {
				for i, v := range l {
					if strings.HasSuffix(v, "--socket-name="+strings.Repeat("s", 10)) {
						l[i] = v + strings.Repeat("s", n)
					}
				}
			}
		}
	}
	x.r.Say("install in %s: %q valid=%v", in.cwd, in.args, in.valid)
	return in
}

func (in *inst) compose(w *rt.Tape, pos []string) {
	t := append([]string{}, in.targets...)
	if in.force {
		if w.N(2) == 1 {
			t = append(t, "-force")
		} else {
			t = append([]string{"--force"}, t...)
		}
	}
	if w.N(2) == 1 {
		in.args = append(append(append([]string{}, t...), in.opts...), pos...)
	} else {
		in.args = append(append(append([]string{}, in.opts...), t...), pos...)
	}
}

// program makes a client of Emacs exist under another name.
func (x *instSim) program(p string) {
	for _, e := range x.entries {
		if e.path == p {
			return
		}
	}
	x.plain(p, "ELF emacsclient", 0755)
}

// plain adds a file to all file systems unless there is one.
func (x *instSim) plain(p, data string, mode uint32) {
	for _, e := range x.entries {
		if e.path == p {
			return
		}
	}
	x.file(p, data, mode)
	if x.k.FS.LookupNoFollow(p) == nil {
		x.k.FS.Put(p, data, mode)
	}
}

func (x *instSim) linkTo(p string) string {
	for _, e := range x.entries {
		if e.kind == 'l' && e.data == p {
			return e.path
		}
	}
	l := x.p("/home/u/") + fmt.Sprintf("ln%d", len(x.entries))
	if x.r.W().N(2) == 1 {
		l += ".org"
	}
	x.entries = append(x.entries, entry{path: l, data: p, kind: 'l'})
	if x.k.FS.LookupNoFollow(l) == nil {
		x.k.FS.Symlink(p, l)
	}
	return l
}

func (x *instSim) genTargets(in *inst, odd bool, bad func(string)) {
	w := x.r.W()
	opt := func(name, v string) {
		switch w.N(3) {
		case 0:
			in.targets = append(in.targets, "-"+name, v)
		case 1:
			in.targets = append(in.targets, "--"+name+"="+v)
		case 2:
			in.targets = append(in.targets, "-"+name+"="+v)
		}
	}
	wname := "burl-wrapper"
	if odd && w.N(2) == 1 {
		wname = "w" + fileName(w)
	}
	which := w.N(8) // 0: everything
	in.ffIDs = []string{version.FirefoxExtension}
	in.chIDs = []string{"chrome-extension://" + version.ChromeExtension + "/"}
	hasW := which != 5 || x.sane
	if hasW {
		in.wrapper = x.p("/home/u/bin/") + wname
		given := x.form(w, in.cwd, in.wrapper)
		switch w.N(12) {
		case 1:
			in.wrapper = x.p("/home/u/b/") + wname
			given = in.wrapper
		case 2:
			if !x.sane {
				in.wrapper = "-"
				given = "-"
			}
		case 3:
			if !x.sane {
				bad("no directory")
				in.wrapper = x.p("/home/u/none/") + wname
				given = in.wrapper
			}
		case 4:
			if !x.sane && x.B == "" {
				bad("wrapper is the backend")
				in.wrapper = []string{"/home/u/o/burl_backend", "/opt/burl/burl_backend"}[w.N(2)]
				given = in.wrapper
			}
		}
		opt("wrapper", given)
		if strings.ToValidUTF8(wname, "") != wname && which != 6 {
			bad("wrapper path can not be written in JSON")
		}
	}
	backend := ""
	if w.N(3) == 1 {
		backend = []string{"org.example.burl", "burl_2", "a"}[w.N(3)]
		if !x.sane && w.N(8) == 1 {
			// some of them are for Firefox only, others for no browser
			backend = []string{"Org.Burl", "org.burl-2", "a..b", ".burl", "burl.", "my burl", "бурл", "burl\n", "a+b", "B"}[w.N(10)]
		}
		opt("backend", backend)
	}
	manifest := func(flag, dir, alias string) (target string) {
		base := backend
		if base == "" {
			base = version.AppName
		}
		def := dir + "/" + base + ".json"
		n := w.N(12)
		if x.sane {
			n = w.N(5)
		}
		given := def
		target = def
		switch n {
		case 0:
			given = dir
		case 1:
			given = x.form(w, in.cwd, def)
		case 2:
			given = dir + "/"
		case 3:
			if backend == "" {
				target = dir + []string{"/my.host.json", "/host.json", "/a.b.c_9.json"}[w.N(3)]
				if !x.sane && w.N(12) == 1 {
					target = dir + []string{"/My-host.json", "/.json", "/a..b.json", "/-.json"}[w.N(4)]
				}
				if flag == "manifest-firefox" && w.N(2) == 1 {
					target = dir + "/My.Host.json"
				}
				given = target
			}
		case 4:
			if alias != "" {
				target = alias + "/" + base + ".json"
				given = []string{alias, target}[w.N(2)]
			}
		case 5:
			given = "-"
			target = "-"
		case 6:
			given = dir + "/" + base + ".txt"
			target = given
			bad("extension of manifest")
		case 7:
			if backend != "" {
				given = dir + "/other.json"
				target = given
				bad("name of manifest")
			}
		case 8:
			given = dir + "/none/" + base + ".json"
			target = given
			bad("no directory")
		case 9:
			given = x.p("/home/u/bin/") + base + ".json" // together with the other one
			target = given
		}
		opt(flag, given)
		name := base
		if target != "-" {
			name = strings.TrimSuffix(path.Base(target), ".json")
		}
		if !hostName(name, flag == "manifest-chrome") && in.valid {
			bad("name the browser does not accept")
		}
		return target
	}
	if which != 6 && which != 7 {
		in.ff = manifest("manifest-firefox", x.p("/home/u/.mozilla/native-messaging-hosts"), x.p("/home/u/m"))
		if w.N(4) == 1 {
			if w.N(3) == 1 {
				opt("mozilla-extension", "")
				in.ffIDs = nil
			}
			for i := w.N(3); i > 0; i-- {
				id := fmt.Sprintf("addon%d@example.org", i)
				opt("mozilla-extension", id)
				in.ffIDs = append(in.ffIDs, id)
			}
			if len(in.ffIDs) == 0 {
				bad("no extension")
			}
		}
	}
	if which != 6 && which != 4 {
		twice := in.ff != "" && in.ff != "-" && !x.sane && w.N(16) == 1
		if twice {
			in.chrome = in.ff
			opt("manifest-chrome", x.form(w, in.cwd, in.ff))
		} else {
			in.chrome = manifest("manifest-chrome", x.p("/home/u/.config/chromium/NativeMessagingHosts"), "")
		}
		if w.N(4) == 1 {
			if w.N(3) == 1 {
				opt("chrome-extension", "")
				in.chIDs = nil
			}
			for i := w.N(3); i > 0; i-- {
				id := fmt.Sprintf("%032d", i)
				v := id
				if w.N(2) == 1 {
					v = "chrome-extension://" + id + "/"[w.N(4)/3:]
				}
				opt("chrome-extension", v)
				in.chIDs = append(in.chIDs, "chrome-extension://"+id+"/")
			}
			if len(in.chIDs) == 0 {
				bad("no extension")
			}
		}
	}
	out := 0
	for _, p := range []string{in.wrapper, in.ff, in.chrome} {
		if p == "-" {
			out++
		}
	}
	if out > 1 {
		bad("several on stdout")
	}
	if in.wrapper == "-" && (in.ff != "" || in.chrome != "") {
		bad("manifest without wrapper path")
	}
	if in.ff != "" && in.ff != "-" && in.ff == in.chrome {
		bad("one file for both manifests")
	}
	if in.wrapper == "" && in.ff == "" && in.chrome == "" {
		in.wrapper = x.p("/home/u/bin/") + wname
		opt("wrapper", in.wrapper)
	}
}

// judgePlaced: after success everything requested is in place.
func (x *instSim) judgePlaced(in *inst, ref *iref, g *prog, when string) {
	r := x.r
	if r.Prop != "R16" && r.Prop != "R17" {
		return
	}
	fs := x.k.FS
	if !g.P.Exited {
		r.Violate("R16", "hangs", "%s install %q does not end", when, in.args)
		return
	}
	if g.P.Crash != "" {
		r.Violate("R16", "crash", "%s install %q: %s", when, in.args, g.text())
		return
	}
	r.Check("R16")
	ok := g.P.Code == 0 && g.P.Sig == 0
	if when == "undisturbed" && in.valid && !ok {
		r.Violate("R16", "refused", "undisturbed install %q failed: %s", in.args, g.text())
		r.Violate("R17", "refused", "undisturbed install %q failed: %s", in.args, g.text())
	}
	if !ok {
		if len(g.Err) == 0 && g.P.Sig == 0 {
			r.Violate("R16", "silent", "%s install %q failed without a message", when, in.args)
		}
		return
	}
	if n := fs.Lookup(in.exe); n == nil || !strings.HasPrefix(string(n.Data), "ELF backend") {
		r.Violate("R16", "backend", "%s install %q replaced the backend program itself", when, in.args)
		return
	}
	if in.wrapper == "" && in.custom {
		r.Violate("R16", "config-lost", "%s install %q succeeded but no helper carries the options of the backend", when, in.args)
		return
	}
	exec := func(p string) string {
		n := fs.Lookup(p)
		switch {
		case n == nil:
			return "is not there"
		case n.Kind != kernel.KFile:
			return "is not a file"
		case n.Mode&0500 != 0500:
			return fmt.Sprintf("has mode %04o", n.Mode)
		}
		return ""
	}
	if in.wrapper != "" && in.wrapper != "-" {
		if why := exec(in.wrapper); why != "" {
			r.Violate("R16", "wrapper", "%s install %q succeeded but the wrapper %s %s", when, in.args, in.wrapper, why)
		} else if n := fs.Lookup(in.wrapper); when != "undisturbed" && string(n.Data) != ref.files[in.wrapper].Data {
			r.Violate("R16", "wrapper", "%s install %q succeeded but the wrapper holds %q", when, in.args, clip(string(n.Data), 300))
		} else if !strings.HasPrefix(string(n.Data), "#!") && n != fs.Lookup(in.exe) {
			r.Violate("R16", "wrapper", "%s install %q succeeded but the wrapper holds %q", when, in.args, clip(string(n.Data), 300))
		}
	}
	if in.wrapper == "-" && (len(g.output()) == 0 || when != "undisturbed" && g.output() != ref.stdout) {
		r.Violate("R16", "stdout", "%s install %q printed %q", when, in.args, clip(g.output(), 300))
	}
	check := func(kind, p, key, other string, ids []string) {
		if p == "" {
			return
		}
		var text string
		name := ""
		if p == "-" {
			text = g.output()
		} else {
			n := fs.Lookup(p)
			if n == nil || n.Kind != kernel.KFile {
				r.Violate("R16", "manifest", "%s install %q succeeded but the %s manifest %s is %v", when, in.args, kind, p, stateOf(n))
				return
			}
			text = string(n.Data)
			base := path.Base(p)
			name = strings.TrimSuffix(base, path.Ext(base))
			if n.Mode&0400 == 0 {
				r.Violate("R16", "manifest", "%s install %q: the manifest %s has mode %04o", when, in.args, p, n.Mode)
			}
			if path.Ext(p) != ".json" {
				r.Violate("R16", "manifest", "%s install %q: the manifest %s has a wrong extension", when, in.args, p)
			}
		}
		var m map[string]any
		if err := json.Unmarshal([]byte(text), &m); err != nil {
			r.Violate("R16", "manifest", "%s install %q succeeded but the %s manifest %s is no JSON: %q", when, in.args, kind, p, clip(text, 300))
			return
		}
		wrong := func(format string, a ...any) {
			r.Violate("R16", "manifest", "%s install %q succeeded but in the %s manifest %s %s", when, in.args, kind, p, fmt.Sprintf(format, a...))
		}
		if m["type"] != "stdio" {
			wrong("type is %v", m["type"])
		}
		if s, _ := m["name"].(string); !hostName(s, kind == "Chrome") || name != "" && s != name {
			wrong("name is %v", m["name"])
		}
		if s, ok := m["description"].(string); !ok || s == "" {
			wrong("description is %v", m["description"])
		}
		if _, has := m[other]; has {
			wrong("%s is present", other)
		}
		if jstr(m[key]) != jstr(ids) {
			wrong("%s is %v, not %v", key, m[key], ids)
		}
		exePath, _ := m["path"].(string)
		if !path.IsAbs(exePath) {
			wrong("path is %v", m["path"])
		} else if why := exec(exePath); why != "" {
			wrong("path is %q that %s", exePath, why)
		} else {
			want := in.exe
			if in.wrapper != "" {
				want = in.wrapper
			}
			if fs.Lookup(exePath) != fs.Lookup(want) {
				wrong("path is %q, not %q", exePath, want)
			}
		}
	}
	check("Firefox", in.ff, "allowed_extensions", "allowed_origins", in.ffIDs)
	check("Chrome", in.chrome, "allowed_origins", "allowed_extensions", in.chIDs)
}

// judgeFailed: a failed install has not put a manifest in place that names
// a wrapper which is not there.
func (x *instSim) judgeFailed(in *inst, before map[string]string, g *prog) {
	if g.P.Code == 0 && g.P.Sig == 0 {
		return
	}
	for _, p := range []string{in.ff, in.chrome} {
		if p == "" || p == "-" {
			continue
		}
		n := x.k.FS.Lookup(p)
		if n == nil || n.Kind != kernel.KFile || before[p] == string(n.Data) {
			continue
		}
		var m struct{ Path string }
		if json.Unmarshal(n.Data, &m) != nil {
			continue // torn files are for R14
		}
		if w := x.k.FS.Lookup(m.Path); w == nil || w.Mode&0100 == 0 {
			x.r.Violate("R16", "dangling", "failed install %q put the manifest %s in place that names %s, which is %v", in.args, p, m.Path, stateOf(w))
		}
	}
}

// disturb prepares what goes wrong in the next install.
func (x *instSim) disturb(ref *iref) string {
	f := x.r.F()
	x.how, x.kill, x.crashed, x.ops = "", -1, false, 0
	x.k.Rates = map[string]int{}
	x.k.Budget = 0
	how := []string{"none", "kill", "power", "fault", "full", "fault"}[f.N(6)]
	switch how {
	case "kill", "power":
		x.how = how
		x.kill = f.N(ref.ops + 6)
	case "fault":
		ops := []string{"open", "openw", "read", "write", "fsync", "close", "chmod", "stat", "rename", "unlink"}
		if f.N(2) == 1 {
			x.k.Rates[ops[f.N(len(ops))]+":helper"] = 1 + f.N(3)
		} else {
			for _, o := range ops {
				x.k.Rates[o+":helper"] = 8
			}
			if f.N(3) == 1 {
				x.k.Rates["stat:note"] = 8
				x.k.Rates["stat:other"] = 20
			}
		}
		x.k.Budget = 1 + f.Skewed(4)
	case "full":
		x.k.Rates["write:helper"] = 1
		if f.N(2) == 1 {
			x.k.Rates["write:helper"] = 2
		}
		x.k.Budget = 50
	}
	return how
}

func (x *instSim) calm() {
	x.k.Budget = 0
	x.k.Rates = map[string]int{}
	x.kill = -1
	x.inst, x.second = nil, nil
}

func snapshot(fs *kernel.FS, paths []string) map[string]fstate {
	out := map[string]fstate{}
	for _, p := range paths {
		out[p] = stateOf(fs.LookupNoFollow(p))
	}
	return out
}

func everything(fs *kernel.FS) map[string]fstate {
	out := map[string]fstate{}
	for p, n := range fs.List("/") {
		out[p] = stateOf(n)
	}
	return out
}

// inTheWay puts something where a helper shall be written.
func (x *instSim) inTheWay(p string, ref, other fstate, unreadable bool) {
	f := x.r.F()
	fs := x.k.FS
	if fs.Lookup(path.Dir(p)) == nil || ref.Kind != 'f' || fs.LookupNoFollow(p) != nil {
		return
	}
	mode := ref.Mode
	data := ref.Data
	switch f.N(15) {
	case 0:
		return
	case 1:
		mode = []uint32{0644, 0600, 0400, 0444, 0755, 0700}[f.N(6)]
	case 2:
		data = data[:f.N(len(data))]
	case 3:
		data += []string{"\n", "x", " ", "exit 1\n", "\x00"}[f.N(5)]
	case 4:
		data += strings.Repeat("# more\n", 600+f.N(2000))
	case 5:
		data = ""
	case 6:
		data = "* My notes\n\nhttps://example.org/\n"
		mode = 0644
	case 7:
		data = "#!/bin/sh\necho \"something of mine\"\n"
	case 8:
		data = strings.Repeat("precious data ", 400+f.N(3000))
	case 9:
		t := x.p("/home/u/notes/target-" + path.Base(p))
		fs.Put(t, "precious\n", 0644)
		fs.Symlink(t, p)
		rt.Count("env:link-in-the-way", 1)
		return
	case 10:
		t := x.p("/home/u/notes/same-" + path.Base(p))
		fs.Put(t, data, 0644)
		fs.Symlink(t, p)
		rt.Count("env:link-in-the-way", 1)
		return
	case 11:
		if other.Kind == 'f' {
			data = other.Data
		}
	case 12:
		i := f.N(len(data))
		data = data[:i] + string(data[i]^1) + data[i+1:]
	case 13:
		if !unreadable {
			return
		}
		mode = 0
		data = "secret\n"
	case 14:
		data = strings.Repeat("\x00", len(data))
	}
	fs.Put(p, data, mode)
	rt.Count("env:file-in-the-way", 1)
}

// --- R14

func runR14(r *Run) {
	c, f := r.C(), r.F()
	x := newInstSim(r, "")
	x.genNotes(1, false)
	x.freshFS()
	steps := 1 + c.N(3)
	var prev *inst
	for i := 0; i < steps; i++ {
		in := x.gen(prev, c.N(3) == 1)
		prev = in
		ref := x.ref(in)
		if i == 0 && f.N(2) == 1 {
			for _, p := range in.paths() {
				x.inTheWay(p, ref.files[p], fstate{}, false)
			}
			if f.N(2) == 1 {
				in.force = true
				in.args = append([]string{"-force"}, in.args...)
			}
		}
		paths := in.paths()
		var in2 *inst
		var ref2 *iref
		if c.N(3) == 1 {
			in2 = x.gen(in, false)
			in2.exe = x.exe2
			ref2 = x.ref(in2)
		}
		x.k.FS.SyncAll() // the past is durable
		before := snapshot(x.k.FS, paths)
		all := everything(x.k.FS)
		bad := map[string]bool{}
		look := func(when string) {
			for _, p := range paths {
				if bad[p] {
					continue
				}
				r.Check("R14")
				now := stateOf(x.k.FS.LookupNoFollow(p))
				if now == before[p] {
					continue
				}
				good := false
				for _, rf := range []*iref{ref, ref2} {
					if rf == nil {
						continue
					}
					want := rf.files[p]
					if now == want || before[p].Kind == 'f' && now.Kind == 'f' && now.Data == want.Data && before[p].Data == want.Data && now.Mode&want.Mode&0500 == want.Mode&0500 {
						good = true
					}
				}
				if !good {
					bad[p] = true
					r.Violate("R14", "torn", "%s %s is %v; before it was %v, the complete new one is %v", when, p, now, before[p], ref.files[p])
				}
			}
		}
		x.hook = func() { look("while the installer runs,") }
		how := x.disturb(ref)
		seq := x.k.Seq()
		g := x.begin(in)
		var g2 *prog
		if in2 != nil {
			if f.N(2) == 1 {
				for j := f.Skewed(200); j > 0; j-- {
					rt.Point()
				}
			}
			if !x.crashed {
				g2 = x.begin(in2)
				r.Probe("two-installers")
			}
		}
		ended := g.wait(patience) && (g2 == nil || g2.wait(patience))
		x.hook = nil
		if !ended {
			r.Violate("R14", "hangs", "the installer does not end")
			return
		}
		if !x.crashed && how != "kill" && f.N(4) == 1 {
			x.how = "power"
			x.crash()
			look("after the end of the installer and a power loss,")
		}
		when := "after the end of the installer,"
		if x.crashed {
			when = "after a crash (" + x.how + "),"
		}
		look(when)
		if g.P.Crash != "" {
			r.Violate("R14", "crash", "%s", g.text())
		}
		if !x.crashed {
			failed := g.P.Code != 0 || g.P.Sig != 0
			if g2 != nil {
				failed = failed || g2.P.Code != 0
			}
			clean := true
			for _, fr := range x.k.Fired {
				if fr.Seq > seq && fr.Op == "unlink" {
					clean = false
				}
			}
			if failed && clean {
				r.Probe("failed-install")
				now := everything(x.k.FS)
				for _, p := range sortedKeys(now) {
					if _, had := all[p]; had || containsPath(paths, p, x.k.FS) {
						continue
					}
					r.Violate("R14", "stray", "the failed install (%s) left %s, %v", clip(g.text(), 200), p, now[p])
				}
			}
		}
		x.calm()
	}
}

// containsPath tells whether p is one of paths, which may go through links.
func containsPath(paths []string, p string, fs *kernel.FS) bool {
	for _, q := range paths {
		if q == p {
			return true
		}
		if a, b := fs.LookupNoFollow(q), fs.LookupNoFollow(p); a != nil && a == b {
			return true
		}
	}
	return false
}

// genNotes makes note files that exist in every file system.
func (x *instSim) genNotes(n int, odd bool) {
	w := x.r.W()
	for i := 0; i < n; i++ {
		org := w.N(3) != 1
		name := fmt.Sprintf("n%d", i)
		if odd && w.N(2) == 1 {
			name = fmt.Sprintf("%d", i) + fileName(w)
		}
		switch w.N(4) {
		case 0:
		case 1:
			name += ".txt"
		default:
			name += ".org"
		}
		p := x.p("/home/u/notes/") + name
		text := fmt.Sprintf("* Heading %d\n[[https://n%d.example/a][descr]]\nhttps://n%d.example/b and\nftp://n%d.example/c\ngopher://n%d.example/d x-y:n%d ssh:n%d\n** Sub\nnews:n%d.e\nhttps://every.example/all\n", i, i, i, i, i, i, i, i)
		x.notes = append(x.notes, &note{Path: p, Org: org, Text: text})
		x.file(p, text, 0644)
	}
}

// --- R15

func runR15(r *Run) {
	c, f := r.C(), r.F()
	x := newInstSim(r, "")
	x.genNotes(1, false)
	x.freshFS()
	in := x.gen(nil, c.N(3) == 1)
	ref := x.ref(in)
	other := x.gen(in, false)
	oref := x.ref(other)
	force := f.N(4) == 1
	if force {
		in.force = true
		in.args = append([]string{"-force"}, in.args...)
	}
	for _, p := range in.paths() {
		if f.N(5) != 4 {
			x.inTheWay(p, ref.files[p], oref.files[p], !force)
		}
	}
	paths := in.paths()
	rounds := 1 + c.N(2) // the user may simply try again
	before := snapshot(x.k.FS, paths)
	all := everything(x.k.FS)
	for round := 0; round < rounds; round++ {
		now0 := snapshot(x.k.FS, paths)
		x.disturb(ref)
		fired := len(x.k.Fired)
		g := x.begin(in)
		if !g.wait(patience) {
			r.Violate("R15", "hangs", "the installer does not end")
			return
		}
		done := !x.crashed && g.P.Sig == 0 && g.P.Crash == ""
		ok := done && g.P.Code == 0
		if force && in.valid && !ok && !x.crashed && len(x.k.Fired) == fired {
			r.Violate("R15", "force-refused", "the undisturbed forced install %q did not succeed: %s", in.args, g.text())
		}
		same := in.valid && !force
		for _, p := range paths {
			if was := now0[p]; was.Kind != 0 {
				same = same && was.Kind == 'f' && ref.files[p].Kind == 'f' && was.Data == ref.files[p].Data && was.Mode&0400 != 0
			}
		}
		if same && ref.code == 0 && !ok && !x.crashed && len(x.k.Fired) == fired {
			r.Violate("R15", "refused-equal", "the undisturbed install %q over nothing but equal files did not succeed: %s", in.args, g.text())
		}
		x.calm()
		now := everything(x.k.FS)
		helper := map[string]bool{}
		for _, p := range paths {
			helper[p] = true
			was := before[p]
			is := stateOf(x.k.FS.LookupNoFollow(p))
			if was.Kind == 0 && round == 0 {
				continue
			}
			r.Check("R15")
			if was.Kind != 0 && !force && (is.Kind != was.Kind || is.Data != was.Data) {
				r.Violate("R15", "clobbered", "without force %s was changed from %v to %v (%s)", p, was, is, clip(g.text(), 200))
			}
			want := ref.files[p]
			cur := now0[p]
			content := cur.Data
			if cur.Kind == 'l' {
				content = all[cur.Data].Data
			}
			if cur.Kind != 0 && want.Kind == 'f' && in.valid && content != want.Data && !force && ok {
				r.Violate("R15", "not-reported", "without force success was reported though %s holds %v and not the new content", p, cur)
			}
			if force && ok && (is.Kind != 'f' || is.Data != want.Data) && in.valid {
				if !(is.Kind == 'l' && all[is.Data].Data == want.Data) {
					r.Violate("R15", "not-replaced", "with force success was reported but %s is %v, not %v", p, is, want)
				}
			}
		}
		for _, p := range sortedKeys(all) {
			if helper[p] || all[p].Kind == 'd' || containsPath(paths, p, x.k.FS) {
				continue
			}
			if now[p].Kind != all[p].Kind || now[p].Data != all[p].Data {
				if forcedOver(paths, p, force) {
					continue
				}
				r.Violate("R15", "other-file", "the installer changed %s from %v to %v", p, all[p], now[p])
			}
		}
	}
}

// forcedOver tells that p is reached by a helper path through a directory
// link, and overwriting was asked for.
func forcedOver(paths []string, p string, force bool) bool {
	if !force {
		return false
	}
	for _, q := range paths {
		q = strings.Replace(strings.Replace(strings.Replace(q, "/home/u/b/", "/home/u/bin/", 1), "/home/u/m/", "/home/u/.mozilla/native-messaging-hosts/", 1), "/home/u/o/", "/opt/burl/", 1)
		if q == p {
			return true
		}
	}
	return false
}

// --- R16

func runR16(r *Run) {
	c, f := r.C(), r.F()
	x := newInstSim(r, "")
	x.genNotes(1, false)
	x.freshFS()
	in := x.gen(nil, c.N(4) == 1)
	ref := x.ref(in)
	if len(r.Viol) > 0 {
		return
	}
	if f.N(2) == 1 {
		other := x.gen(in, false)
		oref := x.ref(other)
		for _, p := range in.paths() {
			x.inTheWay(p, ref.files[p], oref.files[p], false)
		}
		if f.N(2) == 1 {
			in.force = true
			in.args = append([]string{"-force"}, in.args...)
		}
	}
	paths := in.paths()
	for i := 1 + c.N(2); i > 0; i-- {
		before := map[string]string{}
		for _, p := range paths {
			if n := x.k.FS.Lookup(p); n != nil {
				before[p] = string(n.Data)
			}
		}
		x.disturb(ref)
		if (in.wrapper == "-" || in.ff == "-" || in.chrome == "-") && f.N(2) == 1 {
			x.out = &progOpt{outFile: x.k.FS.Put(stdoutFile, "", 0644), outPath: stdoutFile}
			x.k.Rates["write:stdout"] = 1 + f.N(2)
			x.k.Budget += 2
		}
		g := x.begin(in)
		x.out = nil
		if !g.wait(patience) {
			r.Violate("R16", "hangs", "the installer does not end")
			return
		}
		crashed := x.crashed
		x.calm()
		if crashed {
			continue
		}
		x.judgePlaced(in, ref, g, "disturbed")
		x.judgeFailed(in, before, g)
	}
	if !in.valid {
		return
	}
	again := *in
	if !again.force {
		again.args = append([]string{"-force"}, in.args...)
	}
	g := x.run(&again)
	x.calm()
	r.Check("R16")
	if !g.P.Exited || g.P.Code != 0 || g.P.Sig != 0 {
		r.Violate("R16", "retry", "the repeated forced install %q failed: %s", again.args, g.text())
		return
	}
	x.judgePlaced(in, ref, g, "repeated")
	for _, p := range paths {
		is := stateOf(x.k.FS.LookupNoFollow(p))
		if n := x.k.FS.Lookup(p); is.Kind == 'l' && n != nil {
			is = stateOf(n) // a link to what was wanted
		}
		want := ref.files[p]
		if is.Kind != 'f' || is.Data != want.Data || is.Mode&want.Mode&0500 != want.Mode&0500 {
			r.Violate("R16", "retry", "after the repeated forced install %s is %v, an undisturbed one makes %v", p, is, want)
		}
	}
}

// hostName tells whether a browser accepts a name of a native application.
func hostName(name string, chrome bool) bool {
	for _, part := range strings.Split(name, ".") {
		if part == "" {
			return false
		}
		for _, c := range part {
			if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || !chrome && c >= 'A' && c <= 'Z') {
				return false
			}
		}
	}
	return true
}

// --- R17

// transcript is what a launched backend does.
func (x *instSim) transcript(args []string, cwd string) []string {
	r := x.r
	k := x.k
	var out []string
	say := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	E := newEmacs(r)
	client := func(p *kernel.Proc) int {
		say("client %s %q", p.Exe, p.Args[1:])
		return E.Main(p)
	}
	for _, e := range x.entries {
		if e.data == "ELF emacsclient" {
			k.Programs[e.path] = client
		}
	}
	dirs := everything(k.FS)
	h := startHost(r, nil, x.exe, append([]string{x.exe}, args...), baseEnv, cwd, 65536, 65536)
	id := 0
	ask := func(method string, params any) {
		id++
		n := len(h.O.Replies)
		h.send(frame([]byte(fmt.Sprintf(`{"id":%d,"method":%s,"params":[%s]}`, id, jstr(method), jstr(params)))), false, 0, nil)
		waitUntil("reply", h.P, patience, func() bool { return len(h.O.Replies) > n })
		if len(h.O.Replies) == n {
			say("%s: no reply", method)
			return
		}
		p := h.O.Replies[n]
		result := string(p.Result)
		var set struct{ URLs []string }
		if method == "linkremark.linkSet" && json.Unmarshal(p.Result, &set) == nil && set.URLs != nil {
			sort.Strings(set.URLs) // a set
			result = jstr(set.URLs)
		}
		say("%s %s: %s %s %s", method, jstr(params), p.ID, result, p.Err)
	}
	ask("hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}})
	var own []string
	for i := range x.notes {
		own = append(own, fmt.Sprintf("https://n%d.example/", i))
	}
	ask("linkremark.linkSet", map[string]any{"prefix": append(own, "ftp:", "news:")})
	ask("linkremark.linkSet", map[string]any{"prefix": []string{"gopher:", "x-y:", "ssh:"}})
	for i, n := range x.notes {
		ask("linkremark.urlMentions", map[string]any{"variants": []string{own[i] + "a"}})
		ask("linkremark.urlMentions", map[string]any{"variants": []string{fmt.Sprintf("ftp://n%d.example/c", i)}})
		ask("linkremark.visit", map[string]any{"file": n.Path, "lineNo": 3})
	}
	// in the order of the files
	ask("linkremark.urlMentions", map[string]any{"variants": []string{"https://every.example/all"}, "options": map[string]any{"countLimit": 1000}})
	ask("linkremark.visit", map[string]any{"file": "/etc/passwd"})
	ask("linkremark.capture", map[string]any{"format": "org-protocol", "version": "0.2", "data": map[string]any{"url": "org-protocol:/capture?url=x"}})
	// something to be logged
	E.Up = false
	ask("linkremark.capture", map[string]any{"format": "org-protocol", "version": "0.2", "data": map[string]any{"url": "org-protocol:/capture?url=y"}})
	ask("linkremark.linkSet", map[string]any{"prefix": strings.Split(strings.Repeat("http:,", 40)+"ftp:", ",")})
	h.closeIn()
	waitUntil("exit", nil, patience, func() bool { return h.P.Exited })
	h.drained()
	say("ends: exited=%v code=%d sig=%d crash=%s", h.P.Exited, h.P.Code, int(h.P.Sig), h.P.Crash)
	if h.O.Broken != "" {
		say("stdout broken")
	}
	stamps := func(s string) string {
		var l []string
		for _, x := range strings.Split(s, "\n") {
			if len(x) > 20 && x[4] == '/' {
				x = x[20:]
			}
			l = append(l, x)
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	say("stderr %q", stamps(string(h.Stderr)))
	after := everything(k.FS)
	for _, p := range sortedKeys(after) {
		if was := dirs[p]; was != after[p] {
			d := after[p].Data
			if strings.HasPrefix(d, was.Data) {
				d = d[len(was.Data):]
			}
			say("changed %s: %q", p, stamps(d))
		}
	}
	return out
}

func runR17(r *Run) {
	c, f := r.C(), r.F()
	cleanScratch()
	x := newInstSim(r, scratch()+"/r")
	x.sane = true
	files := 1 + c.N(3)
	if c.N(40) == 1 {
		files = 10 + c.N(30)
	}
	x.genNotes(files, true)
	x.freshFS()
	steps := 1 + c.N(3)
	var done []*inst
	var refs []*iref
	lastOK := -1
	var in *inst
	wrapper := ""
	initial := fstate{}
	var possible []int
	for i := 0; i < steps; i++ {
		in = x.gen(in, true)
		if !in.valid && in.why != "wrapper path can not be written in JSON" {
			return
		}
		wrapper = in.wrapper
		if !in.valid {
			// without manifests it is fine
			in.targets = []string{"-wrapper", in.wrapper}
			in.ff, in.chrome, in.valid = "", "", true
			in.args = append(append([]string{}, in.targets...), in.opts...)
			if in.force {
				in.args = append([]string{"-force"}, in.args...)
			}
			in.canon = dropPositional(in)
		}
		ref := x.ref(in)
		if ref.code != 0 {
			return // judged there
		}
		done = append(done, in)
		refs = append(refs, ref)
		if i == 0 && f.N(4) == 1 {
			x.k.FS.Put(in.wrapper, "#!/bin/sh\nexit 0\n", 0755)
			initial = stateOf(x.k.FS.LookupNoFollow(in.wrapper))
		} else if i > 0 && f.N(6) == 1 {
			x.k.FS.Delete(in.wrapper)
			lastOK = -1
			possible = nil
			initial = fstate{}
		}
		if f.N(3) == 1 {
			x.disturb(ref)
		}
		g := x.begin(in)
		if !g.wait(patience) {
			r.Violate("R17", "hangs", "the installer does not end")
			return
		}
		crashed := x.crashed
		x.crashed = false
		x.calm()
		if !crashed && g.P.Code == 0 && g.P.Sig == 0 && g.P.Crash == "" {
			lastOK = i
			possible = []int{i}
			x.k.FS.SyncAll() // a journal is written within seconds
		} else {
			possible = append(possible, i)
			r.Probe("interrupted-install")
		}
	}
	now := stateOf(x.k.FS.Lookup(wrapper))
	r.Check("R17")
	carries := -1
	for _, i := range possible {
		if refs[i].files[wrapper].Data == now.Data {
			carries = i
		}
	}
	if carries < 0 {
		if lastOK < 0 && now == initial {
			return // nothing was installed
		}
		r.Violate("R17", "foreign-wrapper", "the wrapper is %v, which is neither the last successful install nor a later interrupted one", now)
		return
	}
	if now.Mode&0500 != 0500 {
		// an interrupted installation over a file without permission
		r.Probe("wrapper-not-executable")
		return
	}
	in = done[carries]
	if carries != lastOK {
		r.Probe("interrupted-wrapper")
	}
	r.Say("wrapper of install %d: %q", carries, now.Data)
	// the shell runs it
	realFile(wrapper, now.Data, 0755)
	gone := f.N(6) == 1
	if !gone {
		realFile(in.exe, stubText, 0755)
	} else if f.N(2) == 1 {
		realFile(in.exe, stubText, 0644)
	}
	cwd := []string{"/", scratch() + "/cwd"}[f.N(2)]
	extra := [][]string{nil, {"/home/u/.mozilla/native-messaging-hosts/x.json", "linkremark@maxnikulin.github.io"}, {"chrome-extension://abc/", "--parent-window=0"}, {"-txt", "/etc/passwd"}, {"--", "-h"}, {""}}[f.N(6)]
	res := runReal(cwd, append([]string{wrapper}, extra...)...)
	r.Check("R17")
	if exists(scratch() + "/cwd/pwned") {
		r.Violate("R17", "injection", "the wrapper executed a part of an argument: %q", now.Data)
		return
	}
	if gone {
		r.Probe("backend-gone")
		want := ""
		if len(res.out) >= 4 {
			n := int(binary.NativeEndian.Uint32([]byte(res.out)))
			var v map[string]any
			switch {
			case n != len(res.out)-4:
				want = fmt.Sprintf("length prefix %d for %d bytes", n, len(res.out)-4)
			case json.Unmarshal([]byte(res.out[4:]), &v) != nil:
				want = "no JSON object"
			case v["error"] == nil || fmt.Sprint(v["error"]) == "":
				want = "no error in it"
			}
		} else {
			want = "no message"
		}
		if want != "" {
			r.Violate("R17", "gone-message", "the backend is gone; the wrapper printed %q (%s), stderr %q, status %d", clip(res.out, 300), want, clip(res.err, 300), res.code)
		}
		return
	}
	got := strings.Split(res.out, "\x00")
	if res.code != 0 || len(got) < 2 || got[0] != in.exe || got[len(got)-1] != "" {
		r.Violate("R17", "no-launch", "the wrapper did not start the backend: status %d, stdout %q, stderr %q; it is %q", res.code, clip(res.out, 300), clip(res.err, 300), clip(now.Data, 1500))
		return
	}
	args := got[1 : len(got)-1]
	// launch both ways
	dir := []string{"/", x.p("/var/log/burl"), x.p("/home/u/notes")}[f.N(3)]
	x.freshFS()
	ref := x.transcript(in.canon, in.cwd)
	x.freshFS()
	is := x.transcript(args, dir)
	r.Check("R17")
	for i := 0; i < len(ref) || i < len(is); i++ {
		a, b := "nothing", "nothing"
		if i < len(ref) {
			a = ref[i]
		}
		if i < len(is) {
			b = is[i]
		}
		if a != b {
			r.Violate("R17", "other-config", "installed with %q in %s; launched by the wrapper with %q the backend does: %s; launched with the installed options: %s", in.args, in.cwd, args, clip(b, 600), clip(a, 600))
			return
		}
	}
}

// dropPositional: the canonical options without what was positional.
func dropPositional(in *inst) []string {
	var out []string
	n := 0
	for _, a := range in.opts {
		if strings.HasPrefix(a, "-org=") || strings.HasPrefix(a, "-txt=") || strings.HasPrefix(a, "--org=") || strings.HasPrefix(a, "--txt=") {
			n++
		}
	}
	for _, a := range in.canon {
		if strings.HasPrefix(a, "-org=") || strings.HasPrefix(a, "-txt=") {
			if n == 0 {
				continue
			}
			n--
		}
		out = append(out, a)
	}
	return out
}
