//go:build go1.27

// Package kernel is the operating system of the simulation: processes,
// descriptors, pipes, files, and the faults they suffer.
package kernel

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
)

// FaultRec is one injected fault that really fired.
type FaultRec struct {
	Op, Path, Class, What string
	Seq                   int64
	Now                   int64
	Pid                   int
}

type Kernel struct {
	FS       *FS
	Procs    []*Proc
	Programs map[string]func(p *Proc) int
	// Class names the role of a path for fault rates.
	Class func(path string) string
	// Rates maps "op:class" to a denominator: the operation fails with
	// probability 1/den.
	Rates  map[string]int
	Budget int // how many faults may still fire
	Fired  []FaultRec
	// OnOp runs before every file operation of a process; used to crash
	// at an exact operation.
	OnOp func(p *Proc, op, path string)
	// FragDen fragments regular file reads with probability 1/FragDen.
	FragFiles int
	seq       int64
	nextPid   int
	Spawned   []*Proc
}

func New() *Kernel {
	return &Kernel{FS: NewFS(), Programs: map[string]func(p *Proc) int{}, Rates: map[string]int{}, nextPid: 100}
}

func (k *Kernel) Seq() int64 { k.seq++; return k.seq }

// FaultsSince counts faults of a class fired after sequence number seq.
func (k *Kernel) FaultsSince(seq int64, class string) int {
	n := 0
	for _, f := range k.Fired {
		if f.Seq > seq && (class == "" || f.Class == class) {
			n++
		}
	}
	return n
}

type fdKind int

const (
	fdNull fdKind = iota
	fdFile
	fdDir
	fdPipeR
	fdPipeW
)

// Desc is an open file description.
type Desc struct {
	kind  fdKind
	refs  int
	inode *Inode
	pos   int64
	flags int
	pipe  *Pipe
	Path  string
}

func (d *Desc) Ref() *Desc { d.refs++; return d }
func (d *Desc) Unref() {
	d.refs--
	if d.refs == 0 && d.pipe != nil {
		if d.kind == fdPipeR {
			d.pipe.Readers--
		} else {
			d.pipe.Writers--
		}
	}
}
func (d *Desc) IsPipe() bool  { return d.pipe != nil }
func (d *Desc) Inode() *Inode { return d.inode }

func Null() *Desc { return &Desc{kind: fdNull, refs: 1, Path: "/dev/null"} }

// FileDesc opens a file for a scenario, e.g. as a standard stream.
func FileDesc(n *Inode, flags int, path string) *Desc {
	kind := fdFile
	if n.Kind == KDir {
		kind = fdDir
	}
	return &Desc{kind: kind, refs: 1, inode: n, flags: flags, Path: path}
}

// Pipe is a byte stream with bounded capacity.
type Pipe struct {
	buf     []byte
	Cap     int
	Readers int
	Writers int
	// Frag: 0 reads return all there is, else short reads with
	// probability 1/Frag per read.
	Frag int
	// FragMax bounds a short read
	FragMax int
	frags   int
	Total   int64 // bytes ever written
	// ReadErr, when set, is returned to the reader once the buffer is empty.
	ReadErr error
	// Stall blocks readers
	Stall bool
	// OnWrite is told about every piece written.
	OnWrite func(b []byte)
	// BreakAfter >=0: after so many bytes in total the readers vanish.
	BreakAfter int64
	ReadCalls  int64
}

func NewPipe(capacity int) *Pipe {
	return &Pipe{Cap: capacity, BreakAfter: -1}
}

func (p *Pipe) ReadEnd() *Desc {
	p.Readers++
	return &Desc{kind: fdPipeR, refs: 1, pipe: p, Path: "pipe"}
}
func (p *Pipe) WriteEnd() *Desc {
	p.Writers++
	return &Desc{kind: fdPipeW, refs: 1, pipe: p, Path: "pipe"}
}
func (p *Pipe) Len() int { return len(p.buf) }

// read returns io.EOF as (0, nil, true).
func (p *Pipe) read(b []byte, closed func() bool) (int, error, bool) {
	if len(b) == 0 {
		return 0, nil, false
	}
	ready := func() bool {
		return closed() || (!p.Stall && (len(p.buf) > 0 || p.Writers == 0 || p.ReadErr != nil))
	}
	rt.Block("read pipe", ready, 0)
	if closed() {
		return 0, fs.ErrClosed, false
	}
	if len(p.buf) == 0 {
		if p.ReadErr != nil {
			return 0, p.ReadErr, false
		}
		if p.Writers == 0 {
			return 0, nil, true
		}
		return 0, syscall.EAGAIN, false
	}
	n := len(p.buf)
	if n > len(b) {
		n = len(b)
	}
	if p.Frag > 0 && n > 1 && p.frags < maxFrags && rt.W.T[rt.TIO].Chance(1, p.Frag) {
		p.frags++
		m := n - 1
		if p.FragMax > 0 && m > p.FragMax {
			m = p.FragMax
		}
		n = 1 + rt.W.T[rt.TIO].Skewed(m)
		rt.Count("io:short-read", 1)
	}
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	p.ReadCalls++
	rt.Event("read pipe %d", n)
	return n, nil, false
}

// maxFrags: a pipe delivers so many short reads, later ones are whole. Runs
// with megabytes of input have to end.
const maxFrags = 50_000

func (p *Pipe) write(b []byte, closed func() bool) (int, error) {
	done := 0
	for done < len(b) {
		if closed() {
			return done, fs.ErrClosed
		}
		if p.Readers == 0 {
			return done, syscall.EPIPE
		}
		need := len(b) - done
		if need > 4096 || need > p.Cap {
			need = 1
		}
		rt.Block("write pipe", func() bool { return closed() || p.Readers == 0 || p.Cap-len(p.buf) >= need }, 0)
		if closed() {
			return done, fs.ErrClosed
		}
		if p.Readers == 0 {
			return done, syscall.EPIPE
		}
		n := p.Cap - len(p.buf)
		if n > len(b)-done {
			n = len(b) - done
		}
		if n <= 0 {
			if rt.Down() {
				return done, syscall.EPIPE
			}
			continue
		}
		if p.BreakAfter >= 0 && p.Total+int64(n) >= p.BreakAfter {
			n = int(p.BreakAfter - p.Total)
			if n < 0 {
				n = 0
			}
			p.Readers = 0
			rt.Count("fault:reader-vanished", 1)
			rt.Event("reader vanished")
		}
		piece := b[done : done+n]
		p.buf = append(p.buf, piece...)
		p.Total += int64(n)
		if p.OnWrite != nil && n > 0 {
			p.OnWrite(piece)
		}
		rt.Event("write pipe %d", n)
		done += n
		rt.Point()
	}
	return done, nil
}

// Send and Recv are the ends used by actors of the scenario.
func (p *Pipe) Send(b []byte) (int, error) {
	return p.write(b, func() bool { return false })
}

func (p *Pipe) Recv(b []byte) (n int, err error, eof bool) {
	rt.Point()
	return p.read(b, func() bool { return false })
}

// Proc is a simulated process.
type Proc struct {
	K        *Kernel
	Pid      int
	Name     string
	Args     []string
	Env      map[string]string
	EnvKeys  []string
	Cwd      string
	Exe      string
	Umask    uint32
	Grp      *rt.Group
	Std      [3]*Desc
	Open     map[*Fd]bool
	Children []*Proc
	Parent   *Proc
	Exited   bool
	Reaped   bool
	Code     int
	Sig      syscall.Signal
	Crash    string
	EndSeq   int64
	MaxFds   int
	Signals  []syscall.Signal
	SigCh    func(syscall.Signal) bool // handler installed by signal.Notify
	TmpSeq   int
	Started  int64
	PeakFds  int
}

// Fd is one entry of a descriptor table.
type Fd struct {
	P      *Proc
	D      *Desc
	Num    int
	closed bool
	rlock  bool
	wlock  bool
	Poll   bool // Close interrupts blocked operations
	name   string
}

func (p *Proc) newFd(d *Desc, name string, poll bool) *Fd {
	f := &Fd{P: p, D: d, name: name, Poll: poll}
	used := map[int]bool{}
	for o := range p.Open {
		used[o.Num] = true
	}
	for f.Num = 0; used[f.Num]; f.Num++ {
	}
	p.Open[f] = true
	if len(p.Open) > p.PeakFds {
		p.PeakFds = len(p.Open)
	}
	return f
}

// OpenNames lists what the process has open.
func (p *Proc) OpenNames() []string {
	var out []string
	for f := range p.Open {
		out = append(out, f.name)
	}
	sortStrings(out)
	return out
}

// Spawn starts a program. The descriptors are referenced for the child.
func (k *Kernel) Spawn(parent *Proc, exe string, args []string, env []string, cwd string, std [3]*Desc) *Proc {
	k.nextPid++
	p := &Proc{K: k, Pid: k.nextPid, Name: path.Base(exe), Args: args, Cwd: cwd, Exe: exe, Umask: 022,
		Env: map[string]string{}, Open: map[*Fd]bool{}, Parent: parent, MaxFds: 1 << 19, Started: k.Seq()}
	for _, e := range env {
		if i := strings.IndexByte(e, '='); i > 0 {
			p.Setenv(e[:i], e[i+1:])
		}
	}
	for i, d := range std {
		if d == nil {
			d = Null()
		} else {
			d.Ref()
		}
		p.Std[i] = d
	}
	p.Grp = rt.NewGroup(fmt.Sprintf("%s[%d]", p.Name, p.Pid))
	p.Grp.Data = p
	p.Grp.OnPanic = func(v any, stack string) {
		p.Crash = fmt.Sprintf("panic: %v", v)
		if s := trimStack(stack); s != "" {
			p.Crash += "\n" + s
		}
		rt.Event("%s crashed: %v", p.Name, v)
		p.terminate(2, 0)
	}
	k.Procs = append(k.Procs, p)
	if parent != nil {
		parent.Children = append(parent.Children, p)
	}
	prog := k.Programs[exe]
	rt.Event("spawn %s %s", exe, strings.Join(args, " "))
	rt.GoIn(p.Grp, func() {
		code := prog(p)
		if !rt.Down() {
			p.terminate(code, 0)
		}
	})
	return p
}

// Dummy is the process that package initialisers see before any process runs.
func Dummy() *Proc {
	return &Proc{K: New(), Name: "none", Args: []string{"none"}, Cwd: "/", Umask: 022, MaxFds: 16,
		Env: map[string]string{}, Open: map[*Fd]bool{}}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines) && len(out) < 12; i++ {
		if strings.Contains(lines[i], "gen.local/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	return strings.Join(out, "\n")
}

func (p *Proc) Setenv(k, v string) {
	if _, ok := p.Env[k]; !ok {
		p.EnvKeys = append(p.EnvKeys, k)
	}
	p.Env[k] = v
}

func (p *Proc) Environ() []string {
	out := []string{}
	for _, k := range p.EnvKeys {
		if v, ok := p.Env[k]; ok {
			out = append(out, k+"="+v)
		}
	}
	return out
}

func (p *Proc) terminate(code int, sig syscall.Signal) {
	if p.Exited {
		return
	}
	p.Exited = true
	p.Code = code
	p.Sig = sig
	p.EndSeq = p.K.Seq()
	p.Grp.Dead = true
	for f := range p.Open {
		if !f.closed {
			f.closed = true
			f.D.Unref()
		}
	}
	for i := range p.Std {
		if p.Std[i] != nil {
			p.Std[i].Unref()
			p.Std[i] = nil
		}
	}
	rt.Event("exit %s code=%d sig=%d", p.Name, code, int(sig))
}

// Exit ends the calling process; it does not return.
func (p *Proc) Exit(code int) {
	if rt.Down() {
		rt.Die()
		return
	}
	p.terminate(code&0xff, 0)
	rt.Die()
}

// Kill ends p from outside.
func (k *Kernel) Kill(p *Proc, sig syscall.Signal) {
	p.terminate(0, sig)
}

// Signal delivers sig to p the way the Go runtime of p would see it.
func (k *Kernel) Signal(p *Proc, sig syscall.Signal) error {
	if p.Exited {
		return syscall.ESRCH
	}
	if sig == 0 {
		return nil
	}
	if sig != syscall.SIGKILL && p.SigCh != nil && p.SigCh(sig) {
		return nil
	}
	k.Kill(p, sig)
	return nil
}

// WaitChild blocks until c has ended, and reaps it.
func (p *Proc) WaitChild(c *Proc) {
	rt.Block("wait for "+c.Name, func() bool { return c.Exited }, 0)
	c.Reaped = true
}

// Zombies lists children that ended but were not waited for, Running those
// still alive.
func (p *Proc) Zombies() (z []*Proc, running []*Proc) {
	for _, c := range p.Children {
		if c.Reaped {
			continue
		}
		if c.Exited {
			z = append(z, c)
		} else {
			running = append(running, c)
		}
	}
	return
}

func (k *Kernel) class(p string) string {
	if k.Class == nil {
		return ""
	}
	return k.Class(p)
}

// fault decides whether an operation fails.
func (k *Kernel) fault(p *Proc, op, pth string, choices ...syscall.Errno) syscall.Errno {
	if k.Budget <= 0 || rt.Down() {
		return 0
	}
	c := k.class(pth)
	den := k.Rates[op+":"+c]
	if den == 0 {
		return 0
	}
	t := &rt.W.T[rt.TFault]
	if !t.Chance(1, den) {
		return 0
	}
	e := choices[t.N(len(choices))]
	k.NoteFault(p, op, pth, e.Error())
	return e
}

// NoteFault records a fault that fired.
func (k *Kernel) NoteFault(p *Proc, op, pth, what string) {
	k.Budget--
	k.note(p, op, pth, what)
}

// note records a failure that is not due to a fault.
func (k *Kernel) note(p *Proc, op, pth, what string) {
	c := k.class(pth)
	pid := 0
	if p != nil {
		pid = p.Pid
	}
	k.Fired = append(k.Fired, FaultRec{op, pth, c, what, k.Seq(), rt.W.Now(), pid})
	rt.Count("fault:"+op+":"+c+":"+what, 1)
	rt.Event("FAULT %s %s: %s", op, pth, what)
}

func (p *Proc) op(op, pth string) {
	rt.Point()
	if p.K.OnOp != nil && !rt.Down() {
		p.K.OnOp(p, op, pth)
		if p.Exited {
			rt.Die()
		}
	}
}

// Abs makes a path absolute with the working directory of p.
func (p *Proc) Abs(name string) string {
	if name == "" {
		return ""
	}
	if strings.HasPrefix(name, "/") {
		return name
	}
	return p.Cwd + "/" + name
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
)

func (p *Proc) OpenFile(name string, flags int, perm uint32) (*Fd, error) {
	if name == "/dev/null" {
		p.op("open", name)
		return p.newFd(Null(), name, false), nil
	}
	abs := p.Abs(name)
	p.op("open", abs)
	if rt.Down() {
		return nil, syscall.EIO
	}
	if len(p.Open) >= p.MaxFds {
		return nil, syscall.EMFILE
	}
	errs := []syscall.Errno{syscall.EMFILE, syscall.EIO, syscall.ENFILE}
	if flags&(O_WRONLY|O_RDWR) != 0 {
		errs = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EROFS, syscall.EIO}
	}
	opn := "open"
	if flags&(O_WRONLY|O_RDWR) != 0 {
		opn = "openw"
	}
	if e := p.K.fault(p, opn, abs, errs...); e != 0 {
		return nil, e
	}
	dir, base, n, err := p.K.FS.walk(abs, flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0))
	if err != nil && !(err == syscall.ENOENT && dir != nil && flags&syscall.O_CREAT != 0) {
		return nil, err
	}
	acc := flags & 3
	if n == nil {
		if strings.HasSuffix(abs, "/") {
			return nil, syscall.EISDIR
		}
		if dir.Mode&0200 == 0 {
			return nil, syscall.EACCES
		}
		n = p.K.FS.newInode(KFile, perm&^p.Umask&07777)
		p.K.FS.link(dir, base, n)
		rt.Event("create %s", abs)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		if n.Kind == KLink {
			return nil, syscall.ELOOP
		}
		if n.Kind == KDir && (acc != O_RDONLY || flags&syscall.O_CREAT != 0) {
			return nil, syscall.EISDIR
		}
		if flags&syscall.O_DIRECTORY != 0 && n.Kind != KDir {
			return nil, syscall.ENOTDIR
		}
		if acc != O_WRONLY && n.Mode&0400 == 0 {
			return nil, syscall.EACCES
		}
		if acc != O_RDONLY && n.Mode&0200 == 0 {
			return nil, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && acc != O_RDONLY && n.Kind == KFile {
			n.Data = nil
			p.K.FS.changed(n)
			rt.Event("truncate %s", abs)
		}
	}
	k := fdFile
	if n.Kind == KDir {
		k = fdDir
	}
	rt.Event("open %s", abs)
	return p.newFd(&Desc{kind: k, refs: 1, inode: n, flags: flags, Path: abs}, name, false), nil
}

// Pipe creates a pipe inside the process.
func (p *Proc) Pipe() (*Fd, *Fd, error) {
	rt.Point()
	if rt.Down() {
		return nil, nil, syscall.EMFILE
	}
	if e := p.K.fault(p, "pipe", "pipe", syscall.EMFILE, syscall.ENFILE); e != 0 {
		return nil, nil, e
	}
	pp := NewPipe(65536)
	return p.newFd(pp.ReadEnd(), "|0", true), p.newFd(pp.WriteEnd(), "|1", true), nil
}

// StdFd wraps one of the standard descriptors.
func (p *Proc) StdFd(i int) *Fd {
	f := &Fd{P: p, D: p.Std[i].Ref(), Num: i, name: []string{"stdin", "stdout", "stderr"}[i]}
	p.Open[f] = true
	return f
}

func (f *Fd) Closed() bool { return f.closed }
func (f *Fd) Name() string { return f.name }

func (f *Fd) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return fs.ErrClosed
	}
	f.P.op("close", f.D.Path)
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	delete(f.P.Open, f)
	if f.Num <= 2 && f.P.Std[f.Num] == f.D {
		// the process has no other reference to a standard stream
		f.P.Std[f.Num] = nil
		f.D.Unref()
	}
	f.D.Unref()
	rt.Event("close %s", f.name)
	if f.D.inode != nil && f.D.flags&3 != O_RDONLY {
		if e := f.P.K.fault(f.P, "close", f.D.Path, syscall.EIO, syscall.ENOSPC); e != 0 {
			return e
		}
	}
	return nil
}

// Read returns eof=true at end of file.
func (f *Fd) Read(b []byte) (n int, err error, eof bool) {
	if f.closed {
		return 0, fs.ErrClosed, false
	}
	if rt.Down() {
		return 0, syscall.EIO, false
	}
	rt.Point()
	if f.rlock {
		rt.Block("fd read lock", func() bool { return !f.rlock || f.closed }, 0)
	}
	if f.closed {
		return 0, fs.ErrClosed, false
	}
	f.rlock = true
	defer func() { f.rlock = false }()
	d := f.D
	switch d.kind {
	case fdNull:
		return 0, nil, true
	case fdDir:
		f.P.op("read", d.Path)
		return 0, syscall.EISDIR, false
	case fdPipeR:
		closed := func() bool { return f.closed && f.Poll }
		return d.pipe.read(b, closed)
	case fdFile:
		f.P.op("read", d.Path)
		if d.flags&3 == O_WRONLY {
			return 0, syscall.EBADF, false
		}
		if d.inode.Stalled {
			rt.Block("read stalled file", func() bool { return !d.inode.Stalled }, 0)
		}
		if e := f.P.K.fault(f.P, "read", d.Path, syscall.EIO, syscall.ESTALE); e != 0 {
			return 0, e, false
		}
		if len(b) == 0 {
			return 0, nil, false
		}
		data := d.inode.Data
		if d.pos >= int64(len(data)) {
			return 0, nil, true
		}
		n := len(data) - int(d.pos)
		if n > len(b) {
			n = len(b)
		}
		if fr := f.P.K.FragFiles; fr > 0 && n > 1 && rt.W.T[rt.TIO].Chance(1, fr) {
			n = 1 + rt.W.T[rt.TIO].Skewed(n-1)
			rt.Count("io:short-file-read", 1)
		}
		if d.inode.BadAt >= 0 {
			if int(d.pos) >= d.inode.BadAt {
				f.P.K.NoteFault(f.P, "badblock", d.Path, "input/output error")
				return 0, syscall.EIO, false
			}
			if int(d.pos)+n > d.inode.BadAt {
				n = d.inode.BadAt - int(d.pos)
			}
		}
		copy(b, data[d.pos:int(d.pos)+n])
		d.pos += int64(n)
		rt.Event("read %s %d", d.Path, n)
		return n, nil, false
	}
	return 0, syscall.EBADF, false
}

func (f *Fd) Write(b []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if rt.Down() {
		return 0, syscall.EIO
	}
	rt.Point()
	if f.wlock {
		rt.Block("fd write lock", func() bool { return !f.wlock || f.closed }, 0)
	}
	if f.closed {
		return 0, fs.ErrClosed
	}
	f.wlock = true
	defer func() { f.wlock = false }()
	d := f.D
	switch d.kind {
	case fdNull:
		return len(b), nil
	case fdPipeW:
		closed := func() bool { return f.closed && f.Poll }
		n, err := d.pipe.write(b, closed)
		if err == syscall.EPIPE && (f.Num == 1 || f.Num == 2) && !rt.Down() {
			rt.Count("fault:sigpipe", 1)
			f.P.terminate(0, syscall.SIGPIPE)
			rt.Die()
		}
		return n, err
	case fdFile:
		f.P.op("write", d.Path)
		if d.flags&3 == O_RDONLY {
			return 0, syscall.EBADF
		}
		n := len(b)
		var e syscall.Errno
		if e = f.P.K.fault(f.P, "write", d.Path, syscall.ENOSPC, syscall.EIO, syscall.EDQUOT); e != 0 {
			n = rt.W.T[rt.TFault].N(n + 1)
			if n == len(b) && n > 0 {
				n--
			}
		}
		if n > 0 {
			in := d.inode
			if d.flags&syscall.O_APPEND != 0 {
				d.pos = int64(len(in.Data))
			}
			end := int(d.pos) + n
			nd := append([]byte(nil), in.Data...)
			for len(nd) < end {
				nd = append(nd, 0)
			}
			copy(nd[d.pos:], b[:n])
			in.Data = nd
			f.P.K.FS.changed(in)
			d.pos = int64(end)
		}
		rt.Event("write %s %d", d.Path, n)
		if e != 0 {
			return n, e
		}
		return n, nil
	}
	return 0, syscall.EBADF
}

func (f *Fd) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.D.kind != fdFile {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += f.D.pos
	case 2:
		off += int64(len(f.D.inode.Data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.D.pos = off
	return off, nil
}

func (f *Fd) Sync() error {
	if f.closed {
		return fs.ErrClosed
	}
	if f.D.inode == nil {
		return syscall.EINVAL
	}
	f.P.op("fsync", f.D.Path)
	if e := f.P.K.fault(f.P, "fsync", f.D.Path, syscall.EIO, syscall.ENOSPC); e != 0 {
		return e
	}
	f.P.K.FS.SyncInode(f.D.inode)
	rt.Event("fsync %s", f.D.Path)
	return nil
}

func (f *Fd) Chmod(mode uint32) error {
	if f.closed {
		return fs.ErrClosed
	}
	if f.D.inode == nil {
		return syscall.EINVAL
	}
	f.P.op("chmod", f.D.Path)
	if e := f.P.K.fault(f.P, "chmod", f.D.Path, syscall.EPERM, syscall.EIO); e != 0 {
		return e
	}
	f.P.K.FS.chmod(f.D.inode, mode&07777)
	return nil
}

func (f *Fd) Truncate(size int64) error {
	if f.closed {
		return fs.ErrClosed
	}
	if f.D.kind != fdFile || f.D.flags&3 == O_RDONLY {
		return syscall.EINVAL
	}
	f.P.op("write", f.D.Path)
	if e := f.P.K.fault(f.P, "write", f.D.Path, syscall.EIO); e != 0 {
		return e
	}
	in := f.D.inode
	nd := append([]byte(nil), in.Data...)
	for int64(len(nd)) < size {
		nd = append(nd, 0)
	}
	in.Data = nd[:size]
	f.P.K.FS.changed(in)
	return nil
}

func (f *Fd) Stat() (*Info, error) {
	if f.closed {
		return nil, fs.ErrClosed
	}
	if f.D.inode != nil {
		return NewInfo(path.Base(f.name), f.D.inode), nil
	}
	i := &Info{name: f.name}
	if f.D.pipe != nil {
		i.mode = fs.ModeNamedPipe | 0600
	} else {
		i.mode = fs.ModeDevice | fs.ModeCharDevice | 0666
	}
	return i, nil
}

func (p *Proc) Stat(name string, follow bool) (*Info, error) {
	abs := p.Abs(name)
	p.op("stat", abs)
	if e := p.K.fault(p, "stat", abs, syscall.EIO, syscall.EACCES); e != 0 {
		return nil, e
	}
	if name == "/dev/null" {
		return &Info{name: "null", mode: fs.ModeDevice | fs.ModeCharDevice | 0666}, nil
	}
	_, _, n, err := p.K.FS.walk(abs, follow)
	if err != nil {
		return nil, err
	}
	return NewInfo(path.Base(name), n), nil
}

func (p *Proc) Remove(name string) error {
	abs := p.Abs(name)
	p.op("unlink", abs)
	if e := p.K.fault(p, "unlink", abs, syscall.EIO, syscall.EACCES); e != 0 {
		return e
	}
	dir, base, n, err := p.K.FS.walk(abs, false)
	if err != nil {
		return err
	}
	if dir.Mode&0200 == 0 {
		return syscall.EACCES
	}
	if n.Kind == KDir && len(n.Entries) > 0 {
		return syscall.ENOTEMPTY
	}
	p.K.FS.unlink(dir, base)
	rt.Event("unlink %s", abs)
	return nil
}

func (p *Proc) Rename(from, to string) error {
	af, at := p.Abs(from), p.Abs(to)
	p.op("rename", at)
	if e := p.K.fault(p, "rename", at, syscall.EIO, syscall.EACCES, syscall.EXDEV, syscall.ENOSPC); e != 0 {
		return e
	}
	fd, fb, fn, err := p.K.FS.walk(af, false)
	if err != nil {
		return err
	}
	td, tb, tn, err := p.K.FS.walk(at, false)
	if err != nil && !(err == syscall.ENOENT && td != nil) {
		return err
	}
	if fd.Mode&0200 == 0 || td.Mode&0200 == 0 {
		return syscall.EACCES
	}
	if tn != nil {
		if tn == fn {
			return nil
		}
		if tn.Kind == KDir && fn.Kind != KDir {
			return syscall.EISDIR
		}
		if tn.Kind == KDir && len(tn.Entries) > 0 {
			return syscall.ENOTEMPTY
		}
		if fn.Kind == KDir && tn.Kind != KDir {
			return syscall.ENOTDIR
		}
		tn.NLink--
	}
	f := p.K.FS
	delete(fd.Entries, fb)
	td.Entries[tb] = fn
	if fn.Kind == KDir {
		fn.Parent = td
	}
	f.pending = append(f.pending, metaOp{"rename", fd.Ino, fb, fn.Ino, 0}, metaOp{"link", td.Ino, tb, fn.Ino, fn.Mode})
	rt.Event("rename %s -> %s", af, at)
	return nil
}

func (p *Proc) Link(from, to string) error {
	af, at := p.Abs(from), p.Abs(to)
	p.op("link", at)
	if e := p.K.fault(p, "link", at, syscall.EIO, syscall.EPERM); e != 0 {
		return e
	}
	_, _, fn, err := p.K.FS.walk(af, false)
	if err != nil {
		return err
	}
	td, tb, tn, err := p.K.FS.walk(at, false)
	if err != nil && !(err == syscall.ENOENT && td != nil) {
		return err
	}
	if tn != nil {
		return syscall.EEXIST
	}
	p.K.FS.link(td, tb, fn)
	rt.Event("link %s -> %s", af, at)
	return nil
}

func (p *Proc) Symlink(target, name string) error {
	at := p.Abs(name)
	p.op("symlink", at)
	td, tb, tn, err := p.K.FS.walk(at, false)
	if err != nil && !(err == syscall.ENOENT && td != nil) {
		return err
	}
	if tn != nil {
		return syscall.EEXIST
	}
	n := p.K.FS.newInode(KLink, 0777)
	n.Target = target
	p.K.FS.link(td, tb, n)
	return nil
}

func (p *Proc) Readlink(name string) (string, error) {
	abs := p.Abs(name)
	p.op("stat", abs)
	_, _, n, err := p.K.FS.walk(abs, false)
	if err != nil {
		return "", err
	}
	if n.Kind != KLink {
		return "", syscall.EINVAL
	}
	return n.Target, nil
}

func (p *Proc) Mkdir(name string, perm uint32) error {
	abs := p.Abs(name)
	p.op("mkdir", abs)
	if e := p.K.fault(p, "mkdir", abs, syscall.EIO, syscall.ENOSPC); e != 0 {
		return e
	}
	dir, base, n, err := p.K.FS.walk(strings.TrimRight(abs, "/"), false)
	if n != nil {
		return syscall.EEXIST
	}
	if err != nil && !(err == syscall.ENOENT && dir != nil) {
		return err
	}
	if dir.Mode&0200 == 0 {
		return syscall.EACCES
	}
	nn := p.K.FS.newInode(KDir, perm&^p.Umask&07777)
	p.K.FS.link(dir, base, nn)
	return nil
}

func (p *Proc) Chmod(name string, mode uint32) error {
	abs := p.Abs(name)
	p.op("chmod", abs)
	if e := p.K.fault(p, "chmod", abs, syscall.EPERM, syscall.EIO); e != 0 {
		return e
	}
	_, _, n, err := p.K.FS.walk(abs, true)
	if err != nil {
		return err
	}
	p.K.FS.chmod(n, mode&07777)
	rt.Event("chmod %s", abs)
	return nil
}

func (p *Proc) Chtimes(name string, t time.Time) error {
	abs := p.Abs(name)
	p.op("utimes", abs)
	if e := p.K.fault(p, "utimes", abs, syscall.EPERM); e != 0 {
		return e
	}
	_, _, n, err := p.K.FS.walk(abs, true)
	if err != nil {
		return err
	}
	n.MTime = t
	return nil
}

func (p *Proc) Truncate(name string, size int64) error {
	f, err := p.OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func (p *Proc) Chdir(name string) error {
	abs := p.Abs(name)
	n := p.K.FS.Lookup(abs)
	if n == nil {
		return syscall.ENOENT
	}
	if n.Kind != KDir {
		return syscall.ENOTDIR
	}
	p.Cwd = path.Clean(abs)
	return nil
}

// ReadDir lists a directory in name order.
func (p *Proc) ReadDir(name string) ([]*Info, error) {
	abs := p.Abs(name)
	p.op("readdir", abs)
	_, _, n, err := p.K.FS.walk(abs, true)
	if err != nil {
		return nil, err
	}
	if n.Kind != KDir {
		return nil, syscall.ENOTDIR
	}
	return ListInfos(n), nil
}

func ListInfos(n *Inode) []*Info {
	names := []string{}
	for s := range n.Entries {
		names = append(names, s)
	}
	sortStrings(names)
	out := []*Info{}
	for _, s := range names {
		out = append(out, NewInfo(s, n.Entries[s]))
	}
	return out
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Exec checks that exe can be started, and starts it.
func (p *Proc) Exec(exe string, args, env []string, cwd string, std [3]*Desc) (*Proc, error) {
	abs := p.Abs(exe)
	p.op("exec", abs)
	if rt.Down() {
		return nil, syscall.EAGAIN
	}
	if cwd == "" {
		cwd = p.Cwd
	} else if !strings.HasPrefix(cwd, "/") {
		cwd = p.Abs(cwd)
	}
	if n := p.K.FS.Lookup(cwd); n == nil || n.Kind != KDir {
		return nil, syscall.ENOENT
	}
	for _, a := range args {
		if strings.IndexByte(a, 0) >= 0 {
			p.K.note(p, "exec", abs, syscall.EINVAL.Error())
			return nil, syscall.EINVAL
		}
		if len(a) >= 131072 {
			p.K.note(p, "exec", abs, syscall.E2BIG.Error())
			return nil, syscall.E2BIG
		}
	}
	if e := p.K.fault(p, "exec", abs, syscall.EAGAIN, syscall.ENOMEM, syscall.ENOENT, syscall.EMFILE); e != 0 {
		return nil, e
	}
	_, _, n, err := p.K.FS.walk(abs, true)
	if err != nil {
		return nil, err
	}
	if n.Kind == KDir || n.Mode&0100 == 0 {
		return nil, syscall.EACCES
	}
	prog := path.Clean(abs)
	if p.K.Programs[prog] == nil {
		return nil, syscall.ENOEXEC
	}
	return p.K.Spawn(p, prog, args, env, cwd, std), nil
}

// Look finds a program by name like execvp does.
func (p *Proc) Look(file string) (string, error) {
	if strings.Contains(file, "/") {
		n := p.K.FS.Lookup(p.Abs(file))
		if n == nil {
			return "", syscall.ENOENT
		}
		if n.Kind == KDir || n.Mode&0111 == 0 {
			return "", syscall.EACCES
		}
		return file, nil
	}
	for _, d := range strings.Split(p.Env["PATH"], ":") {
		if d == "" {
			continue
		}
		n := p.K.FS.Lookup(d + "/" + file)
		if n != nil && n.Kind != KDir && n.Mode&0111 != 0 {
			return d + "/" + file, nil
		}
	}
	return "", syscall.ENOENT
}

// Out writes to a standard stream of a program that is a model.
func (p *Proc) Out(i int, b []byte) error {
	d := p.Std[i]
	if d == nil || len(b) == 0 {
		return nil
	}
	switch d.kind {
	case fdPipeW:
		_, err := d.pipe.write(b, func() bool { return false })
		return err
	case fdFile:
		in := d.inode
		in.Data = append(append([]byte(nil), in.Data...), b...)
		p.K.FS.changed(in)
	}
	return nil
}

// In reads from the standard input of a program that is a model.
func (p *Proc) In(b []byte) (int, error, bool) {
	d := p.Std[0]
	if d == nil || d.kind != fdPipeR {
		return 0, nil, true
	}
	return d.pipe.read(b, func() bool { return false })
}

// CloseStd closes a standard stream of a program that is a model.
func (p *Proc) CloseStd(i int) {
	if p.Std[i] != nil {
		p.Std[i].Unref()
		p.Std[i] = nil
	}
}
