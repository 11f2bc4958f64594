//go:build go1.27

package harness

import (
	"path"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

// prog is a command line program run to its end.
type prog struct {
	P        *kernel.Proc
	Out, Err []byte // what it wrote, accepted by the device
	OutPipe  *kernel.Pipe
	outFile  *kernel.Inode
}

// progOpt says how a program is connected.
type progOpt struct {
	stdin    []byte
	inFrag   bool          // input arrives in pieces
	inPause  bool          // and slowly
	inOpen   bool          // input does not end
	inErr    error         // the input device fails instead of ending
	inFile   *kernel.Desc  // instead
	outFile  *kernel.Inode // standard output is a file
	outPath  string
	outCap   int   // capacity of the output pipe
	outBreak int64 // readers of output go away after so many bytes
	breaks   bool
	slow     bool // the reader of output is slow
}

func (g *prog) text() string { return (&host{P: g.P, Stderr: g.Err}).exitText() }

// ok tells that the program reported success.
func (g *prog) ok() bool { return g.P.Exited && g.P.Code == 0 && g.P.Sig == 0 && g.P.Crash == "" }

// output is everything that standard output has accepted.
func (g *prog) output() string {
	if g.outFile != nil {
		return string(g.outFile.Data)
	}
	return string(g.Out)
}

// startProg starts a program whose output is collected.
func startProg(r *Run, exe string, args []string, cwd string, o *progOpt) *prog {
	if o == nil {
		o = &progOpt{}
	}
	if o.outCap == 0 {
		o.outCap = 65536
	}
	g := &prog{}
	in, out, er := kernel.NewPipe(65536), kernel.NewPipe(o.outCap), kernel.NewPipe(65536)
	out.OnWrite = func(b []byte) { g.Out = append(g.Out, b...) }
	er.OnWrite = func(b []byte) { g.Err = append(g.Err, b...) }
	if o.breaks {
		out.BreakAfter = o.outBreak
	}
	inR, outW, errW := in.ReadEnd(), out.WriteEnd(), er.WriteEnd()
	inW := in.WriteEnd()
	outR, errR := out.ReadEnd(), er.ReadEnd()
	g.OutPipe = out
	std := [3]*kernel.Desc{inR, outW, errW}
	if o.inFile != nil {
		std[0] = o.inFile
	}
	if o.outFile != nil {
		g.outFile = o.outFile
		std[1] = kernel.FileDesc(o.outFile, kernel.O_WRONLY, o.outPath)
	}
	g.P = r.K.Spawn(nil, exe, append([]string{path.Base(exe)}, args...), baseEnv, cwd, std)
	inR.Unref()
	outW.Unref()
	errW.Unref()
	t := &rt.W.T[rt.TIO]
	if o.inFrag {
		in.Frag, in.FragMax = 2, 4096
	}
	rt.Go(func() {
		b := o.stdin
		for len(b) > 0 {
			n := len(b)
			if o.inPause && n > 1 {
				n = 1 + t.Skewed(n)
				rt.Sleep(time.Duration(t.Skewed(300)) * time.Millisecond)
			}
			if _, err := in.Send(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		if o.inOpen {
			return
		}
		if o.inErr != nil {
			in.ReadErr = o.inErr
		}
		inW.Unref()
	})
	drain := func(p *kernel.Pipe, d *kernel.Desc, slow bool) {
		buf := make([]byte, 8192)
		for {
			if slow && t.Chance(1, 3) {
				rt.Sleep(time.Duration(1+t.Skewed(300)) * time.Millisecond)
			}
			if _, err, eof := p.Recv(buf); err != nil || eof {
				d.Unref()
				return
			}
		}
	}
	rt.Go(func() { drain(out, outR, o.slow) })
	rt.Go(func() { drain(er, errR, false) })
	return g
}

func (g *prog) wait(d time.Duration) bool {
	return waitUntil("end of "+g.P.Name, nil, d, func() bool { return g.P.Exited })
}
