//go:build go1.27

package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

// reply is one message that came out of a host.
type reply struct {
	ID     string
	Result json.RawMessage
	Err    json.RawMessage
	Seq    int64
	Ns     int64
	Bad    string // not a reply at all
	Raw    []byte
}

func (p *reply) isErr() bool { return len(p.Err) > 0 && string(p.Err) != "null" }

// errText is the text of an error reply.
func (p *reply) errText() string {
	var s string
	if json.Unmarshal(p.Err, &s) == nil {
		return s
	}
	return string(p.Err)
}

// outParser cuts what a program writes into messages.
type outParser struct {
	k       *kernel.Kernel
	buf     []byte
	Total   int
	Replies []*reply
	Frames  [][]byte
	Broken  string // why the stream is no sequence of messages
	On      func(p *reply)
	limit   int
}

func (o *outParser) feed(b []byte) {
	o.Total += len(b)
	if o.Broken != "" {
		return
	}
	o.buf = append(o.buf, b...)
	max := o.limit
	if max == 0 {
		max = 256 << 20
	}
	for len(o.buf) >= 4 {
		n := int(binary.NativeEndian.Uint32(o.buf))
		if n > max {
			o.Broken = fmt.Sprintf("length prefix %d (bytes %q) after %d messages", n, o.buf[:4], len(o.Frames))
			return
		}
		if len(o.buf) < 4+n {
			return
		}
		body := append([]byte(nil), o.buf[4:4+n]...)
		o.buf = o.buf[4+n:]
		o.Frames = append(o.Frames, body)
		p := &reply{Seq: o.k.Seq(), Ns: rt.W.Now(), Raw: body}
		var m map[string]json.RawMessage
		dec := json.NewDecoder(bytes.NewReader(body))
		if err := dec.Decode(&m); err != nil {
			p.Bad = "no JSON object: " + err.Error()
		} else if rest := body[dec.InputOffset():]; len(bytes.TrimSpace(rest)) > 0 {
			p.Bad = fmt.Sprintf("bytes after the JSON value: %q", clip(string(rest), 40))
		} else {
			p.ID = canonID(m["id"])
			p.Result = m["result"]
			p.Err = m["error"]
		}
		o.Replies = append(o.Replies, p)
		rt.Event("reply id=%s err=%s", p.ID, clip(string(p.Err), 80))
		if o.On != nil {
			o.On(p)
		}
	}
}

// tail is what follows the last whole message.
func (o *outParser) tail() int { return len(o.buf) }

func frame(body []byte) []byte {
	out := binary.NativeEndian.AppendUint32(nil, uint32(len(body)))
	return append(out, body...)
}

// host is a running native messaging host and its browser side.
type host struct {
	r        *Run
	P        *kernel.Proc
	In       *kernel.Pipe
	Out      *kernel.Pipe
	Err      *kernel.Pipe
	inW      *kernel.Desc
	O        *outParser
	Stderr   []byte // its beginning
	ErrLines int
	inOpen   bool
	eof      bool // the host closed its output
	slow     bool // the browser reads slowly
	Paused   bool // the browser does not read at all
	closeNs  int64
}

// startHost spawns a program with pipes and starts draining its output.
func startHost(r *Run, parent *kernel.Proc, exe string, args []string, env []string, cwd string, capIn, capOut int) *host {
	h := &host{r: r}
	h.In = kernel.NewPipe(capIn)
	h.Out = kernel.NewPipe(capOut)
	h.Err = kernel.NewPipe(65536)
	h.O = &outParser{k: r.K}
	h.Out.OnWrite = h.O.feed
	h.Err.OnWrite = func(b []byte) { h.ErrLines += bytes.Count(b, []byte("\n")) }
	inR, outW, errW := h.In.ReadEnd(), h.Out.WriteEnd(), h.Err.WriteEnd()
	h.inW = h.In.WriteEnd()
	outR, errR := h.Out.ReadEnd(), h.Err.ReadEnd()
	h.inOpen = true
	h.P = r.K.Spawn(parent, exe, args, env, cwd, [3]*kernel.Desc{inR, outW, errW})
	inR.Unref()
	outW.Unref()
	errW.Unref()
	rt.Go(func() {
		buf := make([]byte, 4096)
		for {
			if h.Paused {
				rt.Block("browser paused", func() bool { return !h.Paused }, 0)
			}
			if h.slow && rt.W.T[rt.TIO].Chance(1, 4) {
				rt.Sleep(time.Duration(1+rt.W.T[rt.TIO].Skewed(200)) * time.Millisecond)
			}
			_, err, eof := h.Out.Recv(buf)
			if err != nil || eof {
				h.eof = true
				h.closeNs = rt.W.Now()
				outR.Unref()
				return
			}
		}
	})
	rt.Go(func() {
		buf := make([]byte, 4096)
		for {
			n, err, eof := h.Err.Recv(buf)
			if err != nil || eof {
				errR.Unref()
				return
			}
			if len(h.Stderr) < 1<<16 {
				h.Stderr = append(h.Stderr, buf[:n]...)
			}
		}
	})
	return h
}

// send writes bytes in pieces with pauses; before is called before the piece
// with the byte that completes the first mark bytes is written.
func (h *host) send(b []byte, pieces bool, mark int, before func()) error {
	t := &rt.W.T[rt.TIO]
	rt.W.StepCap += 40 * int64(len(b)) // more to do, tiny pipes take a step per byte
	for len(b) > 0 {
		n := len(b)
		if pieces && n > 1 && t.Chance(2, 3) {
			n = 1 + t.Skewed(n)
			if n > len(b) {
				n = len(b)
			}
		}
		if before != nil && n >= mark {
			before()
			before = nil
		}
		mark -= n
		if _, err := h.In.Send(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && t.Chance(1, 3) {
			rt.Sleep(time.Duration(t.Skewed(50)) * time.Millisecond)
		}
	}
	return nil
}

func (h *host) closeIn() {
	if h.inOpen {
		h.inOpen = false
		h.inW.Unref()
		rt.Event("browser closes stdin of %s", h.P.Name)
	}
}

// drained waits until everything the host wrote has been read.
func (h *host) drained() {
	rt.Block("output of host", func() bool { return h.Err.Len() == 0 && (h.Out.Len() == 0 || h.Paused) }, rt.W.Now()+int64(time.Hour))
}

func (h *host) exitText() string {
	p := h.P
	switch {
	case !p.Exited:
		return "still running"
	case p.Crash != "":
		return "crashed: " + clip(p.Crash, 600)
	case p.Sig != 0:
		return "killed by " + p.Sig.String()
	}
	return fmt.Sprintf("exit status %d, stderr %q", p.Code, clip(strings.TrimSpace(string(h.Stderr)), 300))
}
