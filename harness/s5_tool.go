//go:build go1.27

package harness

import (
	"encoding/json"
	"fmt"
	"strings"
	"syscall"

	slot0 "gen.local/s0"
	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

func init() {
	props["R20"] = &propDef{run: runR20, quick: 60000, deep: 3000000,
		real: []string{"cmd/burl_tool", "pkg/burl_links", "pkg/burl_url", "flag, bufio, encoding/json"},
		stub: []string{"kernel (files, pipes, processes)", "os", "goroutine scheduler"},
		rule: "a case is one execution of the tool over generated notes with seeded read and write faults; non-trivial if the exit status was judged"}
}

const exeTool = "/opt/burl/burl_tool"

func toolProgram(p *kernel.Proc) int {
	slot0.Start(p)
	slot0.Mains["cmd/burl_tool"]()
	return 0
}

// toolOutputWrong compares what the tool printed with the notes.
func toolOutputWrong(out string, files []*note, query string, prefixes []string) string {
	if len(prefixes) > 0 {
		want := map[string]bool{}
		for _, n := range files {
			for u := range n.set(prefixes) {
				want[u] = true
			}
		}
		got := map[string]bool{}
		if out != "" && !strings.HasSuffix(out, "\n") {
			return "the last line is not complete"
		}
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if l == "" && out == "" {
				continue
			}
			if got[l] {
				return "repeated: " + l
			}
			got[l] = true
		}
		return setDiff(got, want)
	}
	want := expectMentions(files, []string{query})
	if strings.TrimSpace(out) == "" {
		if want.Total > 0 {
			return fmt.Sprintf("nothing, but there are %d links", want.Total)
		}
		return ""
	}
	dec := json.NewDecoder(strings.NewReader(out))
	var raw json.RawMessage
	if err := dec.Decode(&raw); err != nil {
		return "no complete JSON value"
	}
	if rest := strings.TrimSpace(out[dec.InputOffset():]); rest != "" {
		return "followed by " + clip(rest, 60)
	}
	return compareMentions(raw, want, 8)
}

func runR20(r *Run) {
	c, w, f := r.C(), r.W(), r.F()
	k := r.K
	baseFS(k)
	k.FS.Put(exeTool, "ELF tool", 0755)
	k.Programs[exeTool] = toolProgram
	k.FS.MkdirAll("/out")
	class := k.Class
	k.Class = func(p string) string {
		if strings.HasPrefix(p, "/out/") {
			return "out"
		}
		return class(p)
	}
	if c.N(2) == 1 {
		k.FragFiles = 2
	}
	o := &progOpt{slow: c.N(3) == 1, inFrag: c.N(2) == 1, inPause: c.N(3) == 1}
	gen := &noteGen{r: r, perFile: 3 + w.Skewed(20), deep: []int{2, 4, 9}[w.N(3)], dups: w.N(3) == 1}
	if w.N(2) == 1 {
		gen.pool = []string{"https://shared.example/a", "http://shared.example/a", "https://shared.example/b", "https://shared.example/b/", "https://shared.example/long/path"}
	}
	useStdin := w.N(3) == 2
	nf := w.N(4)
	switch w.N(150) {
	case 147:
		gen.tall = true
	case 148:
		nf = 4 + w.N(12)
		if w.N(4) == 3 {
			nf = 20 + w.N(160)
		}
	case 149:
		if nf > 0 {
			nf = 1
		}
		gen.big = 30 + w.Skewed(1000)
		if w.N(4) == 1 {
			gen.big = 1000 + w.N(3000)
		}
		gen.perFile = 2 * gen.big
	}
	if nf == 0 {
		useStdin = true
	}
	setMode := w.N(3) == 2
	var opts, pos []string
	var viaOpt, viaPos []*note
	stdinNote := &note{}
	if useStdin {
		stdinNote = gen.file("-", false, "in.example", 0)
	}
	// one input may not be readable to its end
	badOne := -1
	how := ""
	if f.N(3) == 2 {
		badOne = f.N(nf + 1)
		how = []string{"missing", "no-permission", "directory", "bad-block", "long-line"}[f.N(5)]
	}
	broken := ""
	either := false
	names := []string{"a", "todo list", "заметки", "b.c", "d'e", "f"}
	for i := 0; i < nf; i++ {
		org := w.N(3) != 1
		ext := []string{".txt", "", ".org.txt"}[w.N(3)]
		if org {
			ext = ".org"
		}
		p := fmt.Sprintf("/home/u/notes/%s%d%s", names[w.N(len(names))], i, ext)
		n := gen.file(p, org, fmt.Sprintf("f%d.example", i), 0)
		if i == badOne && how == "long-line" {
			lengthen(n, 65536+f.Skewed(5000), f.N(2) == 1)
			either = true
		}
		in := k.FS.Put(p, n.Text, 0644)
		if i == badOne {
			broken = how + " " + p
			switch how {
			case "missing":
				k.FS.Delete(p)
			case "no-permission":
				in.Mode = 0
			case "directory":
				k.FS.Delete(p)
				k.FS.MkdirAll(p)
			case "bad-block":
				if len(in.Data) == 0 {
					broken = ""
				} else {
					in.BadAt = f.N(len(in.Data))
				}
			case "long-line":
				broken = ""
			}
			if broken != "" {
				rt.Count("fault:note:"+how, 1)
			}
		}
		if w.N(3) != 2 {
			opts = append(opts, map[bool]string{true: "-org", false: "-txt"}[org], p)
			viaOpt = append(viaOpt, n)
		} else {
			pos = append(pos, p)
			viaPos = append(viaPos, n)
		}
	}
	if useStdin {
		text := stdinNote.Text
		explicit := nf > 0 || w.N(2) == 1
		if explicit {
			if w.N(2) == 1 {
				opts = append(opts, "-txt", "-")
				viaOpt = append(viaOpt, stdinNote)
			} else {
				pos = append(pos, "-")
				viaPos = append(viaPos, stdinNote)
			}
		} else {
			viaPos = append(viaPos, stdinNote)
		}
		if badOne == nf {
			rt.Count("fault:stdin:"+how, 1)
			switch how {
			case "missing", "no-permission":
				o.inErr = syscall.EIO
				text = text[:f.N(len(text)+1)]
				broken = "stdin " + how
			case "directory":
				o.inFile = kernel.FileDesc(k.FS.MkdirAll("/home/u/notes/dir"), kernel.O_RDONLY, "/home/u/notes/dir")
				broken = "stdin is a directory"
			case "bad-block":
				in := k.FS.Put("/home/u/notes/in", text, 0644)
				if len(text) > 0 {
					in.BadAt = f.N(len(text))
					broken = "stdin has a bad block"
				}
				o.inFile = kernel.FileDesc(in, kernel.O_RDONLY, "/home/u/notes/in")
			case "long-line":
				lengthen(stdinNote, 65536+f.Skewed(5000), f.N(2) == 1)
				text = stdinNote.Text
				either = true
			}
		} else if w.N(3) == 2 {
			in := k.FS.Put("/home/u/notes/in", text, 0644)
			o.inFile = kernel.FileDesc(in, kernel.O_RDONLY, "/home/u/notes/in")
		}
		o.stdin = []byte(text)
	} else if w.N(3) == 1 {
		// standard input is of no importance, it may have no end
		o.stdin = []byte("https://in.example/v0/p1 https://f0.example/v0/p1 https://shared.example/a\n")
		o.inOpen = w.N(2) == 1
	}
	files := append(append([]*note{}, viaOpt...), viaPos...)
	var links []string
	for _, n := range files {
		for _, l := range n.Links {
			links = append(links, l.URL)
		}
	}
	some := func() string {
		if len(links) == 0 || w.N(6) == 5 {
			return []string{"https://nothing.example/", "https://shared.example/b//", "http://shared.example/a?", "https://shared.example/long/path?&#"}[w.N(4)]
		}
		u := links[w.N(len(links))]
		if w.N(4) == 3 {
			u += []string{"/", "?", "&", "#", "//?&&#"}[w.N(5)]
		}
		return u
	}
	var args, prefixes []string
	query := ""
	usage := false
	if setMode {
		i := w.N(3)
		if w.N(20) == 1 {
			i += w.N(30)
		}
		for ; i >= 0; i-- {
			p := []string{"https://", "http:", "https://f0.example/", "https://shared.example/", "http://in.example/v0", "gopher:", "https://f1.example/", "http://f2.example"}[w.N(8)]
			prefixes = append(prefixes, p)
			opts = append(opts, "-set", p)
		}
		args = append(opts, pos...)
		usage = len(pos) == 0 // it wants an argument
		if usage && useStdin && nf == 0 && len(opts) == 2*len(prefixes) {
			r.Probe("set-from-stdin-refused")
		}
	} else {
		query = some()
		args = append(append(opts, query), pos...)
		usage = w.N(30) == 29
		if usage {
			args = opts
		}
	}
	// the output device and faults of operations
	device := []string{"pipe", "file", "small-pipe", "broken-pipe", "full-file"}[f.Weighted(5, 2, 1, 2, 2)]
	switch device {
	case "file", "full-file":
		o.outPath = "/out/links"
		o.outFile = k.FS.Put(o.outPath, "", 0644)
		if device == "full-file" {
			k.Rates["write:out"] = 1 + f.N(6)
			k.Budget += 1
			if f.N(2) == 1 {
				k.Budget = 1000
			}
		}
	case "small-pipe":
		o.outCap = 256
	case "broken-pipe":
		o.breaks = true
		o.outBreak = int64(f.Skewed(400))
	}
	if f.N(4) == 3 {
		k.Rates["open:note"], k.Rates["read:note"] = 8, 2+f.N(12)
		k.Budget++
	}
	r.Say("tool %q, stdin %v, device %s, broken: %q", args, useStdin, device, broken)
	for _, n := range files {
		rt.W.StepCap += 100 * int64(len(n.Text))
	}
	g := startProg(r, exeTool, args, "/work", o)
	g.wait(patience)
	r.Check("R20")
	if !g.P.Exited {
		r.Violate("R20", "hangs", "the tool %q hangs; tasks wait for %v", args, stuckOf(g.P.Grp))
		return
	}
	if g.P.Crash != "" {
		r.Violate("R20", "crash", "the tool %q: %s", args, g.text())
		return
	}
	faults := 0
	for _, fr := range k.Fired {
		if fr.Class == "note" || fr.Class == "out" {
			faults++
		}
	}
	out := g.output()
	if g.ok() {
		r.Probe("tool-success")
		switch {
		case usage && !setMode:
			r.Violate("R20", "false-success", "the tool %q reported success without a URL", args)
		case usage && setMode && toolOutputWrong(out, files, query, prefixes) != "":
			r.Violate("R20", "output", "the tool %q reported success, its output %q is wrong", args, clip(out, 200))
		case broken != "":
			r.Violate("R20", "false-success", "the tool %q reported success though an input could not be read: %s; it printed %q", args, broken, clip(out, 200))
		case faults > 0:
			r.Violate("R20", "false-success", "the tool %q reported success though %v; it printed %q", args, k.Fired[len(k.Fired)-1], clip(out, 200))
		default:
			if why := toolOutputWrong(out, files, query, prefixes); why != "" {
				r.Violate("R20", "output", "the tool %q reported success, its output %q is wrong: %s", args, clip(out, 400), why)
			}
		}
		return
	}
	r.Probe("tool-failure")
	if len(g.Err) == 0 && g.P.Sig == 0 {
		r.Violate("R20", "silent", "the tool %q failed without a message", args)
	}
	if broken == "" && faults == 0 && !either && !usage && g.P.Sig == 0 {
		r.Violate("R20", "false-failure", "the tool %q failed though all could be read and written: %s", args, g.text())
	}
	if g.P.Sig != 0 && device != "broken-pipe" {
		r.Violate("R20", "false-failure", "the tool %q ended by signal %d", args, int(g.P.Sig))
	}
}

// lengthen adds a line that is longer than usual buffers, and possibly a link
// behind it.
func lengthen(n *note, size int, link bool) {
	if size%3 == 1 {
		if text, ok := padLine(n.Text, size, size); ok {
			n.Text = text
			return
		}
	}
	if n.Text != "" && !strings.HasSuffix(n.Text, "\n") {
		n.Text += "\n"
	}
	n.Text += strings.Repeat("z", size) + "\n"
	if link {
		u := "https://shared.example/a"
		if n.Org {
			return
		}
		n.Text += "see " + u + " there\n"
		n.Links = append(n.Links, noteLink{URL: u, Line: strings.Count(n.Text, "\n"), Plain: true})
	}
}

// padLine makes one line of a note, that is not a heading, longer by a word
// of z behind all of its links.
func padLine(text string, size, at int) (string, bool) {
	lines := strings.SplitAfter(text, "\n")
	var ok []int
	for i, l := range lines {
		if l != "" && !strings.HasPrefix(l, "*") {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		return text, false
	}
	i := ok[at%len(ok)]
	l := strings.TrimRight(lines[i], "\r\n")
	lines[i] = l + " " + strings.Repeat("z", size) + lines[i][len(l):]
	return strings.Join(lines, ""), true
}
