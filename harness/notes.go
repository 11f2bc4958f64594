//go:build go1.27

package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/rt"
)

// heading is one Org heading.
type heading struct {
	Line int
	Text string
}

// noteLink is one link as the notes contain it.
type noteLink struct {
	URL   string
	Descr string
	Line  int
	Chain []heading
	Plain bool // written as plain text
}

// note is one version of one note file.
type note struct {
	Path    string
	Org     bool
	Text    string
	Links   []noteLink
	Version int
}

type noteGen struct {
	r       *Run
	perFile int // most links per file
	deep    int // deepest heading
	dups    bool
	long    bool     // long lines
	tall    bool     // very many lines
	big     int      // that many links at least, 0: any number
	pool    []string // URLs that may occur in several places
	serial  int
}

// orgPool are URLs for Org files only, the text format knows less.
var orgPool = []string{"https://shared.example/B", "https://Shared.example/a", "https://shared.example/a?x=1&y=%20", "https://shared.example/a?x=1&y=%20#Frag", "https://shared.example/\u00fc/\u65e5\u672c",
	"mid:m1@shared.example", "doi:10.1000/182", "https://shared.example/a:b;c=d,e", "http://shared.example:8080/a", "https://shared.example/b/c/d"}

var noteWords = []string{"todo", "meeting", "über", "read later", "naïve plan", "日本語", "see", "and", "quote", "plans"}

func (g *noteGen) text() string {
	w := g.r.W()
	var out []string
	for i := w.N(4); i >= 0; i-- {
		out = append(out, noteWords[w.N(len(noteWords))])
	}
	return strings.Join(out, " ")
}

// file makes a note file. own is the domain only this file uses; version
// marks every own URL.
func (g *noteGen) file(path string, org bool, own string, version int) *note {
	w := g.r.W()
	n := &note{Path: path, Org: org, Version: version}
	var b strings.Builder
	line := 0
	put := func(s string) {
		b.WriteString(s)
		b.WriteByte('\n')
		line++
	}
	type open struct {
		level int
		h     heading
	}
	var chain []open
	used := map[string]bool{} // below the current heading
	nl := w.Skewed(g.perFile + 1)
	if nl == 0 && w.N(4) != 1 {
		nl = 1
	}
	if g.big > 0 {
		nl = g.big + w.N(g.big)
	}
	if g.tall && w.N(3) != 1 {
		// links are far from the beginning
		n := []int{32760, 65530, 70000, 100000}[w.N(4)] + w.N(20)
		b.WriteString(strings.Repeat("\n", n))
		line = n
		rt.Count("io:note-of-many-lines", 1)
	}
	last := line + 400
	if g.big > 0 {
		last += 8 * g.big
	}
	link := func(inHeading bool) string {
		var url string
		if len(g.pool) > 0 && w.N(2) == 1 {
			url = g.pool[w.N(len(g.pool))]
			if org && w.N(3) == 1 {
				url = orgPool[w.N(len(orgPool))]
			}
			if !g.dups && used[url] {
				url = ""
			}
		}
		if url == "" {
			g.serial++
			scheme := "https"
			if w.N(3) == 1 {
				scheme = "http"
			}
			url = fmt.Sprintf("%s://%s/v%d/p%d", scheme, own, version, g.serial)
		}
		used[url] = true
		l := noteLink{URL: url, Line: line + 1}
		for _, o := range chain {
			l.Chain = append(l.Chain, o.h)
		}
		var s string
		if !org {
			l.Plain = true
			s = url
			if w.N(8) == 1 {
				i := w.N(5)
				s = []string{"(", "<", "[", "see;", "=>"}[i] + url + []string{")", ">", "]", ")", "<"}[i]
			}
		} else {
			switch w.N(4) {
			case 0:
				l.Plain = !strings.ContainsAny(url[len(url)-1:], "#?&/")
				s = url
				if !l.Plain {
					s = "[[" + url + "]]"
				}
			case 1:
				s = "[[" + url + "]]"
			case 2:
				l.Descr = fmt.Sprintf("%s %d", noteWords[w.N(len(noteWords))], line)
				s = "[[" + url + "][" + l.Descr + "]]"
			case 3:
				s = "<" + url + ">"
			}
			if c := url[len(url)-1]; s == url && (c >= 'a' && c <= 'z' || c >= '0' && c <= '9') && w.N(6) == 1 {
				s += []string{".", ",", ";", "!", "..."}[w.N(5)]
			}
		}
		n.Links = append(n.Links, l)
		return s
	}
	made := 0
	for made < nl || w.N(4) == 1 {
		if org && w.N(3) == 1 {
			cur := 0
			if len(chain) > 0 {
				cur = chain[len(chain)-1].level
			}
			var level int
			switch w.N(4) {
			case 0:
				level = cur + 1
			case 1:
				level = 1 + w.N(cur+1)
			case 2:
				level = cur + 1 + w.Skewed(g.deep)
			case 3:
				level = 1 + w.Skewed(g.deep+1)
			}
			for len(chain) > 0 && chain[len(chain)-1].level >= level {
				chain = chain[:len(chain)-1]
			}
			text := g.text()
			tail := ""
			switch w.N(12) {
			case 1:
				text += []string{".", "...", "!", "?", ":", ")", "\"", " *", "\\"}[w.N(9)]
			case 2:
				text = "TODO [#A] " + text + "  :tag:work:"
			case 3:
				text = ""
			case 4:
				tail = []string{" ", "  ", "\t"}[w.N(3)]
			case 5:
				text = []string{"* ", "(", "- ", "1. ", "COMMENT "}[w.N(5)] + text
			}
			chain = append(chain, open{level, heading{line + 1, text}})
			used = map[string]bool{}
			if made < nl && w.N(5) == 1 {
				// a link inside the heading
				made++
				text = "see [[https://" + own + fmt.Sprintf("/v%d/h%d]]", version, line)
				chain[len(chain)-1].h.Text = text
				l := noteLink{URL: text[len("see [[") : len(text)-2], Line: line + 1}
				for _, o := range chain {
					l.Chain = append(l.Chain, o.h)
				}
				n.Links = append(n.Links, l)
			}
			put(strings.Repeat("*", level) + " " + text + tail)
			continue
		}
		s := g.text()
		if org && w.N(5) == 1 {
			s = []string{"*bold* ", " * item ", "- ", "#+title: ", ": ", "| cell | ", "**", "[[file:other.org]] ", "[[id:ab-cd][*x]] ", "<2024-01-01 Mon> ", "[[mailto:x@y.example]] ", "[[*", "]] ", "*\u00a0no heading "}[w.N(14)] + s
		}
		if made < nl && w.N(3) != 0 {
			k := 1
			if w.N(5) == 1 {
				k = 2 + w.Skewed(5)
			}
			for ; k > 0 && made < nl; k-- {
				sep := " "
				if !org && w.N(6) == 1 {
					sep = []string{"<", ")(", "\t", "]["}[w.N(4)] // in one word
				}
				s += sep + link(false)
				made++
				if w.N(2) == 1 {
					s += " " + g.text()
				}
			}
		}
		put(s)
		if line > last {
			break
		}
	}
	n.Text = b.String()
	if w.N(8) == 1 {
		n.Text = strings.TrimSuffix(n.Text, "\n")
	}
	if w.N(8) == 1 {
		n.Text = strings.ReplaceAll(n.Text, "\n", "\r\n")
	}
	if g.long && w.N(12) == 1 {
		// a long line, but of a supported length
		if text, ok := padLine(n.Text, 100+w.Skewed(60000), w.N(1000)); ok {
			n.Text = text
		}
	}
	return n
}

// sameSize is another version of the note with as many bytes.
func (n *note) sameSize(own string, version int) *note {
	from, to := fmt.Sprintf("%s/v%d/", own, n.Version), fmt.Sprintf("%s/v%d/", own, version)
	if len(from) != len(to) || !strings.Contains(n.Text, from) {
		return nil
	}
	sub := func(s string) string { return strings.ReplaceAll(s, from, to) }
	m := &note{Path: n.Path, Org: n.Org, Text: sub(n.Text), Version: version}
	for _, l := range n.Links {
		l.URL, l.Descr = sub(l.URL), sub(l.Descr)
		var chain []heading
		for _, h := range l.Chain {
			h.Text = sub(h.Text)
			chain = append(chain, h)
		}
		l.Chain = chain
		m.Links = append(m.Links, l)
	}
	rt.Count("env:file-replaced-same-size", 1)
	return m
}

// set is what a link set reply has to contain for this version.
func (n *note) set(prefixes []string) map[string]bool {
	out := map[string]bool{}
	for _, l := range n.Links {
		for _, p := range prefixes {
			if !strings.Contains(p, ":") {
				p += ":"
			}
			if strings.HasPrefix(l.URL, p) {
				out[l.URL] = true
			}
		}
	}
	return out
}

// matches tells whether a link matches a queried URL by the definition of
// the property.
func urlMatches(link, query string) bool {
	swap := func(s string) string {
		if rest, ok := strings.CutPrefix(s, "http:"); ok {
			return "https:" + rest
		}
		return s
	}
	link, query = swap(link), swap(query)
	if link == query {
		return true
	}
	// redundant tail: '/'* '?'? '&'* '#'?
	rest, ok := strings.CutPrefix(query, link)
	if !ok {
		return false
	}
	return redundantTail(query, rest)
}

func redundantTail(query, rest string) bool {
	stage := 0
	for _, c := range rest {
		switch c {
		case '/':
			if stage > 0 {
				return false
			}
		case '?':
			if stage > 0 {
				return false
			}
			stage = 1
		case '&':
			if stage > 2 {
				return false
			}
			stage = 2
		case '#':
			if stage > 2 {
				return false
			}
			stage = 3
		default:
			return false
		}
	}
	return true
}

// --- expected mentions

// mnode is a node of a mentions tree.
type mnode struct {
	Type     string // File, Heading, Body, FileGroup
	Path     string
	H        heading
	Links    []noteLink
	Children []*mnode
	Total    int
}

func expectMentions(files []*note, queries []string) *mnode {
	root := &mnode{Type: "FileGroup"}
	for _, f := range files {
		fn := &mnode{Type: "File", Path: f.Path}
		for _, l := range f.Links {
			ok := false
			for _, q := range queries {
				ok = ok || urlMatches(l.URL, q)
			}
			if !ok {
				continue
			}
			at := fn
			fn.Total++
			for _, h := range l.Chain {
				var next *mnode
				if k := len(at.Children); k > 0 && at.Children[k-1].Type == "Heading" && at.Children[k-1].H == h {
					next = at.Children[k-1]
				}
				if next == nil {
					next = &mnode{Type: "Heading", H: h}
					at.Children = append(at.Children, next)
				}
				next.Total++
				at = next
			}
			if len(at.Children) == 0 {
				at.Children = append(at.Children, &mnode{Type: "Body"})
			}
			body := at.Children[0]
			body.Links = append(body.Links, l)
			body.Total++
		}
		if fn.Total > 0 {
			root.Children = append(root.Children, fn)
			root.Total += fn.Total
		}
	}
	return root
}

// hasDups tells whether a URL repeats directly below one heading.
func (m *mnode) hasDups() bool {
	seen := map[string]bool{}
	for _, l := range m.Links {
		if seen[l.URL] {
			return true
		}
		seen[l.URL] = true
	}
	for _, c := range m.Children {
		if c.hasDups() {
			return true
		}
	}
	return false
}

type jnode struct {
	Type     string   `json:"_type"`
	Path     string   `json:"path"`
	LineNo   int      `json:"lineNo"`
	RawText  string   `json:"rawText"`
	Children []*jnode `json:"children"`
	Links    []struct {
		URL    string `json:"url"`
		Descr  string `json:"descr"`
		LineNo int    `json:"lineNo"`
	} `json:"links"`
	Total    int `json:"total"`
	Filtered int `json:"filtered"`
}

// compareMentions checks a reply against the notes; "" if it is right.
// nFiles is the number of files that have any links at all.
func compareMentions(raw json.RawMessage, want *mnode, limit int) string {
	var got jnode
	if err := json.Unmarshal(raw, &got); err != nil {
		return "reply is not a tree: " + err.Error()
	}
	if limit < 0 {
		limit = 0
	}
	g := &got
	if g.Type != "FileGroup" {
		g = &jnode{Type: "FileGroup", Children: []*jnode{&got}, Total: got.Total, Filtered: got.Filtered}
	}
	shown, msg := compareNode(g, want, "")
	if msg != "" {
		return msg
	}
	if shown > limit {
		return fmt.Sprintf("%d links shown, limit is %d", shown, limit)
	}
	exact := want.Total
	if limit < exact {
		exact = limit
	}
	if !want.hasDups() && shown != exact {
		return fmt.Sprintf("%d links shown, %d expected (total %d, limit %d)", shown, exact, want.Total, limit)
	}
	if want.Total > 0 && limit > 0 && shown == 0 {
		return "no link shown"
	}
	return ""
}

func (j *jnode) name() string {
	switch j.Type {
	case "Heading":
		return fmt.Sprintf("heading %d %q", j.LineNo, j.RawText)
	case "File":
		return "file " + j.Path
	}
	return j.Type
}

func (j *jnode) is(m *mnode) bool {
	if j.Type != m.Type {
		return false
	}
	switch m.Type {
	case "Heading":
		return j.LineNo == m.H.Line && j.RawText == m.H.Text
	case "File":
		return j.Path == m.Path
	}
	return true
}

func compareNode(g *jnode, w *mnode, at string) (int, string) {
	at += "/" + g.name()
	if g.Total != w.Total {
		return 0, fmt.Sprintf("%s: total %d, the notes have %d", at, g.Total, w.Total)
	}
	shown := 0
	if w.Type == "Body" {
		i := 0
		seen := map[string]bool{}
		for _, l := range g.Links {
			for i < len(w.Links) && !(w.Links[i].URL == l.URL && w.Links[i].Line == l.LineNo && w.Links[i].Descr == l.Descr) {
				i++
			}
			if i == len(w.Links) {
				return 0, fmt.Sprintf("%s: link %s at line %d is not there, or out of order", at, l.URL, l.LineNo)
			}
			if seen[l.URL] {
				return 0, fmt.Sprintf("%s: link %s shown twice", at, l.URL)
			}
			seen[l.URL] = true
			i++
			shown++
		}
		if len(g.Children) != 0 {
			return 0, at + ": a body with children"
		}
	} else {
		i := 0
		for _, c := range g.Children {
			for i < len(w.Children) && !c.is(w.Children[i]) {
				i++
			}
			if i == len(w.Children) {
				return 0, fmt.Sprintf("%s: no %s there, or out of order", at, c.name())
			}
			n, msg := compareNode(c, w.Children[i], at)
			if msg != "" {
				return 0, msg
			}
			shown += n
			i++
		}
	}
	if g.Filtered != shown {
		return 0, fmt.Sprintf("%s: claims %d shown links, has %d", at, g.Filtered, shown)
	}
	return shown, ""
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
