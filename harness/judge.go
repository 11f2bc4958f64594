//go:build go1.27

package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

var sessionProps = map[string]string{ // property -> kinds whose answer it is about, "*" for all
	"R01": "*", "R03": "*", "R04": "*", "R05": "*", "R06": "*", "R08": "capture preview capFormat capURI", "R09": "capture visit",
	"R10": "visit visitBad", "R11": "mentions", "R12": "linkSet linkSetBad", "R13": "linkSet mentions", "R18": "*", "R21": "*", "R23": "hello helloOld helloMix",
}

func (s *session) about(q *req) bool {
	k := sessionProps[s.r.Prop]
	if k == "*" {
		return true
	}
	for _, f := range strings.Fields(k) {
		if f == q.Kind {
			return true
		}
	}
	return false
}

// judge decides everything after the end of a session.
func (s *session) judge() {
	r := s.r
	p := r.Prop
	for _, q := range s.Reqs {
		for _, rep := range q.Replies {
			r.Say("reply to %s: %s", q.Kind, clip(string(rep.Raw), 160))
		}
	}
	if p == "R02" {
		r.Check("R02")
		if s.h.O.Broken != "" {
			r.Violate("R02", "frames", "output is no sequence of messages: %s", s.h.O.Broken)
		} else if s.h.O.tail() > 0 && s.exited && s.h.P.Sig == 0 && !s.breakOut {
			r.Violate("R02", "frames", "output ends with %d bytes of an incomplete message", s.h.O.tail())
		}
		for _, rep := range s.h.O.Replies {
			r.Check("R02")
			if rep.Bad != "" {
				r.Violate("R02", "frames", "message is not one JSON value: %s", rep.Bad)
			}
		}
		return
	}
	if s.h.P.Crash != "" || s.h.P.Sig != 0 {
		r.Violate(p, "host-crash", "the host %s", s.h.exitText())
		return
	}
	if s.h.O.Broken != "" {
		r.Violate(p, "broken-output", "output is no sequence of messages: %s", s.h.O.Broken)
		return
	}
	if s.gone && !s.breakOut && strings.Contains("R01 R03 R05 R06 R18", p) {
		r.Violate(p, "gone", "the host does not read requests any more though its input has not ended and all messages were requests; it is %s", s.h.exitText())
	}
	// answers
	for _, q := range s.Reqs {
		if q.Cut || !q.Sent {
			continue
		}
		if q.ID == "" || !s.about(q) {
			continue
		}
		r.Check(p)
		switch {
		case len(q.Replies) == 0:
			r.Violate(p, "no-reply", "%s request %s was never answered; the host is %s", q.Kind, q.ID, s.h.exitText())
		case len(q.Replies) > 1 && (p == "R01" || p == "R03" || p == "R04"):
			r.Violate(p, "two-replies", "%s request %s was answered %d times", q.Kind, q.ID, len(q.Replies))
		}
	}
	switch p {
	case "R01":
		s.judgeOutcomes()
		for _, rep := range s.strange {
			r.Violate(p, "stray-reply", "reply to no request: %s", clip(string(rep.Raw), 300))
		}
	case "R03", "R18", "R06":
		s.judgeOutcomes()
	case "R04":
		s.judgeOutcomes()
		s.judgeEnd()
	case "R05":
		s.judgeOutcomes()
		s.judgeEnd()
	case "R08":
		s.judgeCaptures()
	case "R09":
		s.judgeEmacs()
	case "R10":
		s.judgeVisits()
	case "R11":
		for _, q := range s.Reqs {
			if q.Kind == "mentions" && len(q.Replies) == 1 {
				if msg := s.mentionsWrong(q, q.Replies[0]); msg != "" {
					r.Violate(p, "mentions", "query %q limit %d: %s; reply %s", q.Variants, q.Limit, msg, clip(string(q.Replies[0].Raw), 700))
				}
			}
		}
	case "R12":
		s.judgeLinkSets()
	case "R13":
		s.judgeUnreadable()
	case "R21":
		s.judgeLeaks()
	case "R23":
		s.judgeHello()
	}
}

func (s *session) judgeOutcomes() {
	for _, q := range s.Reqs {
		if q.Cut || len(q.Replies) == 0 {
			continue
		}
		for _, rep := range q.Replies {
			if msg := s.wrong(q, rep); msg != "" {
				s.r.Violate(s.r.Prop, "wrong-outcome", "%s request %s: %s; reply %s", q.Kind, clip(string(q.Body), 300), msg, clip(string(rep.Raw), 500))
			}
		}
	}
}

// wrong tells why a reply is not the outcome of its request.
func (s *session) wrong(q *req, p *reply) string {
	if p.Bad != "" {
		return p.Bad
	}
	switch q.Want {
	case "error":
		if !p.isErr() {
			return "a result instead of an error"
		}
		return ""
	case "ok":
		if p.isErr() {
			return "error " + p.errText()
		}
	case "any":
		if p.isErr() {
			return ""
		}
	}
	switch q.Kind {
	case "hello", "helloMix":
		var v struct{ Format, Version string }
		if json.Unmarshal(p.Result, &v) != nil || v.Version != q.Version || v.Format != "org-protocol" {
			return "not the offered version " + q.Version
		}
	case "capture", "preview":
		var v struct {
			Preview bool
			Status  string
		}
		want := map[string]string{"capture": "success", "preview": "preview"}[q.Kind]
		if json.Unmarshal(p.Result, &v) != nil || v.Status != want || v.Preview != (q.Kind == "preview") {
			return "not the outcome of a " + q.Kind
		}
		if q.Kind == "capture" && s.handovers(q.URI) == 0 {
			return "success but nothing was handed over"
		}
	case "visit":
		if string(p.Result) != "true" {
			return "not true"
		}
	case "mentions":
		return s.mentionsWrong(q, p)
	case "linkSet":
		return s.linkSetWrong(q, p)
	}
	return ""
}

// judgeHello compares answers to hello requests with the offer and the
// configuration.
func (s *session) judgeHello() {
	var want []string
	if len(s.Files) > 0 {
		want = append(want, "urlMentions", "visit")
		if s.c.LinkSet {
			want = append(want, "linkSet")
		}
	}
	sort.Strings(want)
	for _, q := range s.Reqs {
		if q.Cut || !q.Sent || !s.about(q) {
			continue
		}
		for _, p := range q.Replies {
			msg := s.wrong(q, p)
			if msg == "" && !p.isErr() {
				var v struct {
					Capabilities []string
					Options      map[string]any
				}
				if json.Unmarshal(p.Result, &v) != nil {
					msg = "malformed capabilities"
				}
				if b, ok := v.Options["clipboardForBody"]; !ok || b != false {
					// the host takes the body from the URI, never from the clipboard
					msg = "option clipboardForBody is not false"
				}
				sort.Strings(v.Capabilities)
				if strings.Join(v.Capabilities, " ") != strings.Join(want, " ") {
					msg = fmt.Sprintf("capabilities %q instead of %q", v.Capabilities, want)
				}
			}
			if msg != "" {
				s.r.Violate("R23", "hello", "hello request %s: %s; reply %s", clip(string(q.Body), 300), msg, clip(string(p.Raw), 500))
			}
		}
	}
}

func (s *session) mentionsWrong(q *req, p *reply) string {
	if p.isErr() {
		if q.Want == "ok" {
			return "error " + p.errText()
		}
		return ""
	}
	if p.Bad != "" {
		return p.Bad
	}
	return compareMentions(p.Result, expectMentions(s.Files, q.Variants), q.Limit)
}

// linkSetWrong compares with the versions that were current meanwhile.
func (s *session) linkSetWrong(q *req, p *reply) string {
	if p.isErr() {
		if q.Want == "ok" {
			return "error " + p.errText()
		}
		return ""
	}
	var v struct{ Urls []string }
	if err := json.Unmarshal(p.Result, &v); err != nil {
		return "no link set"
	}
	if q.Want == "error" {
		return "a result instead of an error"
	}
	got := map[string]bool{}
	for _, u := range v.Urls {
		if got[u] {
			return "link " + u + " repeated"
		}
		got[u] = true
	}
	used := map[string]bool{}
	type cand struct {
		shared map[string]bool
		v      int
	}
	cands := make([][]cand, len(s.Files))
	for i := range s.Files {
		dom := "://" + s.own[i] + "/"
		mine := map[string]bool{}
		for u := range got {
			if strings.Contains(u, dom) {
				mine[u] = true
				used[u] = true
			}
		}
		live := 0
		why := ""
		for ver, n := range s.Vers[i] {
			if s.VerFrom[i][ver] > p.Seq || ver+1 < len(s.Vers[i]) && s.VerFrom[i][ver+1] < q.LastSeq {
				continue
			}
			live++
			own, shared := map[string]bool{}, map[string]bool{}
			for u := range n.set(q.Prefixes) {
				if strings.Contains(u, dom) {
					own[u] = true
				} else {
					shared[u] = true
				}
			}
			if d := setDiff(mine, own); d == "" {
				cands[i] = append(cands[i], cand{shared, ver})
			} else {
				why = d
			}
		}
		if live > 1 {
			s.r.Probe("linkset-raced-with-editor")
		}
		if len(cands[i]) == 0 {
			return fmt.Sprintf("%s: links are of none of the %d versions current meanwhile (%s)", s.Files[i].Path, live, why)
		}
	}
	rest := map[string]bool{}
	for u := range got {
		if !used[u] {
			rest[u] = true
		}
	}
	tries := 0
	why := ""
	var try func(i int, acc map[string]bool) bool
	try = func(i int, acc map[string]bool) bool {
		tries++
		if tries > 20000 {
			return true
		}
		if i == len(cands) {
			why = setDiff(rest, acc)
			return why == ""
		}
		for _, c := range cands[i] {
			next := map[string]bool{}
			for u := range acc {
				next[u] = true
			}
			for u := range c.shared {
				next[u] = true
			}
			if try(i+1, next) {
				return true
			}
		}
		return false
	}
	if !try(0, map[string]bool{}) {
		return "links occurring in several files: " + why
	}
	return ""
}

func setDiff(got, want map[string]bool) string {
	var out []string
	for _, u := range sortedSet(got) {
		if !want[u] {
			out = append(out, "unexpected "+u)
		}
	}
	for _, u := range sortedSet(want) {
		if !got[u] {
			out = append(out, "missing "+u)
		}
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, ", ")
}

func (s *session) handovers(uri string) int {
	n := 0
	for _, v := range s.E.Inv {
		if u, ok := v.URI(); ok && u == uri {
			n++
		}
	}
	return n
}

// captures counts the complete capture requests of an URI.
func (s *session) captures(uri string) int {
	n := 0
	for _, q := range s.Reqs {
		if q.Kind == "capture" && q.URI == uri && q.Sent && !q.Cut {
			n++
		}
	}
	return n
}

// judgeEnd: the shutdown.
func (s *session) judgeEnd() {
	p := s.r.Prop
	if !s.exited {
		s.r.Violate(p, "no-exit", "the host still runs %v after its input ended; tasks wait for: %s", patience, strings.Join(s.stuck(), ", "))
		return
	}
	if p == "R04" && s.h.P.Code != 0 {
		s.r.Violate(p, "exit-status", "the host %s", s.h.exitText())
	}
	if p == "R04" && s.h.P.Exited && s.h.O.tail() > 0 {
		s.r.Violate(p, "tail", "output ends with %d bytes of an incomplete message", s.h.O.tail())
	}
	if q := s.cutReq; q != nil {
		if len(q.Replies) > 0 && len(q.Replies[0].Result) > 0 && !q.Replies[0].isErr() {
			s.r.Violate(p, "partial-executed", "an incomplete message was answered: %s", clip(string(q.Replies[0].Raw), 200))
		}
		if q.Kind == "capture" && s.handovers(q.URI) > s.captures(q.URI) {
			s.r.Violate(p, "partial-executed", "an incomplete capture was handed to Emacs")
		}
	}
}

func (s *session) stuck() []string {
	w := s.h.P.Grp
	return stuckOf(w)
}

// userArgsIn tells whether the configured arguments are in an invocation.
func (s *session) userArgsIn(v *Invocation) bool {
	i := 0
	for _, a := range v.Args {
		if i < len(s.User) && a == s.User[i] {
			i++
		}
	}
	return i == len(s.User)
}

func (s *session) judgeCaptures() {
	r := s.r
	known := map[string]*req{}
	for _, q := range s.Reqs {
		if q.Kind == "capture" && (known[q.URI] == nil || known[q.URI].Cut) {
			known[q.URI] = q
		}
	}
	for _, v := range s.E.Inv {
		r.Check("R08")
		if !s.userArgsIn(v) {
			r.Violate("R08", "user-args", "client arguments %q without the configured %q", v.Args, s.User)
		}
		if v.Usage {
			r.Violate("R08", "client-usage", "emacsclient does not understand %q", v.Args)
		}
		u, ok := v.URI()
		if !ok {
			continue
		}
		q := known[u]
		if q == nil || q.LastSeq > v.Start || q.LastSeq == 0 {
			r.Violate("R08", "foreign-handover", "handed over %q, which is no capture that had arrived", clip(u, 200))
			continue
		}
		if q.Cut {
			r.Violate("R08", "foreign-handover", "handed over a capture that arrived incompletely")
		}
		if len(v.Positional) != 1 {
			r.Violate("R08", "handover-args", "the hand-over has arguments %q besides the URI", v.Positional)
		}
		ready := false
		for _, c := range s.E.Inv {
			if c.Ready && c.OK() && c.Start > q.LastSeq && c.End < v.Start {
				ready = true
			}
		}
		if !ready {
			r.Violate("R08", "not-ready", "handed over %q though Emacs was not found ready for org-protocol since the request arrived", clip(u, 120))
		}
	}
	for _, q := range s.Reqs {
		if len(q.Replies) == 0 {
			continue
		}
		switch q.Kind {
		case "capture":
			// hand-overs of the URI, those that had succeeded before the reply,
			// captures of the URI, those answered with success until the reply
			n, ok := 0, 0
			for _, v := range s.E.Inv {
				if u, is := v.URI(); is && u == q.URI {
					n++
					if v.OK() && v.End < q.Replies[0].Seq {
						ok++
					}
				}
			}
			want, good := s.captures(q.URI), 0
			for _, o := range s.Reqs {
				if o.Kind == "capture" && o.URI == q.URI && len(o.Replies) > 0 && !o.Replies[0].isErr() && o.Replies[0].Seq <= q.Replies[0].Seq {
					good++
				}
			}
			if want > 1 {
				r.Probe("equal-captures")
			}
			switch {
			case n > want:
				r.Violate("R08", "handed-twice", "%q was handed over %d times for %d requests", clip(q.URI, 120), n, want)
			case n < good:
				r.Violate("R08", "lost", "success was replied %d times for %q, which was handed over %d times", good, clip(q.URI, 120), n)
			case ok < good:
				r.Violate("R08", "early-success", "success was replied %d times for %q though only %d hand-overs had succeeded", good, clip(q.URI, 120), ok)
			case q.Want == "ok" && n == 0:
				r.Violate("R08", "not-handed", "valid capture %q was not handed over: %s", clip(q.URI, 120), clip(string(q.Replies[0].Raw), 200))
			}
		case "preview", "capFormat", "capURI":
			if q.URI == "" {
				continue
			}
			for _, v := range s.E.Inv {
				for _, a := range v.Args {
					if strings.Contains(a, q.URI) {
						r.Violate("R08", "must-not-hand", "%s %q reached Emacs", q.Kind, q.URI)
					}
				}
			}
			if q.Kind != "preview" && !q.Replies[0].isErr() {
				r.Violate("R08", "must-not-hand", "%s %q was answered with success", q.Kind, q.URI)
			}
		}
	}
}

// execFaults are failures to start the client.
func (s *session) execFaults(from, to int64) int {
	n := 0
	for _, f := range s.r.K.Fired {
		if (f.Op == "exec" || f.Op == "pipe") && f.Seq > from && f.Seq < to {
			n++
		}
	}
	return n
}

func (v *Invocation) failed() bool { return !v.OK() || v.Check && !v.Ready }

func (s *session) judgeEmacs() {
	r := s.r
	var reqs []*req
	for _, q := range s.Reqs {
		if q.emacs() && len(q.Replies) > 0 {
			reqs = append(reqs, q)
		}
	}
	failedSteps := 0
	for _, v := range s.E.Inv {
		if v.failed() {
			failedSteps++
		}
	}
	faults := s.execFaults(0, 1<<62)
	errs := 0
	for _, q := range reqs {
		if q.Replies[0].isErr() {
			errs++
		}
	}
	r.Check("R09")
	if errs != failedSteps+faults {
		r.Violate("R09", "failure-count", "%d steps failed and %d could not be started, but %d requests were answered with an error", failedSteps, faults, errs)
	}
	if !s.c.OneEmacs {
		return
	}
	for _, q := range reqs {
		rep := q.Replies[0]
		var steps []*Invocation
		seen := map[string]bool{}
		for _, v := range s.E.Inv {
			if v.Start > q.LastSeq && v.Start < rep.Seq {
				steps = append(steps, v)
			}
		}
		var bad *Invocation
		for i, v := range steps {
			key := strings.Join(v.Args, "\x00")
			if seen[key] {
				r.Violate("R09", "repeated-step", "step %q was run twice for one request", v.Args)
			}
			seen[key] = true
			if bad != nil {
				r.Violate("R09", "step-after-failure", "step %q was run after the step before had failed", v.Args)
			}
			if i+1 < len(steps) && v.End > steps[i+1].Start {
				r.Violate("R09", "overlapping-steps", "step %q was started before the step before had ended", steps[i+1].Args)
			}
			if v.failed() {
				bad = v
			}
			if v.End > rep.Seq {
				r.Violate("R09", "early-reply", "the request was answered while its step %q was running", v.Args)
			}
		}
		nf := s.execFaults(q.LastSeq, rep.Seq)
		r.Check("R09")
		text := ""
		if rep.isErr() {
			text = rep.errText()
		}
		switch {
		case bad == nil && nf == 0:
			if rep.isErr() {
				r.Violate("R09", "success-masked", "all %d steps succeeded but the reply is the error %q", len(steps), clip(text, 200))
				break
			}
			done := false
			for _, v := range steps {
				if q.Kind == "capture" {
					_, ok := v.URI()
					done = done || ok
				} else {
					done = done || len(v.Opens()) > 0
				}
			}
			if !done {
				r.Violate("R09", "false-success", "success was replied to a %s without doing it", q.Kind)
			}
		case !rep.isErr():
			r.Violate("R09", "failure-masked", "a step failed but success was replied")
		case bad != nil && bad.Down:
			if !strings.Contains(text, "not running") {
				r.Violate("R09", "not-running-message", "Emacs server is not running but the error is %q", clip(text, 200))
			}
			r.Probe("emacs-down")
		case bad != nil && bad.B.Fail && bad.B.Msg != "":
			if !strings.Contains(text, strings.TrimSpace(bad.B.Msg)) {
				r.Violate("R09", "message-lost", "the client said %q but the error is %q", bad.B.Msg, clip(text, 200))
			}
			if strings.Contains(text, "not running") {
				r.Violate("R09", "wrong-reason", "the error says %q though the server was running", clip(text, 200))
			}
			r.Probe("emacs-failed")
		case bad == nil && nf > 0:
			if strings.Contains(text, "not running") {
				r.Violate("R09", "wrong-reason", "the error says %q though the client could not be started", clip(text, 200))
			}
			r.Probe("emacs-not-started")
		default:
			if strings.Contains(text, "not running") {
				r.Violate("R09", "wrong-reason", "the error says %q though the server was running", clip(text, 200))
			}
			r.Probe("emacs-not-ready")
		}
	}
}

func (s *session) judgeVisits() {
	r := s.r
	type key struct {
		path string
		line int
	}
	norm := func(n int) int {
		if n <= 0 {
			return 0
		}
		return n
	}
	good := map[key]int{}
	all := map[key]int{}
	first := map[key]int64{}
	for _, q := range s.Reqs {
		switch q.Kind {
		case "visit":
			k := key{q.Path, norm(q.Line)}
			all[k]++
			if f, ok := first[k]; !ok || q.LastSeq < f {
				first[k] = q.LastSeq
			}
			if len(q.Replies) > 0 && !q.Replies[0].isErr() {
				good[k]++
			}
			if len(q.Replies) > 0 && q.Want == "ok" && q.Replies[0].isErr() {
				r.Violate("R10", "refused", "visit of configured file %q failed: %s", q.Path, q.Replies[0].errText())
			}
		case "visitBad":
			if len(q.Replies) > 0 && !q.Replies[0].isErr() {
				r.Violate("R10", "not-refused", "visit of %q was answered with success", q.Path)
			}
			if s.c.Window == 1 && len(q.Replies) > 0 {
				for _, v := range s.E.Inv {
					if v.Start > q.LastSeq && v.Start < q.Replies[0].Seq {
						r.Violate("R10", "ran-for-refused", "client run with %q for refused visit of %q", v.Args, q.Path)
					}
				}
			}
		}
	}
	opened := map[key]int{}
	for _, v := range s.E.Inv {
		op := v.Opens()
		if v.Eval || len(op) == 0 {
			continue
		}
		r.Check("R10")
		if _, isURI := v.URI(); isURI || len(op) != 1 {
			r.Violate("R10", "several", "client run with %q opens %q", v.Args, v.Positional)
			continue
		}
		line := 0
		if v.Line != "" {
			if n, err := fmt.Sscanf(v.Line, "+%d", &line); n != 1 || err != nil || fmt.Sprintf("+%d", line) != v.Line || line <= 0 {
				r.Violate("R10", "line", "odd position %q", v.Line)
			}
		}
		k := key{op[0], line}
		opened[k]++
		if all[k] == 0 || first[k] > v.Start || opened[k] > all[k] {
			r.Violate("R10", "unrequested", "client run with %q, which no visit request asked for", v.Args)
		}
		if !v.NoWait {
			r.Violate("R10", "waits", "client run with %q waits for the user", v.Args)
		}
		if !s.userArgsIn(v) {
			r.Violate("R10", "user-args", "client arguments %q without the configured %q", v.Args, s.User)
		}
	}
	for _, q := range s.Reqs {
		k := key{q.Path, norm(q.Line)}
		if n := good[k]; q.Kind == "visit" && opened[k] < n {
			r.Violate("R10", "not-opened", "%d visits of %q line %d succeeded, the file was opened %d times", n, k.path, k.line, opened[k])
			break
		}
	}
}

func (s *session) judgeLinkSets() {
	r := s.r
	for _, q := range s.Reqs {
		if len(q.Replies) == 0 {
			continue
		}
		rep := q.Replies[0]
		switch q.Kind {
		case "linkSet":
			if msg := s.linkSetWrong(q, rep); msg != "" {
				r.Violate("R12", "linkset", "prefixes %q: %s", q.Prefixes, msg)
			}
			if q.Want == "error" && strings.Contains(string(rep.Raw), ".example") {
				r.Violate("R12", "disclosed", "a disabled method disclosed links: %s", clip(string(rep.Raw), 200))
			}
		case "linkSetBad":
			if !rep.isErr() {
				r.Violate("R12", "not-refused", "request %s was not refused: %s", clip(string(q.Body), 200), clip(string(rep.Raw), 200))
			} else if strings.Contains(string(rep.Raw), "/v0/p") {
				r.Violate("R12", "disclosed", "a refused request disclosed links: %s", clip(string(rep.Raw), 200))
			}
		}
	}
}

func (s *session) noteFaults(from, to int64) int {
	n := 0
	for _, f := range s.r.K.Fired {
		if f.Class == "note" && f.Seq > from && f.Seq < to {
			n++
		}
	}
	return n
}

func (s *session) judgeUnreadable() {
	r := s.r
	for _, q := range s.Reqs {
		if len(q.Replies) == 0 || q.Cut {
			continue
		}
		rep := q.Replies[0]
		overlap := s.badFrom != 0 && !(rep.Seq < s.badFrom || s.badEnd != 0 && q.LastSeq > s.badEnd)
		inside := s.badFrom != 0 && q.LastSeq > s.badFrom && (s.badEnd == 0 || rep.Seq < s.badEnd)
		clean := s.noteFaults(q.LastSeq, rep.Seq) == 0 && !overlap
		switch q.Kind {
		case "linkSet":
			if rep.isErr() {
				if clean {
					r.Violate("R13", "needless-error", "link set request failed though every file was readable: %s", rep.errText())
				}
				r.Probe("linkset-error")
				continue
			}
			if msg := s.linkSetWrong(q, rep); msg != "" {
				r.Violate("R13", "partial-linkset", "prefixes %q: %s", q.Prefixes, msg)
			}
			if inside && len(s.bad) > 0 && !s.badSoft() {
				r.Violate("R13", "unreadable-ignored", "link set request succeeded though %q was unreadable", s.bad)
			}
			r.Probe("linkset-result")
		case "mentions":
			if rep.isErr() {
				if s.noteFaults(0, rep.Seq) == 0 && (s.badFrom == 0 || rep.Seq < s.badFrom) && s.anyLinks() {
					r.Violate("R13", "needless-error", "mentions request failed though every file was readable: %s", rep.errText())
				}
				r.Probe("mentions-error")
				continue
			}
			if msg := s.mentionsWrong(q, rep); msg != "" {
				r.Violate("R13", "partial-mentions", "query %q: %s; reply %s", q.Variants, msg, clip(string(rep.Raw), 500))
			}
			r.Probe("mentions-result")
		}
	}
}

func (s *session) anyLinks() bool {
	for _, f := range s.Files {
		if len(f.Links) > 0 {
			return true
		}
	}
	return false
}

// badSoft: what is wrong with the bad files need not make reading fail.
func (s *session) badSoft() bool {
	for _, b := range s.bad {
		if strings.HasPrefix(b, "soft") {
			return true
		}
	}
	return false
}

func (s *session) judgeLeaks() {
	r := s.r
	b := s.batchEv
	if len(b) >= 3 {
		first, last := b[0], b[len(b)-1]
		n := len(b) - 1
		r.Check("R21")
		if last.fds-first.fds >= n {
			r.Violate("R21", "open-files", "open files grew from %d to %d during %d equal batches of requests: %v", first.fds, last.fds, n, last.names)
		}
		if last.tasks-first.tasks >= n {
			r.Violate("R21", "tasks", "concurrent tasks grew from %d to %d during %d equal batches of requests, waiting for %v", first.tasks, last.tasks, n, stuckOf(s.h.P.Grp))
		}
		if last.running-first.running >= n {
			r.Violate("R21", "children", "running children grew from %d to %d during %d equal batches", first.running, last.running, n)
		}
		if last.zombies-first.zombies >= n {
			r.Violate("R21", "zombies", "unreaped children grew from %d to %d during %d equal batches", first.zombies, last.zombies, n)
		}
	}
	if s.exited {
		z, run := s.h.P.Zombies()
		if len(z)+len(run) > 0 && s.c.End == "eof" {
			r.Violate("R21", "unreaped", "%d children ended unreaped and %d still ran when the host exited", len(z), len(run))
		}
	}
}
