package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C32"] = checkC32
}

func (o *chanOp) blocking() bool { return !o.dflt && o.lock == "" && o.ext == "" }

// external: the case receives from a channel that is not made in the program (timer, context).
func (cs *chanCase) external() bool { return !cs.send && len(cs.ks) == 0 }

// usable: the channel of the case is not nil.
func (m *chanMon) usable(cs *chanCase) bool {
	if cs.nonNil || cs.field == nil {
		return true
	}
	return len(m.goodGuards(withoutOpen(cs.guards), fieldKey(cs.field), m.badNN)) > 0
}

// exits: the workers whose end the case observes.
func (m *chanMon) exitsOf(cs *chanCase) []*Root {
	if cs.send || !m.usable(cs) {
		return nil
	}
	seen := map[*Root]bool{}
	var r []*Root
	for _, k := range cs.ks {
		for w, set := range m.c.exitClosed {
			if set[k] && !seen[w] {
				seen[w] = true
				r = append(r, w)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

func (m *chanMon) neverSentK(k *ssa.MakeChan) bool { return len(m.c.senders[k]) == 0 }

// stopCase: the case can end a worker: it receives from a channel that is only closed, by somebody else than the
// worker itself, or from a context.
func (m *chanMon) stopCase(w *Root, cs *chanCase) bool {
	if cs.send {
		return false
	}
	if len(cs.ks) == 0 {
		return false
	}
	for _, k := range cs.ks {
		if !m.neverSentK(k) {
			return false
		}
		other := false
		for q := range m.c.closeRoots[k] {
			if q != w {
				other = true
			}
		}
		if !other {
			return false
		}
	}
	return true
}

func (m *chanMon) ctxCase(o *chanOp, i int) bool {
	switch in := o.in.(type) {
	case *ssa.Select:
		return len(o.cases[i].ks) == 0 && i < len(in.States) && m.isCtxDone(in.States[i].Chan)
	case *ssa.UnOp:
		return len(o.cases[i].ks) == 0 && m.isCtxDone(in.X)
	}
	return false
}

// signalWait: a goroutine that waits for a signal of the operating system.
func (m *chanMon) caseName(cs *chanCase) string { return chanName(m.c, cs.field, cs.ks) }

// kinds of blocking operations
func (m *chanMon) hasSend(o *chanOp) bool {
	for i := range o.cases {
		if o.cases[i].send {
			return true
		}
	}
	return false
}

// idle: a wait for work: nothing but receives, none of which is the answer to something this goroutine asked for or
// the end of a worker.
func (m *chanMon) idle(o *chanOp) bool {
	if !o.blocking() || len(o.cases) == 0 || m.hasSend(o) {
		return false
	}
	for i := range o.cases {
		cs := &o.cases[i]
		if m.isAnswer(o, cs) {
			return false
		}
	}
	if len(o.cases) == 1 {
		for _, k := range o.cases[0].ks {
			if m.c.exitOf[k] != nil {
				return false
			}
		}
	}
	return true
}

// isAnswer: the channel belongs to the caller: it is made by a function on the stack (or one that the waiting function
// is nested in) and captured by a function that answers.
func (m *chanMon) isAnswer(o *chanOp, cs *chanCase) bool {
	if cs.send || cs.field != nil {
		return false
	}
	for _, k := range cs.ks {
		id := m.c.classID(k)
		if m.answerIDs()[id] {
			return true
		}
	}
	return false
}

func (m *chanMon) answerIDs() map[int]bool {
	if m.ansIDs != nil {
		return m.ansIDs
	}
	m.ansIDs = map[int]bool{}
	for _, f := range m.c.w.funcs {
		if f.Parent() == nil || m.c.byFn[f] != nil {
			continue
		}
		for id := range m.answers(f) {
			for k := range m.c.closers {
				if m.c.classID(k) == id && isNestedIn(f, k.Parent()) {
					m.ansIDs[id] = true
				}
			}
			for k := range m.c.senders {
				if m.c.classID(k) == id && isNestedIn(f, k.Parent()) {
					m.ansIDs[id] = true
				}
			}
		}
	}
	return m.ansIDs
}

func isNestedIn(f, p *ssa.Function) bool {
	for q := f.Parent(); q != nil; q = q.Parent() {
		if q == p {
			return true
		}
	}
	return false
}

// opts: the channel operations grouped by root.
func (m *chanMon) opsOf(w *Root) []*chanOp {
	var r []*chanOp
	for _, o := range m.ops {
		if o.root == w {
			r = append(r, o)
		}
	}
	return r
}

// canEnd: why worker w might not end after the signals in sg and the releases in sx were given ("" if it ends).
func (m *chanMon) canEnd(w *Root, sg map[int]bool, sx map[string]bool) string {
	stops := false
	for _, o := range m.opsOf(w) {
		switch {
		case o.lock != "":
		case o.ext != "":
			if netWrite(o.ext) && !sx[netKind(o.ext)] {
				return fmt.Sprintf("%s may wait in %s at %s for a peer that does not read, and the connection was not closed", w.name, short(o.ext), m.c.w.ipos(o.in))
			}
			if !netWait(o.ext) {
				continue
			}
			if sx[netKind(o.ext)] {
				stops = true
			} else if !o.dl && m.plainRead(o.ext) {
				return fmt.Sprintf("%s waits in %s at %s, and the connection was not closed", w.name, short(o.ext), m.c.w.ipos(o.in))
			}
		case m.idle(o) || o.dflt && m.onlyRecv(o):
			ok := false
			for i := range o.cases {
				for _, k := range o.cases[i].ks {
					if sg[m.c.classID(k)] && !o.cases[i].send {
						ok = true
					}
				}
			}
			if ok {
				stops = true
			} else if !o.dflt {
				return fmt.Sprintf("%s waits at %s, and none of the channels it waits for was closed", w.name, m.c.w.ipos(o.in))
			}
		}
	}
	if !stops {
		return fmt.Sprintf("nothing told %s to end", w.name)
	}
	return ""
}

// announces: after worker q ended, a receive from the class of k returns: q closed it, it was closed on every way out of q,
// or every way out of q ends the worker that closes it.
func (m *chanMon) announces(q *Root, k *ssa.MakeChan) bool {
	if m.c.exitClosed[q][k] {
		return true
	}
	if len(m.exits[q]) == 0 {
		return false
	}
	id := m.c.classID(k)
	by := m.c.exitOf[k]
	for _, e := range m.exits[q] {
		if e.sg[id] || e.rc[id] || by != nil && by != q && m.canEnd(by, e.sg, e.sx) == "" {
			continue
		}
		return false
	}
	return true
}

func (m *chanMon) onlyRecv(o *chanOp) bool { return len(o.cases) > 0 && !m.hasSend(o) }

// plainRead: reads from a connection (not from a stream with a context).
func (m *chanMon) plainRead(name string) bool {
	return !strings.Contains(name, "grpc") && !strings.HasSuffix(name, ".Recv") && !strings.HasSuffix(name, ".RecvMsg")
}

func short(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		return name[i+1:]
	}
	return strings.TrimPrefix(name, "invoke ")
}

func checkC02(w *World, r *Result) {
	r.rule("Every blocking hand-off to a worker has a second way out: a case on a channel that the receiving worker closes on every way out, a default case, a timer or a context; channels that can be nil are only used under a guard that is never invalid; a worker never hands work to itself.")
	r.rule("Every wait for the end of a worker follows a signal that ends each of the worker's own waits (and the closing of the connection it reads), and the worker announces its end on every way out. Every wait for an answer follows the hand-over of a function that gives it; every received function that answers is called. The workers' wait-for graph has no cycle, and nobody waits for a worker while holding a lock that the worker acquires.")
	r.assume("callbacks of the TCI client and gRPC calls return eventually")
	m := chanMonitor(w, r)
	c := m.c
	m.lockWaits(r, false)
	edges := map[*Root]map[*Root]*chanOp{}
	edge := func(a, b *Root, o *chanOp) {
		if a == b && a.multi {
			return
		}
		if edges[a] == nil {
			edges[a] = map[*Root]*chanOp{}
		}
		if edges[a][b] == nil {
			edges[a][b] = o
		}
	}
	for _, o := range m.ops {
		if o.ext != "" || o.lock != "" || o.dflt {
			continue
		}
		det := append(append([]string{}, o.stack...), o.trace...)
		pos := w.ipos(o.in)
		if strings.Contains(o.fn.Name(), "sync") && m.testOnly(o.fn) {
			continue
		}
		timed := false
		for i := range o.cases {
			if o.cases[i].external() {
				timed = true
			}
		}
		// hand-offs
		for i := range o.cases {
			cs := &o.cases[i]
			if !cs.send {
				continue
			}
			name := m.caseName(cs)
			if cs.private || m.oneShot(cs) {
				continue
			}
			r.count("hand-offs", 1)
			if !m.usable(cs) {
				if len(o.cases) == 1 {
					r.report("send-nil", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s sends on %s, which can be nil: it waits forever", o.root.name, name), det...)
					continue
				}
			}
			rec := map[*Root]bool{}
			for _, k := range cs.ks {
				for q := range c.receivers[k] {
					if c.coexist(q, o.root) {
						rec[q] = true
					}
				}
			}
			if len(rec) == 0 {
				if !timed && len(o.cases) == 1 {
					r.report("nobody-receives", name, pos, fmt.Sprintf("%s sends on %s, but nothing receives from it", o.root.name, name), det...)
				}
				continue
			}
			if len(rec) == 1 && rec[o.root] && !o.root.multi {
				r.report("self-wait", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s hands something to %s, which only itself receives: it waits for itself", o.root.name, name), det...)
				continue
			}
			if timed {
				continue
			}
			for _, q := range sortRoots(rec) {
				if q == o.root {
					continue
				}
				esc := false
				for j := range o.cases {
					e := &o.cases[j]
					if e.send {
						continue
					}
					if m.usable(e) {
						for _, k := range e.ks {
							if m.announces(q, k) {
								esc = true
							}
						}
					}
					if !q.isGo && m.stopCase(o.root, e) {
						esc = true
					}
				}
				if !esc {
					r.report("no-way-out", name+" "+fnKey(o.fn)+" "+q.name, pos, fmt.Sprintf("%s hands something to %s and cannot get away when %s has ended", o.root.name, name, q.name), det...)
				}
				if len(rec) == 1 && q.isGo {
					edge(o.root, q, o)
				}
			}
		}
		if m.hasSend(o) || timed {
			continue
		}
		// answers
		answer, other := (*chanCase)(nil), false
		for i := range o.cases {
			cs := &o.cases[i]
			if m.isAnswer(o, cs) {
				answer = cs
			} else if len(m.exitsOf(cs)) > 0 {
				other = true
			}
		}
		if answer != nil {
			r.count("waits for an answer", 1)
			given, buf := false, false
			for _, k := range answer.ks {
				given = given || o.ans[c.classID(k)]
				buf = buf || o.ansBuf[c.classID(k)]
			}
			name := m.caseName(answer)
			if !given {
				r.report("answer-not-given", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s waits for %s, but on this path nothing that answers was handed over", o.root.name, name), det...)
			} else if buf && !other {
				r.report("answer-may-be-lost", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s waits for %s; the function that answers was queued and is lost when the worker ends before", o.root.name, name), det...)
			}
			continue
		}
		if m.idle(o) {
			continue
		}
		// joins
		if len(o.cases) == 1 {
			cs := &o.cases[0]
			for _, k := range cs.ks {
				q := c.exitOf[k]
				if q == nil {
					continue
				}
				r.count("joins", 1)
				name := m.caseName(cs)
				if !m.usable(cs) {
					r.report("join-nil", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s waits for %s, which can be nil: it waits forever", o.root.name, name), det...)
				}
				if q == o.root {
					r.report("self-wait", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s waits for its own end", o.root.name), det...)
					continue
				}
				if why := m.canEnd(q, o.sg, o.sx); why != "" {
					r.report("join-not-signalled", name+" "+fnKey(o.fn), pos, fmt.Sprintf("%s waits for the end of %s, but %s", o.root.name, q.name, why), det...)
				}
				edge(o.root, q, o)
			}
		}
	}
	// a class that only one worker closes, but not on every way out
	for k, rs := range c.closeRoots {
		if len(rs) != 1 || !m.neverSentK(k) {
			continue
		}
		for q := range rs {
			if !q.isGo || c.exitClosed[q][k] || m.answerIDs()[c.classID(k)] {
				continue
			}
			for p := range c.receivers[k] {
				if p != q {
					r.report("end-not-announced", c.className(k), w.pos(q.fn.Pos()), fmt.Sprintf("%s does not close %s on every way out: %s waits for it", q.name, c.className(k), p.name))
					break
				}
			}
		}
	}
	// (signals of the operating system come from outside)
	// a worker that closes nothing at all although others receive from a class nobody closes or sends to
	for k, rs := range c.receivers {
		if len(c.closeRoots[k]) == 0 && len(c.senders[k]) == 0 && !m.givenAway(k) {
			for _, q := range sortRoots(rs) {
				r.report("never-signalled", c.className(k)+" "+q.name, w.ipos(k), fmt.Sprintf("%s receives from %s, but nothing is ever sent on it and nothing closes it", q.name, c.className(k)))
				break
			}
		}
	}
	for _, d := range m.drops {
		if m.handed[d.id] {
			r.report("operation-dropped", d.root.name+" "+d.pos, d.pos, fmt.Sprintf("%s received a function to call and does not call it on this path: whoever waits for its answer hangs", d.root.name), d.trace...)
		}
	}
	// cycles
	reach := func(a *Root) map[*Root]*chanOp {
		seen := map[*Root]*chanOp{}
		var dfs func(x *Root, o *chanOp)
		dfs = func(x *Root, o *chanOp) {
			for y, p := range edges[x] {
				if seen[y] == nil {
					seen[y] = p
					dfs(y, p)
				}
			}
		}
		dfs(a, nil)
		return seen
	}
	for _, a := range c.roots {
		if !a.isGo {
			continue
		}
		rs := reach(a)
		if o := rs[a]; o != nil {
			var path []string
			for b, p := range edges[a] {
				if b == a || reach(b)[a] != nil {
					path = append(path, fmt.Sprintf("%s waits for %s at %s", a.name, b.name, w.ipos(p.in)))
				}
			}
			path = append(path, fmt.Sprintf("... which leads back to %s at %s", a.name, w.ipos(o.in)))
			sort.Strings(path)
			r.report("wait-cycle", a.name, w.ipos(o.in), fmt.Sprintf("%s waits, directly or indirectly, for itself", a.name), path...)
		}
		for b := range edges[a] {
			r.sample("%s may wait for %s", a.name, b.name)
		}
	}
	r.count("goroutine roots", len(c.roots))
}

func sortRoots(m map[*Root]bool) []*Root {
	var r []*Root
	for q := range m {
		r = append(r, q)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// oneShot: a buffered channel made for a single value.
func (m *chanMon) oneShot(cs *chanCase) bool {
	if cs.field != nil || len(cs.ks) == 0 {
		return false
	}
	for _, k := range cs.ks {
		n, ok := constCap(k)
		if !ok || n < 1 {
			return false
		}
		sites := 0
		for _, f := range m.c.w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Send); ok && hasClass(m.c.classes(s.Chan), k) {
						sites++
						if len(loopsOf(f)) > 0 {
							sites++
						}
					}
					if s, ok := in.(*ssa.Select); ok {
						for _, x := range s.States {
							if x.Dir == 1 && hasClass(m.c.classes(x.Chan), k) {
								sites++
								if len(loopsOf(f)) > 0 {
									sites++
								}
							}
						}
					}
				}
			}
		}
		if sites > 1 {
			return false
		}
	}
	return true
}

// testOnly: nothing in the program calls the function.
func (m *chanMon) testOnly(f *ssa.Function) bool { return len(m.c.w.callSitesOf(f)) == 0 }

func checkC03(w *World, r *Result) {
	r.rule("For every goroutine the program starts: each of its blocking waits for work has a case on a channel that somebody else closes or on a context, and after that case was taken the same wait is not reached again; a failed network read is not repeated; an accept loop polls with a deadline; a worker that uses a connection closes it on every way out.")
	r.rule("Every Stop/Close path of a component that gives any stop signal gives one to every single worker the component starts, and stops the workers started per connection or signal somewhere; a constructor that fails after it started workers stops them.")
	r.assume("the goroutine that waits for operating system signals and the pprof server live as long as the program")
	m := chanMonitor(w, r)
	c := m.c
	for _, q := range c.roots {
		if !q.isGo && !streamRoot(q) || m.exempt(q) {
			continue
		}
		r.count("background activities", 1)
		ops := m.opsOf(q)
		observes, waits := false, 0
		reads := 0
		for _, o := range ops {
			det := append(append([]string{}, o.stack...), o.trace...)
			pos := w.ipos(o.in)
			if o.ext != "" && isNetRead(o.ext) {
				reads++
				continue
			}
			if o.lock != "" || o.ext != "" {
				continue
			}
			if o.after {
				r.report("stop-ignored", q.name+" "+pos, pos, q.name+" waits again although it took its stop signal", det...)
			}
			has, away := false, false
			for i := range o.cases {
				if m.stopCase(q, &o.cases[i]) && !streamRoot(q) || m.ctxCase(o, i) {
					has = true
				}
				if cs := &o.cases[i]; cs.send && !cs.private && len(cs.ks) > 0 {
					gone := true
					for _, k := range cs.ks {
						for x := range c.receivers[k] {
							if !m.exempt(x) && c.coexist(x, q) {
								gone = false
							}
						}
					}
					away = away || gone
				}
			}
			if away && o.blocking() && !has {
				r.report("no-stop-signal", q.name+" "+pos, pos, q.name+" hands something to whoever uses the component and does not observe a stop signal meanwhile: it hangs when nobody receives any more", det...)
			}
			if has {
				observes = true
			}
			if m.idle(o) {
				waits++
				if !has {
					r.report("no-stop-signal", q.name+" "+pos, pos, q.name+" waits for work without observing a stop signal: it keeps running after its component was stopped", det...)
				}
			}
		}
		r.count("waits of background activities", waits)
		if !observes && reads == 0 && len(loopsOf(q.fn)) > 0 {
			r.report("no-stop-signal", q.name, w.pos(q.fn.Pos()), q.name+" runs a loop without observing a stop signal")
		}
	}
	for _, p := range m.bad {
		switch p.Rule {
		case "failed-read-repeated", "accept-without-deadline":
			r.report(p.Rule, p.Key, p.Pos, p.Msg, p.Detail...)
		}
	}
	// a worker that reads or writes a connection closes it on every way out
	for _, q := range c.roots {
		if !q.isGo || m.exempt(q) {
			continue
		}
		kinds := map[string]bool{}
		for _, o := range m.opsOf(q) {
			if o.ext != "" && (isNetRead(o.ext) && m.plainRead(o.ext) || netWrite(o.ext)) {
				kinds[netKind(o.ext)] = true
			}
		}
		for _, e := range m.exits[q] {
			for k := range kinds {
				if !e.sx[k] && !m.released(q, e, k) {
					r.report("connection-left", q.name+" "+k, w.pos(q.fn.Pos()), fmt.Sprintf("%s ends without closing the %s it uses: the other side is still served", q.name, map[string]string{"conn": "connection", "listener": "listener", "server": "server"}[k]), e.trace...)
				}
			}
		}
	}
	m.stopPaths(r)
}

// released: the worker ends because it saw a signal that is only given together with the release.
func (m *chanMon) released(q *Root, e *stopPath, kind string) bool {
	for k := range m.c.closers {
		if !e.sg[m.c.classID(k)] {
			continue
		}
		n, ok := 0, true
		for x := range m.c.closeRoots[k] {
			if x == q {
				continue
			}
			for _, p := range m.exits[x] {
				if p.sg[m.c.classID(k)] && !p.early {
					n++
					ok = ok && p.sx[kind]
				}
			}
		}
		if n > 0 && ok {
			return true
		}
	}
	return false
}

func (m *chanMon) exempt(q *Root) bool {
	if strings.HasPrefix(q.name, "cmd.") {
		return true
	}
	return false
}

// stopPaths: the ways through the stop functions of each component.
func (m *chanMon) stopPaths(r *Result) {
	c, w := m.c, m.c.w
	stopIDs := func(q *Root) map[int]bool {
		s := map[int]bool{}
		for _, o := range m.opsOf(q) {
			if m.hasSend(o) || !m.idle(o) && !o.dflt {
				continue
			}
			for i := range o.cases {
				if o.dflt && (o.cases[i].field == nil || fieldOwner[o.cases[i].field] != ownerOf(q)) {
					continue
				}
				if m.stopCase(q, &o.cases[i]) {
					for _, k := range o.cases[i].ks {
						s[c.classID(k)] = true
					}
				}
			}
		}
		return s
	}
	netKinds := func(q *Root) map[string]bool {
		s := map[string]bool{}
		for _, o := range m.opsOf(q) {
			if o.ext != "" && netWait(o.ext) {
				s[netKind(o.ext)] = true
			}
		}
		return s
	}
	if os.Getenv("SDCHECK_BY") != "" {
		for _, q := range c.roots {
			if q.isGo {
				var n []string
				for id := range stopIDs(q) {
					for k := range c.closers {
						if c.classID(k) == id {
							n = append(n, c.className(k))
						}
					}
				}
				fmt.Println("STOP", q.name, n, netKinds(q))
			}
		}
	}
	ctxOnly := map[*Root]bool{}
	for _, o := range m.ops {
		if !o.root.isGo || !o.blocking() {
			continue
		}
		ctx, stop := false, false
		for i := range o.cases {
			ctx = ctx || m.ctxCase(o, i)
			stop = stop || m.stopCase(o.root, &o.cases[i])
		}
		if ctx && !stop {
			ctxOnly[o.root] = true
		}
	}
	told := func(q *Root, e *stopPath) bool {
		if ctxOnly[q] {
			return e.sx["context"]
		}
		for id := range stopIDs(q) {
			if e.sg[id] {
				return true
			}
		}
		for k := range netKinds(q) {
			if e.sx[k] {
				return true
			}
		}
		return false
	}
	stoppable := func(q *Root) bool { return ctxOnly[q] || len(stopIDs(q))+len(netKinds(q)) > 0 }
	// which workers a component (type) starts: through its constructors and methods
	workers := map[string]map[*Root]bool{}
	for _, q := range c.roots {
		if q.isGo {
			continue
		}
		owner := ownerOf(q)
		if owner == "" {
			continue
		}
		for x := range c.starts(q) {
			if x.isGo && !m.exempt(x) {
				if workers[owner] == nil {
					workers[owner] = map[*Root]bool{}
				}
				workers[owner][x] = true
			}
		}
	}
	for _, f := range w.funcs {
		// constructors of the component
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if n := namedOf(res.At(i).Type()); n != nil {
				owner := shortType(typeKey(res.At(i).Type()))
				for g := range w.reachableFrom([]*ssa.Function{f}, true, nil) {
					if q := c.byFn[g]; q != nil && q.isGo && !m.exempt(q) {
						if workers[owner] == nil {
							workers[owner] = map[*Root]bool{}
						}
						workers[owner][q] = true
					}
				}
			}
		}
	}
	for owner, xs := range workers {
		comp := w.componentsOf(owner)
		for x := range xs {
			if o := ownerOf(x); o != "" && !comp[o] {
				delete(xs, x)
			}
		}
	}
	if os.Getenv("SDCHECK_BY") != "" {
		for o, xs := range workers {
			for x := range xs {
				fmt.Println("WORKER", o, x.name)
			}
		}
	}
	for _, q := range c.roots {
		if q.isGo || !q.api || !isRelease(q.name) && !strings.HasSuffix(q.name, ").Stop") && !strings.HasSuffix(q.name, ").Close") {
			continue
		}
		owner := ownerOf(q)
		may := map[*Root]bool{}
		for _, e := range m.exits[q] {
			for x := range workers[owner] {
				if told(x, e) {
					may[x] = true
				}
			}
		}
		r.count("stop paths", len(m.exits[q]))
		// told by another worker that ends
		ends := map[*Root]bool{}
		for x := range may {
			ends[x] = true
		}
		other := map[*Root]bool{}
		for again := true; again; {
			again = false
			for x := range workers[owner] {
				if other[x] {
					continue
				}
				for y := range ends {
					if y == x {
						continue
					}
					all, any := len(m.exits[y]) > 0, false
					for _, e := range m.exits[y] {
						if !told(x, e) {
							all = false
						} else {
							any = true
						}
					}
					for id := range stopIDs(x) {
						for k, z := range c.exitOf {
							if z == y && c.classID(k) == id {
								all = true
							}
						}
					}
					if all || any && x.multi {
						other[x], ends[x], again = true, true, true
						break
					}
				}
			}
		}
		for _, x := range sortRoots(workers[owner]) {
			byOther := other[x]
			if !may[x] && !byOther && stoppable(x) {
				r.report("not-stopped", q.name+" "+x.name, w.pos(q.fn.Pos()), fmt.Sprintf("%s never tells %s to end", q.name, x.name))
				continue
			}
			if x.multi && may[x] && !byOther {
				if at := m.wayAround(q, stopIDs(x), workers[owner], stopIDs); at != "" {
					r.report("not-stopped", q.name+" "+x.name+" path", w.pos(q.fn.Pos()), fmt.Sprintf("%s has a way through that stops other activities but not %s", q.name, x.name), "around "+at)
				}
			}
			if x.multi || byOther || m.conditional(x, workers[owner]) {
				continue
			}
			for _, e := range m.exits[q] {
				if e.early || len(e.sg)+len(e.sx) == 0 || told(x, e) {
					continue
				}
				if !stoppable(x) {
					continue
				}
				if m.notRunning(x, e) {
					continue
				}
				r.report("not-stopped", q.name+" "+x.name+" path", w.pos(q.fn.Pos()), fmt.Sprintf("%s has a way through that stops other activities but not %s", q.name, x.name), e.trace...)
			}
		}
	}
	// failing constructors
	for _, q := range c.roots {
		if q.isGo {
			continue
		}
		for _, e := range m.exits[q] {
			if !e.err {
				continue
			}
			for _, x := range c.roots {
				if e.gone[x.name] && x.isGo && !m.exempt(x) && !told(x, e) && stoppable(x) {
					r.report("left-running", q.name+" "+x.name, w.pos(q.fn.Pos()), fmt.Sprintf("%s returns an error and leaves %s running", q.name, x.name), e.trace...)
				}
			}
		}
	}
}

// conditional: the worker is started by another worker or from events, so it need not run.
func (m *chanMon) conditional(x *Root, all map[*Root]bool) bool {
	for y := range all {
		if y != x && y.isGo {
			if m.c.starts(y)[x] {
				return true
			}
		}
	}
	return false
}

// wayAround: a way through the body of the stop function q that tells other workers to end, but passes the place that tells
// the workers (of which there can be several) with the given stop channels. Tests for nil and for lengths may lead around it.
func (m *chanMon) wayAround(q *Root, ids map[int]bool, all map[*Root]bool, stopIDs func(*Root) map[int]bool) string {
	c, w := m.c, m.c.w
	if len(ids) == 0 || len(q.fn.Blocks) == 0 {
		return ""
	}
	others := map[int]bool{}
	for y := range all {
		for id := range stopIDs(y) {
			if !ids[id] {
				others[id] = true
			}
		}
	}
	mine, theirs := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	mineAt, theirsAt := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	for _, o := range m.closes {
		for _, k := range o.ks {
			if ids[c.classID(k)] {
				mine[o.in.Parent()], mineAt[o.in] = true, true
			}
			if others[c.classID(k)] {
				theirs[o.in.Parent()], theirsAt[o.in] = true, true
			}
		}
	}
	f := q.fn
	loops := loopsOf(f)
	tells := func(fns map[*ssa.Function]bool, at map[ssa.Instruction]bool, in ssa.Instruction) bool {
		if at[in] {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		for g := range w.reachableFrom(w.pts.Callees(ci), false, nil) {
			if fns[g] {
				return true
			}
		}
		return false
	}
	here, there := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	at := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if tells(mine, mineAt, in) {
				here[b] = true
				at = w.ipos(in)
				for _, l := range loops {
					if l.blocks[b] {
						here[l.header] = true
					}
				}
			} else if tells(theirs, theirsAt, in) {
				there[b] = true
			}
		}
	}
	if len(here) == 0 || len(there) == 0 {
		return ""
	}
	type key struct {
		b    *ssa.BasicBlock
		told bool
	}
	seen := map[key]bool{}
	var walk func(b *ssa.BasicBlock, told bool) bool
	walk = func(b *ssa.BasicBlock, told bool) bool {
		if here[b] || seen[key{b, told}] {
			return false
		}
		seen[key{b, told}] = true
		told = told || there[b]
		if len(b.Succs) == 0 {
			_, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			return ret && told
		}
		if last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && absence(last.Cond) {
			for _, s := range b.Succs {
				// the place itself is behind this test: it can only be passed because there is nothing to stop
				if here[s] {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s, told) {
				return true
			}
		}
		return false
	}
	if walk(f.Blocks[0], false) {
		return at
	}
	return ""
}

// absence: a test for nil or of a length.
func absence(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && absence(x.X)
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			if k, ok := o.(*ssa.Const); ok && k.Value == nil {
				return true
			}
			if call, ok := o.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return true
				}
			}
		}
	}
	return false
}

func (m *chanMon) notRunning(x *Root, e *stopPath) bool { return false }

func ownerOf(q *Root) string {
	if q.fn == nil {
		return ""
	}
	f := q.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() == nil {
		return ""
	}
	return shortType(typeKey(f.Signature.Recv().Type()))
}

// componentsOf: the types a component consists of (its fields, transitively; not what is behind an interface).
func (w *World) componentsOf(owner string) map[string]bool {
	res := map[string]bool{}
	var visit func(t types.Type, depth int)
	visit = func(t types.Type, depth int) {
		if depth > 20 {
			return
		}
		switch u := t.(type) {
		case *types.Pointer:
			visit(u.Elem(), depth+1)
		case *types.Slice:
			visit(u.Elem(), depth+1)
		case *types.Array:
			visit(u.Elem(), depth+1)
		case *types.Map:
			visit(u.Elem(), depth+1)
			visit(u.Key(), depth+1)
		case *types.Chan:
			visit(u.Elem(), depth+1)
		case *types.Named:
			k := shortType(typeKey(u))
			if res[k] {
				return
			}
			if u.Obj().Pkg() == nil || w.byPkg[u.Obj().Pkg().Path()] == nil {
				return
			}
			res[k] = true
			if st, ok := u.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					visit(st.Field(i).Type(), depth+1)
				}
			}
		}
	}
	for _, p := range w.pkgs {
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				if shortType(typeKey(tn.Type())) == owner {
					visit(tn.Type(), 0)
				}
			}
		}
	}
	return res
}

func checkC32(w *World, r *Result) {
	r.rule("Along every path of every goroutine root each lock is released exactly once before the root ends, is not acquired again while it is held, and is not released when it is not held.")
	r.rule("The order in which locks are acquired has no cycle, and no goroutine waits (hand-off, join, answer, network read) under a lock for a goroutine that, itself or through those it waits for, acquires the same lock.")
	m := chanMonitor(w, r)
	c := m.c
	for _, p := range c.problems {
		switch p.Rule {
		case "relock", "unlock-not-held", "lock-leak":
			r.report(p.Rule, p.Key, p.Pos, p.Msg, p.Detail...)
		}
	}
	r.count("lock acquisitions", len(c.lockEvs))
	// order
	type le struct {
		a, b string
	}
	order := map[string]map[string]*LockEv{}
	for _, e := range c.lockEvs {
		if e.try {
			continue
		}
		for h := range e.held {
			if h == e.lock {
				continue
			}
			if order[h] == nil {
				order[h] = map[string]*LockEv{}
			}
			if order[h][e.lock] == nil {
				order[h][e.lock] = e
			}
		}
	}
	var locks []string
	for l := range order {
		locks = append(locks, l)
	}
	sort.Strings(locks)
	for _, l := range locks {
		for x, e := range order[l] {
			r.sample("%s is acquired under %s", x, l)
			if path := lockPath(order, x, l, nil); path != nil {
				var d []string
				for i := 0; i+1 < len(path); i++ {
					o := order[path[i]][path[i+1]]
					d = append(d, fmt.Sprintf("%s is acquired under %s by %s at %s", path[i+1], path[i], o.root.name, w.ipos(o.in)))
				}
				if l < x {
					r.report("lock-order", l+" "+x, w.ipos(e.in), fmt.Sprintf("%s is acquired under %s and the other way round: two goroutines can wait for each other forever", x, l), d...)
				}
			}
		}
	}
	m.lockWaits(r, true)
}

// lockWaits: waits for workers (and, with reads, for data from the network) while a lock is held that they need.
func (m *chanMon) lockWaits(r *Result, reads bool) {
	c, w := m.c, m.c.w
	// waiting under a lock
	acq := map[*Root]map[string]*LockEv{}
	for _, e := range c.lockEvs {
		if e.try {
			continue
		}
		if acq[e.root] == nil {
			acq[e.root] = map[string]*LockEv{}
		}
		if acq[e.root][e.lock] == nil {
			acq[e.root][e.lock] = e
		}
	}
	edges := map[*Root]map[*Root]*chanOp{}
	for _, o := range m.ops {
		for _, q := range m.waitsFor(o) {
			if edges[o.root] == nil {
				edges[o.root] = map[*Root]*chanOp{}
			}
			if edges[o.root][q] == nil {
				edges[o.root][q] = o
			}
		}
	}
	for _, o := range m.ops {
		if len(o.acc.locks) == 0 || o.lock != "" {
			continue
		}
		det := append(append([]string{}, o.stack...), o.trace...)
		if o.ext != "" {
			if !reads || !isNetRead(o.ext) && !strings.Contains(o.ext, "Sleep") {
				continue
			}
			if o.dl {
				continue
			}
			for l := range o.acc.locks {
				for q, ls := range acq {
					if ls[l] != nil && q != o.root && c.coexist(q, o.root) && q.thread != o.root.thread {
						r.report("read-under-lock", l+" "+fnKey(o.fn), w.ipos(o.in), fmt.Sprintf("%s waits for data from the network while it holds %s, which %s needs", o.root.name, l, q.name), det...)
						break
					}
				}
			}
			continue
		}
		// everything that must make progress for this operation to end
		seen := map[*Root]bool{}
		var todo []*Root
		add := func(qs []*Root) {
			for _, q := range qs {
				if !seen[q] && q != o.root {
					seen[q] = true
					todo = append(todo, q)
				}
			}
		}
		add(m.waitsFor(o))
		if len(todo) > 0 {
			r.count("waits under a lock", 1)
		}
		for len(todo) > 0 {
			q := todo[0]
			todo = todo[1:]
			for l := range o.acc.locks {
				if e := acq[q][l]; e != nil {
					r.report("wait-under-lock", l+" "+fnKey(o.fn)+" "+q.name, w.ipos(o.in), fmt.Sprintf("%s waits for %s while it holds %s, which %s acquires at %s", o.root.name, q.name, l, q.name, w.ipos(e.in)), det...)
				}
			}
			var next []*Root
			for p := range edges[q] {
				next = append(next, p)
			}
			add(next)
		}
	}
}

func lockPath(order map[string]map[string]*LockEv, from, to string, seen []string) []string {
	for _, s := range seen {
		if s == from {
			return nil
		}
	}
	seen = append(append([]string{}, seen...), from)
	if from == to {
		return seen
	}
	var ns []string
	for n := range order[from] {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if p := lockPath(order, n, to, seen); p != nil {
			return p
		}
	}
	return nil
}

// waitsFor: the goroutines that have to make progress for the operation to end.
func (m *chanMon) waitsFor(o *chanOp) []*Root {
	if !o.blocking() || len(o.cases) == 0 {
		return nil
	}
	res := map[*Root]bool{}
	for i := range o.cases {
		cs := &o.cases[i]
		if cs.external() {
			return nil
		}
		if cs.send {
			if cs.private || m.oneShot(cs) {
				return nil
			}
			for _, k := range cs.ks {
				for q := range m.c.receivers[k] {
					if q.isGo && m.c.coexist(q, o.root) {
						res[q] = true
					}
				}
			}
			continue
		}
		for _, k := range cs.ks {
			if q := m.c.exitOf[k]; q != nil && !m.idle(o) {
				res[q] = true
			}
		}
		if m.isAnswer(o, cs) {
			for _, k := range cs.ks {
				for q := range m.c.closeRoots[k] {
					if q.isGo && q != o.root {
						res[q] = true
					}
				}
				for q := range m.c.senders[k] {
					if q.isGo && q != o.root {
						res[q] = true
					}
				}
			}
		}
	}
	return sortRoots(res)
}

// netWrite: waits for a peer that does not read.
func netWrite(name string) bool {
	for _, s := range []string{".WriteMessage", ".WriteControl", ".WriteJSON", "io.ReadWriteCloser.Write", "io.WriteCloser.Write", "net.Conn.Write", "net.conn).Write", "TCPConn).Write"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// netWait: waits for the peer until the connection or server is closed.
func netWait(name string) bool {
	return isNetRead(name) || strings.HasSuffix(name, ".Serve") || strings.HasSuffix(name, ").Serve")
}

// givenAway: the channel is passed to code outside of the program.
func (m *chanMon) givenAway(k *ssa.MakeChan) bool {
	for _, f := range m.c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if s := com.StaticCallee(); s != nil && m.c.w.inRepo(s) {
					continue
				}
				if _, ok := com.Value.(*ssa.Builtin); ok {
					continue
				}
				for _, a := range com.Args {
					if isChanType(a.Type()) && hasClass(m.c.classes(a), k) {
						return true
					}
				}
			}
		}
	}
	return false
}
