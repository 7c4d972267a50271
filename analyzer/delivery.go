package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
	checks["C27"] = checkC27
	checks["C28"] = checkC28
	checks["C31"] = checkC31
}

// extWait: an external operation that waits for somebody else.
func extWait(name string) bool {
	return isNetRead(name) || netWrite(name) || netWait(name) || isNetBlocking(name)
}

// heldWhileWaiting: an operation that waits while the lock is held.
func (m *chanMon) heldWhileWaiting(lock string, but *Root) *chanOp {
	for _, o := range m.ops {
		if o.lock != "" || o.root == but && !o.root.multi {
			continue
		}
		if _, ok := o.acc.locks[lock]; !ok {
			continue
		}
		if o.ext != "" && extWait(o.ext) && !o.dl || o.ext == "" && o.blocking() {
			return o
		}
	}
	return nil
}

// neverWaits reports everything in the event that can wait.
func (m *chanMon) neverWaits(r *Result, ops []*chanOp, what string) {
	w := m.c.w
	for _, o := range ops {
		r.count("operations on the way", 1)
		det := append(append([]string{}, o.stack...), o.trace...)
		pos := w.ipos(o.in)
		switch {
		case o.lock != "":
			if h := m.heldWhileWaiting(o.lock, o.root); h != nil {
				det = append(det, fmt.Sprintf("%s waits at %s while it holds %s", h.root.name, w.ipos(h.in), o.lock))
				r.report("waits-for-lock", fnKey(o.fn)+" "+o.lock, pos, fmt.Sprintf("%s waits for the lock %s, which %s holds while it waits itself", what, o.lock, h.root.name), det...)
			}
		case o.ext != "":
			if extWait(o.ext) {
				r.report("waits", fnKey(o.fn)+" "+short(o.ext), pos, fmt.Sprintf("%s waits in %s", what, short(o.ext)), det...)
			}
		case o.blocking() && len(o.cases) > 0:
			r.report("waits", fnKey(o.fn), pos, fmt.Sprintf("%s waits for another goroutine", what), det...)
		case o.again:
			r.report("busy-wait", fnKey(o.fn), pos, fmt.Sprintf("%s tries the hand-off again until it succeeds", what), det...)
		}
	}
}

func checkC09(w *World, r *Result) {
	r.rule("Every operation that can be reached from the delivery of samples (the IQData methods, callees spliced in) is enumerated: channel operations need a default case and are not repeated when it was taken; a lock is only taken by trying, or it is never held by anybody who waits; no network operation, sleep or new goroutine.")
	m := chanMonitor(w, r)
	var ops []*chanOp
	for _, o := range m.ops {
		if o.entry == "IQData" {
			ops = append(ops, o)
		}
	}
	m.neverWaits(r, ops, "the delivery of samples")
	m.buffered(r, ops, "blocks are dropped although the receiver keeps up")
	for _, g := range m.gos {
		if g.entry == "IQData" {
			r.report("goroutine-per-block", g.w.name, w.ipos(g.in), "the delivery of samples starts a goroutine for each block instead of dropping blocks: they pile up when the receiver cannot keep up", g.stack...)
		}
	}
	r.need(len(ops) > 0, "an IQData method that hands samples over")
}

// servers: the goroutines that hand what they receive to each element of a list: the list is a field of their type.
type bcast struct {
	root *Root
	coll *types.Var
	elem string // chan or type key
}

func (m *chanMon) bcasts(pkg string) []*bcast {
	var res []*bcast
	for _, q := range m.c.roots {
		o := ownerOf(q)
		if !q.isGo || !strings.HasPrefix(o, pkg+".") {
			continue
		}
		for fv, owner := range fieldOwner {
			if owner != o {
				continue
			}
			var el types.Type
			switch u := fv.Type().Underlying().(type) {
			case *types.Slice:
				el = u.Elem()
			case *types.Map:
				el = u.Elem()
				if s, ok := el.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
					el = u.Key()
				}
			default:
				continue
			}
			if isChanType(el) {
				res = append(res, &bcast{q, fv, "chan"})
			} else if n := namedOf(el); n != nil {
				k := shortType(typeKey(el))
				comp := m.c.w.componentsOf(k)
				ok := false
				for x := range comp {
					for _, fo := range []string{x} {
						for f2, o2 := range fieldOwner {
							if o2 == fo && isChanType(f2.Type()) {
								ok = true
							}
						}
					}
				}
				if ok && strings.HasPrefix(k, pkg+".") {
					res = append(res, &bcast{q, fv, k})
				}
			}
		}
	}
	return res
}

func checkC31(w *World, r *Result) {
	r.rule("Showing a frame (the Show methods with their callees) reaches no operation that waits for a client: it hands the frame to the server's own goroutine only, and takes no lock that is held by anybody who waits.")
	r.rule("The server's goroutine waits for nothing but its own inputs; it offers each frame once to every stream without blocking, closes exactly the streams that do not take it and keeps exactly the others.")
	m := chanMonitor(w, r)
	bs := m.bcasts("scope")
	isB := map[*Root]bool{}
	for _, b := range bs {
		isB[b.root] = true
	}
	if len(bs) == 0 {
		r.assume("no goroutine that serves a list of streams recognised: only the Show methods are decided")
	}
	n := 0
	for _, o := range m.ops {
		if o.entry != "ShowTimeFrame" && o.entry != "ShowSpectralFrame" {
			continue
		}
		n++
		det := append(append([]string{}, o.stack...), o.trace...)
		pos := w.ipos(o.in)
		switch {
		case o.lock != "":
			if h := m.heldWhileWaiting(o.lock, o.root); h != nil {
				r.report("waits-for-lock", fnKey(o.fn)+" "+o.lock, pos, fmt.Sprintf("showing a frame waits for the lock %s, which %s holds while it waits itself at %s", o.lock, h.root.name, w.ipos(h.in)), det...)
			}
		case o.ext != "":
			if extWait(o.ext) {
				r.report("waits", fnKey(o.fn)+" "+short(o.ext), pos, "showing a frame waits in "+short(o.ext), det...)
			}
		case o.blocking():
			for i := range o.cases {
				cs := &o.cases[i]
				if !cs.send {
					if len(o.cases) == 1 {
						r.report("waits", fnKey(o.fn), pos, "showing a frame waits for "+m.caseName(cs), det...)
					}
					continue
				}
				for _, k := range cs.ks {
					for q := range m.c.receivers[k] {
						if !isB[q] && m.c.coexist(q, o.root) {
							r.report("waits-for-client", fnKey(o.fn)+" "+q.name, pos, fmt.Sprintf("showing a frame waits for %s, which waits for its client", q.name), det...)
						}
					}
				}
			}
		case o.again:
			r.report("busy-wait", fnKey(o.fn), pos, "showing a frame tries the hand-off again until it succeeds", det...)
		}
	}
	r.count("operations when showing a frame", n)
	for _, b := range bs {
		m.workerNeverWaits(r, b.root, "stream")
		m.buffered(r, m.opsOf(b.root), "a stream that is only busy for a moment is closed")
		w.broadcast(r, m, b)
	}
}

// buffered: what is handed over without waiting goes to a channel with room.
func (m *chanMon) buffered(r *Result, ops []*chanOp, what string) {
	for _, o := range ops {
		if !o.dflt {
			continue
		}
		for i := range o.cases {
			if !o.cases[i].send {
				continue
			}
			for _, k := range o.cases[i].ks {
				if n, ok := constCap(k); ok && n < 1 {
					r.report("unbuffered", m.caseName(&o.cases[i]), m.c.w.ipos(k), fmt.Sprintf("the channel %s has no room, but things are handed over without waiting: %s", m.caseName(&o.cases[i]), what))
				}
			}
		}
	}
}

// workerNeverWaits: the goroutine only waits for its inputs.
func (m *chanMon) workerNeverWaits(r *Result, q *Root, who string) {
	w := m.c.w
	for _, o := range m.opsOf(q) {
		det := append(append([]string{}, o.stack...), o.trace...)
		pos := w.ipos(o.in)
		r.count("operations of the serving goroutine", 1)
		switch {
		case o.lock != "":
			if h := m.heldWhileWaiting(o.lock, q); h != nil {
				r.report("server-waits-for-lock", q.name+" "+o.lock, pos, fmt.Sprintf("%s waits for the lock %s, which %s holds while it waits itself at %s", q.name, o.lock, h.root.name, w.ipos(h.in)), det...)
			}
		case o.ext != "":
			if netWrite(o.ext) || strings.HasSuffix(o.ext, ".Send") || strings.HasSuffix(o.ext, ".SendMsg") {
				r.report("server-writes", q.name+" "+short(o.ext), pos, fmt.Sprintf("%s itself writes to a %s (%s): a %s that does not read stalls all others", q.name, who, short(o.ext), who), det...)
			} else if isNetRead(o.ext) && !o.dl && !strings.Contains(o.ext, "Accept") {
				r.report("server-reads", q.name+" "+short(o.ext), pos, fmt.Sprintf("%s itself reads from a %s (%s): a silent %s stalls all others", q.name, who, short(o.ext), who), det...)
			} else if strings.HasSuffix(o.ext, "time.Sleep") || strings.Contains(o.ext, "Dial") {
				r.report("server-waits", q.name+" "+short(o.ext), pos, fmt.Sprintf("%s waits in %s", q.name, short(o.ext)), det...)
			}
		case o.blocking() && m.hasSend(o):
			r.report("server-waits", q.name, pos, fmt.Sprintf("%s waits for a %s to take what it hands over: a slow %s stalls all others", q.name, who, who), det...)
		case o.blocking() && !m.idle(o):
			for i := range o.cases {
				for _, k := range o.cases[i].ks {
					if x := m.c.exitOf[k]; x != nil && x != q {
						if why := m.canEnd(x, o.sg, o.sx); why != "" {
							r.report("server-waits", q.name, pos, fmt.Sprintf("%s waits for the end of %s: %s", q.name, x.name, why), det...)
						}
					}
				}
			}
		case o.again:
			r.report("busy-wait", q.name, pos, fmt.Sprintf("%s tries a hand-off again until it succeeds", q.name), det...)
		}
	}
}

// fromColl: the value is an element of the collection.
func (w *World) isCollLoop(l *Loop, coll *types.Var) bool {
	if c, _, _, _ := l.walk(); c != nil {
		for f := range w.srcFields(c) {
			if f == coll {
				return true
			}
		}
	}
	return false
}

// broadcast: what the goroutine receives for its clients reaches each of them.
func (w *World) broadcast(r *Result, m *chanMon, b *bcast) {
	fn := b.root.fn
	collKey := fieldKey(b.coll)
	isDeliver := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Select:
			if b.elem == "chan" {
				for _, s := range x.States {
					if s.Dir == types.SendOnly {
						return true
					}
				}
			}
		case *ssa.Send:
			return b.elem == "chan"
		case ssa.CallInstruction:
			com := x.Common()
			if b.elem == "chan" {
				return false
			}
			name := ""
			if com.IsInvoke() {
				name = com.Method.Name()
			} else if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil && shortType(typeKey(f.Signature.Recv().Type())) == b.elem {
				name = f.Name()
			}
			return name == "Write" || name == "WriteMessage" || name == "Send" || name == "SendFrame"
		}
		return false
	}
	isColl := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		f := storeField(s)
		return f == b.coll
	}
	ws := newWalks(w, "deliver")
	kept, lost := map[string]string{}, map[string]string{} // status -> trace
	put := func(mm map[string]string, k string, st *State) {
		if mm[k] == "" {
			mm[k] = strings.Join(st.traceText(8), "; ")
		}
	}
	handed, deletes := false, false
	finish := func(st *State) {
		if !st.has("it:deliver") {
			return
		}
		s := "unknown"
		switch {
		case st.has("it:fail"):
			s = "fail"
		case st.has("it:ok"):
			s = "ok"
		}
		a := "-"
		switch {
		case st.has("it:keep"):
			a = "elem"
		case st.has("it:index"):
			a = "index"
		}
		if st.has("it:gone") {
			put(lost, s, st)
		} else {
			put(kept, s+" stays", st)
		}
		if st.has("it:closed") {
			put(kept, s+" closed", st)
		} else {
			put(kept, s+" open", st)
		}
		put(kept, s+" "+a, st)
		if st.has("it:silent") && s != "fail" {
			r.report("silently-lost", b.root.name, w.pos(fn.Pos()), fmt.Sprintf("a message for an element of %s is given up without an error: it is neither delivered nor is the client dropped", collKey), st.traceText(10)...)
		}
		for k := range st.rs {
			if strings.HasPrefix(k, "it:") {
				delete(st.rs, k)
			}
		}
	}
	msgCase := func(in *ssa.Select, i int) bool {
		// what is received is handed on: its type is what is delivered
		s := in.States[i]
		if s.Dir == types.SendOnly {
			return false
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if b.elem == "chan" {
			ct := b.coll.Type().Underlying()
			var el types.Type
			switch u := ct.(type) {
			case *types.Slice:
				el = u.Elem()
			case *types.Map:
				el = u.Elem()
				if !isChanType(el) {
					el = u.Key()
				}
			}
			c, ok := el.Underlying().(*types.Chan)
			return ok && types.Identical(c.Elem(), et)
		}
		sl, ok := et.Underlying().(*types.Slice)
		if !ok {
			if bt, ok := et.Underlying().(*types.Basic); ok {
				return bt.Info()&types.IsString != 0
			}
			return false
		}
		bt, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Byte
	}
	altered := func(ex *Explorer, st *State, in ssa.Instruction, v *Term) {
		t := st.rs["msgT"]
		if t == nil || v == t {
			return
		}
		if v.op == "slice" && v.contains(t) || v.op == "nil" {
			r.report("altered", b.root.name, w.ipos(in), "what is delivered is only a part of what was received", st.traceText(8)...)
		}
	}
	undelivered := func(ex *Explorer, st *State, where string) {
		if !st.has("msg") {
			return
		}
		empty := st.holds(isEmpty)
		if !empty {
			r.report("not-delivered", b.root.name, w.pos(fn.Pos()), fmt.Sprintf("%s takes a message and comes back for the next one without offering it to the elements of %s", b.root.name, collKey), st.traceText(12)...)
		}
		st.unset("msg")
	}
	accepted := func(ex *Explorer, st *State) {
		if t := st.rs["accErr"]; t != nil && ex.decide(st, ex.eq(t, ex.ts.Nil)) == 1 {
			r.report("not-registered", b.root.name, w.pos(fn.Pos()), fmt.Sprintf("%s accepts a client and neither adds it to %s nor closes it: it never gets anything", b.root.name, collKey), st.traceText(8)...)
		}
		st.unset("accErr")
	}
	ex := newExplorer(w, &Rule{
		Interesting: func(in ssa.Instruction) bool { return isDeliver(in) || isColl(in) },
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
			l := loopWithHeader(in.Block())
			if l != nil && w.isCollLoop(l, b.coll) {
				finish(st)
				st.unset("msg")
			}
			ws.onBranch(ex, st, in, taken)
			if st.has("it:deliver") {
				if t := st.rs["it:err"]; t != nil {
					x, v := c, taken
					for x.op == "not" {
						x, v = x.args[0], !v
					}
					if x.op == "eq" && (x.args[0] == t && x.args[1] == ex.ts.Nil || x.args[1] == t && x.args[0] == ex.ts.Nil) {
						if v {
							st.set("it:ok")
						} else {
							st.set("it:fail")
						}
					}
				}
			}
		},
		OnBlock: func(ex *Explorer, st *State, bl *ssa.BasicBlock) {
			if st.has("it:deliver") && bl.Parent() == st.top().fr.fn {
				// left the loop early
				in := false
				for _, f := range st.frames {
					for _, l := range loopsOf(f.fr.fn) {
						if w.isCollLoop(l, b.coll) && (l.blocks[f.block] || f != st.top() && f.block != nil && l.blocks[f.block]) {
							in = true
						}
					}
				}
				if !in {
					finish(st)
				}
			}
			ws.onBlock(ex, st, bl)
		},
		OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) { ws.onReturn(st, fr) },
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			if st.has("it:deliver") || b.elem == "chan" && isDeliver(sel) {
				sends := -1
				for i, s := range sel.States {
					if s.Dir == types.SendOnly {
						sends = i
					}
				}
				if sends >= 0 {
					if b.elem == "chan" {
						ws.act(st, "deliver")
						handed = true
						st.set("it:deliver")
						if idx == sends {
							st.set("it:ok")
							altered(ex, st, sel, ex.val(st, sel.States[sends].Send))
						} else {
							st.set("it:fail")
						}
					} else if idx != sends {
						st.set("it:silent")
					}
				}
				return
			}
			if len(st.frames) > 0 && sel.Blocking || !selSends(sel) {
				undelivered(ex, st, "")
			}
			if len(st.frames) == 1 {
				accepted(ex, st)
			}
			st.unset("msgT")
			if len(st.frames) == 1 {
				// the next round: the state of the objects does not matter
				for a := range st.mem {
					if a.op == "&" || a.op == "&[]" {
						delete(st.mem, a)
					}
				}
			}
			if idx >= 0 && msgCase(sel, idx) {
				st.set("msg")
				n := 2
				for _, s := range sel.States[:idx] {
					if s.Dir != types.SendOnly {
						n++
					}
				}
				if t := st.top().regs[sel]; t != nil && t.op == "tuple" && n < len(t.args) {
					st.setT("msgT", t.args[n])
				}
			}
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				undelivered(ex, st, "")
			}
			if s, ok := in.(*ssa.Store); ok && isColl(s) {
				st.unset("accErr")
				if st.has("it:deliver") {
					st.set("it:gone")
				}
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
			switch {
			case isRelease(c.name) && c.fn == nil || isRelease(c.name) && c.fn != nil && c.fn.Blocks != nil && !w.inRepo(c.fn):
				st.unset("accErr")
			case c.name == "builtin.close" && st.has("it:deliver"):
				st.set("it:closed")
			case c.name == "builtin.delete" && st.has("it:deliver"):
				if w.srcFields(in.(ssa.CallInstruction).Common().Args[0])[b.coll] {
					st.set("it:gone")
					deletes = true
				}
			case c.name == "builtin.append" && st.has("it:deliver") && len(args) > 1:
				switch w.appended(in, b) {
				case "elem":
					st.set("it:keep")
				case "index":
					st.set("it:index")
				}
			}
			if b.elem != "chan" && isDeliver(in) && ws.inLoop(st) && !st.has("it:deliver") {
				ws.act(st, "deliver")
				handed = true
				st.set("it:deliver")
				com := in.(ssa.CallInstruction).Common()
				for _, a := range com.Args {
					if _, isB := a.Type().Underlying().(*types.Slice); isB {
						altered(ex, st, in, ex.val(st, a))
					}
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if strings.Contains(c.name[strings.LastIndex(c.name, ".")+1:], "Accept") && res != nil && res.op == "tuple" {
				st.setT("accErr", res.args[len(res.args)-1])
			}
			if b.elem != "chan" && st.has("it:deliver") && isDeliver(in) && res != nil {
				t := res
				if t.op == "tuple" {
					t = t.args[len(t.args)-1]
				}
				if t.op == "nil" {
					st.set("it:ok")
					return
				}
				if ex.nonNil(t) {
					st.set("it:fail")
					return
				}
				st.setT("it:err", t)
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) { finish(st) },
	})
	ex.budget = 1_500_000
	ex.Run(fn, nil)
	r.count("paths of the serving goroutine", ex.states)
	if ex.over {
		r.incomplete("the delivery of " + b.root.name + " exceeded its budget")
	}
	if !handed {
		if b.elem == "chan" || m.receivesMsg(b.root) {
			r.report("not-delivered", b.root.name+" none", w.pos(fn.Pos()), fmt.Sprintf("%s never offers anything to the elements of %s", b.root.name, collKey))
		}
		return
	}
	ws.problems("deliver", func(l *Loop, what, detail string) {
		if !w.isCollLoop(l, b.coll) {
			return
		}
		r.report("delivery-"+what, b.root.name, w.loopPos(l), fmt.Sprintf("a message does not reach every element of %s exactly once (%s): %s", collKey, what, detail))
	})
	// failing clients are dropped, healthy ones kept
	byElem := kept["ok elem"] != "" || kept["fail elem"] != "" || kept["unknown elem"] != ""
	byIndex := kept["ok index"] != "" || kept["fail index"] != "" || kept["unknown index"] != ""
	bad := func(rule, what, tr string) {
		r.report(rule, b.root.name, w.pos(fn.Pos()), what, tr)
	}
	switch {
	case byIndex:
		if t := kept["ok index"]; t != "" {
			bad("healthy-dropped", fmt.Sprintf("an element of %s that took the message is marked for removal", collKey), t)
		}
		if t := kept["fail -"]; t != "" {
			bad("failed-kept", fmt.Sprintf("an element of %s that failed is not marked for removal", collKey), t)
		}
	case byElem:
		keep := w.elemListKept(b)
		if keep {
			if t := kept["ok -"]; t != "" {
				bad("healthy-dropped", fmt.Sprintf("an element of %s that took the message is not kept", collKey), t)
			}
			if t := kept["fail elem"]; t != "" {
				bad("failed-kept", fmt.Sprintf("an element of %s that failed is kept", collKey), t)
			}
		}
	default:
		if lost["ok"] == "" && lost["fail"] == "" {
			bad("failed-kept", fmt.Sprintf("elements of %s that failed are never removed", collKey), "no removal found")
		}
		if t := kept["fail stays"]; t != "" && deletes {
			bad("failed-kept", fmt.Sprintf("an element of %s that failed is not removed", collKey), t)
		}
		if t := lost["ok"]; t != "" {
			bad("healthy-dropped", fmt.Sprintf("an element of %s that took the message is removed", collKey), t)
		}
	}
	if b.elem == "chan" {
		if t := kept["ok closed"]; t != "" {
			bad("healthy-closed", fmt.Sprintf("an element of %s that took the message is closed", collKey), t)
		}
		if t := kept["fail open"]; t != "" {
			bad("failed-open", fmt.Sprintf("an element of %s that did not take the message is dropped without being closed: its client waits forever", collKey), t)
		}
	}
}

// isEmpty: the fact says that some list is empty.
func isEmpty(c *Term, v bool) bool {
	if len(c.args) != 2 {
		return false
	}
	a, b := c.args[0], c.args[1]
	isLen := func(t *Term) bool { return t.op == "len" }
	switch c.op {
	case "eq":
		return v && (isLen(a) && isIntConst(b, 0) || isLen(b) && isIntConst(a, 0))
	case "lt":
		return !v && isIntConst(a, 0) && isLen(b) || v && isLen(a) && isIntConst(b, 1)
	case "le":
		return v && isLen(a) && isIntConst(b, 0)
	}
	return false
}

// receivesMsg: the goroutine receives byte messages.
func (m *chanMon) receivesMsg(q *Root) bool {
	for _, o := range m.opsOf(q) {
		for i := range o.cases {
			if f := o.cases[i].field; f != nil && !o.cases[i].send {
				if c, ok := f.Type().Underlying().(*types.Chan); ok {
					if s, ok := c.Elem().Underlying().(*types.Slice); ok {
						if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// appended: what the append adds: an element of the collection or an index.
func (w *World) appended(in ssa.Instruction, b *bcast) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) < 2 {
		return ""
	}
	st, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	if bt, ok := st.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && bt.Kind() != types.Byte {
		return "index"
	}
	if cs, ok := b.coll.Type().Underlying().(*types.Slice); ok && types.Identical(cs.Elem(), st.Elem()) {
		return "elem"
	}
	return ""
}

// elemListKept: the list of elements that is built while walking replaces the collection.
func (w *World) elemListKept(b *bcast) bool {
	reach := w.reachableFrom([]*ssa.Function{b.root.fn}, false, nil)
	for f := range reach {
		inLoop := false
		for _, l := range loopsOf(f) {
			if w.isCollLoop(l, b.coll) {
				inLoop = true
			}
		}
		if !inLoop {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || storeField(s) != b.coll {
					continue
				}
				seen := map[ssa.Value]bool{}
				var walk func(v ssa.Value) bool
				walk = func(v ssa.Value) bool {
					if seen[v] {
						return false
					}
					seen[v] = true
					switch v := v.(type) {
					case *ssa.Phi:
						for _, e := range v.Edges {
							if walk(e) {
								return true
							}
						}
					case *ssa.Slice:
						return walk(v.X)
					case *ssa.Call:
						if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							return true
						}
					}
					return false
				}
				if walk(s.Val) {
					return true
				}
			}
		}
	}
	return false
}

func checkC28(w *World, r *Result) {
	r.rule("The goroutine that delivers spots to the telnet clients and accepts new ones waits for nothing that depends on a client: no write to or read from a client, no blocking hand-off, accepting only with a deadline; handing over a spot waits for this goroutine only.")
	r.rule("Whatever a goroutine collects from a client (appending to a field in the reading or prompt handling) is bounded: the path to the append has compared the length with a bound.")
	m := chanMonitor(w, r)
	bs := m.bcasts("telnet")
	for _, b := range bs {
		m.workerNeverWaits(r, b.root, "client")
		m.buffered(r, m.opsOf(b.root), "a client that is only busy for a moment is dropped")
		for _, o := range m.opsOf(b.root) {
			if strings.Contains(o.ext, "Accept") && !o.dl {
				r.report("accept-without-deadline", b.root.name, w.ipos(o.in), b.root.name+" waits for the next client without a deadline: spots are only delivered when somebody connects", append(o.stack, o.trace...)...)
			}
		}
	}
	if len(bs) == 0 {
		r.assume("no goroutine that serves a list of telnet clients recognised")
	}
	w.boundedGrowth(r, "telnet")
	w.roundTripGrowth(r, "telnet")
	w.readLoopGrowth(r, m, "telnet")
	w.goPerData(r, "telnet")
}

// readLoopGrowth: what is built up by a goroutine that reads from a client, as long as it reads.
func (w *World) readLoopGrowth(r *Result, m *chanMon, pkg string) {
	reads := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		com := ci.Common()
		if com.IsInvoke() {
			return isNetRead("x." + com.Method.Name())
		}
		f := com.StaticCallee()
		return f != nil && !w.inRepo(f) && isNetRead(f.String())
	}
	for _, f := range w.funcs {
		if shortPkg(fnPkg(f)) != pkg {
			continue
		}
		for _, l := range loopsOf(f) {
			peer := false
			for b := range l.blocks {
				for _, in := range b.Instrs {
					peer = peer || reads(in)
				}
			}
			if !peer {
				continue
			}
			r.count("loops that read from a client", 1)
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok && !w.perClient(l, g) {
						r.report("unbounded", fnKey(f)+" go", w.ipos(g), "a goroutine is started for each piece of data that a client sends, without a limit")
					}
				}
			}
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				switch u := phi.Type().Underlying().(type) {
				case *types.Slice:
				case *types.Basic:
					if u.Info()&types.IsString == 0 {
						continue
					}
				default:
					continue
				}
				grows, limited := false, false
				for b := range l.blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Call:
							bi, ok := x.Call.Value.(*ssa.Builtin)
							if !ok || len(x.Call.Args) == 0 {
								continue
							}
							if bi.Name() == "append" && x.Call.Args[0] == phi {
								grows = true
							}
							if bi.Name() == "len" && (x.Call.Args[0] == phi || derivesFrom(x.Call.Args[0], phi, map[ssa.Value]bool{})) {
								for _, ref := range *x.Referrers() {
									if bo, ok := ref.(*ssa.BinOp); ok && bo.Op != token.ADD && bo.Op != token.SUB {
										limited = true
									}
								}
							}
						case *ssa.BinOp:
							if x.Op == token.ADD && x.X == phi {
								grows = true
							}
						}
					}
				}
				if grows && !limited {
					r.report("unbounded", fnKey(f)+" "+phi.Comment, w.loopPos(l), fmt.Sprintf("%s grows with what a client sends without a limit", phi.Comment))
				}
			}
		}
	}
}

// goPerData: goroutines started in a loop that neither accepts clients nor walks a list.
func (w *World) goPerData(r *Result, pkg string) {
	for _, f := range w.funcs {
		if shortPkg(fnPkg(f)) != pkg {
			continue
		}
		loops := loopsOf(f)
		done := map[ssa.Instruction]bool{}
		for _, l := range loops {
			if _, _, kind, _ := l.walk(); kind != walkUnknown {
				continue
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if done[in] {
						continue
					}
					done[in] = true
					if w.perClient(l, in) {
						continue
					}
					if _, ok := in.(*ssa.Go); ok {
						r.report("unbounded", fnKey(f)+" go", w.ipos(in), "a goroutine is started for each piece of data that a client sends, without a limit")
						continue
					}
					ci, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := ci.Call.StaticCallee()
					if g == nil || !w.inRepo(g) {
						continue
					}
					for h := range w.reachableFrom([]*ssa.Function{g}, false, nil) {
						if shortPkg(fnPkg(h)) != pkg {
							continue
						}
						for _, hb := range h.Blocks {
							for _, hin := range hb.Instrs {
								if _, ok := hin.(*ssa.Go); ok {
									r.report("unbounded", fnKey(h)+" go", w.ipos(hin), "a goroutine is started for each piece of data that a client sends, without a limit (by the loop in "+fnKey(f)+")")
								}
							}
						}
					}
				}
			}
		}
	}
}

// roundTripGrowth: texts put together from what a field holds, and kept in the same field again.
func (w *World) roundTripGrowth(r *Result, pkg string) {
	fields := func(v ssa.Value) map[*types.Var]bool {
		res := map[*types.Var]bool{}
		for f := range w.srcFields(v) {
			res[f] = true
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if c, ok := v.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && w.inRepo(g) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range ret.Results {
							for f := range w.srcFields(x) {
								res[f] = true
							}
						}
					}
				}
			}
		}
		return res
	}
	isText := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for _, f := range w.funcs {
		if shortPkg(fnPkg(f)) != pkg {
			continue
		}
		measured := false
		for _, b := range f.Blocks {
			if last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				measured = measured || absence(last.Cond)
			}
		}
		if measured {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !isText(v.Type()) {
					continue
				}
				var ops []ssa.Value
				switch x := in.(type) {
				case *ssa.BinOp:
					if x.Op == token.ADD {
						ops = []ssa.Value{x.X, x.Y}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.String() == "fmt.Sprintf" {
						ops = fmtArgs(x.Call.Args[1])
					}
				}
				for _, o := range ops {
					if o == nil {
						continue
					}
					for fv := range fields(o) {
						if !isText(fv.Type()) || !strings.HasPrefix(fieldOwner[fv], pkg+".") {
							continue
						}
						fl := newFlow(w)
						fl.vals[v] = true
						fl.run()
						if fl.locs[fv] {
							r.report("unbounded", fieldKey(fv)+" "+fnKey(f), w.ipos(in), fmt.Sprintf("%s is put together from what it held before and what a client sends: it grows without a limit", fieldKey(fv)))
						}
					}
				}
			}
		}
	}
}

// derivesFrom: v is x, or x with something added.
func derivesFrom(v, x ssa.Value, seen map[ssa.Value]bool) bool {
	if v == x {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if derivesFrom(e, x, seen) {
				return true
			}
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return derivesFrom(v.Call.Args[0], x, seen)
		}
	case *ssa.BinOp:
		return derivesFrom(v.X, x, seen)
	case *ssa.Slice:
		return derivesFrom(v.X, x, seen)
	}
	return false
}

// accepts: the instruction accepts a client, itself or in what it calls.
func (w *World) accepts(in ssa.Instruction) bool {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if ci.Call.IsInvoke() {
		return strings.HasPrefix(ci.Call.Method.Name(), "Accept")
	}
	f := ci.Call.StaticCallee()
	if f == nil {
		return false
	}
	if !w.inRepo(f) {
		return strings.HasPrefix(f.Name(), "Accept")
	}
	for h := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
		for _, b := range h.Blocks {
			for _, hin := range b.Instrs {
				c, ok := hin.(*ssa.Call)
				if !ok {
					continue
				}
				if c.Call.IsInvoke() {
					if strings.HasPrefix(c.Call.Method.Name(), "Accept") {
						return true
					}
				} else if g := c.Call.StaticCallee(); g != nil && !w.inRepo(g) && strings.HasPrefix(g.Name(), "Accept") {
					return true
				}
			}
		}
	}
	return false
}

// perClient: the instruction of the loop runs once for each client that is accepted (a goroutine per client is
// bounded by the clients), or is handed the connection of a new client.
func (w *World) perClient(l *Loop, in ssa.Instruction) bool {
	if w.accepts(in) {
		return true
	}
	for b := range l.blocks {
		for _, other := range b.Instrs {
			if !w.accepts(other) {
				continue
			}
			if b == in.Block() {
				for _, x := range b.Instrs {
					if x == other {
						return true
					}
					if x == in {
						break
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for i, arg := range ci.Common().Args {
		if i == 0 && ci.Common().Signature().Recv() != nil {
			continue
		}
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			arg = mi.X
		}
		ms := types.NewMethodSet(arg.Type())
		if ms.Lookup(nil, "Read") != nil && ms.Lookup(nil, "Close") != nil {
			return true
		}
	}
	return false
}

// boundedGrowth: fields that grow with what a peer sends.
func (w *World) boundedGrowth(r *Result, pkg string) {
	grows := func(in ssa.Instruction) *types.Var {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		f := storeField(s)
		if f == nil || !strings.HasPrefix(fieldOwner[f], pkg+".") {
			return nil
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			bt, ok := u.Elem().Underlying().(*types.Basic)
			if !ok || bt.Kind() != types.Byte && bt.Info()&types.IsString == 0 {
				return nil
			}
			if c, ok := s.Val.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					for g := range w.srcFields(c.Call.Args[0]) {
						if g == f {
							return f
						}
					}
				}
			}
		case *types.Basic:
			if u.Info()&types.IsString == 0 {
				return nil
			}
			if b, ok := s.Val.(*ssa.BinOp); ok {
				for _, x := range []ssa.Value{b.X, b.Y} {
					if ld, ok := x.(*ssa.UnOp); ok {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == f {
							return f
						}
					}
				}
			}
		}
		return nil
	}
	// growth through builders and buffers held in a field
	writes := func(in ssa.Instruction) *types.Var {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		f := ci.Common().StaticCallee()
		if f == nil || f.Signature.Recv() == nil || len(ci.Common().Args) == 0 {
			return nil
		}
		k := typeKey(f.Signature.Recv().Type())
		if !strings.Contains(k, "strings.Builder") && !strings.Contains(k, "bytes.Buffer") || !strings.HasPrefix(f.Name(), "Write") {
			return nil
		}
		fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
		if !ok {
			if ld, ok2 := ci.Common().Args[0].(*ssa.UnOp); ok2 {
				fa, ok = ld.X.(*ssa.FieldAddr)
			}
		}
		if fa == nil {
			return nil
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		if strings.HasPrefix(fieldOwner[fv], pkg+".") {
			return fv
		}
		return nil
	}
	what := func(in ssa.Instruction) *types.Var {
		if f := grows(in); f != nil {
			return f
		}
		return writes(in)
	}
	isG := func(in ssa.Instruction) bool { return what(in) != nil }
	for _, fn := range uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool { return isG(in) })) {
		fs := w.climb(fn, func(root *ssa.Function) []*Finding {
			var out findings
			ex := newExplorer(w, &Rule{
				Interesting: isG,
				OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
					f := what(in)
					if f == nil {
						return
					}
					r.count("places where client data is collected", 1)
					if !st.holds(func(c *Term, v bool) bool { return boundsLen(c, v, f) }) {
						out.add("unbounded", fieldKey(f)+" "+fnKey(in.Parent()), w.ipos(in), fmt.Sprintf("%s grows with what a client sends without a limit", fieldKey(f)), st.traceText(8)...)
					}
				},
			})
			ex.budget = 300_000
			ex.Run(root, nil)
			return out.list
		})
		r.addAll(fs)
	}
}

// boundsLen: the fact says that the length of the field is below something.
func boundsLen(c *Term, v bool, f *types.Var) bool {
	isLen := func(t *Term) bool {
		s := t.String()
		return (strings.Contains(s, "len(") || strings.Contains(s, "Len")) && strings.Contains(s, f.Name())
	}
	if c.op != "lt" && c.op != "le" {
		return false
	}
	if v {
		return isLen(c.args[0]) && !isLen(c.args[1])
	}
	return isLen(c.args[1]) && !isLen(c.args[0])
}

func checkC27(w *World, r *Result) {
	r.rule("The goroutine that receives spots offers each received spot, unaltered, exactly once to every connection in its list (the loop skips, repeats and stops nowhere) before it takes the next one; each connection whose write failed is removed and no other; a spot that is not queued yields an error.")
	r.rule("Removal by index: the index is corrected for what was removed before, the removal keeps the order and shortens the list by exactly the removed element; the list is only cleared when every element failed.")
	r.rule("Each connection's goroutine writes each queued spot completely (the whole message, again until nothing is left or an error ends the connection) before it takes the next one.")
	m := chanMonitor(w, r)
	bs := m.bcasts("telnet")
	if len(bs) == 0 {
		r.assume("no goroutine that serves a list of telnet clients recognised")
	}
	for _, b := range bs {
		w.broadcast(r, m, b)
		w.removals(r, b)
		w.staleIndices(r, b)
		w.listChanges(r, b)
		m.buffered(r, m.opsOf(b.root), "a client that is only busy for a moment is dropped")
		m.announced(r, b)
	}
	w.clientWriters(r, m, "telnet")
}

// announced: what is announced is handed to the serving goroutine: it is not given up while the server runs.
func (m *chanMon) announced(r *Result, b *bcast) {
	w := m.c.w
	for _, o := range m.ops {
		if o.root == b.root {
			continue
		}
		for i := range o.cases {
			cs := &o.cases[i]
			if !cs.send || cs.field == nil || fieldOwner[cs.field] != fieldOwner[b.coll] {
				continue
			}
			to := false
			for _, k := range cs.ks {
				for q := range m.c.receivers[k] {
					to = to || q == b.root
				}
			}
			if !to {
				continue
			}
			r.count("announcements", 1)
			det := append(append([]string{}, o.stack...), o.trace...)
			if o.dflt {
				r.report("announcement-lost", fnKey(o.fn), w.ipos(o.in), fmt.Sprintf("an announced spot is given up when %s is busy: no client gets it", b.root.name), det...)
			}
			for j := range o.cases {
				if j != i && !o.cases[j].send && len(o.cases[j].ks) == 0 && o.cases[j].field == nil {
					r.report("announcement-lost", fnKey(o.fn)+" timeout", w.ipos(o.in), fmt.Sprintf("an announced spot is given up after a while when %s is busy: no client gets it", b.root.name), det...)
				}
			}
		}
	}
	for _, g := range m.gos {
		for _, o := range m.opsOf(g.w) {
			for i := range o.cases {
				if cs := &o.cases[i]; cs.send && cs.field != nil && fieldOwner[cs.field] == fieldOwner[b.coll] && g.entry == "Spot" {
					r.report("out-of-order", fnKey(o.fn), w.ipos(g.in), "each announced spot is handed over by a goroutine of its own: the clients get them in another order", g.stack...)
				}
			}
		}
	}
}

// emptyList: the slice has no elements.
func emptyList(v ssa.Value, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 1
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return 1
	case *ssa.Slice:
		if v.High != nil {
			if n, ok := constInt(v.High); ok {
				if n == 0 {
					return 1
				}
				return 0
			}
			return -1
		}
		return emptyList(v.X, seen)
	case *ssa.MakeSlice:
		if n, ok := constInt(v.Len); ok {
			if n == 0 {
				return 1
			}
			return 0
		}
		return -1
	case *ssa.Phi:
		r := 1
		for _, e := range v.Edges {
			switch emptyList(e, seen) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return 0
		}
	}
	return -1
}

// staleIndices: the list of indices is empty when the walk over the collection starts.
func (w *World) staleIndices(r *Result, b *bcast) {
	for f := range w.reachableFrom([]*ssa.Function{b.root.fn}, false, nil) {
		for _, l := range loopsOf(f) {
			if !w.isCollLoop(l, b.coll) {
				continue
			}
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				sl, ok := phi.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				isList := types.Identical(sl.Elem(), collElem(b.coll))
				if bt, ok := sl.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && bt.Kind() != types.Byte {
					isList = true
				}
				if !isList {
					continue
				}
				for i, e := range phi.Edges {
					if l.blocks[l.header.Preds[i]] {
						continue
					}
					r.count("lists that are built while walking", 1)
					if emptyList(e, map[ssa.Value]bool{}) == 0 {
						r.report("stale-indices", fnKey(f), w.loopPos(l), fmt.Sprintf("the list that is built while walking %s still has the entries of the round before: other clients are dropped", fieldKey(b.coll)))
					}
				}
			}
		}
	}
}

// storedTo: the result is stored in the field.
func storedTo(in ssa.Instruction, f *types.Var) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	for _, ref := range *v.Referrers() {
		if storeField(ref) == f {
			return true
		}
	}
	return false
}

func collElem(v *types.Var) types.Type {
	switch u := v.Type().Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

// linear decomposes an integer value into a sum of values.
func linear(v ssa.Value) (map[ssa.Value]int64, int64) {
	res := map[ssa.Value]int64{}
	k := int64(0)
	var walk func(v ssa.Value, f int64)
	walk = func(v ssa.Value, f int64) {
		if c, ok := constInt(v); ok {
			k += f * c
			return
		}
		if b, ok := v.(*ssa.BinOp); ok {
			switch b.Op {
			case token.ADD:
				walk(b.X, f)
				walk(b.Y, f)
				return
			case token.SUB:
				walk(b.X, f)
				walk(b.Y, -f)
				return
			}
		}
		res[v] += f
	}
	walk(v, 1)
	for v, n := range res {
		if n == 0 {
			delete(res, v)
		}
	}
	return res, k
}

// removals: elements of the list are removed by an index that was collected while walking.
func (w *World) removals(r *Result, b *bcast) {
	reach := w.reachableFrom([]*ssa.Function{b.root.fn}, false, nil)
	isCollVal := func(v ssa.Value) bool {
		fs := w.srcFields(v)
		return fs[b.coll]
	}
	// kindOf: how f removes: "ordered", "swap"; and the parameter that is the index
	kindOf := func(f *ssa.Function) (string, int) {
		stores, ordered, swap := false, false, false
		param := -1
		for i, p := range f.Params {
			if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				param = i
			}
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if storeField(in) == b.coll {
						stores = true
					}
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isCollVal(ia.X) {
						if ld, ok := in.Val.(*ssa.UnOp); ok {
							if ia2, ok := ld.X.(*ssa.IndexAddr); ok && isCollVal(ia2.X) {
								swap = true
							}
						}
					}
				case *ssa.Call:
					name := ""
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
						name = bi.Name()
					} else if s := in.Call.StaticCallee(); s != nil {
						name = s.Name()
					}
					if strings.HasPrefix(name, "copy") || strings.HasPrefix(name, "append") || strings.HasPrefix(name, "Delete") {
						if len(in.Call.Args) > 0 && isCollVal(in.Call.Args[0]) {
							if strings.HasPrefix(name, "append") {
								if _, ok := in.Call.Args[0].(*ssa.Slice); !ok {
									continue
								}
							}
							ordered = true
						}
					}
				}
			}
		}
		switch {
		case !stores:
			return "", -1
		case ordered:
			return "ordered", param
		case swap:
			return "swap", param
		}
		return "", -1
	}
	for f := range reach {
		for _, l := range loopsOf(f) {
			coll, idx, _, _ := l.walk()
			if coll == nil || idx == nil || isCollVal(coll) {
				continue
			}
			st, ok := coll.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if bt, ok := st.Elem().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || bt.Kind() == types.Byte {
				continue
			}
			_, step, asc := induction(l, idx)
			ascending := asc && step == 1
			for bl := range l.blocks {
				for _, in := range bl.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Call.StaticCallee()
					if g == nil || !w.inRepo(g) {
						continue
					}
					kind, p := kindOf(g)
					if kind == "" || p < 0 || p >= len(c.Call.Args) {
						continue
					}
					r.count("removals by index", 1)
					lin, k := linear(c.Call.Args[p])
					elem, shift, unknown := int64(0), int64(0), false
					for v, n := range lin {
						if ld, ok := v.(*ssa.UnOp); ok {
							if ia, ok := ld.X.(*ssa.IndexAddr); ok {
								if x, off := linear(ia.Index); off == 0 && len(x) >= 1 {
									elem += n
									continue
								}
								if ia.Index == idx {
									elem += n
									continue
								}
							}
						}
						if v == idx {
							shift += n
							continue
						}
						if s, st, ok := induction(l, v); ok && st == 1 {
							s0, _, _ := induction(l, idx)
							shift += n
							k += n * (s - s0)
							continue
						}
						unknown = true
					}
					// the position of the phi and the incremented value differ by one
					if unknown {
						continue
					}
					want := int64(0)
					if ascending {
						want = -1
					}
					switch {
					case elem == 1 && shift == want && k == 0 && (kind == "ordered" || !ascending):
					case elem != 1 || k != 0 || shift != want:
						r.report("wrong-index", fnKey(f), w.ipos(c), fmt.Sprintf("the index of the element of %s to remove does not account for the elements removed before it: another client is dropped instead", fieldKey(b.coll)))
					default:
						r.report("wrong-index", fnKey(f), w.ipos(c), fmt.Sprintf("removing an element of %s moves another one, whose index was collected before: the wrong client is dropped", fieldKey(b.coll)))
					}
				}
			}
		}
	}
}

// listChanges: every way the list of connections becomes shorter.
func (w *World) listChanges(r *Result, b *bcast) {
	collKey := fieldKey(b.coll)
	isStore := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		return ok && storeField(s) == b.coll
	}
	isIdx := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		return ok && w.srcFields(ia.X)[b.coll]
	}
	fns := map[*ssa.Function]bool{}
	for f := range w.reachableFrom([]*ssa.Function{b.root.fn}, false, nil) {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if isStore(in) || isIdx(in) {
					fns[f] = true
				}
			}
		}
	}
	isCollT := func(t *Term) bool {
		for t.op == "slice" {
			t = t.args[0]
		}
		return srcField(t) == collKey
	}
	for f := range fns {
		ex := newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool { return isStore(in) || isIdx(in) },
			OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
				for a := range st.mem {
					if a.op == "&" || a.op == "&[]" {
						delete(st.mem, a)
					}
				}
			},
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
				if c.name == "builtin.copy" && len(args) == 2 && args[0].op == "slice" && args[1].op == "slice" && isCollT(args[0]) && isCollT(args[1]) {
					if d := diff1(args[1].args[1], args[0].args[1]); d != 1 && d != 1<<40 {
						r.report("removal-wrong", fnKey(in.Parent())+" copy", w.ipos(in), fmt.Sprintf("removing an element of %s moves the following elements by %d instead of one", collKey, d), st.traceText(6)...)
					}
				}
				if c.name == "builtin.append" && len(args) == 2 && args[0].op == "slice" && isCollT(args[0]) && storedTo(in, b.coll) {
					x, y := args[0], args[1]
					if y.op == "slice" && isCollT(y) {
						if d := diff1(y.args[1], x.args[2]); d != 1 && d != 1<<40 {
							r.report("removal-wrong", fnKey(in.Parent())+" append", w.ipos(in), fmt.Sprintf("removing an element of %s removes %d", collKey, d), st.traceText(6)...)
						}
					} else if x.args[2].op != "none" && !isCollT(y) {
						if d := lenDiff(x.args[2], collKey); isIntConst(x.args[2], 0) || d < 0 {
							r.report("healthy-dropped", fnKey(in.Parent())+" append", w.ipos(in), fmt.Sprintf("adding an element to %s drops others from it", collKey), st.traceText(6)...)
						}
					}
				}
				// clear(list[n:]) only tidies up behind the end of what is kept
				if c.name == "builtin.clear" && len(args) == 1 && isCollT(args[0]) {
					if sl, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.Slice); ok && sl.Low != nil {
						if _, ok := constInt(sl.Low); !ok {
							return
						}
					}
					w.allFailed(r, ex, st, in, b)
				}
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if !isStore(in) {
					return
				}
				s := in.(*ssa.Store)
				v := ex.val(st, s.Val)
				r.count("changes of the list", 1)
				if filtered(s.Val) {
					// what is kept is judged by the broadcast itself
					return
				}
				switch v.op {
				case "slice":
					if !isCollT(v) {
						return
					}
					if isIntConst(v.args[2], 0) {
						w.allFailed(r, ex, st, in, b)
						return
					}
					if v.args[2].op != "none" {
						if d := lenDiff(v.args[2], collKey); d != -1 && d != 1<<40 {
							r.report("removal-wrong", fnKey(in.Parent())+" len", w.ipos(in), fmt.Sprintf("%s is shortened by %d elements for one that failed", collKey, -d), st.traceText(6)...)
						}
					}
				case "nil":
					w.allFailed(r, ex, st, in, b)
				}
			},
		})
		ex.budget = 500_000
		ex.Run(f, nil)
		if ex.over {
			r.incomplete("the changes of " + collKey + " in " + fnKey(f) + " exceeded the budget")
		}
	}
}

// filtered: the list was built by adding elements to it in a loop.
func filtered(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var grows func(v ssa.Value) bool
	grows = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if grows(e) {
					return true
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && (x.Call.Args[0] == ssa.Value(p) || grows(x.Call.Args[0]) || seen[x.Call.Args[0]])
		}
		return false
	}
	return grows(p)
}

// allFailed: the list is emptied only when nothing is left in it: some branch on the way says that its length does not
// exceed what is taken off.
func (w *World) allFailed(r *Result, ex *Explorer, st *State, in ssa.Instruction, b *bcast) {
	if w.onStopPath(in) {
		return
	}
	collKey := fieldKey(b.coll)
	seen := map[*ssa.Function]bool{}
	// knows: -1 nothing is known, 0 cannot tell, 1 everything failed
	var knows func(in ssa.Instruction) int
	knows = func(in ssa.Instruction) int {
		f := in.Parent()
		if seen[f] {
			return -1
		}
		seen[f] = true
		best := -1
		for d := in.Block().Idom(); d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range d.Succs {
				if len(s.Preds) == 1 && s.Dominates(in.Block()) {
					if k := w.saysEmpty(iff.Cond, i == 0, b.coll); k > best {
						best = k
					}
				}
			}
		}
		if best < 1 && f != b.root.fn {
			sites := w.callSitesOf(f)
			all := len(sites) > 0
			for _, s := range sites {
				k := knows(s)
				if k == 0 && best < 0 {
					best = 0
				}
				all = all && k == 1
			}
			if all {
				best = 1
			}
		}
		return best
	}
	if knows(in) < 0 {
		r.report("healthy-dropped", b.root.name+" clear", w.ipos(in), fmt.Sprintf("%s is emptied although not every element is known to have failed", collKey), st.traceText(8)...)
	}
}

// saysEmpty: 1 if the condition says that the list has no more elements than what is taken off, 0 if it cannot be told,
// -1 if it says something else.
func (w *World) saysEmpty(cond ssa.Value, v bool, coll *types.Var) int {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, v = u.X, !v
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		if c, ok := cond.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && w.inRepo(f) {
				return 0
			}
		}
		return -1
	}
	if bt, ok := b.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return -1
	}
	x, kx := linear(b.X)
	y, ky := linear(b.Y)
	for t, n := range y {
		x[t] -= n
	}
	k := kx - ky
	lens, minus, others := int64(0), int64(0), false
	if loopWithHeader(b.Block()) != nil {
		return -1
	}
	for t, n := range x {
		if n == 0 {
			continue
		}
		if e, ok := t.(*ssa.Extract); ok {
			if _, ok := e.Tuple.(*ssa.Select); ok {
				return -1
			}
		}
		if c, ok := t.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if w.srcFields(c.Call.Args[0])[coll] {
					lens += n
				} else {
					minus += n
				}
				continue
			}
		}
		others = true
	}
	if lens != 1 && lens != -1 {
		if others {
			return 0
		}
		return -1
	}
	if others {
		return 0
	}
	if minus != 0 && minus != -lens {
		return -1
	}
	// lens*(len - taken) + k  op  0
	op := b.Op
	if !v {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	if lens < 0 {
		k = -k
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	// len - taken + k op 0
	switch op {
	case token.EQL:
		if k >= 0 {
			return 1
		}
	case token.LEQ:
		if k >= 0 {
			return 1
		}
	case token.LSS:
		if k >= -1 {
			return 1
		}
	}
	return -1
}

// onStopPath: the function is left afterwards (nothing is delivered any more).
func (w *World) onStopPath(in ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var loops func(b *ssa.BasicBlock) bool
	loops = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Select); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if loops(s) {
				return true
			}
		}
		return false
	}
	hasSel := false
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Select); ok {
				hasSel = true
			}
		}
	}
	if !hasSel {
		return false
	}
	for _, s := range in.Block().Succs {
		if loops(s) {
			return false
		}
	}
	return true
}

// diff1: x - y if that is a constant (1<<40 if not known).
func diff1(x, y *Term) int64 {
	lx, kx := linTerm(x)
	ly, ky := linTerm(y)
	for t, n := range ly {
		lx[t] -= n
	}
	for _, n := range lx {
		if n != 0 {
			return 1 << 40
		}
	}
	return kx - ky
}

func linTerm(t *Term) (map[*Term]int64, int64) {
	res := map[*Term]int64{}
	k := int64(0)
	var walk func(t *Term, f int64)
	walk = func(t *Term, f int64) {
		switch {
		case t.op == "none":
		case t.op == "const" && t.cval != nil && t.cval.Kind() == constant.Int:
			if n, ok := constant.Int64Val(t.cval); ok {
				k += f * n
			}
		case t.op == "+":
			walk(t.args[0], f)
			walk(t.args[1], f)
		case t.op == "-" && len(t.args) == 2:
			walk(t.args[0], f)
			walk(t.args[1], -f)
		default:
			res[t] += f
		}
	}
	walk(t, 1)
	return res, k
}

// lenDiff: t - len(coll) if that is a constant.
func lenDiff(t *Term, collKey string) int64 {
	l, k := linTerm(t)
	n := 0
	for x, c := range l {
		if c == 0 {
			continue
		}
		if c == 1 && x.op == "len" && srcField(x.args[0]) == collKey {
			n++
			continue
		}
		return 1 << 40
	}
	if n != 1 {
		return 1 << 40
	}
	return k
}

// clientWriters: the goroutines that write queued messages to one client.
func (w *World) clientWriters(r *Result, m *chanMon, pkg string) {
	isWrite := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		com := ci.Common()
		if com.IsInvoke() {
			return com.Method.Name() == "Write" || com.Method.Name() == "WriteString"
		}
		f := com.StaticCallee()
		return f != nil && !w.inRepo(f) && (f.Name() == "Write" || f.Name() == "WriteString" || strings.HasPrefix(f.Name(), "Fprint") || f.Name() == "Copy")
	}
	for _, q := range m.c.roots {
		if !q.isGo || !strings.HasPrefix(ownerOf(q), pkg+".") {
			continue
		}
		writes := false
		for _, o := range m.opsOf(q) {
			if o.ext != "" && netWrite(o.ext) {
				writes = true
			}
		}
		if !writes {
			continue
		}
		r.count("writers", 1)
		fn := q.fn
		back := func(ex *Explorer, st *State) {
			if t := st.rs["werr"]; t != nil && ex.decide(st, ex.eq(t, ex.ts.Nil)) != 1 {
				r.report("failed-kept", q.name, w.pos(fn.Pos()), fmt.Sprintf("%s goes on after writing to its client failed", q.name), st.traceText(12)...)
			}
			st.unset("werr")
			if st.has("msg") && !st.holds(isEmpty) {
				r.report("not-written", q.name, w.pos(fn.Pos()), fmt.Sprintf("%s takes a message from its queue and comes back for the next one without having written it", q.name), st.traceText(12)...)
			}
			if st.has("short") {
				r.report("not-whole", q.name, w.pos(fn.Pos()), fmt.Sprintf("%s writes only a part of a message", q.name), st.traceText(12)...)
			}
			st.unset("msg")
			st.unset("short")
		}
		ex := newExplorer(w, &Rule{
			Interesting: isWrite,
			OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
				back(ex, st)
				st.unset("msgT")
				for a := range st.mem {
					if a.op == "&" || a.op == "&[]" {
						delete(st.mem, a)
					}
				}
				if idx < 0 || sel.States[idx].Dir == types.SendOnly {
					return
				}
				// the queue of messages: a buffered queue of bytes that other goroutines fill
				other := false
				for _, k := range m.c.classes(sel.States[idx].Chan) {
					for s := range m.c.senders[k] {
						if ownerOf(s) != ownerOf(q) || !s.isGo {
							other = true
						}
					}
				}
				ct, ok := sel.States[idx].Chan.Type().Underlying().(*types.Chan)
				if !ok || !other {
					return
				}
				if s, ok := ct.Elem().Underlying().(*types.Slice); ok {
					if bt, ok := s.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Byte {
						return
					}
				} else if bt, ok := ct.Elem().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
					return
				}
				n := 2
				for _, s := range sel.States[:idx] {
					if s.Dir != types.SendOnly {
						n++
					}
				}
				if t := st.top().regs[sel]; t != nil && t.op == "tuple" && n < len(t.args) {
					st.setT("msgT", t.args[n])
					st.set("msg")
				}
			},
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
				if netWrite(c.name) && res != nil && res.op == "tuple" {
					st.setT("werr", res.args[len(res.args)-1])
				}
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if sl, ok := in.(*ssa.Slice); ok && sl.Low != nil {
					// the start may be held inside the part by a min or max
					lows := []ssa.Value{sl.Low}
					if c, ok := sl.Low.(*ssa.Call); ok {
						if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
							lows = c.Call.Args
						}
					}
					for _, low := range lows {
						lin, k := linear(low)
						for v, n := range lin {
							if e, ok := v.(*ssa.Extract); ok && e.Index == 0 && len(lin) == 1 {
								if c, ok := e.Tuple.(ssa.Instruction); ok && isWrite(c) && (n != 1 || k != 0) {
									r.report("not-whole", q.name+" rest", w.ipos(in), fmt.Sprintf("%s does not go on where the last write to its client ended: a part of a message is lost or repeated", q.name), st.traceText(6)...)
								}
							}
						}
					}
				}
				if !isWrite(in) || !st.has("msg") {
					return
				}
				t := st.rs["msgT"]
				for _, a := range in.(ssa.CallInstruction).Common().Args {
					v := ex.val(st, a)
					if sl, ok := a.(*ssa.Slice); ok && sl.Low != nil {
						if phi, start, exact := writeOffset(sl.Low, isWrite); phi != nil && t != nil && v.contains(t) {
							// the loop goes on behind what is already written: the message is written when it ends
							if start != 0 || !exact || v.op == "slice" && v.args[2].op != "none" && !(v.args[2].op == "len" && v.args[2].args[0] == t) {
								st.unset("msg")
								st.set("short")
							}
							continue
						}
					}
					if t != nil && v.contains(t) || v == t {
						st.unset("msg")
						if v.op == "slice" && (v.args[2].op != "none" && !(v.args[2].op == "len" && v.args[2].args[0] == t) || v.args[1].op != "none" && !isIntConst(v.args[1], 0)) && v.args[0] == t {
							st.set("short")
						}
					}
				}
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
				t := st.rs["msgT"]
				if t == nil || !st.has("msg") {
					return
				}
				op, ok := in.Cond.(*ssa.BinOp)
				if !ok {
					return
				}
				x, y, o := op.X, op.Y, op.Op
				for i := 0; i < 2; i++ {
					if lin, k := linear2(y, x); k == 0 && len(lin) == 2 {
						var phi *ssa.Phi
						ln := false
						for v, n := range lin {
							if p, start, exact := writeOffset(v, isWrite); p != nil && start == 0 && exact && n == -1 {
								phi = p
							} else if cl, ok := v.(*ssa.Call); ok && n == 1 {
								b, isB := cl.Call.Value.(*ssa.Builtin)
								ln = isB && b.Name() == "len" && ex.val(st, cl.Call.Args[0]) == t
							}
						}
						if phi != nil && ln && (o == token.LSS && !taken || o == token.NEQ && !taken || o == token.EQL && taken || o == token.GEQ && taken) {
							st.unset("msg")
						}
					}
					x, y = y, x
					switch o {
					case token.LSS:
						o = token.GTR
					case token.GTR:
						o = token.LSS
					case token.LEQ:
						o = token.GEQ
					case token.GEQ:
						o = token.LEQ
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {},
		})
		ex.budget = 1_000_000
		ex.Run(fn, nil)
	}
}

// writeOffset: v counts what the writes of a loop have written so far: it begins with start and grows by the result of a
// write; exact: by nothing else.
func writeOffset(v ssa.Value, isWrite func(ssa.Instruction) bool) (phi *ssa.Phi, start int64, exact bool) {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return nil, 0, false
	}
	exact = true
	grows := false
	for _, e := range p.Edges {
		lin, k := linear(e)
		if len(lin) == 0 {
			start = k
			continue
		}
		if e == p {
			continue
		}
		if lin[p] != 1 {
			return nil, 0, false
		}
		good := k == 0 && len(lin) == 2
		for x, n := range lin {
			if x == ssa.Value(p) {
				continue
			}
			ex, ok := x.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return nil, 0, false
			}
			if c, ok := ex.Tuple.(ssa.Instruction); !ok || !isWrite(c) {
				return nil, 0, false
			}
			grows = true
			good = good && n == 1
		}
		exact = exact && good
	}
	if !grows {
		return nil, 0, false
	}
	return p, start, exact
}

// linear2 is x - y as a linear form.
func linear2(x, y ssa.Value) (map[ssa.Value]int64, int64) {
	a, k := linear(x)
	b, j := linear(y)
	out := map[ssa.Value]int64{}
	for v, n := range a {
		out[v] += n
	}
	for v, n := range b {
		out[v] -= n
	}
	for v, n := range out {
		if n == 0 {
			delete(out, v)
		}
	}
	return out, k - j
}
