package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// constsOfType returns the named constants of an integer type of the repository.
func (w *World) constsOfType(pkg, typ string) map[string]int64 {
	res := map[string]int64{}
	for _, p := range w.pkgs {
		if shortPkg(p.PkgPath) != pkg {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok || c.Val().Kind() != constant.Int {
				continue
			}
			if nn, ok := c.Type().(*types.Named); ok && nn.Obj().Name() == typ {
				i, _ := constant.Int64Val(c.Val())
				res[n] = i
			}
		}
	}
	return res
}

type peakRule struct {
	w                             *World
	none, new_, active, inactive_ int64
	ok                            bool
}

func (w *World) peakRule() peakRule {
	c := w.constsOfType("rx", "peakState")
	pr := peakRule{w: w, none: -1, new_: -1, active: -1, inactive_: -1}
	for n, v := range c {
		l := strings.ToLower(n)
		switch {
		case strings.HasSuffix(l, "inactive"):
			pr.inactive_ = v
		case strings.HasSuffix(l, "active"):
			pr.active = v
		case strings.HasSuffix(l, "new"):
			pr.new_ = v
		case strings.HasSuffix(l, "none"):
			pr.none = v
		}
	}
	pr.ok = pr.new_ >= 0 && pr.active >= 0 && pr.inactive_ >= 0
	return pr
}

// states: the states a peak can have on the path.
func (pr peakRule) states(ex *Explorer, st *State, e *Term) map[int64]bool {
	res := map[int64]bool{pr.new_: true, pr.active: true, pr.inactive_: true}
	for a, v := range st.mem {
		if a.op == "&" && a.args[0] == e && fieldKey(a.payload.(*types.Var)) == "rx.peak.state" {
			if v.op == "const" {
				if i, ok := constant.Int64Val(v.cval); ok {
					return map[int64]bool{i: true}
				}
			}
			restrict(st, v, res)
		}
	}
	// facts about loads that are no longer in memory
	for f := range st.facts {
		for _, t := range f.args {
			if t.op == "sym" && t.src != nil && t.src.op == "&" && t.src.args[0] == e && fieldKey(t.src.payload.(*types.Var)) == "rx.peak.state" {
				restrict(st, t, res)
			}
		}
	}
	return res
}

func restrict(st *State, t *Term, res map[int64]bool) {
	for f, v := range st.facts {
		if f.op == "eq" {
			o := other(f, t)
			if o == nil || o.op != "const" || o.cval.Kind() != constant.Int {
				continue
			}
			k, _ := constant.Int64Val(o.cval)
			if v {
				for s := range res {
					if s != k {
						delete(res, s)
					}
				}
			} else {
				delete(res, k)
			}
		}
		if f.op == "lt" {
			for s := range res {
				var c bool
				if f.args[0] == t && f.args[1].op == "const" {
					k, _ := constant.Int64Val(f.args[1].cval)
					c = s < k
				} else if f.args[1] == t && f.args[0].op == "const" {
					k, _ := constant.Int64Val(f.args[0].cval)
					c = k < s
				} else {
					continue
				}
				if c != v {
					delete(res, s)
				}
			}
		}
	}
}

func stateNames(m map[int64]bool, pr peakRule) string {
	var r []string
	for s := range m {
		switch s {
		case pr.new_:
			r = append(r, "new")
		case pr.active:
			r = append(r, "active")
		case pr.inactive_:
			r = append(r, "inactive")
		}
	}
	sort.Strings(r)
	return strings.Join(r, " or ")
}

func checkC16(w *World, r *Result) {
	r.rule("State typestate: every store to the state of a peak is checked against the states the peak can have on that path (from the facts of the path): to active only from new or inactive, to inactive only from active, and a peak put into the table is new.")
	r.rule("Eviction: a place of the table is overwritten by a newly found peak only if every peak found in the places concerned was neither active nor inactive; a peak expires only if it is not active and its age exceeds the timeout; insertion without these checks is used in decode mode only.")
	r.rule("Selection: a peak handed out for decoding is in the table and new. Peaks that are not in the table (nil) are never dereferenced.")
	pr := w.peakRule()
	if !pr.ok {
		r.assume("the states of a peak are not recognised: nothing to decide")
		return
	}
	var roots []*ssa.Function
	for _, f := range w.funcs {
		k := fnKey(f)
		if strings.HasPrefix(k, "rx.(*PeaksTable).") && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	roots = uniqFns(roots)
	r.count("operations", len(roots))
	isBins := func(v *types.Var) bool { return fieldKey(v) == "rx.PeaksTable.bins" }
	binsElem := func(a *Term) bool {
		return a.op == "&[]" && srcField(a.args[0]) == "rx.PeaksTable.bins"
	}
	unsafeInsert := map[string]*Finding{}
	for _, root := range roots {
		k := fnKey(root)
		var out findings
		var expire findings
		changes := 0
		inserts, activator, deactivator := false, false, false
		for _, g := range append([]*ssa.Function{root}, w.inlinable(root)...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if v := storeField(in); v != nil && fieldKey(v) == "rx.peak.state" {
						if c, ok := in.(*ssa.Store).Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							i, _ := constant.Int64Val(c.Value)
							activator = activator || i == pr.active
							deactivator = deactivator || i == pr.inactive_
						}
					}
				}
			}
		}
		// the peak that the state change is asked for
		var asked *Term
		// placeOf: the place of the table a value is (read from).
		placeOf := func(t *Term) *Term {
			for d := 0; t != nil && d < 12; d++ {
				if t.op == "sym" && t.src != nil && binsElem(t.src) {
					return t
				}
				switch {
				case t.op == "sym" && t.src != nil:
					t = t.src
				case t.op != "alloc" && t.op != "const" && len(t.args) > 0:
					t = t.args[0]
				default:
					return nil
				}
			}
			return nil
		}
		ofParam := func(t *Term) bool {
			var walk func(t *Term, d int) bool
			walk = func(t *Term, d int) bool {
				if t == nil || d > 12 {
					return false
				}
				if t == asked {
					return true
				}
				for _, a := range t.args {
					if walk(a, d+1) {
						return true
					}
				}
				return t.src != nil && walk(t.src, d+1)
			}
			return asked != nil && placeOf(t) == nil && walk(t, 0)
		}
		var unsafe *Finding
		good := func(ex *Explorer, st *State, e *Term) bool {
			if ex.decide(st, ex.eq(e, ex.ts.Nil)) == 1 {
				return true
			}
			s := pr.states(ex, st, e)
			return !s[pr.active] && !s[pr.inactive_]
		}
		flush := func(ex *Explorer, st *State) {
			if e := st.rs["el"]; e != nil {
				if !st.has("known") && !good(ex, st, e) {
					st.set("bad")
				}
				st.unset("el")
				st.unset("known")
			}
		}
		// the range that the innermost walk around an instruction of the current function goes over
		rangeOf := func(st *State, b *ssa.BasicBlock) string {
			res, size := "", 0
			pre := "range:" + fmtInt(st.top().fr.id) + ":"
			for x := range st.rs {
				if strings.HasPrefix(x, pre) {
					if l := loopAt(st.top().fr.fn, x); l != nil && l.blocks[b] && (size == 0 || len(l.blocks) < size) {
						res, size = x[strings.Index(x, "=")+1:], len(l.blocks)
					}
				}
			}
			return res
		}
		ex := newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					for f := range w.srcFields(ia.X) {
						if isBins(f) {
							return true
						}
					}
				}
				v := storeField(in)
				return v != nil && fieldKey(v) == "rx.peak.state"
			},
			OnLoad: func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term) {
				if binsElem(addr) {
					flush(ex, st)
					if val.op == "sym" {
						if x := rangeOf(st, in.Block()); x != "" && st.has("free:"+x) && !st.has("changed") {
							st.set("known")
						}
						st.setT("el", val)
						st.setT("cur", val)
					}
				}
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
				// a place of the table is compared with the peak that was asked for
				for cc, yes := c, taken; cc != nil; cc, yes = cc.args[0], !yes {
					if cc.op == "not" && len(cc.args) == 1 {
						continue
					}
					if (cc.op == "eq" && yes || cc.op == "lt" || cc.op == "le") && len(cc.args) == 2 {
						x, y := cc.args[0], cc.args[1]
						if placeOf(x) != nil && ofParam(y) {
							st.set("same:" + placeOf(x).s)
						}
						if placeOf(y) != nil && ofParam(x) {
							st.set("same:" + placeOf(y).s)
						}
					}
					break
				}
				if l := loopWithHeader(in.Block()); l != nil {
					if hi, body := l.headerIf(); hi == in {
						flush(ex, st)
						// the limit of the walk in terms of the table and the peaks
						lim, phi := normLimit(c)
						if lim != "" {
							fr := fmtInt(st.top().fr.id) + ":" + fmtInt(l.header.Index)
							if t := st.rs["init:"+fr+":"+phi.Name()]; t != nil {
								st.set("range:" + fr + "=" + normTerm(t) + ".." + lim)
							}
						}
						s := 1
						if taken {
							s = 0
						}
						if s != body {
							// every place of the range was read and none of them had to be kept
							if x := rangeOf(st, l.header); x != "" && !st.has("bad") && readsEvery(w, l) {
								st.set("free:" + x)
							}
							pre := "init:" + fmtInt(st.top().fr.id) + ":" + fmtInt(l.header.Index) + ":"
							for x := range st.rs {
								if strings.HasPrefix(x, pre) {
									st.unset(x)
								}
							}
						}
					}
				}
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Jump:
					l := loopWithHeader(in.Block().Succs[0])
					if l != nil && !l.blocks[in.Block()] {
						for _, pi := range l.header.Instrs {
							phi, ok := pi.(*ssa.Phi)
							if !ok {
								break
							}
							if !isInteger(phi.Type()) {
								continue
							}
							for i, p := range l.header.Preds {
								if p == in.Block() {
									st.setT("init:"+fmtInt(st.top().fr.id)+":"+fmtInt(l.header.Index)+":"+phi.Name(), ex.val(st, phi.Edges[i]))
								}
							}
						}
					}
				case *ssa.FieldAddr:
					x := ex.val(st, in.X)
					if x.op == "sym" && x.src != nil && binsElem(x.src) && ex.decide(st, ex.eq(x, ex.ts.Nil)) != 0 {
						out.add("nil-peak", k+" "+fnKey(in.Parent()), w.ipos(in), "an empty place of the peaks table is dereferenced", st.traceText(8)...)
					}
					if x.op == "nil" {
						out.add("nil-peak", k+" "+fnKey(in.Parent()), w.ipos(in), "a peak that is not in the table is dereferenced", st.traceText(8)...)
					}
				case *ssa.Store:
					if v := storeField(in); v != nil && fieldKey(v) == "rx.peak.state" {
						r.count("state changes checked", 1)
						base := ex.val(st, in.Addr.(*ssa.FieldAddr).X)
						val := ex.val(st, in.Val)
						if val.op != "const" {
							out.add("state-unknown", k, w.ipos(in), "the state of a peak is set to a value that is not one of its states", st.traceText(8)...)
							return
						}
						to, _ := constant.Int64Val(val.cval)
						if base.op == "alloc" {
							if to != pr.new_ && to != pr.none {
								out.add("state-of-new", k, w.ipos(in), "a peak that is put into the table is not new", st.traceText(8)...)
							}
							return
						}
						if asked != nil && base.op == "sym" && base.src != nil && binsElem(base.src) && !st.has("same:"+base.s) {
							out.add("state-of-another", k, w.ipos(in), "the state of a peak of the table is changed without a look at whether it is the peak that was asked for: another peak that took its place is changed instead", st.traceText(8)...)
						}
						from := pr.states(ex, st, base)
						switch to {
						case pr.active:
							if from[pr.active] {
								out.add("to-active", k, w.ipos(in), "a peak becomes active on a path on which it can already be active (it is "+stateNames(from, pr)+")", st.traceText(8)...)
							}
							if !from[pr.new_] || !from[pr.inactive_] {
								// a narrower source set is allowed only if the other one is refused explicitly elsewhere
								st.set("narrow")
							}
						case pr.inactive_:
							if from[pr.new_] || from[pr.inactive_] {
								out.add("to-inactive", k, w.ipos(in), "a peak becomes inactive on a path on which it is not known to be active (it is "+stateNames(from, pr)+")", st.traceText(8)...)
							}
						default:
							out.add("state-back", k, w.ipos(in), "the state of a peak in the table is set to something else than active or inactive", st.traceText(8)...)
						}
						st.set("changed")
						changes++
						return
					}
					a := ex.val(st, in.Addr)
					if !binsElem(a) {
						return
					}
					r.count("table writes checked", 1)
					v := ex.val(st, in.Val)
					fid := fmtInt(st.top().fr.id)
					if v.op == "nil" {
						if inserts {
							return
						}
						cur := st.rs["cur"]
						if st.has("scanned") || k == "rx.(*PeaksTable).Put" {
							return
						}
						st.setT("cleared", cur)
						// expiry
						if cur == nil {
							st.set("blind")
							return
						}
						s := pr.states(ex, st, cur)
						if s[pr.active] {
							st.set("evicts-active")
						}
						// only the places of the expired peak
						for x := range st.rs {
							if strings.HasPrefix(x, "range:"+fid+":") {
								if l := loopAt(st.top().fr.fn, x); l != nil && l.blocks[in.Block()] {
									ra := x[strings.Index(x, "=")+1:]
									i := strings.Index(ra, "..")
									lo, hi := outsideLoads(ra[:i]), outsideLoads(ra[i+2:])
									if strings.Contains(lo, ".From]") && strings.Contains(hi, ".To]") && (strings.HasPrefix(strings.ReplaceAll(lo, "max(0,", ""), "[") || strings.HasPrefix(lo, "max([")) && !strings.Contains(hi, "+(") {
										continue
									}
									expire.add("expire-range", k, w.ipos(in), "places of other peaks are cleared together with an expired peak ("+ra+")", st.traceText(10)...)
								}
							}
						}
						old := false
						for f, val := range st.facts {
							if f.op == "lt" || f.op == "le" {
								x, y := f.args[0], f.args[1]
								if isAge(x, cur) && srcField(y) == "rx.PeaksTable.peakTimeout" && !val {
									old = true
								}
								if isAge(y, cur) && srcField(x) == "rx.PeaksTable.peakTimeout" && val {
									old = true
								}
							}
						}
						if !old {
							st.set("evicts-young")
						}
						return
					}
					flush(ex, st)
					inserts = true
					st.set("inserted")
					if st.has("bad") && unsafe == nil {
						unsafe = &Finding{"evict", k, w.ipos(in), "a newly found peak overwrites a place of the table although a peak found in its range can be active or inactive", st.traceText(12)}
					}
					// the written range must have been scanned
					written := ""
					for x := range st.rs {
						if strings.HasPrefix(x, "range:"+fid+":") {
							l := loopAt(st.top().fr.fn, x)
							if l != nil && l.blocks[in.Block()] {
								written = x[strings.Index(x, "=")+1:]
							}
						}
					}
					scanned := false
					for x := range st.rs {
						if strings.HasPrefix(x, "range:") && x[strings.Index(x, "=")+1:] == written {
							parts := strings.SplitN(strings.TrimPrefix(x, "range:"), "=", 2)
							l := findLoop(ex, parts[0])
							if l != nil && readsBins(w, l) {
								scanned = true
							}
						}
					}
					if written != "" && !scanned && unsafe == nil {
						unsafe = &Finding{"evict-unscanned", k, w.ipos(in), "a newly found peak is written to places of the table (" + written + ") that were not checked for active or inactive peaks", st.traceText(12)}
					}
					if written == "" && !st.has("el-any") && unsafe == nil && !scannedAny(st) {
						unsafe = &Finding{"evict-unscanned", k, w.ipos(in), "a newly found peak is written into the table without checking for active or inactive peaks", st.traceText(12)}
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				// refusals
				if cur := st.rs["cur"]; cur != nil && !st.has("changed") && (activator || deactivator) {
					s := pr.states(ex, st, cur)
					other := false
					for f := range st.facts {
						for _, t := range f.args {
							if t.op == "sym" && t.src != nil && t.src.op == "&" && fieldKey(t.src.payload.(*types.Var)) != "rx.peak.state" && t.src.args[0].op != "the" {
								if v := st.facts[f]; f.op == "eq" && !v || f.op == "lt" {
									other = true
								}
							}
						}
					}
					if len(s) < 3 && !other {
						if activator && (s[pr.new_] || s[pr.inactive_]) {
							out.add("refused", k, w.pos(root.Pos()), "a peak that is "+stateNames(s, pr)+" is not activated: while it is decoded it can be displaced and expire", st.traceText(10)...)
						}
						if deactivator && s[pr.active] {
							out.add("refused", k, w.pos(root.Pos()), "a peak that is active is not deactivated", st.traceText(10)...)
						}
					}
				}
				if st.has("inserted") || inserts {
					return
				}
				if st.has("evicts-active") {
					out.add("expire-active", k, w.pos(root.Pos()), "a peak that can be active is removed from the table", st.traceText(10)...)
				}
				if st.has("evicts-young") {
					out.add("expire-young", k, w.pos(root.Pos()), "a peak is removed from the table before its timeout", st.traceText(10)...)
				}
				if len(res) == 1 && res[0].op != "nil" && strings.HasPrefix(fnKey(root), "rx.(*PeaksTable).FindNext") {
					r.count("selections checked", 1)
					p := res[0]
					if p.op == "sym" && p.src != nil && p.src.op == "&" {
						e := p.src.args[0]
						s := pr.states(ex, st, e)
						if s[pr.active] || s[pr.inactive_] {
							out.add("select", k, w.pos(root.Pos()), "a peak that can be "+stateNames(map[int64]bool{pr.active: s[pr.active], pr.inactive_: s[pr.inactive_]}, pr)+" is selected for decoding", st.traceText(10)...)
						}
					} else if p.op != "sym" {
						out.add("select", k+" other", w.pos(root.Pos()), "something else than a peak of the table is selected for decoding", st.traceText(10)...)
					}
				}
			},
			OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) {},
		})
		ex.budget = 600_000
		ex.Run(root, func(st *State, f *FState) {
			if len(root.Params) == 2 {
				if _, ok := root.Params[1].Type().Underlying().(*types.Pointer); ok {
					asked = f.regs[root.Params[1]]
				}
			}
		})
		r.count("paths", ex.states)
		r.addAll(out.list)
		if !inserts {
			r.addAll(expire.list)
		}
		if changes == 0 && (k == "rx.(*PeaksTable).Activate" || k == "rx.(*PeaksTable).Deactivate") {
			r.report("no-change", k, w.pos(root.Pos()), "the operation never changes the state of a peak")
		}
		if unsafe != nil {
			unsafeInsert[k] = unsafe
		}
		if inserts {
			r.sample("inserting operation %s, checked insertion: %t", k, unsafe == nil)
		}
	}
	// what is decoded is marked as being decoded
	for _, f := range w.cycleFindings(r) {
		if f.Rule == "attached-not-activated" {
			r.report(f.Rule, f.Key, f.Pos, f.Msg+": it is neither protected from being displaced nor from expiring", f.Detail...)
		}
	}
	// unchecked insertion only in decode mode
	called := map[string]bool{}
	for _, f := range uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && unsafeInsert[fnKey(c.Common().StaticCallee())] != nil
	})) {
		var fs []*Finding
		fs = w.climb(f, func(root *ssa.Function) []*Finding {
			var out findings
			is := func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				return ok && c.Common().StaticCallee() != nil && unsafeInsert[fnKey(c.Common().StaticCallee())] != nil
			}
			ex := newExplorer(w, &Rule{Interesting: is,
				NoInline: func(f *ssa.Function) bool {
					return unsafeInsert[fnKey(f)] != nil || shortPkg(fnPkg(f)) != "rx" || strings.HasPrefix(fnKey(f), "rx.(*Listener")
				},
				OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
					if c.fn == nil || unsafeInsert[fnKey(c.fn)] == nil {
						return
					}
					r.count("unchecked insertions", 1)
					ok := st.holds(func(f *Term, v bool) bool {
						return f.op == "eq" && v && (f.args[0].op == "const" && f.args[0].s == `"decode"` || f.args[1].op == "const" && f.args[1].s == `"decode"`)
					})
					if !ok {
						u := unsafeInsert[fnKey(c.fn)]
						out.add(u.Rule, u.Key, u.Pos, u.Msg+" (called at "+w.ipos(in)+")", u.Detail...)
					}
				}})
			ex.budget = 600_000
			ex.Run(root, nil)
			return out.list
		})
		r.addAll(fs)
		called[fnKey(f)] = true
	}
}

// isAge: t is the time since the peak e was found.
func isAge(t, e *Term) bool {
	if t.op != "call" {
		return false
	}
	f, ok := t.payload.(*ssa.Function)
	if !ok || f.String() != "(time.Time).Sub" || len(t.args) < 2 {
		return false
	}
	x := t.args[1]
	if srcField(x) != "rx.peak.since" {
		return false
	}
	var b *Term
	if x.op == "*" {
		b = x.args[0]
	} else {
		b = x.src
	}
	return b != nil && b.op == "&" && b.args[0] == e
}

func scannedAny(st *State) bool {
	for x := range st.rs {
		if strings.HasPrefix(x, "range:") {
			return true
		}
	}
	return false
}

// normTerm renders a term with loop variables and load identities removed.
func normTerm(t *Term) string {
	switch t.op {
	case "const":
		return t.s
	case "sym":
		if t.src != nil {
			return "[" + normAddr(t.src) + "]"
		}
		return strings.TrimRight(t.name, "~")
	case "nil":
		return "nil"
	}
	var a []string
	for _, x := range t.args {
		a = append(a, normTerm(x))
	}
	if t.op == "max" || t.op == "min" || t.op == "+" || t.op == "*" {
		sort.Strings(a)
	}
	return t.op + "(" + strings.Join(a, ",") + ")"
}

func normAddr(a *Term) string {
	if a.op == "&" {
		b := normTerm(a.args[0])
		if a.args[0].op == "the" {
			b = "the"
		}
		return b + "." + a.payload.(*types.Var).Name()
	}
	return normTerm(a)
}

// normLimit: the bound of a loop condition over a widened index, and the index.
func normLimit(c *Term) (string, *ssa.Phi) {
	neg := false
	if c.op == "not" {
		neg = true
		c = c.args[0]
	}
	if c.op != "lt" && c.op != "le" {
		return "", nil
	}
	x, y := c.args[0], c.args[1]
	idx := func(t *Term) *ssa.Phi {
		if t.op == "sym" && t.src == nil {
			phi, _ := t.payload.(*ssa.Phi)
			return phi
		}
		if t.op == "+" {
			for _, a := range t.args {
				if a.op == "sym" && a.src == nil {
					if phi, ok := a.payload.(*ssa.Phi); ok {
						return phi
					}
				}
			}
		}
		return nil
	}
	if !neg {
		if phi := idx(x); phi != nil {
			return "<" + normTerm(y), phi
		}
	} else if phi := idx(y); phi != nil {
		return "<=" + normTerm(x), phi
	}
	return "", nil
}

func loopAt(fn *ssa.Function, key string) *Loop {
	var fid, h int
	parse2(strings.SplitN(key, "=", 2)[0], "range:%d:%d", &fid, &h)
	for _, l := range loopsOf(fn) {
		if l.header.Index == h {
			return l
		}
	}
	return nil
}

func findLoop(ex *Explorer, key string) *Loop {
	var fid, h int
	parse2(key, "%d:%d", &fid, &h)
	for _, fr := range ex.frames {
		if fr.id == fid {
			for _, l := range loopsOf(fr.fn) {
				if l.header.Index == h {
					return l
				}
			}
		}
	}
	return nil
}

// readsBins: the loop reads elements of the peaks table.
func readsBins(w *World, l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				continue
			}
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				for f := range w.srcFields(ia.X) {
					if fieldKey(f) == "rx.PeaksTable.bins" {
						return true
					}
				}
			}
		}
	}
	return false
}

// readsEvery: every round of the loop reads a place of the table.
func readsEvery(w *World, l *Loop) bool {
	for b := range l.blocks {
		if !readsBins(w, &Loop{fn: l.fn, header: l.header, blocks: map[*ssa.BasicBlock]bool{b: true}}) {
			continue
		}
		every := true
		for _, p := range l.header.Preds {
			every = every && (!l.blocks[p] || b.Dominates(p))
		}
		if every {
			return true
		}
	}
	return false
}

// outsideLoads removes how the objects are found whose fields a rendered term reads.
func outsideLoads(s string) string {
	var sb strings.Builder
	depth := 0
	for _, c := range s {
		if c == ']' {
			depth--
		}
		if depth < 2 {
			sb.WriteRune(c)
		}
		if c == '[' {
			depth++
		}
	}
	return sb.String()
}

// inlinable: the functions of the same package that f calls directly or indirectly.
func (w *World) inlinable(f *ssa.Function) []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{f: true}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g != nil && !seen[g] && fnPkg(g) == fnPkg(f) {
						seen[g] = true
						res = append(res, g)
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return res
}
