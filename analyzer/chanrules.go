package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
}

func (m *chanMon) goodGuards(gs []string, f string, bad map[string]bool) []string {
	var r []string
	for _, g := range gs {
		if g == "open" || strings.HasPrefix(g, "cas:") {
			r = append(r, g)
			continue
		}
		if !bad[g+">"+f] {
			r = append(r, g)
		}
	}
	return r
}

func classSet(ops []*closeOp) []*ssa.MakeChan {
	seen := map[*ssa.MakeChan]bool{}
	var r []*ssa.MakeChan
	for _, o := range ops {
		for _, k := range o.ks {
			if !seen[k] {
				seen[k] = true
				r = append(r, k)
			}
		}
	}
	return r
}

func checkC01(w *World, r *Result) {
	r.rule("Channel typestate over every path of every goroutine: a channel is closed at most once on a path, never while it can be nil, and never sent on after it was closed on the path.")
	r.rule("Across goroutines each channel has one closing discipline: all closes in one sync.Once; or by the one worker that owns it, at its end, where the worker is started once per channel; or under a guard that stays valid (checked open, field non-nil, flag, compare-and-swap) with all closes and sends mutually excluded by a common lock, by thread, or by a join; or while the channel is still private; or in an answer function that is executed once; or as an element of a list from which it is removed in the same step.")
	r.assume("exported methods of a component are called by one goroutine (the command's); the same method is not called twice at the same time")
	m := chanMonitor(w, r)
	c := m.c
	for _, p := range m.bad {
		switch p.Rule {
		case "close-twice", "close-nil", "closed-kept", "answered-twice":
			r.report(p.Rule, p.Key, p.Pos, p.Msg, p.Detail...)
		}
	}
	by := map[*ssa.MakeChan][]*closeOp{}
	for _, o := range m.closes {
		for _, k := range o.ks {
			by[k] = append(by[k], o)
		}
	}
	var ks []*ssa.MakeChan
	for k := range by {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return c.classID(ks[i]) < c.classID(ks[j]) })
	sends := map[*ssa.MakeChan][]*chanOp{}
	for _, o := range m.ops {
		for _, cs := range o.cases {
			if cs.send {
				for _, k := range cs.ks {
					sends[k] = append(sends[k], o)
				}
				if cs.closed && cs.elem == nil {
					r.report("send-after-close", c.w.ipos(o.in)+" "+o.root.name, c.w.ipos(o.in), "a value is sent on "+chanName(c, cs.field, cs.ks)+" after it was closed on the same path", append(o.stack, o.trace...)...)
				}
			}
		}
	}
	for _, k := range ks {
		var pub []*closeOp
		for _, o := range by[k] {
			if !o.priv {
				pub = append(pub, o)
			}
		}
		name := c.className(k)
		r.count("closed channel classes", 1)
		if len(pub) == 0 {
			r.sample("%s: closed only while private", name)
			continue
		}
		kinds := map[string]bool{}
		once := map[string]bool{}
		roots := map[*Root]bool{}
		for _, o := range pub {
			roots[o.root] = true
			f := name
			if o.field != nil {
				f = fieldOwner[o.field] + "." + o.field.Name()
				f = fieldKey(o.field)
			}
			if o.once != "" {
				once[o.once] = true
			}
			if !o.nonNil && !o.root.isGo && len(m.goodGuards(withoutOpen(o.guards), f, m.badNN)) == 0 {
				r.report("close-nil", f+" "+fnKey(o.in.Parent()), w.ipos(o.in), f+" is closed although it can be nil (never started, or already stopped)", append(o.stack, o.trace...)...)
			}
		}
		owner := (*Root)(nil)
		if len(roots) == 1 {
			for q := range roots {
				if q.isGo {
					owner = q
				}
			}
		}
		for i, o := range pub {
			f := name
			if o.field != nil {
				f = fieldKey(o.field)
			}
			switch {
			case len(once) == 1 && o.once != "":
				kinds["once"] = true
			case o.once != "":
				r.report("mixed-once", f, w.ipos(o.in), f+" is closed by different sync.Once values: it can be closed twice", o.stack...)
			case o.shot:
				kinds["answer"] = true
			case o.elem != nil:
				kinds["element"] = true
			case owner != nil:
				kinds["owner"] = true
			default:
				gg := m.goodGuards(o.guards, f, m.badOpen)
				if len(gg) == 0 {
					r.report("close-unguarded", f+" "+fnKey(o.in.Parent()), w.ipos(o.in), fmt.Sprintf("%s is closed by %s without knowing that it was not closed before: closing it a second time crashes the program", f, o.root.name), append(append(o.stack, "guards seen: "+strings.Join(o.guards, " ")), o.trace...)...)
				} else {
					kinds["guarded ("+strings.Join(gg, ", ")+")"] = true
				}
			}
			for _, p := range pub[i+1:] {
				if o.in == p.in && o.root == p.root {
					if !o.root.multi || o.once != "" {
						continue
					}
				}
				if o.once != "" && o.once == p.once || o.shot && p.shot || owner != nil {
					continue
				}
				if o.once != p.once && (o.once == "" || p.once == "") {
					r.report("mixed-once", f+" "+fnKey(o.in.Parent())+" "+fnKey(p.in.Parent()), w.ipos(o.in), f+" is closed inside a sync.Once at one place and outside of it at another ("+w.ipos(p.in)+"): it can be closed twice", append(o.stack, p.stack...)...)
					continue
				}
				if c.exclusive(o.acc, p.acc) {
					continue
				}
				r.report("close-race", f+" "+o.root.name+" "+p.root.name, w.ipos(o.in), fmt.Sprintf("%s can be closed by %s and, at the same time, by %s at %s", f, o.root.name, p.root.name, w.ipos(p.in)), append(append(o.stack, "other close:"), p.stack...)...)
			}
		}
		if owner != nil && !kinds["once"] {
			for _, g := range m.gos {
				if g.w == owner && m.ownClosed(owner)[c.classID(k)] && !g.have[c.classID(k)] && !allElem(pub) && !allShot(pub) {
					r.report("owner-restarted", name+" "+g.root.name, w.ipos(g.in), fmt.Sprintf("%s is started again without a new %s: it closes the same channel a second time when it ends", owner.name, name), append(g.stack, g.trace...)...)
				}
			}
		}
		// nobody sends on a channel that somebody else closes
		for _, s := range sends[k] {
			for _, cs := range s.cases {
				if !cs.send || cs.private || !hasClass(cs.ks, k) {
					continue
				}
				for _, o := range pub {
					if o.elem != nil && o.root == s.root || o.shot {
						continue
					}
					if o.root == s.root && (!o.root.multi || ownInstance(k, o.root)) {
						continue // ordered within the goroutine: decided on its paths
					}
					f := chanName(c, cs.field, cs.ks)
					g := m.goodGuards(cs.guards, f, m.badOpen)
					if len(g) > 0 && c.commonLock(s.acc, o.acc) {
						continue
					}
					if s.acc.nr[o.root.name] || o.acc.nr[s.root.name] || !c.coexist(s.root, o.root) {
						continue
					}
					if s.root.thread == o.root.thread && len(g) > 0 {
						continue
					}
					r.report("send-closed", f+" "+s.root.name+" "+o.root.name, w.ipos(s.in), fmt.Sprintf("%s sends on %s, which %s closes at %s: sending on a closed channel crashes the program", s.root.name, f, o.root.name, w.ipos(o.in)), append(append(s.stack, "closed:"), o.stack...)...)
				}
			}
		}
		var kk []string
		for x := range kinds {
			kk = append(kk, x)
		}
		sort.Strings(kk)
		r.sample("%s: %s", name, strings.Join(kk, ", "))
	}
	r.count("send operations", len(sends))
}

func withoutOpen(gs []string) []string {
	var r []string
	for _, g := range gs {
		if g != "open" {
			r = append(r, g)
		}
	}
	return r
}

func allElem(os []*closeOp) bool {
	for _, o := range os {
		if o.elem == nil {
			return false
		}
	}
	return true
}

func allShot(os []*closeOp) bool {
	for _, o := range os {
		if !o.shot {
			return false
		}
	}
	return true
}

func hasClass(ks []*ssa.MakeChan, k *ssa.MakeChan) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// exclusive: the two operations never overlap.
func (c *Conc) exclusive(a, b *Access) bool {
	if !c.coexist(a.root, b.root) {
		return true
	}
	if a.root.thread == b.root.thread && (!a.root.multi || a.field != nil && a.root.own[fieldOwner[a.field]]) {
		return true
	}
	return c.commonLock(a, b) || a.nr[b.root.name] || b.nr[a.root.name]
}

func (c *Conc) commonLock(a, b *Access) bool {
	for l, x := range a.locks {
		if y, ok := b.locks[l]; ok && (x || y) {
			return true
		}
	}
	return false
}

func constCap(k *ssa.MakeChan) (int64, bool) {
	c, ok := k.Size.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	i, ok := constant.Int64Val(c.Value)
	return i, ok
}

var _ = token.ARROW

// ownInstance: every instance of the goroutine has its own channel: it is made by the function that starts it.
func ownInstance(k *ssa.MakeChan, r *Root) bool {
	if r.fn == nil {
		return false
	}
	for p := r.fn.Parent(); p != nil; p = p.Parent() {
		if k.Parent() == p {
			return true
		}
	}
	return k.Parent() == r.fn
}
