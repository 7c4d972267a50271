package main

import (
	"fmt"
	"sort"
	"strings"
)

var concCache *Conc

// conc runs the concurrency model once per process.
func conc(w *World, r *Result) *Conc {
	if concCache == nil || concCache.w != w {
		c := &Conc{w: w}
		c.run()
		concCache = c
	}
	c := concCache
	if r != nil {
		for _, o := range c.over {
			r.incomplete("the analysis exceeded its budget: " + o)
		}
		gos, cbs, apis := 0, 0, 0
		for _, q := range c.roots {
			switch {
			case q.isGo:
				gos++
			case strings.HasPrefix(q.thread, "callback"):
				cbs++
			default:
				apis++
			}
		}
		r.count("goroutine roots", gos)
		r.count("callback roots", cbs)
		r.count("main thread roots", apis)
		r.count("go statements", c.goSites)
		r.count("explored program states", c.states)
		r.count("analysis steps", c.steps)
	}
	return c
}

// component assigns a state location to the race property that covers it.
func (c *Conc) raceProp(a, b *Access) string {
	owner := fieldOwner[a.field]
	switch strings.SplitN(owner, ".", 2)[0] {
	case "rx":
		return "C04"
	case "tci", "kiwi":
		return "C05"
	case "telnet", "scope":
		return "C06"
	}
	if owner == "cw.AudioDemodulator" {
		return "C05"
	}
	for _, x := range []*Access{a, b} {
		if strings.HasPrefix(x.root.name, "cw.") {
			return "C05"
		}
	}
	return "C04"
}

func checkRaces(prop string) func(w *World, r *Result) {
	return func(w *World, r *Result) {
		r.rule("Lock-set and ownership analysis: every access to a struct field, or to the elements of a container held in a field, is collected from every goroutine entry point (go statements, callbacks handed to libraries, command functions and exported component methods) by walking all paths with the callees spliced in, together with the locks held, the goroutines known to be not running (joined on their exit channel, lifecycle field nil under the start lock, not yet started) and whether the object is still private. Two accesses of the same field from two goroutines that can run together, at least one a write, with no common lock and no ordering are a violation.")
		r.assume("objects of singleton component types are identified per program; objects of the other types by the access path they are reached through")
		r.assume("the exported methods of the components are called by the command's goroutine; library callbacks run on the goroutines their library documents")
		c := conc(w, r)
		by := map[string][]*Access{}
		fields := map[string]bool{}
		n := 0
		for _, a := range c.accesses {
			k := fieldKey(a.field)
			by[k] = append(by[k], a)
		}
		var ks []string
		for k := range by {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		pairs := 0
		for _, k := range ks {
			as := by[k]
			mine := false
			for i, a := range as {
				if c.raceProp(a, a) == prop {
					mine = true
				}
				for _, b := range as[i:] {
					if !a.write && !b.write || c.raceProp(a, b) != prop {
						continue
					}
					if a.root != b.root && c.coexist(a.root, b.root) {
						pairs++
					}
					if !c.conflict(a, b) {
						continue
					}
					wr, rd := a, b
					if !wr.write {
						wr, rd = b, a
					}
					kind := "read"
					if rd.write {
						kind = "write"
					}
					r.report("race", k+": "+wr.root.name+" / "+rd.root.name, w.ipos(wr.in),
						fmt.Sprintf("%s is written by %s at %s (locks held: %s) while %s can %s it at %s (locks held: %s)", k, wr.root.name, w.ipos(wr.in), lockList(wr.locks), rd.root.name, kind, w.ipos(rd.in), lockList(rd.locks)),
						append(append([]string{"write:"}, wr.stack...), append([]string{"other access:"}, rd.stack...)...)...)
				}
			}
			if mine {
				fields[k] = true
				n += len(as)
				if len(r.samples) < 10 {
					rs := map[string]bool{}
					for _, a := range as {
						rs[a.root.name] = true
					}
					if len(rs) > 1 {
						r.sample("%s: %d accesses from %d roots", k, len(as), len(rs))
					}
				}
			}
		}
		r.count("state fields", len(fields))
		r.count("recorded accesses", n)
		r.count("access pairs of coexisting goroutines", pairs)
		switch prop {
		case "C04":
			r.floor("state fields", 50)
		case "C05":
			r.floor("state fields", 25)
		case "C06":
			r.floor("state fields", 12)
		}
		r.floor("goroutine roots", 12)
	}
}

func lockList(m map[string]bool) string {
	if len(m) == 0 {
		return "none"
	}
	var s []string
	for l, x := range m {
		if !x {
			l += " (shared)"
		}
		s = append(s, l)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (c *Conc) conflict(a, b *Access) bool {
	if !c.coexist(a.root, b.root) {
		return false
	}
	if a.root.thread == b.root.thread {
		if !a.root.multi || !b.root.multi {
			return false
		}
		if a.root.own[fieldOwner[a.field]] {
			return false
		}
	}
	for l, x := range a.locks {
		if y, ok := b.locks[l]; ok && (x || y) {
			return false
		}
	}
	return !a.nr[b.root.name] && !b.nr[a.root.name]
}

func init() {
	for _, p := range []string{"C04", "C05", "C06"} {
		checks[p] = checkRaces(p)
	}
}
