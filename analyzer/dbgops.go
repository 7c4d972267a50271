package main

import (
	"fmt"
	"os"
	"sort"
)

func (m *chanMon) dump() {
	var out []string
	cn := func(cs chanCase) string {
		s := "recv "
		if cs.send {
			s = "send "
		}
		s += chanName(m.c, cs.field, cs.ks)
		if !cs.nonNil {
			s += "(nilable"
			for _, g := range cs.guards {
				s += " " + g
			}
			s += ")"
		}
		for _, k := range cs.ks {
			if w := m.c.exitOf[k]; w != nil {
				s += " [exit of " + w.name + "]"
			}
		}
		return s
	}
	ids := func(x map[int]bool) string {
		s := ""
		for i := range x {
			for k := range m.c.closeRoots {
				if m.c.classID(k) == i {
					s += m.c.className(k) + " "
				}
			}
		}
		return s
	}
	seen := map[string]bool{}
	for _, o := range m.ops {
		s := m.c.w.ipos(o.in) + " <" + o.root.name + "> "
		for _, c := range o.cases {
			s += "| " + cn(c) + " "
		}
		if o.dflt {
			s += "| default"
		}
		s += o.ext
		if o.lock != "" {
			s += "lock " + o.lock
		}
		s += fmt.Sprintf(" sg{%s} sx=%v dl=%t ans{%s} ansb{%s} pend=%t after=%t locks=%v", ids(o.sg), o.sx, o.dl, ids(o.ans), ids(o.ansBuf), o.pending, o.after, lockList(o.acc.locks))
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	for _, s := range out {
		fmt.Fprintln(os.Stderr, s)
	}
	for q, es := range m.exits {
		for _, e := range es {
			fmt.Fprintln(os.Stderr, "EXIT", q.name, q.isGo, "sg{", ids(e.sg), "}", e.sx)
		}
	}
}
