package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// dumpKeys shows which parts of the state keys differ most at one program point (debugging aid).
func (ex *Explorer) dumpKeys() {
	groups := map[string][]string{}
	for k := range ex.visited {
		i := strings.LastIndex(k, "|")
		pos := ""
		for _, f := range strings.Split(k[:i], "|") {
			j := strings.IndexAny(f, "=;")
			if j < 0 {
				j = len(f)
			}
			p := f[:j]
			c := strings.Split(p, ":")
			if len(c) >= 3 {
				d := c[2]
				for x, r := range d {
					if r < '0' || r > '9' {
						d = d[:x]
						break
					}
				}
				pos += c[0] + ":" + c[1] + ":" + d + "|"
			}
		}
		groups[pos] = append(groups[pos], k)
	}
	var ps []string
	for p := range groups {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return len(groups[ps[i]]) > len(groups[ps[j]]) })
	for i := 0; i < 1 && i < len(ps); i++ {
		cnt := map[string]int{}
		for _, k := range groups[ps[i]] {
			for _, f := range strings.FieldsFunc(k, func(r rune) bool { return r == ',' || r == '|' || r == ';' }) {
				cnt[f]++
			}
		}
		fmt.Fprintln(os.Stderr, "POS", ps[i], len(groups[ps[i]]))
		var fs []string
		for f := range cnt {
			if cnt[f] < len(groups[ps[i]]) {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(a, b int) bool { return cnt[fs[a]] > cnt[fs[b]] })
		for j, f := range fs {
			if j > 40 {
				break
			}
			d := f
			for _, t := range strings.FieldsFunc(f, func(r rune) bool { return r == '=' }) {
				n := 0
				if _, err := fmt.Sscanf(strings.TrimLeft(t, "mfr"), "%d", &n); err == nil && n < len(ex.ts.list) && n >= 0 {
					d += "  [" + trunc(ex.ts.list[n].s, 90) + "]"
				}
			}
			fmt.Fprintln(os.Stderr, "   ", cnt[f], d)
		}
	}
}
