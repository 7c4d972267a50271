// Command sdcheck decides the properties of /verif/properties.jsonl by static analysis of the sources of sdrainer.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// checks maps a property to the functions that decide it.
var checks = map[string]func(w *World, r *Result){}

func main() {
	prop := flag.String("property", "", "property id (comma separated list, or all)")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "directory of the evidence and the known findings")
	flag.Parse()
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	knownFile := filepath.Join(*verif, "known_findings.jsonl")
	t0 := time.Now()
	w, err := load(*repo)
	if err == nil {
		err = protect(func() {
			w.indexFields()
			w.pts = buildPTS(w)
		})
	}
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		lw := w
		if lw == nil {
			lw = &World{dir: *repo}
		}
		r := newResult(lw, id)
		if err != nil {
			r.report("load", "load", "-", "the source tree cannot be analysed, so the property is undecided: "+err.Error())
		} else if f := checks[id]; f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		} else if e := protect(func() { f(w, r) }); e != nil {
			r.incomplete("the analysis failed, so the property is undecided: " + e.Error())
		}
		if c := r.finish(*verif, t0, knownFile); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func protect(f func()) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v\n%s", p, debug.Stack())
		}
	}()
	f()
	return nil
}
