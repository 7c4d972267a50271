package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned symbolic value. Terms are built while walking the control flow; nothing is solved or executed.
type Term struct {
	id      int
	op      string
	args    []*Term
	cval    constant.Value
	payload any // *types.Var, *ssa.MakeClosure, *ssa.Function, types.Type, ssa.Value
	name    string
	gen     int
	src     *Term // for a symbol: the address it was loaded from
	typ     types.Type
	s       string
	depth   int
	syms    []*Term // the symbols in it (sorted by id, unique)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.s
}

type Terms struct {
	byKey map[string]*Term
	list  []*Term
	True  *Term
	False *Term
	Nil   *Term
}

func newTerms() *Terms {
	ts := &Terms{byKey: map[string]*Term{}}
	ts.True = ts.Const(constant.MakeBool(true), types.Typ[types.Bool])
	ts.False = ts.Const(constant.MakeBool(false), types.Typ[types.Bool])
	ts.Nil = ts.intern(&Term{op: "nil", s: "nil"}, "nil")
	return ts
}

func (ts *Terms) intern(t *Term, key string) *Term {
	if o, ok := ts.byKey[key]; ok {
		return o
	}
	t.id = len(ts.list)
	ts.list = append(ts.list, t)
	ts.byKey[key] = t
	seen := map[int]bool{}
	addSym := func(s *Term) {
		if !seen[s.id] {
			seen[s.id] = true
			t.syms = append(t.syms, s)
		}
	}
	if t.op == "sym" {
		addSym(t)
		if t.src != nil {
			// the source address is descriptive only
		}
	}
	for _, a := range t.args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, s := range a.syms {
			addSym(s)
		}
	}
	return t
}

func (ts *Terms) Const(v constant.Value, typ types.Type) *Term {
	key := "c:" + v.ExactString()
	if v.Kind() == constant.String {
		key = "s:" + constant.StringVal(v)
	}
	return ts.intern(&Term{op: "const", cval: v, s: v.String(), typ: typ}, key)
}

func (ts *Terms) Int(i int64) *Term { return ts.Const(constant.MakeInt64(i), types.Typ[types.Int]) }

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *Terms) Sym(name string, gen int, src *Term, typ types.Type, payload any) *Term {
	s := name + strings.Repeat("~", gen)
	key := "y:" + s
	if src != nil {
		key += fmt.Sprintf("@%d", src.id)
		s += "@" + src.s
	}
	return ts.intern(&Term{op: "sym", name: name, gen: gen, src: src, typ: typ, payload: payload, s: s}, key)
}

func (ts *Terms) App(op string, payload any, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	var k strings.Builder
	k.WriteString("a:" + op)
	if payload != nil {
		switch p := payload.(type) {
		case *types.Var:
			fmt.Fprintf(&k, "{%p}", p)
			b.WriteString("." + p.Name())
		case *ssa.Function:
			fmt.Fprintf(&k, "{%p}", p)
			b.WriteString("{" + fnKey(p) + "}")
		case *ssa.MakeClosure:
			fmt.Fprintf(&k, "{%p}", p)
			b.WriteString("{" + fnKey(p.Fn.(*ssa.Function)) + "}")
		case types.Type:
			fmt.Fprintf(&k, "{%s}", typeStr(p))
			b.WriteString("{" + types.TypeString(p, func(*types.Package) string { return "" }) + "}")
		default:
			fmt.Fprintf(&k, "{%v}", p)
		}
	}
	k.WriteString("(")
	b.WriteString("(")
	for i, a := range args {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&k, "%d,", a.id)
		b.WriteString(a.s)
	}
	b.WriteString(")")
	k.WriteString(")")
	return ts.intern(&Term{op: op, payload: payload, typ: typ, args: args, s: b.String()}, k.String())
}

// rename replaces symbols in t.
func (ts *Terms) rename(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil || len(t.syms) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	for _, s := range t.syms {
		if _, ok := m[s]; ok {
			hit = true
			break
		}
	}
	r := t
	if hit {
		if t.op == "sym" {
			r = m[t]
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = ts.rename(a, m, memo)
			}
			r = ts.App(t.op, t.payload, t.typ, args...)
		}
	}
	memo[t] = r
	return r
}

func (t *Term) isConst() bool { return t.op == "const" || t.op == "nil" }

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}
