package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() { checks["C34"] = checkC34 }

// addressSinks: functions that take an address as text, and the index of that argument in the call.
var addressSinks = map[string]int{
	"net.Dial": 1, "net.DialTimeout": 1, "net.Listen": 1, "net.ResolveTCPAddr": 1, "net.ResolveUDPAddr": 1,
	"google.golang.org/grpc.NewClient": 0, "google.golang.org/grpc.Dial": 0, "google.golang.org/grpc.DialContext": 1,
	"(*github.com/gorilla/websocket.Dialer).Dial": 1, "(*github.com/gorilla/websocket.Dialer).DialContext": 2,
	"net/url.Parse": 0, "net/url.ParseRequestURI": 0, "net/http.ListenAndServe": 0,
}

func calleeName(c ssa.CallInstruction) string {
	if g := c.Common().StaticCallee(); g != nil {
		return g.String()
	}
	return ""
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

// fmtArgs returns the values given to the variadic parameter of a call of a formatting function.
func fmtArgs(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	res := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok || i < 0 || i >= int64(len(res)) {
			return nil
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				v := st.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				res[i] = v
			}
		}
	}
	return res
}

// hostVerb returns the index of the argument that is rendered directly before a colon and a further argument, e.g. "%s:%d", -1 if there is none.
func hostVerb(format string) int {
	n := -1
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return -1
		}
		if format[j] == '[' || format[j] == '*' {
			return -1
		}
		if format[j] == '%' {
			i = j
			continue
		}
		n++
		if strings.HasPrefix(format[j+1:], ":%") && !strings.HasPrefix(format[j+1:], ":%%") {
			return n
		}
		i = j
	}
	return -1
}

// reachesAddress: does the text get to a place that takes an address?
func (w *World) reachesAddress(v ssa.Value) string {
	fl := newFlow(w)
	fl.vals[v] = true
	fl.run()
	for _, f := range fl.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					n := calleeName(x)
					if i, ok := addressSinks[n]; ok && i < len(x.Common().Args) && fl.carries(x.Common().Args[i]) {
						return strings.TrimPrefix(n, "github.com/") + " in " + fnKey(f)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fl.carries(x.Val) {
						if v := fieldVar(fa.X.Type(), fa.Field); v != nil && v.Name() == "Host" && typeStr(deref(fa.X.Type())) == "net/url.URL" {
							return "url.URL.Host in " + fnKey(f)
						}
					}
				}
			}
		}
	}
	return ""
}

func checkC34(w *World, r *Result) {
	r.rule("an address is never put together from a host and a port without net.JoinHostPort (or the String method of the address), and the zone of an IPv6 address is kept")
	r.rule("the default host and the default port are used exactly if the argument has none")
	r.rule("a host argument is split only at the colon in front of the port: behind the brackets, never inside of an IPv6 address; brackets are removed before the parts are joined again")
	r.rule("the address of a host argument is only used after its port was found to be other than zero, or was set to the default port: on every path, for every host")
	r.assume("the TCI library builds the URL of the TCI server by itself")
	var out findings

	portStores := w.zeroPorts(r, &out)

	// the family of the addresses
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(calleeName(c), "net.") && !strings.HasPrefix(calleeName(c), "(*net.Resolver).") && !strings.HasPrefix(calleeName(c), "(*net.Dialer).") {
					continue
				}
				for _, a := range c.Common().Args {
					if s, ok := constStr(a); ok && (s == "tcp4" || s == "tcp6" || s == "ip4" || s == "ip6") {
						out.add("family", "family:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s works for the addresses of one family (%s) only", fnKey(f), s))
					}
				}
			}
		}
	}

	// rendering
	for _, f := range w.funcs {
		if !w.inRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		zone := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if v := fieldVar(fa.X.Type(), fa.Field); v != nil && v.Name() == "Zone" {
						zone = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					n := calleeName(x)
					if n != "fmt.Sprintf" || len(x.Call.Args) != 2 {
						if _, ok := addressSinks[n]; ok {
							r.count("places that take an address", 1)
						}
						continue
					}
					format, ok := constStr(x.Call.Args[0])
					if !ok {
						continue
					}
					k := hostVerb(format)
					if k < 0 {
						continue
					}
					as := fmtArgs(x.Call.Args[1])
					if k >= len(as) || as[k] == nil {
						continue
					}
					if s, ok := constStr(as[k]); ok && !strings.Contains(s, ":") {
						continue
					}
					if b, ok := as[k].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
						continue
					}
					if bracketed(w, as[k]) {
						continue
					}
					r.count("formatted addresses", 1)
					if to := w.reachesAddress(x); to != "" {
						out.add("unbracketed", "unbracketed:"+fnKey(f), w.ipos(x), fmt.Sprintf("%s renders a host and a port as %q: an IPv6 address is not put into brackets (it gets to %s)", fnKey(f), format, to))
					}
				case *ssa.BinOp:
					if x.Op != token.ADD {
						continue
					}
					s, ok := constStr(x.Y)
					if !ok || s != ":" {
						continue
					}
					if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
						continue
					}
					if bracketed(w, x.X) {
						continue
					}
					if to := w.reachesAddress(x); to != "" {
						out.add("unbracketed", "unbracketed:"+fnKey(f), w.ipos(x), fmt.Sprintf("%s joins a host and a port with a colon: an IPv6 address is not put into brackets (it gets to %s)", fnKey(f), to))
					}
				case *ssa.FieldAddr:
					v := fieldVar(x.X.Type(), x.Field)
					if v == nil || v.Pkg() == nil || v.Pkg().Path() != "net" || typeStr(deref(x.X.Type())) != "net.TCPAddr" {
						continue
					}
					switch v.Name() {
					case "IP":
						for _, u := range *x.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && !zone {
								if to := w.reachesAddress(l); to != "" {
									out.add("zone", "zone:"+fnKey(f), w.ipos(l), fmt.Sprintf("%s uses the IP of an address without its zone (it gets to %s): link-local IPv6 hosts cannot be reached", fnKey(f), to))
								}
							}
						}
					case "Port":
						for _, u := range *x.Referrers() {
							st, ok := u.(*ssa.Store)
							if !ok || st.Addr != ssa.Value(x) {
								continue
							}
							if fresh(x.X) {
								continue
							}
							r.count("default ports set", 1)
							if !portStores[st] && !guardedByZero(b, v) {
								out.add("port-overwritten", "port-overwritten:"+fnKey(f), w.ipos(st), fmt.Sprintf("%s overwrites the port of an address without the condition that it has none", fnKey(f)))
							}
						}
					}
				}
			}
		}
	}
	r.floor("places that take an address", 4)

	// parsing
	f := w.fn("cli.ParseTCPAddrArg")
	if r.need(f != nil && len(f.Params) == 3, "cli.ParseTCPAddrArg") {
		w.parsing(r, &out, f)
	}
	r.addAll(out.list)
}

func fresh(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// bracketed: the value was put into brackets or joined properly before.
func bracketed(w *World, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(x)
		return n == "net.JoinHostPort" || strings.HasSuffix(n, ").String") && strings.Contains(n, "Addr")
	case *ssa.BinOp:
		if s, ok := constStr(x.Y); ok && strings.HasSuffix(s, "]") {
			return true
		}
	case *ssa.Parameter:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if bracketed(w, e) {
				return true
			}
		}
	}
	return false
}

// guardedByZero: the block is only executed if the field is zero.
func guardedByZero(b *ssa.BasicBlock, fv *types.Var) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := cmp.X, cmp.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		l, ok := x.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			continue
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
			continue
		}
		n, ok := constInt(y)
		if !ok {
			continue
		}
		yes := p.Succs[0] == d && len(d.Preds) == 1
		no := p.Succs[1] == d && len(d.Preds) == 1
		switch cmp.Op {
		case token.EQL:
			return n == 0 && yes
		case token.NEQ:
			return n == 0 && no
		case token.LEQ:
			return n == 0 && yes
		case token.LSS:
			return (n == 1 || n == 0) && yes
		case token.GTR:
			return n == 0 && no
		}
	}
	return false
}

// charsOf: for which characters does a loop over a text go on, and for which does the function return something in the middle of it?
type charClass struct {
	fn      *ssa.Function
	goes    [256]bool
	unknown bool
}

// charLoops evaluates the conditions inside of the loops over the characters of a text for each character.
func (w *World) charLoops(f *ssa.Function) []charClass {
	var res []charClass
	for _, l := range loopsOf(f) {
		var char ssa.Value
		for b := range l.blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Lookup:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						char = x
					}
				case *ssa.Index:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						char = x
					}
				case *ssa.Extract:
					if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 2 {
						char = x
					}
				}
			}
		}
		if char == nil {
			continue
		}
		cc := charClass{fn: f}
		start := char.(ssa.Instruction).Block()
		for c := 0; c < 256; c++ {
			b, prev := start, (*ssa.BasicBlock)(nil)
			for steps := 0; ; steps++ {
				if steps > 50 {
					cc.unknown = true
					break
				}
				var next *ssa.BasicBlock
				switch t := b.Instrs[len(b.Instrs)-1].(type) {
				case *ssa.Jump:
					next = b.Succs[0]
				case *ssa.If:
					v, ok := charCond(t.Cond, char, int64(c), b, prev, 0)
					if !ok {
						cc.unknown = true
					} else if v {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				}
				if next == nil {
					break
				}
				if next == l.header {
					cc.goes[c] = true
					break
				}
				if !l.blocks[next] {
					break
				}
				prev, b = b, next
			}
			if cc.unknown {
				break
			}
		}
		res = append(res, cc)
	}
	return res
}

func charCond(v ssa.Value, char ssa.Value, c int64, b, prev *ssa.BasicBlock, d int) (bool, bool) {
	if d > 6 {
		return false, false
	}
	num := func(x ssa.Value) (int64, bool) {
		if cv, ok := x.(*ssa.Convert); ok {
			x = cv.X
		}
		if x == char {
			return c, true
		}
		return constInt(x)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok1 := num(x.X)
		e, ok2 := num(x.Y)
		if !ok1 || !ok2 {
			return false, false
		}
		switch x.Op {
		case token.LSS:
			return a < e, true
		case token.LEQ:
			return a <= e, true
		case token.GTR:
			return a > e, true
		case token.GEQ:
			return a >= e, true
		case token.EQL:
			return a == e, true
		case token.NEQ:
			return a != e, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			r, ok := charCond(x.X, char, c, b, prev, d+1)
			return !r, ok
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.Phi:
		if x.Block() == b && prev != nil {
			for i, p := range b.Preds {
				if p == prev {
					return charCond(x.Edges[i], char, c, b, nil, d+1)
				}
			}
		}
	case *ssa.Call:
		if n := calleeName(x); n == "unicode.IsDigit" || n == "unicode.IsNumber" {
			return c >= '0' && c <= '9', true
		}
	}
	return false, false
}

func callOf(t *Term) string {
	if t != nil && t.op == "call" {
		if f, ok := t.payload.(*ssa.Function); ok {
			return f.String()
		}
	}
	return ""
}

func noLow(t *Term) bool { return t.op == "none" || isIntConst(t, 0) }

func isStrConst(t *Term, s string) bool {
	return t != nil && t.op == "const" && t.cval != nil && t.cval.Kind() == constant.String && constant.StringVal(t.cval) == s
}

func (w *World) parsing(r *Result, out *findings, f *ssa.Function) {
	seen := map[*ssa.Function]bool{f: true}
	joined := false
	cut := false
	known := map[string]bool{}
	var unchecked bool
	var arg, dh, dp *Term
	ex := newExplorer(w, nil2rule())
	ex.rule.OnBranch = func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
		if taken && cond.op == "eq" && (isStrConst(cond.args[0], "") || isStrConst(cond.args[1], "")) && !cond.contains(arg) {
			st.set("opaque")
		}
	}
	ex.rule.OnCall = func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
		if inlined {
			seen[c.fn] = true
			return
		}
		if c.name != "net.ResolveTCPAddr" || len(args) != 2 {
			return
		}
		t := args[1]
		if t.op == "+" || callOf(t) == "" && t.op != "sym" || t == arg {
			if t == arg {
				out.add("not-split", "not-split:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s resolves the argument as it is: without a port it is not an address", fnKey(f)), st.traceText(6)...)
			}
			known["joined in another way"] = true
			return
		}
		if callOf(t) != "net.JoinHostPort" || len(t.args) != 2 {
			known["joined in another way"] = true
			return
		}
		joined = true
		r.count("ways through the parser", 1)
		h, p := t.args[0], t.args[1]
		report := func(rule, msg string) {
			out.add(rule, rule+":"+fnKey(f), w.ipos(in), fnKey(f)+" "+msg, st.traceText(8)...)
		}
		fact := func(pred func(t *Term, v bool) bool) bool {
			for t, v := range st.facts {
				if pred(t, v) {
					return true
				}
			}
			return false
		}
		empty := func(x *Term, want bool) bool {
			return fact(func(t *Term, v bool) bool {
				if t.op == "eq" && len(t.args) == 2 {
					a, b := t.args[0], t.args[1]
					if isStrConst(b, "") || isIntConst(b, 0) {
						a, b = b, a
					}
					if isStrConst(a, "") && b == x || isIntConst(a, 0) && b.op == "len" && b.args[0] == x {
						return v == want
					}
				}
				if t.op == "lt" && len(t.args) == 2 && isIntConst(t.args[0], 0) && t.args[1].op == "len" && t.args[1].args[0] == x {
					return v == !want
				}
				return false
			})
		}
		// the host part: arg, arg[:k], or one of them without its first and last byte
		strip := func(x *Term) (*Term, bool) {
			if x.op == "slice" && isIntConst(x.args[1], 1) && x.args[2].op != "none" && x.args[0] != nil {
				hi := x.args[2]
				if hi.op == "-" && hi.args[0].op == "len" && hi.args[0].args[0] == x.args[0] && isIntConst(hi.args[1], 1) {
					return x.args[0], true
				}
			}
			return x, false
		}
		cutAt := func(x *Term) *Term {
			if x.op == "slice" && x.args[0] == arg && noLow(x.args[1]) && x.args[2].op != "none" {
				return x.args[2]
			}
			return nil
		}
		isHost := func(x *Term) bool {
			y, _ := strip(x)
			return y == arg || cutAt(y) != nil
		}
		portAt := func(x *Term) (*Term, bool) { // arg[k+1:], exactly
			if x.op == "slice" && x.args[0] == arg && x.args[2].op == "none" {
				lo := x.args[1]
				if lo.op == "+" && isIntConst(lo.args[0], 1) {
					return lo.args[1], true
				}
				if lo.op == "+" && isIntConst(lo.args[1], 1) {
					return lo.args[0], true
				}
				return lo, false
			}
			return nil, false
		}
		isPortDefault := func(x *Term) bool { return x.contains(dp) }
		isDefHost := h == dh

		switch {
		case isDefHost:
			ok := fact(func(t *Term, v bool) bool {
				for _, x := range []*Term{arg} {
					if empty(x, true) {
						return true
					}
				}
				if t.op == "eq" && v && len(t.args) == 2 {
					for _, x := range t.args {
						if isHost(x) || x.op == "len" && isHost(x.args[0]) {
							return true
						}
					}
				}
				return false
			})
			opaque := fact(func(t *Term, v bool) bool { return t.op == "eq" && v && !isHost(t.args[0]) && !isHost(t.args[1]) })
			if !ok && !opaque && !st.has("opaque") {
				report("default-host", "uses the default host although the argument may contain a host")
			}
		case isHost(h):
			if !empty(h, false) {
				report("empty-host", "may use an empty host from the argument instead of the default host")
			}
		case h.contains(dh) && h.contains(arg):
			report("mixed-host", "mixes the default host with the argument")
		case !h.contains(arg) && !isStrConst(h, ""):
			if h.op == "const" {
				report("other-host", "uses a fixed host instead of the default host")
			}
		default:
			known["host part taken in another way"] = true
		}
		switch k, exact := portAt(p); {
		case isPortDefault(p):
			if y, _ := strip(h); cutAt(y) != nil {
				k := cutAt(y)
				found, isEmpty := false, false
				fact(func(t *Term, v bool) bool {
					if t.op == "eq" && len(t.args) == 2 {
						for i, x := range t.args {
							if o := t.args[1-i]; !isStrConst(o, "") && !isIntConst(o, 0) {
								continue
							}
							if x.op == "len" {
								x = x.args[0]
							}
							if kk, ok := portAt(x); ok && kk == k {
								found = true
								isEmpty = isEmpty || v
							}
						}
					}
					return false
				})
				if !found || !isEmpty {
					report("default-port", "uses the default port although the argument may contain a port")
				}
			}
		case k != nil:
			cut = true
			if !exact {
				report("misaligned", "takes the colon as part of the port")
				break
			}
			if !empty(p, false) {
				report("empty-port", "may use an empty port from the argument instead of the default port")
			}
			if y, _ := strip(h); y == arg || cutAt(y) != nil && cutAt(y) != k {
				report("misaligned", "takes the host and the port from overlapping or distant parts of the argument")
			}
			if !fact(func(t *Term, v bool) bool {
				if t.op == "eq" && v {
					for i, x := range t.args {
						if kk, _ := portAt(x); kk == k && isStrConst(t.args[1-i], "") {
							return true
						}
					}
				}
				return mentionsCallOn(t, arg, 0)
			}) {
				unchecked = true
			}
			n := callOf(k)
			last := n == "strings.LastIndexByte" || n == "strings.LastIndex"
			first := n == "strings.IndexByte" || n == "strings.Index" || n == "strings.IndexRune"
			has := func(x *Term, fn, s string, want bool) bool {
				return fact(func(t *Term, v bool) bool {
					return v == want && callOf(t) == fn && len(t.args) == 2 && t.args[0] == x && isStrConst(t.args[1], s)
				})
			}
			firstIs := func(want bool) bool { // arg[0] == '['
				return fact(func(t *Term, v bool) bool {
					return t.op == "eq" && v == want && (isIntConst(t.args[0], '[') && t.args[1].op == "idx" || isIntConst(t.args[1], '[') && t.args[0].op == "idx")
				})
			}
			noBracket := has(arg, "strings.HasPrefix", "[", false) || firstIs(false)
			bracket := has(arg, "strings.HasPrefix", "[", true) || firstIs(true)
			if y, _ := strip(h); true {
				noBracket = noBracket || has(y, "strings.HasPrefix", "[", false)
				bracket = bracket || has(y, "strings.HasPrefix", "[", true)
			}
			if first && !noBracket {
				report("first-colon", "splits at the first colon, also of an IPv6 address in brackets")
			}
			if last || first {
				// an IPv6 address without brackets
				one := fact(func(t *Term, v bool) bool {
					upTo := func(x *Term, max int64) bool {
						for i := int64(0); i <= max; i++ {
							if isIntConst(x, i) {
								return true
							}
						}
						return false
					}
					if t.op == "lt" && !v && callOf(t.args[1]) == "strings.Count" && upTo(t.args[0], 1) {
						return true
					}
					if t.op == "lt" && v && callOf(t.args[0]) == "strings.Count" && upTo(t.args[1], 2) {
						return true
					}
					if t.op == "eq" && v && (callOf(t.args[0]) == "strings.Count" && upTo(t.args[1], 1) || callOf(t.args[1]) == "strings.Count" && upTo(t.args[0], 1)) {
						return true
					}
					hit := false
					var walk func(x *Term, d int)
					walk = func(x *Term, d int) {
						if x == nil || d > 8 {
							return
						}
						switch n := callOf(x); {
						case n == "" || n == "strings.Count" || n == "strings.HasPrefix" || n == "strings.HasSuffix":
						case x == k:
						case strings.HasPrefix(n, "net.") || strings.HasPrefix(n, "net/netip.") || strings.HasPrefix(n, "strings."):
							hit = hit || x.contains(arg)
						}
						for _, a := range x.args {
							walk(a, d+1)
						}
					}
					walk(t, 0)
					return hit
				})
				if !one && !bracket {
					report("bare-ipv6", "splits an IPv6 address without brackets at its last colon")
				}
			}
			if !last && !first {
				known["port part found in another way"] = true
			}
		case isStrConst(p, ""):
			report("no-port", "uses an empty port instead of the default port")
		case p.op == "const":
			report("other-port", "uses a fixed port instead of the default port")
		default:
			known["port part taken in another way"] = true
		}
		// brackets
		if isHost(h) {
			if y, stripped := strip(h); !stripped {
				free := fact(func(t *Term, v bool) bool {
					n := callOf(t)
					if (n == "strings.HasPrefix" || n == "strings.HasSuffix") && len(t.args) == 2 && !v {
						return t.args[0] == y || t.args[0] == arg && n == "strings.HasPrefix"
					}
					return t.op == "eq" && !v && (isIntConst(t.args[0], '[') || isIntConst(t.args[1], '[') || isIntConst(t.args[0], ']') || isIntConst(t.args[1], ']'))
				})
				short := fact(func(t *Term, v bool) bool { return t.op == "lt" && (mentionsLen(t, y, 0) || mentionsLen(t, arg, 0)) })
				if !free && !short {
					report("brackets-kept", "keeps the brackets of an IPv6 address, which are then added a second time")
				}
			} else {
				has := func(fn string, c rune) bool {
					return fact(func(t *Term, v bool) bool {
						return callOf(t) == fn && v && len(t.args) == 2 && (t.args[0] == y || t.args[0] == arg) && isStrConst(t.args[1], string(c)) ||
							t.op == "eq" && v && (isIntConst(t.args[0], int64(c)) || isIntConst(t.args[1], int64(c)))
					})
				}
				if !has("strings.HasPrefix", '[') && !has("strings.HasSuffix", ']') {
					report("stripped", "cuts off the first and the last character of a host that may have no brackets")
				}
			}
		}
	}
	ex.Run(f, func(st *State, fr *FState) {
		arg, dh, dp = fr.regs[f.Params[0]], fr.regs[f.Params[1]], fr.regs[f.Params[2]]
		st.setT("arg", arg)
	})
	if ex.over {
		r.incomplete("the parser of host arguments has too many ways")
	}
	for k := range known {
		r.assume("host arguments: " + k + " (not judged)")
	}
	if !joined {
		r.assume("the host argument is not resolved by net.ResolveTCPAddr with net.JoinHostPort")
	}
	if cut {
		// what may follow the colon
		loops := 0
		for g := range seen {
			for _, cc := range w.charLoops(g) {
				if cc.unknown {
					r.assume("a loop over the characters of the host argument was not understood")
					loops++
					continue
				}
				loops++
				r.count("character classes", 1)
				for c := '0'; c <= '9'; c++ {
					if !cc.goes[c] {
						out.add("digits", "digits:"+fnKey(g), w.pos(g.Pos()), fmt.Sprintf("%s does not accept the digit %c in a port", fnKey(g), c))
						break
					}
				}
				if cc.goes[']'] {
					out.add("colon-in-brackets", "colon-in-brackets:"+fnKey(g), w.pos(g.Pos()), fmt.Sprintf("%s accepts a closing bracket in a port: the address is split inside of the brackets", fnKey(g)))
				}
			}
		}
		if loops == 0 && unchecked {
			out.add("colon-in-brackets", "colon-in-brackets:"+fnKey(f), w.pos(f.Pos()), fmt.Sprintf("%s takes everything behind the last colon as port: an IPv6 address in brackets without port is split inside of the brackets", fnKey(f)))
		}
	}
}

func nil2rule() *Rule {
	return &Rule{Interesting: func(in ssa.Instruction) bool { return true }}
}

func mentionsLen(t, x *Term, d int) bool {
	if t == nil || d > 6 {
		return false
	}
	if t.op == "len" && t.args[0] == x {
		return true
	}
	for _, a := range t.args {
		if mentionsLen(a, x, d+1) {
			return true
		}
	}
	return false
}

// mentionsCallOn: the condition looks at what follows the colon (or at the closing bracket) by a function of the standard library.
func mentionsCallOn(t, arg *Term, d int) bool {
	if t == nil || d > 8 {
		return false
	}
	switch n := callOf(t); n {
	case "", "strings.Count", "strings.HasPrefix":
	case "strings.HasSuffix":
		if len(t.args) == 2 && t.args[0] == arg && isStrConst(t.args[1], "]") {
			return true
		}
	case "strings.LastIndexByte", "strings.LastIndex", "strings.Index", "strings.IndexByte":
		if len(t.args) == 2 && t.contains(arg) && !isIntConst(t.args[1], ':') && !isStrConst(t.args[1], ":") {
			return true
		}
	default:
		if t.contains(arg) {
			return true
		}
	}
	for _, a := range t.args {
		if mentionsCallOn(a, arg, d+1) {
			return true
		}
	}
	return false
}

// zeroPorts: the parsed address of a host argument keeps no port 0.
func (w *World) zeroPorts(r *Result, out *findings) (seen map[*ssa.Store]bool) {
	seen = map[*ssa.Store]bool{}
	parse := w.fn("cli.ParseTCPAddrArg")
	if parse == nil {
		return seen
	}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "cli") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					x, okX := constStr(bo.X)
					y, okY := constStr(bo.Y)
					if okX && x == "0" || okY && y == "0" {
						r.assume("port 0 is recognised in the text of the argument")
						return seen
					}
				}
			}
		}
	}
	portOf := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		return fv != nil && fv.Name() == "Port" && typeStr(deref(fa.X.Type())) == "net.TCPAddr"
	}
	isPort := func(v ssa.Value) bool {
		l, ok := v.(*ssa.UnOp)
		return ok && l.Op == token.MUL && portOf(l.X)
	}
	var roots []*ssa.Function
	for _, site := range w.callSitesOf(parse) {
		f := site.Parent()
		// the one that looks after the port may be the caller
		roots = append(roots, f)
	}
	// libDefault: the address goes to a library that itself takes the same default port instead of port 0.
	libDefault := func(f *ssa.Function) bool {
		def, found := int64(0), false
		for _, site := range w.callSitesOf(parse) {
			if site.Parent() == f && len(site.Common().Args) == 3 {
				def, found = constInt(site.Common().Args[2])
			}
		}
		if !found || def == 0 {
			return false
		}
		inside := func(pkg *ssa.Package) bool { return w.libraryPort(pkg.Pkg, def) }
		sinks, ok := 0, true
		for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
			if fnPkg(g) != fnPkg(f) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					if !isCall {
						continue
					}
					for _, a := range c.Common().Args {
						if typeStr(deref(a.Type())) != "net.TCPAddr" {
							continue
						}
						callee := c.Common().StaticCallee()
						if callee != nil && w.inRepo(callee) {
							continue
						}
						sinks++
						ok = ok && callee != nil && callee.Pkg != nil && inside(callee.Pkg)
					}
				}
			}
		}
		return ok && sinks > 0
	}
	for _, f := range uniqFns(roots) {
		lib := libDefault(f)
		if lib {
			r.assume(fnKey(f) + " gives its address to a library that takes the default port for port 0")
		}
		handled := func(f *ssa.Function) bool {
			for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
				if !w.inRepo(g) {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && portOf(s.Addr) {
							return true
						}
					}
				}
			}
			return false
		}
		root := f
		for i := 0; i < 3 && !handled(root); i++ {
			sites := w.callSitesOf(root)
			if len(sites) != 1 {
				break
			}
			root = sites[0].Parent()
		}
		if !handled(root) {
			if lib {
				continue
			}
			out.add("port-zero", "port-zero:"+fnKey(f), w.pos(f.Pos()), fmt.Sprintf("the address that %s gets may have port 0: the default port is not used for it", fnKey(f)))
			continue
		}
		r.count("parsed addresses followed", 1)
		interesting := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				return portOf(x)
			case *ssa.Call:
				return x.Call.StaticCallee() == parse
			}
			return false
		}
		lookup := func(in *ssa.If) (ssa.Value, token.Token, bool) {
			bo, ok := in.Cond.(*ssa.BinOp)
			if !ok {
				return nil, 0, false
			}
			x, y, op := bo.X, bo.Y, bo.Op
			if _, isC := x.(*ssa.Const); isC {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			c, isC := y.(*ssa.Const)
			if !isC || !isPort(x) {
				return nil, 0, false
			}
			n, ok := constInt(c)
			if !ok {
				return nil, 0, false
			}
			if n == 1 && op == token.LSS {
				op, n = token.LEQ, 0
			}
			if n == 1 && op == token.GEQ {
				op, n = token.GTR, 0
			}
			return x, op, n == 0
		}
		use := func(st *State, in ssa.Instruction) {
			if st.has("H") && !st.has("P") && !lib {
				out.add("port-zero", "port-zero:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s goes on with an address that may have port 0: the default port is not used for it on every path", fnKey(f)), st.traceText(8)...)
			}
		}
		ports := map[*Term]bool{}
		ex := newExplorer(w, &Rule{
			Interesting: interesting,
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && portOf(s.Addr) {
					st.set("P")
					if st.has("H") && !fresh(s.Addr.(*ssa.FieldAddr).X) {
						seen[s] = true
						if !st.has("Z") {
							out.add("port-overwritten", "port-overwritten:"+fnKey(s.Parent()), w.ipos(s), fmt.Sprintf("%s overwrites the port of an address without the condition that it has none", fnKey(s.Parent())), st.traceText(8)...)
						}
					}
				}
			},
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
				if c.name == "net.ResolveTCPAddr" {
					st.unset("P")
					st.unset("Z")
					st.set("H")
				}
				if c.fn == parse {
					st.set("H")
				}
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
				if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isErrorType(bo.X.Type()) && st.has("H") {
					if _, isC := bo.Y.(*ssa.Const); isC && (bo.Op == token.NEQ) == taken {
						st.set("E")
					}
				}
				_, op, ok := lookup(in)
				if !ok {
					// the condition may have been computed in a helper
					if c != nil && !c.isConst() && mentionsAny(c, ports) {
						switch {
						case c.op == "eq" && taken:
							st.set("Z")
						case c.op == "eq":
							st.set("P")
						default:
							st.set("P")
							st.set("Z")
						}
					} else if c != nil && c.isConst() && in.Cond.Type().Underlying() == types.Typ[types.Bool] && st.has("H") {
						if _, isCall := in.Cond.(*ssa.Call); isCall && len(ports) > 0 {
							st.set("P") // decided before
							st.set("Z")
						}
					}
					return
				}
				switch op {
				case token.EQL, token.LEQ:
					if taken {
						st.set("Z")
					} else {
						st.set("P")
					}
				case token.NEQ, token.GTR:
					if taken {
						st.set("P")
					} else {
						st.set("Z")
					}
				}
			},
			OnLoad: func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term) {
				if portOf(in.X) {
					ports[val] = true
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				r.count("ways followed with a parsed address", 1)
				if !st.has("E") {
					use(st, root.Blocks[0].Instrs[0])
				}
			},
		})
		ex.budget = 100_000
		ex.Run(root, nil)
		if ex.over {
			r.incomplete("the exploration of " + fnKey(root) + " was given up")
		}
	}
	return seen
}

func mentionsAny(t *Term, in map[*Term]bool) bool {
	for x := range in {
		if mentionsTerm(t, x, 0) {
			return true
		}
	}
	return false
}

// libraryPort: the library package asks a port for 0 and takes the given one instead (read from its source).
func (w *World) libraryPort(pkg *types.Package, def int64) bool {
	var files []string
	packages.Visit(w.pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == pkg.Path() {
			files = p.GoFiles
		}
	})
	for _, name := range files {
		file, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			isPort := func(e ast.Expr) bool {
				s, ok := e.(*ast.SelectorExpr)
				return ok && s.Sel.Name == "Port"
			}
			ports, takes := map[string]bool{}, false
			isDef := func(e ast.Expr) bool {
				switch e := e.(type) {
				case *ast.BasicLit:
					return e.Value == strconv.FormatInt(def, 10)
				case *ast.Ident:
					c, ok := pkg.Scope().Lookup(e.Name).(*types.Const)
					if !ok {
						return false
					}
					k, exact := constant.Int64Val(constant.ToInt(c.Val()))
					return exact && k == def
				}
				return false
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if len(n.Lhs) == 1 && len(n.Rhs) == 1 && isPort(n.Rhs[0]) {
						if id, ok := n.Lhs[0].(*ast.Ident); ok {
							ports[id.Name] = true
						}
					}
				case *ast.IfStmt:
					bo, ok := n.Cond.(*ast.BinaryExpr)
					if !ok || bo.Op != token.EQL {
						return true
					}
					zero, ok := bo.Y.(*ast.BasicLit)
					id, isID := bo.X.(*ast.Ident)
					if !ok || zero.Value != "0" || !isPort(bo.X) && !(isID && ports[id.Name]) {
						return true
					}
					for _, st := range n.Body.List {
						if as, ok := st.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 && isDef(as.Rhs[0]) && types.ExprString(as.Lhs[0]) == types.ExprString(bo.X) {
							takes = true
						}
					}
				}
				return true
			})
			if takes {
				return true
			}
		}
	}
	return false
}
