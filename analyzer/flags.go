package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C37"] = checkC37 }

// command is one cobra command of the program.
type command struct {
	alloc   ssa.Value
	name    string // first word of Use
	runs    []ssa.Value
	parents []*command
	reach   map[*ssa.Function]bool
}

func (c *command) path() string {
	if len(c.parents) > 0 {
		return c.parents[0].path() + " " + c.name
	}
	return c.name
}

// option is one binding of a command line option.
type option struct {
	cmd        *command
	persistent bool
	name       string
	target     *types.Var  // the field it is stored in
	global     *ssa.Global // or the variable
	def        ssa.Value
	at         ssa.CallInstruction
}

type cmdMon struct {
	w        *World
	cmds     []*command
	byAlloc  map[ssa.Value]*command
	opts     []*option
	unclear  []string
	initFns  map[*ssa.Function]bool
	ctl      *stickyMon
	runFuncs map[*ssa.Function]bool
	ignored  map[*ssa.Function]bool
}

func isCobraCommand(t types.Type) bool { return typeStr(deref(t)) == "github.com/spf13/cobra.Command" }

func (m *cmdMon) cmdsOf(v ssa.Value) []*command {
	var res []*command
	if cs, ok := m.exactCmds(v, 0); ok {
		return cs
	}
	for _, o := range m.w.pts.Objs(v) {
		if a, ok := o.instr.(*ssa.Alloc); ok {
			if c := m.byAlloc[a]; c != nil {
				res = append(res, c)
			}
		}
	}
	return res
}

// exactCmds: commands by what is stored in the variables and lists they are taken from.
func (m *cmdMon) exactCmds(v ssa.Value, d int) ([]*command, bool) {
	if d > 6 {
		return nil, false
	}
	var res []*command
	add := func(x ssa.Value) bool {
		cs, ok := m.exactCmds(x, d+1)
		res = append(res, cs...)
		return ok
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if c := m.byAlloc[x]; c != nil {
			return []*command{c}, true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !add(e) {
				return nil, false
			}
		}
		return res, true
	case *ssa.Parameter:
		sites := m.w.callSitesOf(x.Parent())
		if len(sites) == 0 {
			return nil, false
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, c := range sites {
				if i >= len(c.Common().Args) || !add(c.Common().Args[i]) {
					return nil, false
				}
			}
		}
		return res, true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			n := 0
			for _, f := range m.w.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == a {
							n++
							if !add(st.Val) {
								return nil, false
							}
						}
					}
				}
			}
			return res, n > 0
		case *ssa.IndexAddr:
			sl, ok := a.X.(*ssa.Slice)
			if !ok {
				return nil, false
			}
			arr, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			n := 0
			for _, ref := range *arr.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						n++
						if !add(st.Val) {
							return nil, false
						}
					}
				}
			}
			return res, n > 0
		}
	}
	return nil, false
}

var varName = regexp.MustCompile(`^(.*)Var(P?)$`)

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// targetOf: the field or variable an option's value pointer refers to.
func (m *cmdMon) targetOf(v ssa.Value) (*types.Var, *ssa.Global) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x.X.Type(), x.Field), nil
	case *ssa.Global:
		return nil, x
	}
	var fv *types.Var
	var gl *ssa.Global
	n := 0
	for _, o := range m.w.pts.Objs(v) {
		n++
		if o.kind == oField {
			fv = o.field
		}
		if o.kind == oGlobal {
			gl = o.global
		}
	}
	if n != 1 {
		return nil, nil
	}
	return fv, gl
}

func newCmdMon(w *World) *cmdMon {
	m := &cmdMon{w: w, ignored: map[*ssa.Function]bool{}, byAlloc: map[ssa.Value]*command{}, initFns: map[*ssa.Function]bool{}, runFuncs: map[*ssa.Function]bool{}}
	m.ctl = &stickyMon{w: w, tv: map[ssa.Value]bool{}, tl: map[any]bool{}, pds: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, conds: map[*ssa.BasicBlock]map[condKey]bool{}}
	var fns []*ssa.Function
	for _, f := range w.funcs {
		if w.inRepo(f) && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	each := func(f func(in ssa.Instruction)) {
		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					f(in)
				}
			}
		}
	}
	each(func(in ssa.Instruction) {
		if a, ok := in.(*ssa.Alloc); ok && isCobraCommand(a.Type()) {
			c := &command{alloc: a}
			m.cmds = append(m.cmds, c)
			m.byAlloc[a] = c
		}
	})
	each(func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isCobraCommand(fa.X.Type()) {
				return
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			var cs []*command
			if a, ok := fa.X.(*ssa.Alloc); ok {
				cs = append(cs, m.byAlloc[a])
			} else {
				cs = m.cmdsOf(fa.X)
			}
			for _, c := range cs {
				switch fv.Name() {
				case "Use":
					if s, ok := constString(st.Val); ok {
						c.name = strings.Fields(s + " ?")[0]
					}
				case "Run", "RunE", "PreRun", "PreRunE", "PersistentPreRun", "PersistentPreRunE", "PostRun", "PostRunE", "PersistentPostRun", "PersistentPostRunE":
					c.runs = append(c.runs, st.Val)
				}
			}
		}
	})
	each(func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return
		}
		args := c.Common().Args
		if g.String() == "(*github.com/spf13/cobra.Command).AddCommand" {
			ps := m.cmdsOf(args[0])
			var kids []*command
			if sl, ok := args[1].(*ssa.Slice); ok {
				if a, ok := sl.X.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if ia, ok := ref.(*ssa.IndexAddr); ok {
							for _, r2 := range *ia.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
									kids = append(kids, m.cmdsOf(st.Val)...)
								}
							}
						}
					}
				}
			}
			for _, k := range kids {
				for _, p := range ps {
					if p != k {
						k.parents = append(k.parents, p)
					}
				}
			}
			return
		}
		if g.Signature.Recv() == nil || typeStr(deref(g.Signature.Recv().Type())) != "github.com/spf13/pflag.FlagSet" {
			return
		}
		// the flag set
		var cs []*command
		persistent := false
		if fc, ok := args[0].(*ssa.Call); ok {
			if fg := fc.Call.StaticCallee(); fg != nil {
				switch fg.Name() {
				case "Flags", "LocalFlags":
					cs = m.cmdsOf(fc.Call.Args[0])
				case "PersistentFlags":
					cs, persistent = m.cmdsOf(fc.Call.Args[0]), true
				}
			}
		} else {
			// a flag set in a variable or parameter
			for _, src := range m.flagSets(args[0], 0) {
				if fg := src.Call.StaticCallee(); fg != nil {
					cs = append(cs, m.cmdsOf(src.Call.Args[0])...)
					persistent = fg.Name() == "PersistentFlags"
				}
			}
		}
		mt := varName.FindStringSubmatch(g.Name())
		if mt != nil && len(args) >= 5 {
			names := m.strings(args[2], 0)
			def := args[3]
			if mt[2] == "P" {
				def = args[4]
			}
			fv, gl := m.targetOf(args[1])
			if fv == nil && gl == nil || len(names) != 1 || len(cs) == 0 {
				m.unclear = append(m.unclear, w.ipos(c))
				return
			}
			for _, x := range cs {
				m.opts = append(m.opts, &option{x, persistent, names[0], fv, gl, def, c})
			}
		}
	})
	for _, c := range m.cmds {
		c.reach = m.reachOf(c)
	}
	sort.Slice(m.cmds, func(i, j int) bool { return m.cmds[i].path() < m.cmds[j].path() })
	return m
}

func (m *cmdMon) flagSets(v ssa.Value, d int) []*ssa.Call {
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && (g.Name() == "Flags" || g.Name() == "PersistentFlags") {
			return []*ssa.Call{x}
		}
	case *ssa.Parameter:
		var res []*ssa.Call
		for i, p := range x.Parent().Params {
			if p == x {
				for _, c := range m.w.callSitesOf(x.Parent()) {
					if i < len(c.Common().Args) {
						res = append(res, m.flagSets(c.Common().Args[i], d+1)...)
					}
				}
			}
		}
		return res
	case *ssa.Phi:
		var res []*ssa.Call
		for _, e := range x.Edges {
			res = append(res, m.flagSets(e, d+1)...)
		}
		return res
	}
	return nil
}

func (m *cmdMon) strings(v ssa.Value, d int) []string {
	if s, ok := constString(v); ok {
		return []string{s}
	}
	if p, ok := v.(*ssa.Parameter); ok && d < 3 {
		var res []string
		for i, q := range p.Parent().Params {
			if q == p {
				for _, c := range m.w.callSitesOf(p.Parent()) {
					if i < len(c.Common().Args) {
						res = append(res, m.strings(c.Common().Args[i], d+1)...)
					}
				}
			}
		}
		return res
	}
	return nil
}

// reachOf: what running the command executes. Functions handed to a function that makes the Run function are those of
// this command only.
func (m *cmdMon) reachOf(c *command) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	skip := map[ssa.Instruction]bool{}
	var roots1 func(v ssa.Value, d int)
	roots1 = func(v ssa.Value, d int) {
		if d > 5 {
			return
		}
		switch x := v.(type) {
		case *ssa.Function:
			roots = append(roots, x)
		case *ssa.MakeClosure:
			roots = append(roots, x.Fn.(*ssa.Function))
		case *ssa.ChangeType:
			roots1(x.X, d+1)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if _, ok := a.Type().Underlying().(*types.Signature); ok {
					roots1(a, d+1)
				}
			}
			for _, g := range m.w.pts.Callees(x) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, rv := range ret.Results {
							if mc, ok := rv.(*ssa.MakeClosure); ok {
								h := mc.Fn.(*ssa.Function)
								roots = append(roots, h)
								for _, hb := range h.Blocks {
									for _, in := range hb.Instrs {
										if hc, ok := in.(ssa.CallInstruction); ok && fromOuter(hc.Common().Value) {
											skip[in] = true
										}
									}
								}
							} else {
								roots1(rv, d+1)
							}
						}
					}
				}
			}
		default:
			for _, g := range m.w.pts.FuncsOf(v) {
				roots = append(roots, g)
			}
		}
	}
	for _, v := range c.runs {
		roots1(v, 0)
	}
	for _, f := range roots {
		m.runFuncs[f] = true
	}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if res[f] || !m.w.inRepo(f) {
			return
		}
		res[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if skip[in] {
						continue
					}
					for _, g := range m.w.pts.Callees(x) {
						rec(g)
					}
					for _, a := range x.Common().Args {
						if fn, ok := a.(*ssa.Function); ok {
							rec(fn)
						}
					}
				case *ssa.MakeClosure:
					rec(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range roots {
		rec(f)
	}
	return res
}

func fromOuter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FreeVar, *ssa.Parameter:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL && fromOuter(x.X)
	}
	return false
}

// offered: the options a command has, its own and the inherited ones.
func (m *cmdMon) offered(c *command) []*option {
	var res []*option
	seen := map[*command]bool{}
	var rec func(x *command, own bool)
	rec = func(x *command, own bool) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, o := range m.opts {
			if o.cmd == x && (own || o.persistent) {
				res = append(res, o)
			}
		}
		for _, p := range x.parents {
			rec(p, false)
		}
	}
	rec(c, true)
	return res
}

// loads of the place an option is stored in.
func (m *cmdMon) loads(o *option, fns map[*ssa.Function]bool) []ssa.Value {
	var res []ssa.Value
	for _, f := range m.w.funcs {
		if fns != nil && !fns[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op != token.MUL {
						continue
					}
					switch a := x.X.(type) {
					case *ssa.FieldAddr:
						if o.target != nil && fieldVar(a.X.Type(), a.Field) == o.target {
							res = append(res, x)
						}
					case *ssa.Global:
						if o.global != nil && a == o.global {
							res = append(res, x)
						}
					default:
						// a pointer to it
						for _, ob := range m.w.pts.Objs(x.X) {
							if ob.kind == oField && o.target != nil && ob.field == o.target {
								res = append(res, x)
							}
						}
					}
				case *ssa.Field:
					if o.target != nil && fieldVar(x.X.Type(), x.Field) == o.target {
						res = append(res, x)
					}
				}
			}
		}
	}
	return res
}

// optSink: where the value of an option has to get to: parameter (the receiver counts) of a function, and the other
// options that may get there as well.
type optSink struct {
	fn    string
	param int
	also  []string
}

var optSinks = map[string][]optSink{
	"host":        {{"net.ResolveTCPAddr", 1, []string{"telnet_port", "telnet_call", "scope-address"}}},
	"trx":         {{"(*github.com/ftl/tci/client.Client).StartIQ", 1, nil}, {"(*github.com/ftl/tci/client.Client).StopIQ", 1, nil}},
	"trace_tci":   {{"github.com/ftl/tci/client.KeepOpen", 2, nil}},
	"threshold":   {{"rx.(*Receiver).SetPeakThreshold", 1, nil}},
	"debounce":    {{"dsp.(*BoolDebouncer).SetThreshold", 1, nil}},
	"silence":     {{"rx.(*Receiver).SetSilenceTimeout", 1, nil}},
	"busy":        {{"rx.(*Receiver).SetAttachmentTimeout", 1, nil}},
	"telnet_port": {{"telnet.NewServer", 0, nil}},
	"telnet_call": {{"telnet.NewServer", 1, nil}},
	"spot_every":  {{"telnet.(*Server).SetSilencePeriod", 1, nil}},
	"username":    {{"kiwi.New", 1, nil}},
	"password":    {{"kiwi.New", 2, nil}},
	"center":      {{"rx.(*Receiver).SetCenterFrequency", 1, nil}},
	"rx":          {{"rx.(*Receiver).SetVFOOffset", 1, []string{"center"}}},
	"bandwidth":   {{"rx.(*Receiver).SetEdgeWidth", 1, nil}},
	"source":      {{"(*github.com/jfreymuth/pulse.Client).SourceByID", 1, nil}},
	"pitch":       {{"dsp.NewGoertzel", 0, nil}},
	"scale":       {{"cw.(*AudioDemodulator).SetScale", 1, nil}},
	"magnitude":   {{"dsp.(*Goertzel).SetMagnitudeThreshold", 1, nil}},
	"wpm":         {{"cw.(*AudioDemodulator).PresetWPM", 1, nil}},

	"scope-address": {{"scope.NewScopeServer", 0, nil}},
	"show_spots":    {{"tci.(*Process).SetShow", 2, nil}},

	"show_listeners": {{"tci.(*Process).SetShow", 1, nil}},
}

// optSwitch: calls that are made only if a boolean option has this value.
var optSwitch = map[string]struct {
	fn  string
	val bool
}{
	"pprof": {"net/http.ListenAndServe", true},
	"scope": {"scope.(*ScopeServer).Start", true},
	"debug": {"log.SetOutput", false},
}

func fnMatches(g *ssa.Function, name string) bool {
	return g != nil && (fnKey(g) == name || g.String() == name)
}

// reaches: the value that flows gets to the parameter.
func (f *flow) reaches(fn string, param int) (exists, hit bool) {
	for _, g := range f.fns {
		if fnMatches(g, fn) && param < len(g.Params) {
			exists = true
			if f.vals[g.Params[param]] {
				hit = true
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := c.Common().StaticCallee()
				if fnMatches(sc, fn) && param < len(c.Common().Args) {
					exists = true
					if f.carries(c.Common().Args[param]) {
						hit = true
					}
				}
			}
		}
	}
	return
}

func checkC37(w *World, r *Result) {
	r.rule("every option a command offers (its own and those inherited from its parents) is read by the functions the command runs, before the command waits for its end")
	r.rule("the value of an option gets to the parameter of the component it configures, and no other option's value gets there")
	r.rule("every value a command reads from the variables of the options is bound to an option of that command")
	r.rule("the value of an option gets to its component on every way to the wait, unless the condition concerns the option itself, and is not limited by constants on its way")
	r.rule("options that share a variable have the same default")
	r.rule("an option that switches something on does so with the right value")
	m := newCmdMon(w)
	var out findings
	nopt, nsink, nread := 0, 0, 0
	if len(m.unclear) > 0 {
		r.assume("options bound in a way that is not understood are left out: " + strings.Join(m.unclear, ", "))
	}
	r.need(len(m.cmds) > 0, "commands")
	isTarget := map[any]bool{}
	for _, o := range m.opts {
		if o.target != nil {
			isTarget[o.target] = true
		} else {
			isTarget[o.global] = true
		}
	}
	// structs that hold options: all their fields count
	holders := map[string]bool{}
	structFields := map[*types.Var]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isTarget[any(fieldVar(fa.X.Type(), fa.Field))] {
					if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							structFields[st.Field(i)] = true
						}
						if g, ok := fa.X.(*ssa.Global); ok {
							holders[g.Name()] = true
						}
					}
				}
			}
		}
	}
	_ = holders
	flows := map[any]map[*command]*flow{}
	runnable := 0
	for _, c := range m.cmds {
		if len(c.runs) == 0 {
			continue
		}
		runnable++
		offered := m.offered(c)
		have := map[any]*option{}
		for _, o := range offered {
			if o.target != nil {
				have[o.target] = o
			} else {
				have[o.global] = o
			}
		}
		for _, o := range offered {
			nopt++
			ls := m.loads(o, c.reach)
			if len(ls) == 0 {
				if c.inherits(o) && len(o.cmd.parents) == 0 && !m.readsSome(c, o) {
					// an inherited option of the program as a whole, for a command that only prints something
					continue
				}
				out.add("unread", "unread:"+c.path()+":"+o.name, w.ipos(o.at), fmt.Sprintf("the option --%s of '%s' has no effect: nothing the command runs reads it", o.name, c.path()))
				continue
			}
			nread++
			late := true
			for _, l := range ls {
				if !m.afterWait(l.(ssa.Instruction)) {
					late = false
				}
			}
			if late {
				out.add("late", "late:"+c.path()+":"+o.name, w.ipos(ls[0].(ssa.Instruction)), fmt.Sprintf("the option --%s of '%s' is only read when the command ends", o.name, c.path()))
				continue
			}
			fl := newFlow(w)
			for _, l := range ls {
				fl.vals[l] = true
			}
			fl.run()
			key := any(o.target)
			if o.target == nil {
				key = o.global
			}
			if flows[key] == nil {
				flows[key] = map[*command]*flow{}
			}
			xf := newFlow(w)
			xf.exact = true
			for _, l := range ls {
				xf.vals[l] = true
			}
			xf.run()
			flows[key][c] = xf
			if bt, ok := ls[0].Type().Underlying().(*types.Basic); ok && bt.Kind() != types.Bool {
				if !fl.used(false) {
					out.add("no-effect", "no-effect:"+c.path()+":"+o.name, w.ipos(ls[0].(ssa.Instruction)), fmt.Sprintf("the value of the option --%s of '%s' is read, but not used for anything", o.name, c.path()))
					continue
				}
			}
			m.onEveryWay(&out, c, o, ls)
			if sw, ok := optSwitch[o.name]; ok {
				m.switchCheck(r, &out, c, o, ls, sw.fn, sw.val)
				nsink++
			}
			for _, s := range optSinks[o.name] {
				ex, hit := fl.reaches(s.fn, s.param)
				if !ex {
					r.assume("there is no " + s.fn + " to check option --" + o.name)
					continue
				}
				nsink++
				if hit {
					if g := w.fn(s.fn); g != nil && !m.ignored[g] && m.ignores(g, s.param) {
						m.ignored[g] = true
						out.add("no-effect", "no-effect:"+s.fn, w.pos(g.Pos()), fmt.Sprintf("%s does nothing with the value of the option --%s", s.fn, o.name))
					}
				}
				if !hit {
					out.add("no-effect", "no-effect:"+c.path()+":"+o.name, w.ipos(ls[0].(ssa.Instruction)), fmt.Sprintf("the value of the option --%s of '%s' is read, but does not get to %s", o.name, c.path(), s.fn))
				}
			}
		}
		// other options must not get to a place that is configured by one
		for _, o := range offered {
			key := any(o.target)
			if o.target == nil {
				key = o.global
			}
			fl := flows[key][c]
			if fl == nil {
				continue
			}
			for name, ss := range optSinks {
				if name == o.name {
					continue
				}
				for _, s := range ss {
					ok := false
					for _, a := range s.also {
						ok = ok || a == o.name
					}
					for _, own := range optSinks[o.name] {
						ok = ok || own.fn == s.fn && own.param == s.param
					}
					if ok || name == "host" {
						continue
					}
					if _, hit := fl.reaches(s.fn, s.param); hit {
						out.add("mixed-up", "mixed-up:"+c.path()+":"+o.name+":"+name, w.ipos(o.at), fmt.Sprintf("the value of the option --%s of '%s' gets to %s, which is configured by --%s", o.name, c.path(), s.fn, name))
					}
				}
			}
		}
		// every value read is set by an option of this command
		for _, f := range w.funcs {
			if !c.reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var fv *types.Var
					switch x := in.(type) {
					case *ssa.UnOp:
						if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
							fv = fieldVar(a.X.Type(), a.Field)
						}
					case *ssa.Field:
						fv = fieldVar(x.X.Type(), x.Field)
					}
					if fv == nil || !structFields[fv] || have[fv] != nil {
						continue
					}
					if m.assigned(fv) {
						continue
					}
					if v, ok := in.(ssa.Value); ok && v.Referrers() != nil && len(*v.Referrers()) == 0 {
						continue
					}
					out.add("unset", "unset:"+c.path()+":"+fv.Name(), w.ipos(in), fmt.Sprintf("'%s' uses %s, which no option of this command sets", c.path(), fv.Name()))
				}
			}
		}
	}
	// same variable, same default
	byT := map[any]*option{}
	for _, o := range m.opts {
		key := any(o.target)
		if o.target == nil {
			key = o.global
		}
		p := byT[key]
		if p == nil {
			byT[key] = o
			continue
		}
		a, ok1 := p.def.(*ssa.Const)
		b, ok2 := o.def.(*ssa.Const)
		if ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() != b.Value.ExactString() {
			out.add("default", "default:"+o.name, w.ipos(o.at), fmt.Sprintf("--%s of '%s' and --%s of '%s' share a variable but have different defaults (%s, %s): the last one is used for both", p.name, p.cmd.path(), o.name, o.cmd.path(), a.Value, b.Value))
		}
		if p.name != o.name && p.cmd == o.cmd {
			out.add("shared", "shared:"+o.name, w.ipos(o.at), fmt.Sprintf("--%s and --%s of '%s' are stored in the same variable", p.name, o.name, o.cmd.path()))
		}
	}
	// the scope server is what the commands use as scope
	fl := newFlow(w)
	for _, f := range fl.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && fnMatches(c.Call.StaticCallee(), "scope.NewScopeServer") && m.runs(f) {
					fl.vals[c] = true
				}
			}
		}
	}
	if len(fl.vals) > 0 {
		fl.run()
		if ex, hit := fl.reaches("rx.(*Receiver).SetScope", 1); ex {
			nsink++
			if !hit {
				for v := range fl.vals {
					if c, ok := v.(*ssa.Call); ok && fnMatches(c.Call.StaticCallee(), "scope.NewScopeServer") {
						out.add("no-effect", "no-effect:scope-server", w.ipos(c), "the scope server that --scope starts is not given to the receivers")
						break
					}
				}
			}
		}
	}
	r.count("commands", runnable)
	r.count("options_offered", nopt)
	r.count("options_read", nread)
	r.count("option_sinks_checked", nsink)
	for _, c := range m.cmds {
		if len(c.runs) > 0 {
			var ns []string
			for _, o := range m.offered(c) {
				ns = append(ns, "--"+o.name)
			}
			r.sample("%s", c.path()+": "+strings.Join(ns, " "))
		}
	}
	r.addAll(out.list)
}

// ignores: the function does nothing with the value of its parameter.
func (m *cmdMon) ignores(g *ssa.Function, param int) bool {
	if param >= len(g.Params) {
		return false
	}
	fl := newFlow(m.w)
	fl.vals[g.Params[param]] = true
	fl.run()
	return !fl.used(true)
}

// used: the value gets to something outside of the repository (other than the log), or is decided or calculated on.
func (f *flow) used(compare bool) bool {
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					if (f.vals[x.X] || f.vals[x.Y]) && compare {
						return true
					}
				case *ssa.If:
					if f.vals[x.Cond] && compare {
						return true
					}
				case *ssa.Return:
					if compare && f.w.isEntry(g) {
						for _, v := range x.Results {
							if f.carries(v) {
								return true
							}
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					if sc := cc.StaticCallee(); sc != nil && (compare && f.w.inRepo(sc) || sc.Pkg != nil && sc.Pkg.Pkg.Path() == "log") {
						continue
					}
					for _, a := range cc.Args {
						if f.carries(a) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *command) inherits(o *option) bool { return o.cmd != c }

// readsSome: the command reads at least one of the options that are inherited together with this one.
func (m *cmdMon) readsSome(c *command, o *option) bool {
	for _, p := range m.opts {
		if p.cmd == o.cmd && p != o && len(m.loads(p, c.reach)) > 0 {
			return true
		}
	}
	return false
}

// runs: some command executes the function.
func (m *cmdMon) runs(f *ssa.Function) bool {
	for _, c := range m.cmds {
		if c.reach[f] {
			return true
		}
	}
	return false
}

// assigned: the program sets the field itself.
func (m *cmdMon) assigned(fv *types.Var) bool {
	for _, f := range m.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
						return true
					}
				}
			}
		}
	}
	return false
}

// afterWait: the instruction is only executed after the end of the context was waited for.
func (m *cmdMon) afterWait(in ssa.Instruction) bool {
	f := in.Parent()
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			u, ok := x.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				continue
			}
			c, ok := u.X.(*ssa.Call)
			if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Done" {
				continue
			}
			if b != in.Block() && b.Dominates(in.Block()) {
				return true
			}
			if b == in.Block() {
				for j, y := range b.Instrs {
					if y == in && j > i {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *cmdMon) switchCheck(r *Result, out *findings, c *command, o *option, ls []ssa.Value, fn string, val bool) {
	isFlag := map[ssa.Value]bool{}
	for _, l := range ls {
		isFlag[l] = true
	}
	n := 0
	for f := range c.reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				hit := fnMatches(ci.Common().StaticCallee(), fn)
				if !hit {
					continue
				}
				n++
				good, bad := false, false
				var up func(b *ssa.BasicBlock, d int)
				up = func(b *ssa.BasicBlock, d int) {
					for k := range m.ctl.condsOf(b) {
						v, want := k.in.Cond, k.val
						m.asFlag(v, want, isFlag, c, 0, func(want bool) {
							if want == val {
								good = true
							} else {
								bad = true
							}
						})
					}
					if d > 4 {
						return
					}
					g := b.Parent()
					for _, mc := range makersOf(m.w, g) {
						up(mc.Block(), d+1)
					}
					if g.Parent() != nil {
						for _, pb := range g.Parent().Blocks {
							for _, pin := range pb.Instrs {
								if pc, ok := pin.(ssa.CallInstruction); ok && pc.Common().StaticCallee() == g {
									up(pb, d+1)
								}
							}
						}
					}
					for _, cs := range m.w.callSitesOf(g) {
						if c.reach[cs.Parent()] {
							up(cs.Block(), d+1)
						}
					}
				}
				up(b, 0)
				if bad || !good {
					out.add("switch", "switch:"+c.path()+":"+o.name, m.w.ipos(in), fmt.Sprintf("%s is not done exactly if the option --%s of '%s' is %v", fn, o.name, c.path(), val))
				}
			}
		}
	}
	if n == 0 {
		for _, f := range m.w.funcs {
			if fnMatches(f, fn) || strings.HasPrefix(fn, "log.") || strings.HasPrefix(fn, "net/") {
				out.add("switch", "switch:"+c.path()+":"+o.name, m.w.ipos(o.at), fmt.Sprintf("the option --%s of '%s' does not lead to %s", o.name, c.path(), fn))
				break
			}
		}
	}
}

// asFlag: the condition is the value of the option, possibly negated and handed over.
func (m *cmdMon) asFlag(v ssa.Value, want bool, isFlag map[ssa.Value]bool, c *command, d int, f func(bool)) {
	if d > 6 {
		return
	}
	if isFlag[v] {
		f(want)
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			m.asFlag(x.X, !want, isFlag, c, d+1, f)
		case token.MUL:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, sv := range m.w.cellStores(a) {
					m.asFlag(sv, want, isFlag, c, d+1, f)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				for _, mc := range makersOf(m.w, fv.Parent()) {
					for i, y := range fv.Parent().FreeVars {
						if y == fv && i < len(mc.Bindings) {
							for _, sv := range m.w.cellStores(mc.Bindings[i]) {
								m.asFlag(sv, want, isFlag, c, d+1, f)
							}
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			b := constant.BoolVal(k.Value)
			switch x.Op {
			case token.EQL:
				m.asFlag(x.X, want == b, isFlag, c, d+1, f)
			case token.NEQ:
				m.asFlag(x.X, want != b, isFlag, c, d+1, f)
			}
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, cs := range m.w.callSitesOf(x.Parent()) {
				if c.reach[cs.Parent()] && i < len(cs.Common().Args) {
					m.asFlag(cs.Common().Args[i], want, isFlag, c, d+1, f)
				}
			}
		}
	}
}
