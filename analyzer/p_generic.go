package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("C01", []string{"balanced", "wait"}, checkC01)
	register("C02", []string{"used"}, checkC02)
}

var allPkgs = []string{"pkg/fsm", "pkg/metric", "pkg/stat", "pkg/eventbus", "pkg/monny/proc", "pkg/monny", "cmd/monny"}

// explore runs everything that nothing else in the program calls on arbitrary values, and what is exported, where want
// says that it matters.
func (c *Ctx) explore(root map[*ssa.Function]bool, want func(f *ssa.Function) bool, visit func(f *ssa.Function, o eng.Outcome)) {
	in := map[string]bool{}
	for _, p := range allPkgs {
		in[modPath+"/"+p] = true
	}
	c.E.Stable = c.stable()
	for _, f := range c.P.Fns {
		if f.Pkg == nil || !in[f.Pkg.Pkg.Path()] || f.Synthetic != "" || !root[f] || !want(f) {
			continue
		}
		st := c.E.NewState()
		var args []*eng.Term
		for i, p := range f.Params {
			a := c.Sym(eng.FuncName(f)+"."+p.Name(), p.Type())
			args = append(args, a)
			if i == 0 && f.Signature.Recv() != nil {
				st.MarkNonNil(a)
			}
			switch a.Typ.Underlying().(type) {
			case *types.Signature, *types.Interface:
				st.MarkNonNil(a)
			}
		}
		if f.Parent() != nil {
			var vars []*eng.Term
			for _, v := range f.FreeVars {
				a := c.Sym(eng.FuncName(f)+"."+v.Name(), v.Type())
				st.MarkNonNil(a)
				vars = append(vars, a)
			}
			for _, o := range c.RunVal(eng.Closure(f, vars...), st, args...) {
				visit(f, o)
			}
			continue
		}
		for _, o := range c.Run(f, st, args...) {
			visit(f, o)
			if o.Kind != "return" {
				continue
			}
			for _, r := range o.Ret {
				if r.Op == eng.OFunc && r.Fn.Blocks != nil && r.Fn.Parent() != nil {
					var as []*eng.Term
					s := o.St.Clone()
					for _, p := range r.Fn.Params {
						a := c.Sym(eng.FuncName(r.Fn)+"."+p.Name(), p.Type())
						s.MarkNonNil(a)
						as = append(as, a)
					}
					for _, p := range c.RunVal(r, s, as...) {
						visit(r.Fn, p)
					}
				}
			}
		}
	}
}

// roots are the functions that run on values from outside: exported ones, those used as values and those that
// interfaces lead to.
func (c *Ctx) roots() map[*ssa.Function]bool {
	valued, called, methods := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[string]bool{}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if x, ok := in.(ssa.CallInstruction); ok {
					if callee = x.Common().Value; x.Common().IsInvoke() {
						methods[x.Common().Method.Name()] = true
					} else if g := x.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						valued[g] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range c.P.Fns {
		if f.Name() == "init" {
			continue
		}
		out[f] = f.Parent() == nil && (token.IsExported(f.Name()) || f.Name() == "main" || !called[f] && (valued[f] || f.Signature.Recv() != nil && methods[f.Name()]))
	}
	return out
}

// reaching are the functions that contain something, or call, make or start one that does.
func (c *Ctx) reaching(is func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	byMethod := map[string]bool{}
	for again := true; again; {
		again = false
		for _, f := range c.P.Fns {
			if out[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit = hit || is(in)
					switch x := in.(type) {
					case ssa.CallInstruction:
						cc := x.Common()
						if cc.IsInvoke() {
							hit = hit || byMethod[cc.Method.Name()]
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && out[g] {
							hit = true
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				hit = hit || out[a]
			}
			if hit {
				out[f], again = true, true
				if f.Signature.Recv() != nil {
					byMethod[f.Name()] = true
				}
			}
		}
	}
	return out
}

// ---- C01

func waitGroupCall(in ssa.Instruction) bool {
	x, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := x.Common().StaticCallee()
	return g != nil && strings.HasPrefix(g.String(), "(*sync.WaitGroup).")
}

// tally is how much a piece of code adds to wait groups in the end, itself and in what it starts.
type tally struct {
	n       map[*eng.Term]int64
	low     map[*eng.Term]int64 // the least it adds itself at any time
	unknown map[*eng.Term]bool
}

func newTally() *tally {
	return &tally{map[*eng.Term]int64{}, map[*eng.Term]int64{}, map[*eng.Term]bool{}}
}

func (t *tally) add(g *eng.Term, n int64) {
	t.n[g] += n
	if t.n[g] < t.low[g] {
		t.low[g] = t.n[g]
	}
}

func checkC01(c *Ctx) {
	reach := c.reaching(waitGroupCall)
	b := &balance{c: c, memo: map[*eng.Event]*tally{}}
	c.E.Opaque = func(f *ssa.Function) bool { return !reach[f] }
	c.explore(c.roots(), func(f *ssa.Function) bool { return reach[f] }, func(f *ssa.Function, o eng.Outcome) {
		if o.Kind != "return" {
			return
		}
		b.f = f
		t := b.tally(o.St, o.St.Events(), 0)
		for g, n := range t.n {
			if t.unknown[g] {
				continue
			}
			c.OblSt("balanced", eng.FuncName(f), n == 0, f.Pos(), o.St, "after all that was started has ended, %d is left to wait for in %v", n, g)
			c.OblSt("balanced", eng.FuncName(f), t.low[g] >= 0, f.Pos(), o.St, "more is marked as done than was started: %v", g)
		}
	})
}

type balance struct {
	c    *Ctx
	f    *ssa.Function
	memo map[*eng.Event]*tally
}

func (b *balance) tally(st *eng.State, evs []*eng.Event, depth int) *tally {
	c := b.c
	t := newTally()
	later := map[*eng.Term]int64{}
	for _, ev := range evs {
		switch ev.Kind {
		case "call":
			g := ev.Args
			switch ev.Name {
			case "(*sync.WaitGroup).Add":
				if n, ok := g[1].IntVal(); ok {
					t.add(g[0], n)
				} else {
					t.unknown[g[0]] = true
				}
			case "(*sync.WaitGroup).Done":
				t.add(g[0], -1)
			case "(*sync.WaitGroup).Wait":
				c.Obl("wait", eng.FuncName(b.f), true, ev.Pos, "")
			case "(*sync.WaitGroup).Go":
				t.unknown[g[0]] = true
			}
		case "loop":
			for _, k := range ev.Loop.Kinds {
				kt := b.tally(k.St, k.Events, depth)
				for g, n := range kt.n {
					if n != 0 && !ev.Loop.Local(g) {
						// as many times as there are iterations
						t.unknown[g] = true
						c.OblSt("balanced", eng.FuncName(b.f), b.elsewhere(evs, g, ev), ev.Pos, k.St, "every iteration leaves %d to wait for in %v", n, g)
					}
					if kt.low[g] < 0 && !t.unknown[g] {
						t.low[g] = min(t.low[g], t.n[g]+kt.low[g])
					}
				}
				for g := range kt.unknown {
					t.unknown[g] = true
				}
			}
		case "go":
			gt := b.started(ev, depth)
			for g, n := range gt.n {
				later[g] += n
			}
			for g := range gt.unknown {
				t.unknown[g] = true
			}
		}
	}
	for g, n := range t.n {
		if n == 0 && depth > 0 && counts(evs, g) {
			// nobody counts this goroutine, and those that wait may have looked before it does
			c.OblSt("balanced", eng.FuncName(b.f), false, b.f.Pos(), st, "what is started is counted only after it was started: %v", g)
		}
	}
	for g, n := range later {
		t.n[g] += n
	}
	return t
}

// counts reports whether work is counted here, with nothing to keep others from waiting at that time, that is not waited
// for here.
func counts(evs []*eng.Event, g *eng.Term) bool {
	adds, locked := false, 0
	for _, ev := range evs {
		switch ev.Kind {
		case "lock":
			locked++
		case "unlock":
			locked--
		}
		if ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == g {
			switch ev.Name {
			case "(*sync.WaitGroup).Add":
				adds = adds || locked <= 0
			case "(*sync.WaitGroup).Wait":
				return false
			}
		}
	}
	return adds
}

// elsewhere reports whether the same group is also counted in other loops or by amounts that are not known.
func (b *balance) elsewhere(evs []*eng.Event, g *eng.Term, but *eng.Event) bool {
	for _, ev := range evs {
		switch {
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add" && ev.Args[0] == g:
			if n, ok := ev.Args[1].IntVal(); !ok || n > 1 {
				return true
			}
		case ev.Kind == "loop" && ev.Loop != but.Loop:
			for _, k := range ev.Loop.Kinds {
				if b.tally(k.St, k.Events, 3).n[g] != 0 {
					return true
				}
			}
		}
	}
	return false
}

// started is what a goroutine adds until it ends.
func (b *balance) started(ev *eng.Event, depth int) *tally {
	if t := b.memo[ev]; t != nil {
		return t
	}
	t := newTally()
	b.memo[ev] = t
	if ev.Go == nil || depth > 3 {
		return t
	}
	if ev.Go.Callee != nil && ev.Go.Callee.Op == eng.OFunc && ev.Go.Callee.Fn.Blocks == nil && ev.Go.Callee.Fn.String() == "(*sync.WaitGroup).Done" {
		t.add(ev.Go.Args[0], -1)
		return t
	}
	var all []*tally
	var sts []*eng.State
	for _, p := range b.c.goroutine(ev) {
		if p.Kind == "return" {
			all = append(all, b.tally(p.St, p.St.Events(), depth+1))
			sts = append(sts, p.St)
		}
	}
	groups := map[*eng.Term]bool{}
	for _, o := range all {
		for g := range o.n {
			groups[g] = true
		}
		for g := range o.unknown {
			t.unknown[g] = true
		}
	}
	for g := range groups {
		if t.unknown[g] || len(all) == 0 {
			continue
		}
		n := all[0].n[g]
		for i, o := range all {
			b.c.OblSt("balanced", eng.FuncName(b.f), o.n[g] == n, ev.Pos, sts[i], "what is started marks its end on some of its ways only: %v", g)
			n = min(n, o.n[g])
		}
		t.n[g] = n
	}
	return t
}

// ---- C02

func checkC02(c *Ctx) {
	calls := func(in ssa.Instruction) bool {
		x, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		rs := x.Common().Signature().Results()
		return rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type())
	}
	all, has := map[*ssa.Function]bool{}, c.reaching(calls)
	for _, f := range c.P.Fns {
		all[f] = f.Name() != "init"
	}
	// functions are looked at one by one, with the ones that look at an error for them
	c.E.Opaque = func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isErrorType(p.Type()) {
				return false
			}
		}
		return f.Parent() == nil
	}
	u := &usage{c: c, gos: map[ssa.Instruction]int{}, seen: map[*eng.Event]bool{}}
	c.explore(all, func(f *ssa.Function) bool { return has[f] }, func(f *ssa.Function, o eng.Outcome) { u.outcome(f, o, 0) })
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

type usage struct {
	c    *Ctx
	gos  map[ssa.Instruction]int
	seen map[*eng.Event]bool
}

// uncertain are the results that came with an error that was not looked at.
type uncertain struct {
	err map[*eng.Term]*eng.Term
	ok  map[*eng.Term]bool
}

func (u *usage) outcome(f *ssa.Function, o eng.Outcome, depth int) {
	u.events(f, o.St, o.St.Events(), &uncertain{map[*eng.Term]*eng.Term{}, map[*eng.Term]bool{}}, depth)
}

func (u *usage) events(f *ssa.Function, st *eng.State, evs []*eng.Event, w *uncertain, depth int) {
	c := u.c
	use := func(ev *eng.Event, v *eng.Term) {
		err := w.err[v]
		if err == nil {
			return
		}
		c.OblSt("used", eng.FuncName(ev.Fn), w.ok[err], ev.Pos, st, "%v is used before it is known that there was no error", v)
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "call", "invoke", "pure":
			if ev.Name != "(*os.File).Close" && !strings.HasPrefix(ev.Name, "fmt.") {
				for _, a := range ev.Args {
					for a.Op == eng.OIface {
						a = a.Args[0]
					}
					use(ev, a)
				}
			}
			if n := len(ev.Rs); n > 1 && ev.Rs[n-1].Typ != nil && isErrorType(ev.Rs[n-1].Typ) {
				for _, r := range ev.Rs[:n-1] {
					if r.Typ == nil {
						continue
					}
					switch r.Typ.Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Signature:
						w.err[r] = ev.Rs[n-1]
					}
				}
			}
		case "oblig":
			if (ev.Name == "nil" || ev.Name == "nilfunc") && !ev.Truth && len(ev.Args) > 0 {
				use(ev, ev.Args[0])
			}
		case "assume":
			t, v := ev.Args[0], ev.Truth
			for t.Op == eng.ONot {
				t, v = t.Args[0], !v
			}
			if t.Op == eng.OEq && v {
				for i, a := range t.Args {
					if a.Op == eng.ONil {
						w.ok[t.Args[1-i]] = true
					}
				}
			}
		case "loop":
			for _, k := range ev.Loop.Kinds {
				in := &uncertain{map[*eng.Term]*eng.Term{}, map[*eng.Term]bool{}}
				for a, b := range w.err {
					in.err[a] = b
				}
				for a := range w.ok {
					in.ok[a] = true
				}
				u.events(f, k.St, k.Events, in, depth)
			}
		case "go":
			if depth < 3 && ev.Go != nil && u.gos[ev.Go.Instr] < 4 {
				u.gos[ev.Go.Instr]++
				for _, p := range c.goroutine(ev) {
					u.outcome(f, p, depth+1)
				}
			}
		}
	}
}
