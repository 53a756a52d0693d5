package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("P01", []string{"range", "ends", "kept"}, func(c *Ctx) {
		checkCrash(c, "pkg/fsm", "pkg/metric", "pkg/stat", "pkg/eventbus", "pkg/monny/proc")
	})
	register("R17", []string{"range", "ends"}, func(c *Ctx) { checkCrash(c, "pkg/monny") })
}

// invariants are what the fields of a type have in common in every object of it.
type invariant struct {
	t     *types.Named
	holds func(get func(field string) *eng.Term, length func(*eng.Term) *eng.Term) []*eng.Term // linear conditions
}

func (c *Ctx) invariants() []invariant {
	zero := eng.Int(0)
	series := c.Type("pkg/metric.Series")
	count := c.role(series, "count", intType)
	queue := c.Type("pkg/monny/proc.Queue")
	items, limit := c.role(queue, "q", typeIs("[]string")), c.role(queue, "capacity", intType)
	return []invariant{
		{series, func(get func(string) *eng.Term, length func(*eng.Term) *eng.Term) []*eng.Term {
			return []*eng.Term{eng.Not(eng.Lt(get(count), zero))}
		}},
		{queue, func(get func(string) *eng.Term, length func(*eng.Term) *eng.Term) []*eng.Term {
			return []*eng.Term{eng.Not(eng.Lt(get(limit), zero)), eng.Not(eng.Lt(get(limit), length(get(items))))}
		}},
	}
}

// checkCrash runs everything a package offers on arbitrary values and looks for operations that panic.
func checkCrash(c *Ctx, pkgs ...string) {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[modPath+"/"+p] = true
	}
	invs := c.invariants()
	c.E.Stable = c.stable()
	c.E.Known = func(st *eng.State, t *eng.Term) {
		a := t.Args[0]
		if a.Op == eng.OGlobal && a.Name == "os.Args" {
			st.Assume(eng.Lt(eng.Int(0), st.LenOf(t)), true) // the program's own name
		}
		if a.Op != eng.OFld || a.Args[0].Typ == nil {
			return
		}
		for _, inv := range invs {
			if !pointsTo(a.Args[0], inv.t) {
				continue
			}
			get := func(f string) *eng.Term {
				at, ft := c.Field(a.Args[0], inv.t, f)
				return eng.ReadWith(at, ft, t)
			}
			for _, cond := range inv.holds(get, func(t *eng.Term) *eng.Term { return st.LenOf(t) }) {
				st.Assume(cond, true)
			}
		}
	}
	c.E.KnownCell = func(st *eng.State, a *eng.Term) {
		if a.Op != eng.OFld || a.Args[0].Typ == nil {
			return
		}
		for _, inv := range invs {
			if !pointsTo(a.Args[0], inv.t) {
				continue
			}
			get := func(f string) *eng.Term { return c.Get(st, a.Args[0], inv.t, f) }
			for _, cond := range inv.holds(get, func(t *eng.Term) *eng.Term { return st.LenOf(t) }) {
				st.Assume(cond, true)
			}
		}
	}
	root := c.roots()
	k := &crash{c: c, seen: map[*eng.Event]bool{}, gos: map[ssa.Instruction]int{}}
	for _, f := range c.P.Fns {
		if f.Parent() != nil || f.Pkg == nil || !in[f.Pkg.Pkg.Path()] || f.Synthetic != "" || !root[f] {
			continue
		}
		st := c.E.NewState()
		args := k.args(f)
		for i, a := range args {
			if i == 0 && f.Signature.Recv() != nil {
				st.MarkNonNil(a)
			}
			switch a.Typ.Underlying().(type) {
			case *types.Signature, *types.Interface:
				st.MarkNonNil(a)
			}
		}
		for _, o := range c.Run(f, st, args...) {
			k.outcome(f, o, 0)
			if o.Kind != "return" {
				continue
			}
			for _, r := range o.Ret {
				if r.Op == eng.OFunc && r.Fn.Blocks != nil && r.Fn.Parent() != nil {
					var as []*eng.Term
					s := o.St.Clone()
					for i := 0; i < r.Fn.Signature.Params().Len(); i++ {
						a := c.Sym(eng.FuncName(r.Fn)+"."+r.Fn.Params[i].Name(), r.Fn.Params[i].Type())
						s.MarkNonNil(a)
						as = append(as, a)
					}
					for _, p := range c.RunVal(r, s, as...) {
						k.outcome(r.Fn, p, 0)
					}
				}
			}
		}
		if recv := f.Signature.Recv(); recv != nil && token.IsExported(f.Name()) {
			k.keeps(invs, f, args[0])
		}
	}
}

type crash struct {
	c    *Ctx
	seen map[*eng.Event]bool
	gos  map[ssa.Instruction]int
}

func (k *crash) args(f *ssa.Function) []*eng.Term {
	var out []*eng.Term
	for _, p := range f.Params {
		out = append(out, k.c.Sym(eng.FuncName(f)+"."+p.Name(), p.Type()))
	}
	return out
}

// keeps checks that the methods of a type keep what its fields have in common.
func (k *crash) keeps(invs []invariant, f *ssa.Function, recv *eng.Term) {
	c := k.c
	for _, inv := range invs {
		if !pointsTo(recv, inv.t) {
			continue
		}
		for _, o := range c.Run(f, c.E.NewState(), k.args(f)...) {
			if o.Kind != "return" {
				continue
			}
			get := func(n string) *eng.Term { return c.Get(o.St, recv, inv.t, n) }
			for _, cond := range inv.holds(get, func(t *eng.Term) *eng.Term { return o.St.LenOf(t) }) {
				c.OblSt("kept", eng.FuncName(f), o.St.Truth(cond) == 1, f.Pos(), o.St, "what other operations rely on is not kept: %v", cond)
			}
		}
	}
}

// outcome checks a path, the goroutines it starts and the functions it hands on.
func (k *crash) outcome(f *ssa.Function, o eng.Outcome, depth int) {
	c := k.c
	name := eng.FuncName(f)
	switch o.Kind {
	case "panic", "exit":
		c.OblSt("ends", name, false, o.Pos, o.St, "the program ends: %s", o.Why)
	default:
		c.Obl("ends", name, true, o.Pos, "")
	}
	var guards []*eng.Term
	var visit func(evs []*eng.Event)
	loops := map[*eng.LoopInst]bool{}
	visit = func(evs []*eng.Event) {
		for _, ev := range evs {
			switch ev.Kind {
			case "assume":
				guards = append(guards, ev.Args[0])
			case "oblig":
				if !k.seen[ev] {
					k.seen[ev] = true
					k.operation(o, ev, guards)
				}
			case "call", "pure":
				if !k.seen[ev] {
					k.seen[ev] = true
					k.library(o, ev)
				}
			case "loop":
				if !loops[ev.Loop] {
					loops[ev.Loop] = true
					n := len(guards)
					for _, kd := range ev.Loop.Kinds {
						visit(kd.Events)
						guards = guards[:n]
					}
				}
			case "go":
				if depth < 3 && k.gos[ev.Go.Instr] < 4 {
					k.gos[ev.Go.Instr]++
					for _, p := range c.goroutine(ev) {
						k.outcome(f, p, depth+1)
					}
				}
			}
		}
	}
	visit(o.St.Events())
}

// library checks a call of a function of a library that panics on some values.
func (k *crash) library(o eng.Outcome, ev *eng.Event) {
	st := o.St
	var ok bool
	zero := eng.Int(0)
	switch ev.Name {
	case "time.NewTicker", "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n":
		ok = st.Truth(eng.Lt(zero, ev.Args[0])) == 1
	case "(*time.Ticker).Reset", "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int63n", "(*math/rand.Rand).Int31n":
		ok = st.Truth(eng.Lt(zero, ev.Args[1])) == 1
	case "strings.Repeat", "bytes.Repeat":
		ok = st.Truth(eng.Lt(ev.Args[1], zero)) == -1
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		s, known := ev.Args[0].StrVal()
		_, err := regexp.Compile(s)
		ok = known && err == nil
	default:
		return
	}
	k.c.OblSt("range", eng.FuncName(ev.Fn), ok, ev.Pos, st, "%s fails on some values: %v", ev.Name, ev.Args)
}

// operation checks one operation that can panic.
func (k *crash) operation(o eng.Outcome, ev *eng.Event, guards []*eng.Term) {
	c := k.c
	what := ""
	switch ev.Name {
	case "index":
		what = "an index may be out of range"
	case "slice":
		what = "the bounds of a slice may be out of range"
	case "make":
		what = "a length may be negative"
	case "div":
		what = "a division may be by zero"
	case "assert":
		what = "a conversion may fail"
		if types.IsInterface(ev.Args[0].Typ) && ev.Fn != nil && k.boundMethod(ev) {
			return
		}
	default:
		return
	}
	ok := ev.Truth || !ev.Refuted && excused(ev, guards)
	c.OblSt("range", eng.FuncName(ev.Fn), ok, ev.Pos, o.St, "%s: %v", what, ev.Args)
}

// boundMethod recognises a method value of an interface, which is looked up when it is made.
func (k *crash) boundMethod(ev *eng.Event) bool {
	for _, b := range ev.Fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.TypeAssert); ok && x.Pos() == ev.Pos && types.Identical(x.X.Type(), x.AssertedType) {
				return true
			}
		}
	}
	return false
}

// excused reports whether the operation depends on what a function of a library found out about the same values, which
// the analysis does not know the meaning of.
func excused(ev *eng.Event, guards []*eng.Term) bool {
	mine := map[*eng.Term]bool{}
	for _, a := range ev.Args {
		subterms(a, mine)
	}
	for _, g := range guards {
		in := map[*eng.Term]bool{}
		subterms(g, in)
		other, shared := false, false
		for t := range in {
			switch {
			case ev.Name == "assert" && (t.Op == eng.OCall && !strings.HasPrefix(t.Name, "reflect.") || t.Op == eng.OLen):
				// whose type is known through its type only
			case t.Op == eng.OCall && !mine[t], t.Op == eng.OLen && !mine[t] && t.Args[0].Op == eng.OCall:
				other = true
			case mine[t] && t.Op != eng.OConst && t.Op != eng.ONil:
				shared = true
			}
		}
		if other && shared {
			return true
		}
	}
	return false
}
