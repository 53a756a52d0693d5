package main

import (
	"go/types"
	"strings"

	"monnyverif/eng"
)

func init() {
	register("F01", []string{"allowable", "transition-allowed", "transition-refused", "reset", "initial", "declare"}, checkF01)
	register("F02", []string{"stop-when-refused", "stopped-refuses", "stopped-keeps-state", "only-reset-clears", "reset-clears", "not-stopped-accepts"}, checkF02)
	register("F03", []string{"nonce-required", "nonce-replaced", "nonce-fresh", "reset-replaces", "initial-fresh", "nonce-accepts"}, checkF03)
}

// machine is an arbitrary state of a basic machine.
type machine struct {
	m       *eng.Term
	t       types.Type
	st      *eng.State
	cur     *eng.Term
	initial *eng.Term
	edges   *eng.Term
	stopOn  *eng.Term
	stopped *eng.Term
}

func (c *Ctx) machine(st *eng.State, m *eng.Term) machine {
	t := c.Type("pkg/fsm.Machine")
	x := machine{m: m, t: t, st: st}
	x.cur = c.Get(st, m, t, "current")
	x.initial = c.Get(st, m, t, "initial")
	x.edges = c.Get(st, m, t, "allowable")
	x.stopOn = c.Get(st, m, t, "stoppable", "stopOnError")
	x.stopped = c.Get(st, m, t, "stoppable", "stopped")
	return x
}

// allowed decides whether the path established that from->to is declared.
func (c *Ctx) allowed(st *eng.State, edges, from, to *eng.Term) int {
	hasKey := eng.Mk(eng.OHas, "", types.Typ[types.Bool], edges, from)
	if st.Truth(hasKey) == -1 {
		return -1
	}
	seq := eng.Mk(eng.OLookup, "", nil, edges, from)
	return member(st, seq, to)
}

func checkF01(c *Ctx) {
	c.E.NoMerge = true
	T := c.Type("pkg/fsm.Machine")
	sT := c.Type("pkg/fsm.State")
	from, to := c.Sym("from", sT), c.Sym("to", sT)
	{
		// Allowable answers membership in the declared edges
		f := c.Fn("pkg/fsm.Machine.Allowable")
		st := c.E.NewState()
		m := c.Recv(st, "m", T)
		a := c.machine(st, m)
		for _, o := range SplitBool(c.Run(f, st, m, from, to), 0) {
			if o.Kind != "return" {
				c.OblSt("allowable", "Machine.Allowable", false, o.Pos, o.St, "a query ends in %s", o.Kind)
				continue
			}
			want := -1
			if o.St.Truth(o.Ret[0]) == 1 {
				want = 1
			}
			c.OblSt("allowable", "Machine.Allowable", c.allowed(o.St, a.edges, from, to) == want, o.Pos, o.St,
				"answers %v on a path that does not establish that the edge is %s", o.Ret[0], map[int]string{1: "declared", -1: "absent"}[want])
			b := c.machine(o.St, m)
			c.OblSt("allowable", "Machine.Allowable", b.cur == a.cur && b.edges == a.edges && b.stopped == a.stopped, o.Pos, o.St, "a query changes the machine")
		}
	}
	// Transition
	f := c.Fn("pkg/fsm.Machine.Transition")
	st := c.E.NewState()
	m := c.Recv(st, "m", T)
	a := c.machine(st, m)
	okPaths := 0
	for _, o := range SplitNil(c.Run(f, st, m, to), 0) {
		if o.Kind != "return" {
			c.OblSt("transition-allowed", "Machine.Transition", false, o.Pos, o.St, "a transition ends in %s (%s)", o.Kind, o.Why)
			continue
		}
		b := c.machine(o.St, m)
		c.OblSt("transition-allowed", "Machine.Transition", b.edges == a.edges && b.initial == a.initial, o.Pos, o.St, "a transition rewrites the declared graph")
		if isNil(o.St, o.Ret[0]) == 1 {
			okPaths++
			c.OblSt("transition-allowed", "Machine.Transition", c.allowed(o.St, a.edges, a.cur, to) == 1, o.Pos, o.St, "succeeds without establishing that the edge from the current state is declared")
			c.OblSt("transition-allowed", "Machine.Transition", o.St.Same(b.cur, to), o.Pos, o.St, "succeeds and leaves the state %v instead of the requested one", b.cur)
		} else {
			stopped := o.St.Truth(a.stopOn) == 1 && o.St.Truth(a.stopped) == 1
			c.OblSt("transition-refused", "Machine.Transition", stopped || c.allowed(o.St, a.edges, a.cur, to) == -1, o.Pos, o.St, "refuses on a path where the edge may be declared and the machine is not stopped")
			c.OblSt("transition-refused", "Machine.Transition", o.St.Same(b.cur, a.cur), o.Pos, o.St, "a refused transition moves the machine to %v", b.cur)
		}
	}
	c.Obl("transition-allowed", "Machine.Transition", okPaths > 0, f.Pos(), "no transition can succeed")
	// State reports the current state
	for _, o := range c.Run(c.Fn("pkg/fsm.Machine.State"), st.Clone(), m) {
		c.OblSt("transition-allowed", "Machine.State", o.Kind == "return" && o.Ret[0] == a.cur, o.Pos, o.St, "does not report the current state")
	}
	// Reset returns to the initial state and keeps the graph
	for _, o := range c.Run(c.Fn("pkg/fsm.Machine.Reset"), st.Clone(), m) {
		b := c.machine(o.St, m)
		c.OblSt("reset", "Machine.Reset", o.Kind == "return" && o.St.Same(b.cur, a.initial), o.Pos, o.St, "leaves the state %v instead of the initial one", b.cur)
		c.OblSt("reset", "Machine.Reset", b.edges == a.edges && b.initial == a.initial && b.stopOn == a.stopOn && !anyEvent(o.St.Events(), func(ev *eng.Event) bool { return ev.Kind == "mapwrite" }), o.Pos, o.St, "changes the declared graph")
	}
	c.newMachine(T, sT)
	c.declare(T)
	c.nonceMachine(T, sT)
}

// nonceMachine checks that a machine with nonces answers as the machine in it does, and has the one it was made with.
func (c *Ctx) nonceMachine(T, sT types.Type) {
	NT := c.Type("pkg/fsm.MachineNonce")
	from, to := c.Sym("nonce.from", sT), c.Sym("nonce.to", sT)
	st := c.E.NewState()
	mn := c.Recv(st, "mn", NT)
	inner := c.Get(st, mn, NT, "m")
	st.MarkNonNil(inner)
	a := c.machine(st, inner)
	for _, o := range SplitBool(c.Run(c.Fn("pkg/fsm.MachineNonce.Allowable"), st.Clone(), mn, from, to), 0) {
		want := -1
		if o.Kind == "return" && o.St.Truth(o.Ret[0]) == 1 {
			want = 1
		}
		c.OblSt("allowable", "MachineNonce.Allowable", o.Kind == "return" && c.allowed(o.St, a.edges, from, to) == want, o.Pos, o.St, "does not answer whether the edge is declared")
	}
	for _, o := range c.Run(c.Fn("pkg/fsm.MachineNonce.State"), st.Clone(), mn) {
		c.OblSt("transition-allowed", "MachineNonce.State", o.Kind == "return" && o.Ret[0] == a.cur, o.Pos, o.St, "does not report the current state")
	}
	f := c.Fn("pkg/fsm.NewMachineNonce")
	c.opaque("pkg/fsm.NewMachine")
	init, opts := c.Sym("nonce.initial", sT), c.Sym("nonce.opts", f.Params[1].Type())
	for _, o := range SplitNil(c.Run(f, c.E.NewState(), init, opts), 1) {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		made := c.Get(o.St, o.Ret[0], NT, "m")
		ok := anyEvent(o.St.Events(), func(ev *eng.Event) bool {
			return strings.HasSuffix(ev.Name, "fsm.NewMachine") && len(ev.Rs) == 2 && ev.Rs[0] == made && len(ev.Args) == 2 && ev.Args[0] == init && ev.Args[1] == opts && isNil(o.St, ev.Rs[1]) == 1
		})
		c.OblSt("initial", "NewMachineNonce", ok, o.Pos, o.St, "is made without the machine its options give")
	}
}

// newMachine checks the constructor: initial state, empty graph, every option applied once to the returned machine.
func (c *Ctx) newMachine(T, sT types.Type) {
	f := c.Fn("pkg/fsm.NewMachine")
	st := c.E.NewState()
	init := c.Sym("initial", sT)
	opts := c.Sym("opts", f.Params[1].Type())
	ok := 0
	for _, o := range SplitNil(c.Run(f, st, init, opts), 1) {
		if o.Kind != "return" {
			c.OblSt("initial", "NewMachine", false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		if isNil(o.St, o.Ret[1]) == 1 {
			ok++
			m := o.Ret[0]
			c.OblSt("initial", "NewMachine", !anyLost(o.St, func(ev *eng.Event) bool { return ev.Kind == "callfn" }), o.Pos, o.St, "a machine is made although an option failed")
			all := covers(o.St.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
				if ev.Kind != "callfn" || len(ev.Args) != 1 || ev.Args[0] != m || len(sc) == 0 {
					return false
				}
				s, i, ok := elemOf(ev.Val)
				return ok && s == opts && full(o.St, sc[len(sc)-1], s, i)
			})
			c.OblSt("initial", "NewMachine", all, o.Pos, o.St, "succeeds without applying every option to the returned machine")
			var entry *eng.State
			for _, ev := range o.St.Events() {
				if ev.Kind == "loop" && entry == nil && anyEvent([]*eng.Event{ev}, func(x *eng.Event) bool { return x.Kind == "callfn" }) {
					entry = ev.Loop.Entry
				}
			}
			if entry != nil {
				b := c.machine(entry, m)
				c.OblSt("initial", "NewMachine", b.cur == init && b.initial == init, o.Pos, o.St, "a new machine does not start in the given state")
				keys, _, gen := entry.MapUpdates(b.edges)
				c.OblSt("initial", "NewMachine", b.edges.Op == eng.OMapA && len(keys) == 0 && !gen, o.Pos, o.St, "a new machine does not start with an empty, writable graph")
				c.OblSt("initial", "NewMachine", entry.Truth(b.stopped) == -1 && entry.Truth(b.stopOn) == -1, o.Pos, o.St, "a new machine starts stopped or stoppable")
			}
		} else {
			c.OblSt("initial", "NewMachine", anyEvent(o.St.Events(), func(ev *eng.Event) bool { return ev.Kind == "callfn" && ev.Res != nil && ev.Res == o.Ret[1] }), o.Pos, o.St, "reports an error that is not an option's")
		}
	}
	c.Obl("initial", "NewMachine", ok > 0, f.Pos(), "no machine can be made")
}

// declare checks that the options declare exactly the edges they were given.
func (c *Ctx) declare(T types.Type) {
	trT := c.Type("pkg/fsm.Transition")
	fld := func(st *eng.State, v *eng.Term, n string) *eng.Term {
		s := trT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return eng.FieldOf(v, i, s.Field(i).Type())
			}
		}
		return nil
	}
	// one edge
	f := c.Fn("pkg/fsm.WithTransition")
	tr := c.Sym("t", trT)
	for _, o := range c.Run(f, c.E.NewState(), tr) {
		if o.Kind != "return" || o.Ret[0].Op != eng.OFunc {
			c.OblSt("declare", "WithTransition", false, o.Pos, o.St, "does not return an option")
			continue
		}
		m := c.Recv(o.St, "m", T)
		a := c.machine(o.St, m)
		o.St.MarkNonNil(a.edges)
		for _, q := range SplitNil(c.RunVal(o.Ret[0], o.St, m), 0) {
			keys, vals, gen := q.St.MapUpdates(a.edges)
			good := q.Kind == "return" && isNil(q.St, q.Ret[0]) == 1 && len(keys) == 1 && !gen && q.St.Same(keys[0], fld(q.St, tr, "From")) && appendsTo(q.St, vals[0], a.edges, keys[0], fld(q.St, tr, "To"))
			c.OblSt("declare", "WithTransition", good, q.Pos, q.St, "does not declare exactly the edge it was given (keys %v values %v)", keys, vals)
			b := c.machine(q.St, m)
			c.OblSt("declare", "WithTransition", b.cur == a.cur && b.initial == a.initial && b.stopped == a.stopped, q.Pos, q.St, "changes more than the graph")
		}
	}
	// lists of edges
	f = c.Fn("pkg/fsm.WithTransitions")
	trs := c.Sym("ts", f.Params[0].Type())
	for _, o := range c.Run(f, c.E.NewState(), trs) {
		if o.Kind != "return" || o.Ret[0].Op != eng.OFunc {
			c.OblSt("declare", "WithTransitions", false, o.Pos, o.St, "does not return an option")
			continue
		}
		m := c.Recv(o.St, "m", T)
		a := c.machine(o.St, m)
		o.St.MarkNonNil(a.edges)
		for _, q := range SplitNil(c.RunVal(o.Ret[0], o.St, m), 0) {
			all := covers(q.St.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
				if ev.Kind != "mapwrite" || ev.Addr != a.edges || len(sc) == 0 || ev.Val == nil {
					return false
				}
				seq, idx, ok := baseElem(ev.Args[0])
				if !ok || !full(q.St, sc[len(sc)-1], seq, idx) {
					return false
				}
				el := q.St.Load(q.St.ElemAddr(seq, idx), trT)
				if ev.Args[0] != fld(q.St, el, "From") || !appendsTo(nil, ev.Val, a.edges, ev.Args[0], fld(q.St, el, "To")) {
					return false
				}
				return domain(q.St, sc[:len(sc)-1], seq, trs)
			})
			c.OblSt("declare", "WithTransitions", q.Kind == "return" && isNil(q.St, q.Ret[0]) == 1 && all, q.Pos, q.St, "does not declare every edge of every list it was given")
		}
	}
	// the shorthand
	f = c.Fn("pkg/fsm.T")
	from, tos := c.Sym("from", f.Params[0].Type()), c.Sym("tos", f.Params[1].Type())
	for _, o := range c.Run(f, c.E.NewState(), from, tos) {
		if o.Kind != "return" {
			c.OblSt("declare", "T", false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		i := c.Sym("i", types.Typ[types.Int])
		el := o.St.Load(o.St.ElemAddr(o.Ret[0], i), trT)
		want := o.St.Load(o.St.ElemAddr(tos, i), from.Typ)
		n, k := o.St.LenOf(o.Ret[0]), o.St.LenOf(tos)
		ok := (n == k || o.St.Same(n, k)) && (o.St.Same(k, eng.Int(0)) || fld(o.St, el, "From") == from && fld(o.St, el, "To") == want)
		c.OblSt("declare", "T", ok, o.Pos, o.St, "does not give one edge from the source to every target, in order (%v)", o.Ret[0])
	}
}

// appendsTo recognises m[key] extended by one element.
func appendsTo(st *eng.State, v, m, key, el *eng.Term) bool {
	if v == nil || v.Op != eng.OAppend || len(v.Args) != 2 || v.Args[1] != el && (st == nil || !st.Same(v.Args[1], el)) {
		return false
	}
	b := v.Args[0]
	return b.Op == eng.ONil || b.Op == eng.OLookup && b.Args[0] == m && b.Args[1] == key
}

// domain reports whether iterating seq within scopes visits all elements of all lists of root.
func domain(st *eng.State, scopes []*eng.LoopInst, seq, root *eng.Term) bool {
	for seq.Op == eng.OCopy {
		seq = seq.Args[0]
	}
	if seq == root {
		return true
	}
	if seq.Op == eng.OCall && seq.Name == "flat" {
		b := seq.Args[1]
		if s, i, ok := elemOf(b); ok && s == root && i == eng.Bound && (seq.Args[0] == st.LenOf(root)) {
			return true
		}
		return false
	}
	if s, i, ok := elemOf(seq); ok && s == root && len(scopes) > 0 {
		return full(st, scopes[len(scopes)-1], s, i)
	}
	return false
}

func checkF02(c *Ctx) {
	c.E.NoMerge = true
	T := c.Type("pkg/fsm.Machine")
	sT := c.Type("pkg/fsm.State")
	to := c.Sym("to", sT)
	f := c.Fn("pkg/fsm.Machine.Transition")
	st := c.E.NewState()
	m := c.Recv(st, "m", T)
	a := c.machine(st, m)
	c.stopRules("Machine.Transition", c.Run(f, st, m, to), m, a, to)
	f = c.Fn("pkg/fsm.MachineNonce.Transition")
	nT := c.Type("pkg/fsm.MachineNonce")
	st = c.E.NewState()
	n := c.Recv(st, "n", nT)
	inner := c.Get(st, n, nT, "m")
	a = c.machine(st, inner)
	c.stopRules("MachineNonce.Transition", c.Run(f, st, n, to, c.Sym("presented", f.Params[2].Type())), inner, a, to)
	for _, name := range []string{"Machine.Reset", "MachineNonce.Reset"} {
		g := c.Fn("pkg/fsm." + name)
		st := c.E.NewState()
		r := c.Recv(st, "r", g.Params[0].Type())
		in := r
		if strings.HasPrefix(name, "MachineNonce") {
			in = c.Get(st, r, nT, "m")
		}
		a := c.machine(st, in)
		for _, o := range c.Run(g, st, r) {
			b := c.machine(o.St, in)
			c.OblSt("reset-clears", name, o.Kind == "return" && o.St.Truth(b.stopped) == -1, o.Pos, o.St, "leaves the stop condition set")
			c.OblSt("reset-clears", name, b.stopOn == a.stopOn, o.Pos, o.St, "changes whether the machine stops on errors")
		}
	}
	// nothing else clears or sets the stop condition
	for _, name := range []string{"Machine.State", "Machine.Allowable", "MachineNonce.State", "MachineNonce.Allowable", "MachineNonce.Nonce"} {
		g := c.Fn("pkg/fsm." + name)
		st := c.E.NewState()
		r := c.Recv(st, "r", g.Params[0].Type())
		in := r
		if strings.HasPrefix(name, "MachineNonce") {
			in = c.Get(st, r, nT, "m")
		}
		a := c.machine(st, in)
		for _, o := range c.Run(g, st, r) {
			b := c.machine(o.St, in)
			c.OblSt("only-reset-clears", name, o.Kind == "return" && b.stopped == a.stopped && b.stopOn == a.stopOn && b.cur == a.cur, o.Pos, o.St, "a query changes the stop condition or the state")
		}
	}
	// the option only switches it on
	g := c.Fn("pkg/fsm.WithStoppable")
	for _, o := range c.Run(g, c.E.NewState()) {
		if o.Kind != "return" || o.Ret[0].Op != eng.OFunc {
			c.OblSt("stop-when-refused", "WithStoppable", false, o.Pos, o.St, "does not return an option")
			continue
		}
		m := c.Recv(o.St, "m", T)
		a := c.machine(o.St, m)
		for _, q := range c.RunVal(o.Ret[0], o.St, m) {
			b := c.machine(q.St, m)
			c.OblSt("stop-when-refused", "WithStoppable", q.Kind == "return" && isNil(q.St, q.Ret[0]) == 1 && q.St.Truth(b.stopOn) == 1 && b.stopped == a.stopped && b.cur == a.cur, q.Pos, q.St, "does not just make the machine stoppable")
		}
	}
}

func (c *Ctx) stopRules(name string, outs []eng.Outcome, m *eng.Term, a machine, to *eng.Term) {
	for _, o := range SplitNil(outs, 0) {
		if o.Kind != "return" {
			c.OblSt("stopped-refuses", name, false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		b := c.machine(o.St, m)
		stopped := o.St.Truth(a.stopOn) == 1 && o.St.Truth(a.stopped) == 1
		notStopped := o.St.Truth(a.stopOn) == -1 || o.St.Truth(a.stopped) == -1
		if isNil(o.St, o.Ret[0]) == 1 {
			// a success path must have established that the machine is not stopped
			c.OblSt("stopped-refuses", name, notStopped, o.Pos, o.St, "succeeds on a path that does not establish that the machine is not stopped")
			c.OblSt("not-stopped-accepts", name, b.stopped == a.stopped || o.St.Truth(b.stopped) == -1 || o.St.Same(b.stopped, a.stopped), o.Pos, o.St, "an accepted transition stops the machine")
		} else {
			c.OblSt("stop-when-refused", name, o.St.Truth(b.stopped) == 1 || o.St.Truth(a.stopOn) == -1 || strings.HasPrefix(name, "MachineNonce") && c.errKind(o) == "", o.Pos, o.St, "an unallowable transition does not stop a stoppable machine (stopped=%v)", b.stopped)
			c.OblSt("stopped-keeps-state", name, o.St.Same(b.cur, a.cur) || c.errKind(o) == "", o.Pos, o.St, "a refused transition moves the machine")
			if stopped {
				c.OblSt("stopped-refuses", name, true, o.Pos, o.St, "")
			}
		}
		c.OblSt("only-reset-clears", name, o.St.Same(b.stopped, a.stopped) || o.St.Truth(b.stopped) == 1, o.Pos, o.St, "a transition clears the stop condition")
		c.OblSt("only-reset-clears", name, b.stopOn == a.stopOn, o.Pos, o.St, "a transition changes whether the machine stops on errors")
	}
}

// errKind is the name of the concrete error type a path returns, empty for errors of the environment.
func (c *Ctx) errKind(o eng.Outcome) string {
	e := o.Ret[len(o.Ret)-1]
	if e.Op == eng.OIface {
		if n, ok := e.Typ.(*types.Named); ok {
			return n.Obj().Name()
		}
		return e.Typ.String()
	}
	return ""
}

func checkF03(c *Ctx) {
	c.E.NoMerge = true
	nT := c.Type("pkg/fsm.MachineNonce")
	T := c.Type("pkg/fsm.Machine")
	_ = T
	f := c.Fn("pkg/fsm.MachineNonce.Transition")
	nonceFn := c.Fn("pkg/fsm.MachineNonce.Nonce")
	sT := c.Type("pkg/fsm.State")
	st := c.E.NewState()
	n := c.Recv(st, "n", nT)
	inner := c.Get(st, n, nT, "m")
	np := c.Get(st, n, nT, "nonce")
	st.MarkNonNil(np)
	a := c.machine(st, inner)
	nonceOf := func(st *eng.State) *eng.Term {
		outs := c.Run(nonceFn, st.Clone(), n)
		if len(outs) == 1 && outs[0].Kind == "return" {
			return outs[0].Ret[0]
		}
		return nil
	}
	cur := nonceOf(st)
	c.Obl("nonce-required", "MachineNonce.Nonce", cur != nil, nonceFn.Pos(), "the current nonce cannot be read")
	if cur == nil {
		return
	}
	to, pres := c.Sym("to", sT), c.Sym("presented", f.Params[2].Type())
	matched := func(st *eng.State) bool { return bytesEqual(st, cur, pres, 1) }
	succ := 0
	for _, o := range SplitNil(c.Run(f, st, n, to, pres), 0) {
		if o.Kind != "return" {
			c.OblSt("nonce-required", "MachineNonce.Transition", false, o.Pos, o.St, "ends in %s (%s)", o.Kind, o.Why)
			continue
		}
		b := c.machine(o.St, inner)
		failedRand := randFailed(o.St)
		if isNil(o.St, o.Ret[0]) == 1 {
			succ++
			c.OblSt("nonce-accepts", "MachineNonce.Transition", o.St.Same(b.cur, to) && c.allowed(o.St, a.edges, a.cur, to) == 1, o.Pos, o.St, "succeeds without moving along a declared edge")
		}
		if b.cur != a.cur || isNil(o.St, o.Ret[0]) == 1 {
			c.OblSt("nonce-required", "MachineNonce.Transition", matched(o.St), o.Pos, o.St, "changes the state on a path that does not establish that the presented nonce equals the current one")
		} else if c.errKind(o) != "" {
			stopped := o.St.Truth(a.stopOn) == 1 && o.St.Truth(a.stopped) == 1
			used := has(o.St, true, func(t *eng.Term) bool {
				return t.Op == eng.OInit && t.Args[0].Op == eng.OUn && t.Args[0].Name == "once"
			})
			c.OblSt("nonce-accepts", "MachineNonce.Transition", stopped || used || bytesEqual(o.St, cur, pres, -1) || c.allowed(o.St, a.edges, a.cur, to) == -1, o.Pos, o.St, "refuses although the nonce matches, the edge may be declared and the machine is not stopped")
		}
		if failedRand {
			continue
		}
		c.fresh("nonce-replaced", "nonce-fresh", "MachineNonce.Transition", o, nonceOf(o.St), n, nT)
	}
	c.Obl("nonce-accepts", "MachineNonce.Transition", succ > 0, f.Pos(), "no transition can succeed")
	// reset
	g := c.Fn("pkg/fsm.MachineNonce.Reset")
	st = c.E.NewState()
	n = c.Recv(st, "n", nT)
	for _, o := range SplitNil(c.Run(g, st, n), 0) {
		if o.Kind != "return" {
			c.OblSt("reset-replaces", "MachineNonce.Reset", false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		if randFailed(o.St) {
			c.OblSt("reset-replaces", "MachineNonce.Reset", isNil(o.St, o.Ret[0]) == -1, o.Pos, o.St, "hides that no fresh nonce could be made")
			continue
		}
		c.fresh("reset-replaces", "reset-replaces", "MachineNonce.Reset", o, nonceOf(o.St), n, nT)
	}
	// construction
	h := c.Fn("pkg/fsm.NewMachineNonce")
	st = c.E.NewState()
	for _, o := range SplitNil(c.Run(h, st, c.Sym("initial", sT), c.Sym("opts", h.Params[1].Type())), 1) {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		n = o.Ret[0]
		c.fresh("initial-fresh", "initial-fresh", "NewMachineNonce", o, nonceOf(o.St), n, nT)
	}
}

// bytesEqual reports whether the path established equality (1) or inequality (-1) of two byte strings.
func bytesEqual(st *eng.State, a, b *eng.Term, want int) bool {
	return has(st, want == 1, func(t *eng.Term) bool {
		two := func(x, y *eng.Term) bool {
			x, y = strip(x), strip(y)
			return x == a && y == b || x == b && y == a
		}
		switch {
		case t.Op == eng.OCall && (t.Name == "bytes.Equal" || t.Name == "crypto/hmac.Equal" || t.Name == "reflect.DeepEqual") && len(t.Args) == 2:
			return two(t.Args[0], t.Args[1])
		case t.Op == eng.OEq:
			x, y := t.Args[0], t.Args[1]
			if k, ok := y.IntVal(); ok && k == 1 && x.Op == eng.OCall && x.Name == "crypto/subtle.ConstantTimeCompare" {
				return two(x.Args[0], x.Args[1])
			}
			if k, ok := y.IntVal(); ok && k == 0 && x.Op == eng.OCall && x.Name == "bytes.Compare" {
				return two(x.Args[0], x.Args[1])
			}
			if x.Op == eng.OConv && y.Op == eng.OConv && x.Name == "string" && y.Name == "string" {
				return two(x.Args[0], y.Args[0])
			}
		}
		return false
	})
}

func strip(t *eng.Term) *eng.Term {
	for t.Op == eng.OCopy || t.Op == eng.OIface {
		t = t.Args[0]
	}
	return t
}

// buffer is the object a byte slice is a part of.
func buffer(t *eng.Term) *eng.Term {
	for t.Op == eng.OSlice || t.Op == eng.OMake {
		t = t.Args[0]
	}
	return t
}

func isRand(ev *eng.Event) bool {
	return ev.Kind == "call" && (ev.Name == "crypto/rand.Read" || ev.Name == "io.ReadFull" && len(ev.Args) == 2 && eng.Has(ev.Args[0], eng.Mk(eng.OGlobal, "crypto/rand.Reader", nil)))
}

func randFailed(st *eng.State) bool {
	for _, ev := range st.Events() {
		if isRand(ev) && isNil(st, ev.Res) != 1 {
			return true
		}
	}
	return false
}

// fresh requires the nonce in the final state to be new bytes of the cryptographic generator and unused.
func (c *Ctx) fresh(rule1, rule2, name string, o eng.Outcome, now *eng.Term, n *eng.Term, nT types.Type) {
	ok := now != nil
	var k int64
	if ok {
		k, _ = o.St.LenOf(now).IntVal()
		ok = false
		for _, ev := range o.St.Events() {
			if isRand(ev) && strip(ev.Args[len(ev.Args)-1]) == now {
				ok = true
			}
		}
	}
	c.OblSt(rule1, name, ok, o.Pos, o.St, "the nonce is not replaced by new bytes of the cryptographic generator")
	c.OblSt(rule2, name, !ok || k >= 16, o.Pos, o.St, "the new nonce has %d bytes", k)
	if ok {
		// not written after it was drawn
		drawn := false
		for _, ev := range o.St.Events() {
			if isRand(ev) && strip(ev.Args[len(ev.Args)-1]) == now {
				drawn = true
			} else if drawn && ev.Kind == "store" && eng.Root(ev.Addr) == buffer(now) {
				c.OblSt(rule2, name, false, ev.Pos, o.St, "the new nonce is overwritten")
			}
		}
	}
	// a nonce that was used up must not carry over: one-shot guards belong to the new nonce
	np := c.Get(o.St, n, nT, "nonce")
	for a, v := range o.St.Mem() {
		if a.Op == eng.OUn && a.Name == "once" && v.IsTrue() && eng.Root(a.Args[0]) == eng.Root(np) {
			c.OblSt(rule1, name, false, o.Pos, o.St, "the new nonce is already used up")
		}
	}
}
