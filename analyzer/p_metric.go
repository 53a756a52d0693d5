package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("M01", []string{"excluded", "lock-released", "lock-paired"}, checkM01)
	register("M02", []string{"add", "value", "reset", "window-add", "window-close", "window-value", "window-reset", "atomic", "new"}, checkM02)
	register("M03", []string{"history", "history-inclusive", "history-copy"}, checkM03)
}

// entries adds every exported method of a type as a thread that may run any number of times beside the others.
func (k *conc) entries(t types.Type, root string, recv *eng.Term, st *eng.State, skip ...string) {
	c := k.c
	ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if !s.Obj().Exported() || in(skip, s.Obj().Name()) {
			continue
		}
		f := c.P.SSA.MethodValue(s)
		if f == nil || f.Blocks == nil {
			continue
		}
		k.entry(s.Obj().Name(), f, true, aliasMap{recv: root}, st.Clone(), append([]*eng.Term{recv}, c.params(f, 1)...)...)
	}
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkM01(c *Ctx) {
	for _, n := range []string{"ConcurrentCounter", "ConcurrentWindowedCounter", "SampledSeries"} {
		t := c.Type("pkg/metric." + n)
		k := c.newConc(n)
		st := c.E.NewState()
		recv := c.Recv(st, n, t)
		k.entries(t, n, recv, st)
		ctor := c.Fn("pkg/metric.New" + n)
		k.ctor("New"+n, ctor, 0, n, c.E.NewState(), c.params(ctor, 0)...)
		k.races("excluded", nil)
		k.locking("lock")
	}
}

// role finds the field of a struct that has a type, preferring a name when several have.
func (c *Ctx) role(t types.Type, prefer string, is func(types.Type) bool) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.Violate("anchor", t.String(), token.NoPos, nil, "%s is not a struct", t)
		panic(abort{"role"})
	}
	var found []string
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if s.Field(i).Name() == prefer {
				return prefer
			}
			found = append(found, s.Field(i).Name())
		}
	}
	if len(found) != 1 {
		c.Violate("anchor", t.String()+"."+prefer, token.NoPos, nil, "type %s has no unique field for %s", t, prefer)
		panic(abort{"role"})
	}
	return found[0]
}

func typeIs(s string) func(types.Type) bool {
	return func(t types.Type) bool {
		return types.TypeString(t, func(p *types.Package) string { return p.Name() }) == s
	}
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// counter is the abstract view of the counters.
type counter struct {
	c                        *Ctx
	ct, wt                   types.Type
	value, start, dur        string
	cur, hist, max, maxDur   string
	curT, histT, timeT, durT types.Type
	intT                     types.Type
}

type window struct {
	hist, value, start, dur, max, maxDur *eng.Term
	cur                                  *eng.Term // struct value of the current window
	curNil                               int
}

func (c *Ctx) counter() *counter {
	x := &counter{c: c, ct: c.Type("pkg/metric.Counter"), wt: c.Type("pkg/metric.WindowedCounter"), intT: types.Typ[types.Int]}
	x.value = c.role(x.ct, "value", intType)
	x.start = c.role(x.ct, "start", typeIs("time.Time"))
	x.dur = c.role(x.ct, "duration", typeIs("time.Duration"))
	x.cur = c.role(x.wt, "current", typeIs("*metric.Counter"))
	x.hist = c.role(x.wt, "hist", typeIs("[]metric.Counter"))
	x.max = c.role(x.wt, "MaxHistory", intType)
	x.maxDur = c.role(x.wt, "MaxHistoryDuration", typeIs("time.Duration"))
	return x
}

func (x *counter) field(st *eng.State, v *eng.Term, name string) *eng.Term {
	s := x.ct.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return eng.FieldOf(v, i, s.Field(i).Type())
		}
	}
	return nil
}

func (x *counter) read(st *eng.State, p *eng.Term) window {
	c := x.c
	w := window{hist: c.Get(st, p, x.wt, x.hist), max: c.Get(st, p, x.wt, x.max), maxDur: c.Get(st, p, x.wt, x.maxDur)}
	cp := c.Get(st, p, x.wt, x.cur)
	w.curNil = isNil(st, cp)
	if w.curNil == 1 {
		w.cur = eng.Zero(x.ct)
	} else {
		w.cur = st.Load(cp, x.ct)
	}
	w.value, w.start, w.dur = x.field(st, w.cur, x.value), x.field(st, w.cur, x.start), x.field(st, w.cur, x.dur)
	return w
}

// split decides the facts a statement about windows distinguishes.
func (x *counter) split(outs []eng.Outcome, inner func(st *eng.State) *eng.Term) []eng.Outcome {
	var res []eng.Outcome
	for _, o := range outs {
		if o.Kind != "return" {
			res = append(res, o)
			continue
		}
		old := o.St.Old()
		cp := x.c.Get(old, inner(old), x.wt, x.cur)
		for _, n := range []bool{true, false} {
			a := o
			a.St = o.St.Clone()
			if !a.St.Assume(eng.Eq(cp, eng.Nil(nil)), n) {
				continue
			}
			if n {
				res = append(res, a)
				continue
			}
			ow := a.St.Old()
			d := x.read(ow, inner(ow)).dur
			for _, z := range []bool{true, false} {
				b := a
				b.St = a.St.Clone()
				if !b.St.Assume(eng.Eq(d, eng.Int(0)), z) {
					continue
				}
				if !z && !b.St.Assume(eng.Lt(eng.Int(0), d), true) {
					continue // negative durations are not windows
				}
				res = append(res, b)
			}
		}
	}
	return res
}

// closed decides whether the window was closed (1) or open (-1) when the path looked at the clock.
func (x *counter) closed(st *eng.State, w window) (bool, bool) {
	if st.Truth(eng.Eq(w.dur, eng.Int(0))) == 1 || w.curNil == 1 {
		return false, true
	}
	end := eng.Add(eng.Nanos(w.start), w.dur)
	isClosed, isOpen := false, false
	for _, now := range nows(st) {
		if st.EntailLe(end, eng.Nanos(now)) {
			isClosed = true
		}
		if st.EntailLe(eng.Nanos(now), end) {
			isOpen = true
		}
	}
	return isClosed, isOpen
}

// nows lists the times a path read from the clock.
func nows(st *eng.State) []*eng.Term {
	var out []*eng.Term
	eachEvent(st.Events(), func(ev *eng.Event) {
		if ev.Kind == "call" && ev.Name == "time.Now" {
			out = append(out, ev.Val)
		}
	})
	return out
}

func isNow(st *eng.State, t *eng.Term) bool {
	for _, n := range nows(st) {
		if n == t || eng.Nanos(t) == eng.Nanos(n) {
			return true
		}
	}
	return false
}

// bounded decides whether out holds the windows of src the limits on the history leave.
func (x *counter) bounded(st *eng.State, out, src *eng.Term, w window) bool {
	c := x.c
	zero := func(t *eng.Term) int { return st.Truth(eng.Eq(t, eng.Int(0))) }
	pos := func(t *eng.Term) bool { return st.EntailLt(eng.Int(0), t) }
	// limited by number first
	lim := src
	n := st.LenOf(src)
	switch {
	case zero(w.max) == 1 || st.EntailLe(w.max, eng.Int(0)):
	case pos(w.max) && st.EntailLe(n, w.max):
	case pos(w.max) && st.EntailLt(w.max, n):
		lim = eng.Mk(eng.OSlice, "", src.Typ, src, eng.Sub(n, w.max), n)
	default:
		// not decided: the number is not limited on this path
		if !sameSeq(st, out, src) {
			return false
		}
	}
	switch {
	case st.EntailLe(w.maxDur, eng.Int(0)):
		return sameSeq(st, out, lim)
	case pos(w.maxDur):
		keep := func(s *eng.State, el *eng.Term) int {
			age := eng.Nanos(x.field(s, el, x.start))
			for _, now := range append(nows(s), nows(st)...) {
				d := eng.Sub(eng.Nanos(now), age)
				if s.EntailLt(w.maxDur, d) {
					return -1
				}
				if s.EntailLe(d, w.maxDur) {
					return 1
				}
			}
			return 0
		}
		for _, l := range []*eng.Term{lim, src} {
			if l == src && lim != src {
				break
			}
			if c.filtered(st, out, l, x.ct, keep) {
				return true
			}
		}
	}
	return false
}

// sameSeq reports whether two sequence values have the same content.
func sameSeq(st *eng.State, a, b *eng.Term) bool {
	norm := func(t *eng.Term) *eng.Term {
		for {
			switch {
			case t.Op == eng.OCopy:
				t = t.Args[0]
			case t.Op == eng.OSlice && t.Args[1] == eng.Int(0) && (t.Args[2] == nil || t.Args[2] == st.LenOf(t.Args[0])):
				t = t.Args[0]
			case (t.Op == eng.OAppend || t.Op == eng.OSlice || t.Op == eng.OCat) && t.Args[0] != nil && (t.Args[0].Op == eng.OCopy):
				n := append([]*eng.Term{}, t.Args...)
				n[0] = t.Args[0].Args[0]
				t = eng.Mk(t.Op, t.Name, t.Typ, n...)
			case t.Op == eng.OSlice && t.Args[2] == nil:
				t = eng.Mk(eng.OSlice, "", t.Typ, t.Args[0], t.Args[1], st.LenOf(t.Args[0]))
			case t.Op == eng.OSlice && (t.Args[0].Op == eng.OAppend) && t.Args[0].Args[0].Op == eng.OCopy:
				in := t.Args[0]
				n := append([]*eng.Term{}, in.Args...)
				n[0] = in.Args[0].Args[0]
				t = eng.Mk(eng.OSlice, "", t.Typ, eng.Mk(eng.OAppend, "", in.Typ, n...), t.Args[1], t.Args[2])
			case t.Op == eng.OSlice && t.Args[0].Op == eng.OMake && st.Seq(t.Args[0], nil) != t.Args[0]:
				t = eng.Mk(eng.OSlice, "", t.Typ, st.Seq(t.Args[0], nil), t.Args[1], t.Args[2])
			case (t.Op == eng.OMake || t.Op == eng.OAlloc) && st.Seq(t, nil) != t:
				t = st.Seq(t, nil)
			default:
				return t
			}
		}
	}
	a, b = norm(a), norm(b)
	if sameTerm(a, b) || st.Same(a, b) {
		return true
	}
	la, lb := st.LenOf(a), st.LenOf(b)
	z := func(n *eng.Term) bool { v, ok := n.IntVal(); return ok && v == 0 }
	return z(la) && z(lb)
}

// sameTerm compares terms regardless of the types attached to sequences.
func sameTerm(a, b *eng.Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != b.Op || a.Name != b.Name || a.N != b.N || len(a.Args) != len(b.Args) || a.K != b.K {
		return false
	}
	switch a.Op {
	case eng.OSlice, eng.OAppend, eng.OCat, eng.OCopy, eng.OStruct:
	default:
		return false
	}
	for i := range a.Args {
		if !sameTerm(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// filtered reports whether out holds exactly the elements of src that keep accepts (1, not -1), in order.
func (c *Ctx) filtered(st *eng.State, out, src *eng.Term, elT types.Type, keep func(s *eng.State, el *eng.Term) int) bool {
	inst := c.E.LoopVars[out]
	if inst == nil || inst.Trav == nil || inst.Trav.Idx == nil || inst.Trav.Rev {
		return false
	}
	if !complete(st.Events(), inst) {
		return false
	}
	for _, s := range inst.Slots {
		if s.Sym != out {
			continue
		}
		if s.Init == nil {
			return false
		}
		if n, ok := inst.Entry.LenOf(s.Init).IntVal(); !ok || n != 0 {
			return false
		}
		seqs := []*eng.Term{src}
		if cp := overCopy(src); cp != src {
			seqs = append(seqs, cp)
		}
		if len(inst.Kinds) == 0 {
			return false
		}
		for _, k := range inst.Kinds {
			next := k.Next[s]
			ok := false
			for _, q := range seqs {
				if !fullSeq(st, inst, q) {
					continue
				}
				el := k.St.Load(k.St.ElemAddr(q, inst.Trav.Idx), elT)
				if ok {
					break
				}
				switch kp := keep(k.St, el); {
				case kp == 1:
					ok = next != nil && next.Op == eng.OAppend && len(next.Args) == 2 && next.Args[0] == s.Sym && (next.Args[1] == el || k.St.Same(next.Args[1], el))
				case kp == -1:
					ok = next == s.Sym
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

// overCopy is the same sequence built over a copy of its beginning.
func overCopy(t *eng.Term) *eng.Term {
	switch t.Op {
	case eng.OSlice, eng.OAppend, eng.OCat:
		as := append([]*eng.Term{}, t.Args...)
		as[0] = overCopy(as[0])
		return eng.Mk(t.Op, t.Name, t.Typ, as...)
	}
	return eng.Mk(eng.OCopy, "", t.Typ, t)
}

// fullSeq reports whether a loop visits every index of a sequence.
func fullSeq(st *eng.State, inst *eng.LoopInst, seq *eng.Term) bool {
	tr := inst.Trav
	if tr == nil || tr.Kind != "index" || tr.Idx == nil {
		return false
	}
	n := st.LenOf(seq)
	return tr.N == n || st.Same(tr.N, n) || inst.Entry.Same(tr.N, inst.Entry.LenOf(seq))
}

func (x *counter) run(f *ssa.Function, ptr types.Type, args ...*eng.Term) (outs []eng.Outcome, recv *eng.Term) {
	st := x.c.E.NewState()
	recv = x.c.Recv(st, types.TypeString(ptr, nil)+f.Name(), ptr)
	return x.c.Run(f, st, append([]*eng.Term{recv}, args...)...), recv
}

func checkM02(c *Ctx) {
	x := c.counter()
	c.E.Stable = c.stable()
	c.E.NoMerge = true
	i := c.Sym("i", types.Typ[types.Uint])
	inc := eng.Convert(i, types.Typ[types.Uint], types.Typ[types.Int])
	// the plain counter, directly and through its locked form
	for _, n := range []string{"Counter", "ConcurrentCounter"} {
		t := c.Type("pkg/metric." + n)
		inner := func(recv *eng.Term) func(st *eng.State) *eng.Term {
			return func(st *eng.State) *eng.Term { return recv }
		}
		c.E.Interfere = false
		rule := func(r string) string { return r }
		if n != "Counter" {
			fn := c.role(t, "c", typeIs("*metric.Counter"))
			inner = func(recv *eng.Term) func(st *eng.State) *eng.Term {
				return func(st *eng.State) *eng.Term { return c.Get(st, recv, t, fn) }
			}
			c.E.Interfere = true
			rule = func(r string) string { return "atomic" }
		}
		val := func(st *eng.State, in func(*eng.State) *eng.Term) *eng.Term { return c.Get(st, in(st), x.ct, x.value) }
		f := c.Method(t, "Add")
		outs, recv := x.run(f, t, i)
		c.oneStep("atomic", n+".Add", f, outs)
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			v0, v1 := val(o.St.Old(), inner(recv)), val(o.St, inner(recv))
			c.OblSt(rule("add"), n+".Add", v1 == eng.Add(v0, inc), f.Pos(), o.St, "the value %v becomes %v", v0, v1)
		}
		f = c.Method(t, "Value")
		outs, recv = x.run(f, t)
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			v0 := val(o.St.Old(), inner(recv))
			c.OblSt(rule("value"), n+".Value", o.Ret[0] == v0 && val(o.St, inner(recv)) == v0, f.Pos(), o.St, "returns %v for %v", o.Ret[0], v0)
		}
		f = c.Method(t, "Reset")
		outs, recv = x.run(f, t)
		c.oneStep("atomic", n+".Reset", f, outs)
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			v1 := val(o.St, inner(recv))
			c.OblSt(rule("reset"), n+".Reset", o.St.Same(v1, eng.Int(0)), f.Pos(), o.St, "leaves %v", v1)
		}
		ctor := c.Fn("pkg/metric.New" + n)
		for _, o := range c.Run(ctor, c.E.NewState()) {
			if o.Kind == "return" {
				p := o.Ret[0]
				ok := isNil(o.St, p) == -1
				if ok {
					in := inner(p)(o.St)
					ok = isNil(o.St, in) == -1 && c.Get(o.St, in, x.ct, x.value) == eng.Int(0)
				}
				c.OblSt("new", "New"+n, ok, ctor.Pos(), o.St, "a new counter does not start at zero")
			}
		}
	}
	// windows
	for _, n := range []string{"WindowedCounter", "ConcurrentWindowedCounter"} {
		t := c.Type("pkg/metric." + n)
		in := func(recv *eng.Term) func(st *eng.State) *eng.Term {
			return func(st *eng.State) *eng.Term { return recv }
		}
		c.E.Interfere = false
		if n != "WindowedCounter" {
			fn := c.role(t, "c", typeIs("*metric.WindowedCounter"))
			in = func(recv *eng.Term) func(st *eng.State) *eng.Term {
				return func(st *eng.State) *eng.Term { return c.Get(st, recv, t, fn) }
			}
			c.E.Interfere = true
		}
		f := c.Method(t, "Add")
		outs, recv := x.run(f, t, i)
		c.oneStep("atomic", n+".Add", f, outs)
		for _, o := range x.split(outs, in(recv)) {
			if o.Kind != "return" {
				continue
			}
			old := o.St.Old()
			p := in(recv)(o.St)
			w0, w1 := x.read(old, in(recv)(old)), x.read(o.St, p)
			kept := w1.max == w0.max && w1.maxDur == w0.maxDur
			added := kept && w1.curNil != 1 && w1.value == eng.Add(w0.value, inc) && sameSeq(o.St, w1.hist, w0.hist) && w1.start == w0.start && w1.dur == w0.dur
			rolled := false
			if kept && w1.curNil != 1 && isNow(o.St, w1.start) && w1.dur == w0.dur && w1.value == inc {
				h := eng.Mk(eng.OAppend, "", w0.hist.Typ, w0.hist, w0.cur)
				rolled = sameSeq(o.St, w1.hist, h) || x.bounded(o.St, w1.hist, h, w0)
			}
			isClosed, isOpen := x.closed(o.St, w0)
			switch {
			case isOpen && isClosed:
				c.OblSt("window-add", n+".Add", added || rolled, f.Pos(), o.St, "an addition is lost")
			case isOpen:
				c.OblSt("window-add", n+".Add", added, f.Pos(), o.St, "an addition to the open window changes %v to %v (history %v)", w0.cur, w1.cur, w1.hist)
			case isClosed:
				c.OblSt("window-close", n+".Add", rolled, f.Pos(), o.St, "an addition after the window closed changes %v to %v (history %v)", w0.cur, w1.cur, w1.hist)
			default:
				c.OblSt("window-add", n+".Add", false, f.Pos(), o.St, "an addition does not depend on whether the window is open")
			}
		}
		f = c.Method(t, "Value")
		outs, recv = x.run(f, t)
		for _, o := range x.split(outs, in(recv)) {
			if o.Kind != "return" {
				continue
			}
			old := o.St.Old()
			w0 := x.read(old, in(recv)(old))
			isClosed, isOpen := x.closed(o.St, w0)
			r := o.Ret[0]
			ok := isOpen && (r == w0.value || o.St.Same(r, w0.value)) || isClosed && o.St.Same(r, eng.Int(0))
			c.OblSt("window-value", n+".Value", ok, f.Pos(), o.St, "returns %v for a window with %v", r, w0.value)
		}
		f = c.Method(t, "Reset")
		outs, recv = x.run(f, t)
		c.oneStep("atomic", n+".Reset", f, outs)
		for _, o := range x.split(outs, in(recv)) {
			if o.Kind != "return" {
				continue
			}
			old := o.St.Old()
			w0, w1 := x.read(old, in(recv)(old)), x.read(o.St, in(recv)(o.St))
			hn, _ := o.St.LenOf(w1.hist).IntVal()
			ok := o.St.Same(o.St.LenOf(w1.hist), eng.Int(0)) && hn == 0 && o.St.Same(w1.value, eng.Int(0)) && (w1.dur == w0.dur || o.St.Same(w1.dur, w0.dur)) && (w1.curNil == 1 || isNow(o.St, w1.start))
			c.OblSt("window-reset", n+".Reset", ok, f.Pos(), o.St, "a reset leaves window %v, history %v", w1.cur, w1.hist)
		}
		c.E.Interfere = false
		ctor := c.Fn("pkg/metric.New" + n)
		d := c.Sym("d", ctor.Params[0].Type())
		for _, o := range c.Run(ctor, c.E.NewState(), d) {
			if o.Kind == "return" && isNil(o.St, o.Ret[0]) == -1 {
				w := x.read(o.St, in(o.Ret[0])(o.St))
				ok := w.curNil != 1 && w.value == eng.Int(0) && w.dur == d && isNow(o.St, w.start) && o.St.LenOf(w.hist) == eng.Int(0)
				c.OblSt("new", "New"+n, ok, ctor.Pos(), o.St, "a new counter starts with window %v and history %v", w.cur, w.hist)
			}
		}
	}
}

// sharesMemory reports whether a slice value lies in the memory of another.
func sharesMemory(v, src *eng.Term) bool {
	for {
		if v == src {
			return true
		}
		switch v.Op {
		case eng.OSlice, eng.OAppend, eng.OCat:
			v = v.Args[0]
		default:
			return false
		}
	}
}

func checkM03(c *Ctx) {
	x := c.counter()
	c.E.Stable = c.stable()
	c.E.NoMerge = true
	for _, n := range []string{"WindowedCounter", "ConcurrentWindowedCounter"} {
		t := c.Type("pkg/metric." + n)
		in := func(recv *eng.Term) func(st *eng.State) *eng.Term {
			return func(st *eng.State) *eng.Term { return recv }
		}
		c.E.Interfere = false
		if n != "WindowedCounter" {
			fn := c.role(t, "c", typeIs("*metric.WindowedCounter"))
			in = func(recv *eng.Term) func(st *eng.State) *eng.Term {
				return func(st *eng.State) *eng.Term { return c.Get(st, recv, t, fn) }
			}
			c.E.Interfere = true
		}
		for _, m := range []string{"History", "HistoryInclusive"} {
			f := c.Method(t, m)
			outs, recv := x.run(f, t)
			for _, o := range x.split(outs, in(recv)) {
				if o.Kind != "return" {
					continue
				}
				old := o.St.Old()
				w0, w1 := x.read(old, in(recv)(old)), x.read(o.St, in(recv)(o.St))
				with := eng.Mk(eng.OAppend, "", w0.hist.Typ, w0.hist, w0.cur)
				r := o.Ret[0]
				same := w1.hist == w0.hist && w1.cur == w0.cur
				c.OblSt("history-copy", n+"."+m, same && !sharesMemory(r, w0.hist), f.Pos(), o.St, "the returned history is part of the counter's own or changes it")
				if m == "HistoryInclusive" {
					c.OblSt("history-inclusive", n+"."+m, x.bounded(o.St, r, with, w0), f.Pos(), o.St, "returns %v for history %v and window %v", r, w0.hist, w0.cur)
					continue
				}
				isClosed, isOpen := x.closed(o.St, w0)
				if w0.curNil == 1 || o.St.Truth(eng.Eq(w0.dur, eng.Int(0))) == 1 {
					isClosed, isOpen = true, false // a counter without windows reports its count
				}
				ok := isClosed && x.bounded(o.St, r, with, w0) || isOpen && x.bounded(o.St, r, w0.hist, w0)
				c.OblSt("history", n+"."+m, ok, f.Pos(), o.St, "returns %v for history %v and window %v", r, w0.hist, w0.cur)
			}
		}
	}
}

var _ = strings.HasPrefix

// oneStep requires that a path changes shared memory in its last critical section only, so that what others can see in between
// is the state before or after the whole operation.
func (c *Ctx) oneStep(rule, what string, f *ssa.Function, outs []eng.Outcome) {
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		evs := o.St.Events()
		last := -1
		for i, ev := range evs {
			if ev.Kind == "lock" {
				last = i
			}
		}
		var bad *eng.Event
		scan := func(ev *eng.Event) {
			switch ev.Kind {
			case "store", "mapwrite":
				if r := eng.Root(ev.Addr); ev.Addr != nil && r.Op != eng.OAlloc && r.Op != eng.OMake && bad == nil {
					bad = ev
				}
			}
		}
		for i := 0; i < last; i++ {
			eachEvent(evs[i:i+1], scan)
		}
		pos := f.Pos()
		if bad != nil {
			pos = bad.Pos
		}
		c.OblSt(rule, what, bad == nil, pos, o.St, "the change is made in more than one critical section, so others can see and change what is in between")
	}
}
