package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("M04", []string{"record", "record-empty", "values", "values-copy", "reset", "observers", "new-invalid", "new", "options", "with-name", "with-values"}, checkM04)
}

type series struct {
	c                   *Ctx
	t                   types.Type
	name, count, values string
	f64                 types.Type
}

func (c *Ctx) series() *series {
	x := &series{c: c, t: c.Type("pkg/metric.Series"), f64: types.Typ[types.Float64]}
	x.name = c.role(x.t, "name", typeIs("metric.Name"))
	x.count = c.role(x.t, "count", intType)
	x.values = c.role(x.t, "values", typeIs("[]float64"))
	return x
}

func (x *series) get(st *eng.State, s *eng.Term, f string) *eng.Term { return x.c.Get(st, s, x.t, f) }

// changes lists the writes of a path to memory it did not allocate.
func changes(st *eng.State) []*eng.Event {
	var out []*eng.Event
	eachEvent(st.Events(), func(ev *eng.Event) {
		if ev.Kind != "store" && ev.Kind != "mapwrite" {
			return
		}
		if r := eng.Root(ev.Addr); ev.Addr == nil || r.Op != eng.OAlloc && r.Op != eng.OMake && r.Op != eng.OMapA {
			out = append(out, ev)
		}
	})
	return out
}

// isZero reports whether a slice is all zeros on a path: freshly made, or overwritten in a loop over all of it.
func (c *Ctx) zeroed(st *eng.State, v, old *eng.Term, el types.Type) bool {
	if v == old {
		if st.Same(st.LenOf(v), eng.Int(0)) {
			return true
		}
		return covers(st.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if ev.Kind != "store" || len(sc) == 0 {
				return false
			}
			tr := sc[len(sc)-1].Trav
			f, ok := floatVal(ev.Val)
			return ok && f == 0 && tr != nil && tr.Idx != nil && full(st, sc[len(sc)-1], old, tr.Idx) && ev.Addr == st.ElemAddr(old, tr.Idx)
		})
	}
	if !st.Same(st.LenOf(v), st.LenOf(old)) {
		return false
	}
	if r := eng.Root(v); r.Op != eng.OAlloc && r.Op != eng.OMake {
		return false
	}
	i := c.Sym("zi", types.Typ[types.Int])
	f, ok := floatVal(st.Load(st.ElemAddr(v, i), el))
	return ok && f == 0
}

// ring reports whether out holds the elements of v from the k-th on, then those before it.
func (x *series) ring(st *eng.State, out, v, count *eng.Term) bool {
	n := st.LenOf(v)
	if st.Same(n, eng.Int(0)) {
		return st.Same(st.LenOf(out), eng.Int(0))
	}
	k := eng.Mk(eng.OBin, "%", types.Typ[types.Int], count, n)
	var ks []*eng.Term
	if st.Same(n, count) || st.Same(k, eng.Int(0)) {
		ks = append(ks, eng.Int(0))
	}
	ks = append(ks, k)
	for _, k := range ks {
		older := eng.Mk(eng.OSlice, "", v.Typ, v, k, n)
		newer := eng.Mk(eng.OSlice, "", v.Typ, v, eng.Int(0), k)
		if sameSeq(st, out, eng.Mk(eng.OCat, "", v.Typ, older, newer)) || sameSeq(st, out, eng.Mk(eng.OCat, "", v.Typ, eng.Mk(eng.OCopy, "", v.Typ, older), newer)) {
			return true
		}
		if i, ok := k.IntVal(); ok && i == 0 && sameSeq(st, out, v) {
			return true
		}
	}
	// element by element
	at := func(idx *eng.Term) []*eng.Term {
		var r []*eng.Term
		for _, k := range append(ks, count) {
			i := eng.Mk(eng.OBin, "%", types.Typ[types.Int], eng.Add(k, idx), n)
			r = append(r, st.Load(st.ElemAddr(v, i), x.f64))
		}
		return r
	}
	is := func(val, idx *eng.Term) bool {
		for _, w := range at(idx) {
			if w == val {
				return true
			}
		}
		return false
	}
	if st.Same(st.LenOf(out), n) {
		i := x.c.Sym("ri", types.Typ[types.Int])
		s2 := st.Clone()
		if v := s2.Load(s2.ElemAddr(out, i), x.f64); is(v, i) {
			return true
		}
	}
	if st.Same(st.LenOf(out), n) && covers(st.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
		if ev.Kind != "store" || len(sc) == 0 {
			return false
		}
		tr := sc[len(sc)-1].Trav
		return tr != nil && tr.Idx != nil && full(st, sc[len(sc)-1], v, tr.Idx) && ev.Addr == st.ElemAddr(out, tr.Idx) && is(ev.Val, tr.Idx)
	}) {
		return true
	}
	inst := x.c.E.LoopVars[out]
	if inst == nil || inst.Trav == nil || inst.Trav.Idx == nil || inst.Trav.Rev || !fullSeq(st, inst, v) || !complete(st.Events(), inst) {
		return false
	}
	for _, s := range inst.Slots {
		if s.Sym != out {
			continue
		}
		if s.Init == nil || !inst.Entry.Same(inst.Entry.LenOf(s.Init), eng.Int(0)) || len(inst.Kinds) == 0 {
			return false
		}
		for _, kd := range inst.Kinds {
			next := kd.Next[s]
			if next == nil || next.Op != eng.OAppend || len(next.Args) != 2 || next.Args[0] != s.Sym || !is(next.Args[1], inst.Trav.Idx) {
				return false
			}
		}
		return true
	}
	return false
}

func checkM04(c *Ctx) {
	c.E.NoMerge = true
	x := c.series()
	tn := "pkg/metric.Series."
	start := func() (*eng.State, *eng.Term) {
		st := c.E.NewState()
		s := c.Recv(st, "s", x.t)
		// the number of observations is never negative: see the rules below
		st.Assume(eng.Lt(x.get(st, s, x.count), eng.Int(0)), false)
		return st, s
	}
	// Record
	st, s := start()
	p := c.Sym("p", x.f64)
	f := c.Fn(tn + "Record")
	for _, o := range c.Run(f, st.Clone(), s, p) {
		if o.Kind != "return" {
			continue
		}
		v0, n0 := x.get(st, s, x.values), x.get(st, s, x.count)
		n := o.St.LenOf(v0)
		for _, part := range []string{"empty", "filling", "full"} {
			s2 := o.St.Clone()
			empty := part == "empty"
			if !s2.Assume(eng.Eq(n, eng.Int(0)), empty) || !empty && !s2.Assume(eng.Lt(n0, n), part == "filling") {
				continue
			}
			ch := changes(s2)
			if empty {
				c.OblSt("record-empty", "Series.Record", len(ch) == 0, f.Pos(), s2, "an observation changes a series without capacity")
				continue
			}
			k := eng.Mk(eng.OBin, "%", types.Typ[types.Int], n0, n)
			ok := len(ch) > 0 && x.get(s2, s, x.values) == v0 && x.get(s2, s, x.count) == eng.Add(n0, eng.Int(1))
			cell, _ := c.Field(s, x.t, x.count)
			stored := false
			for _, ev := range ch {
				switch {
				case ev.Addr == cell:
				case ev.Addr != nil && ev.Addr.Op == eng.OElem && ev.Val == p && (ev.Addr == s2.ElemAddr(v0, k) || (s2.Same(ev.Addr.Args[1], k) || part == "filling" && s2.Same(ev.Addr.Args[1], n0)) && s2.ElemAddr(v0, ev.Addr.Args[1]) == ev.Addr):
					stored = true
				default:
					ok = false
				}
			}
			c.OblSt("record", "Series.Record", ok && stored, f.Pos(), s2, "an observation does not replace exactly the oldest value and count once")
		}
	}
	// Values
	st, s = start()
	f = c.Fn(tn + "Values")
	for _, o := range c.Run(f, st.Clone(), s) {
		if o.Kind != "return" {
			continue
		}
		v0, n0 := x.get(st, s, x.values), x.get(st, s, x.count)
		r := o.Ret[0]
		c.OblSt("values-copy", "Series.Values", len(changes(o.St)) == 0 && !sharesMemory(r, v0), f.Pos(), o.St, "the values returned are the series' own memory or the series changes")
		for _, part := range []bool{true, false} {
			s2 := o.St.Clone()
			if !s2.Assume(eng.Lt(n0, s2.LenOf(v0)), part) {
				continue
			}
			if part {
				c.OblSt("values", "Series.Values", sameSeq(s2, r, v0), f.Pos(), s2, "a series that is not full returns %v", r)
			} else {
				c.OblSt("values", "Series.Values", x.ring(s2, r, v0, n0), f.Pos(), s2, "a full series returns %v, not its values from oldest to newest", r)
			}
		}
	}
	// Reset
	st, s = start()
	f = c.Fn(tn + "Reset")
	for _, o := range c.Run(f, st.Clone(), s) {
		if o.Kind != "return" {
			continue
		}
		v0, v1 := x.get(st, s, x.values), x.get(o.St, s, x.values)
		c.OblSt("reset", "Series.Reset", o.St.Same(x.get(o.St, s, x.count), eng.Int(0)) && c.zeroed(o.St, v1, v0, x.f64) && x.get(o.St, s, x.name) == x.get(st, s, x.name), f.Pos(), o.St, "a reset leaves observations or the count")
	}
	// observers
	st, s = start()
	for _, m := range []string{"Count", "Capacity", "Name"} {
		f = c.Fn(tn + m)
		want := x.get(st, s, x.count)
		switch m {
		case "Capacity":
			want = st.LenOf(x.get(st, s, x.values))
		case "Name":
			c.opaque("pkg/metric.Name.String")
			want = nil
		}
		for _, o := range c.Run(f, st.Clone(), s) {
			if o.Kind != "return" {
				continue
			}
			ok := len(changes(o.St)) == 0
			if want != nil {
				ok = ok && (o.Ret[0] == want || o.St.Same(o.Ret[0], want))
			} else {
				nm := x.get(st, s, x.name)
				ok = ok && anyEvent(o.St.Events(), func(ev *eng.Event) bool {
					return c.callTo(ev, "pkg/metric.Name.String") && ev.Res == o.Ret[0] && len(ev.Args) == 1 && sameTerm(ev.Args[0], nm)
				})
			}
			c.OblSt("observers", "Series."+m, ok, f.Pos(), o.St, "returns %v", o.Ret)
		}
		c.E.Opaque = nil
	}
	x.construct()
}

func (x *series) construct() {
	c := x.c
	f := c.Fn("pkg/metric.NewSeries")
	st := c.E.NewState()
	capn := c.Sym("cap", types.Typ[types.Int])
	opts := c.Sym("opts", f.Params[len(f.Params)-1].Type())
	isOpt := func(st *eng.State, ev *eng.Event) bool { return ev.Kind == "callfn" && len(ev.Args) == 1 }
	for _, o := range SplitNil(c.Run(f, st, capn, opts), 1) {
		if o.Kind != "return" {
			continue
		}
		failed := isNil(o.St, o.Ret[1]) == -1
		for _, pos := range []bool{true, false} {
			s2 := o.St.Clone()
			if !s2.Assume(eng.Lt(eng.Int(0), capn), pos) {
				continue
			}
			if !pos {
				c.OblSt("new-invalid", "NewSeries", failed && isNil(s2, o.Ret[0]) == 1, f.Pos(), s2, "a capacity below one returns %v", o.Ret)
				continue
			}
			// every option that fails ends the construction with its error
			lost := false
			var called *eng.Term
			eachEvent(s2.Events(), func(ev *eng.Event) {
				if isOpt(s2, ev) && ev.Res != nil && !(c.E.LoopVars[ev.Res] != nil) {
					called = ev.Res
				}
			})
			lost = anyLost(s2, func(ev *eng.Event) bool {
				return isOpt(s2, ev) && !(failed && wraps(s2, o.Ret[1], func(t *eng.Term) bool { return t == ev.Res }))
			})
			if failed {
				ok := isNil(s2, o.Ret[0]) == 1 && called != nil && wraps(s2, o.Ret[1], func(t *eng.Term) bool {
					return exists(s2, s2.Events(), func(_ *eng.State, ev *eng.Event) bool { return isOpt(s2, ev) && ev.Res == t })
				})
				c.OblSt("options", "NewSeries", ok, f.Pos(), s2, "a capacity of at least one and options that do not fail return %v", o.Ret)
				continue
			}
			c.OblSt("options", "NewSeries", !lost, f.Pos(), s2, "the error of an option is dropped")
			p := o.Ret[0]
			applied := s2.Same(s2.LenOf(opts), eng.Int(0)) || covers(s2.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
				if !isOpt(s2, ev) || len(sc) == 0 || ev.Args[0] != p {
					return false
				}
				tr := sc[len(sc)-1].Trav
				return tr != nil && tr.Idx != nil && !tr.Rev && full(s2, sc[len(sc)-1], opts, tr.Idx) && ev.Val == s2.Load(s2.ElemAddr(opts, tr.Idx), opts.Typ.Underlying().(*types.Slice).Elem())
			})
			c.OblSt("options", "NewSeries", applied, f.Pos(), s2, "not every option is applied to the series returned, in order")
		}
	}
	// without options
	st = c.E.NewState()
	none := eng.Nil(opts.Typ)
	for _, o := range SplitNil(c.Run(f, st, capn, none), 1) {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		p := o.Ret[0]
		ok := isNil(o.St, p) == -1
		if ok {
			v := x.get(o.St, p, x.values)
			i := c.Sym("i", types.Typ[types.Int])
			z, isf := floatVal(o.St.Load(o.St.ElemAddr(v, i), x.f64))
			ok = o.St.LenOf(v) == capn && isf && z == 0 && o.St.Same(x.get(o.St, p, x.count), eng.Int(0))
		}
		c.OblSt("new", "NewSeries", ok, f.Pos(), o.St, "a new series is not empty with the capacity asked for")
	}
	// the options
	st = c.E.NewState()
	s := c.Recv(st, "os", x.t)
	f = c.Fn("pkg/metric.WithName")
	name := c.Sym("name", types.Typ[types.String])
	md := c.Sym("md", f.Params[1].Type())
	nT := c.Type("pkg/metric.Name")
	ns := c.role(nT, "name", func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String })
	for _, q := range c.Run(f, st.Clone(), name, md) {
		if q.Kind != "return" {
			continue
		}
		for _, o := range SplitNil(c.RunVal(q.Ret[0], q.St, s), 0) {
			if o.Kind != "return" {
				continue
			}
			ok := false
			switch isNil(o.St, o.Ret[0]) {
			case -1:
				ok = o.St.Truth(eng.Eq(name, eng.Str(""))) == 1 && len(changes(o.St)) == 0
			case 1:
				nm := o.St.Load(c.fieldAddr(s, x.t, x.name), nT)
				ok = o.St.Truth(eng.Eq(name, eng.Str(""))) == -1 && structField(nm, nT, ns) == name
			}
			c.OblSt("with-name", "WithName", ok, f.Pos(), o.St, "the option returns %v for the name %v", o.Ret, name)
		}
	}
	st = c.E.NewState()
	s = c.Recv(st, "ov", x.t)
	f = c.Fn("pkg/metric.WithValues")
	vals := c.Sym("vals", f.Params[0].Type())
	c.opaque("pkg/metric.Series.Record")
	for _, q := range c.Run(f, st.Clone(), vals) {
		if q.Kind != "return" {
			continue
		}
		for _, o := range c.RunVal(q.Ret[0], q.St, s) {
			if o.Kind != "return" {
				continue
			}
			ok := isNil(o.St, o.Ret[0]) == 1 && (o.St.Same(o.St.LenOf(vals), eng.Int(0)) || covers(o.St.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
				if !c.callTo(ev, "pkg/metric.Series.Record") || len(sc) == 0 {
					return false
				}
				tr := sc[len(sc)-1].Trav
				if tr == nil || tr.Idx == nil || tr.Rev || !full(o.St, sc[len(sc)-1], vals, tr.Idx) {
					return false
				}
				a := ev.Args[len(ev.Args)-1]
				sq, i, isEl := elemOf(a)
				return isEl && i == tr.Idx && o.St.ElemAddr(vals, i) == o.St.ElemAddr(sq, i)
			}))
			c.OblSt("with-values", "WithValues", ok, f.Pos(), o.St, "the option does not record every value in order")
		}
	}
	c.E.Opaque = nil
}

func (c *Ctx) fieldAddr(base *eng.Term, t types.Type, names ...string) *eng.Term {
	a, _ := c.Field(base, t, names...)
	return a
}

// structField is a field of a struct value.
func structField(v *eng.Term, t types.Type, name string) *eng.Term {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return eng.FieldOf(v, i, s.Field(i).Type())
		}
	}
	return nil
}

var _ = token.NoPos
var _ *ssa.Function
