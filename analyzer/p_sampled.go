package main

import (
	"go/types"

	"monnyverif/eng"
)

func init() {
	register("M05", []string{"sample", "sample-once", "buffer", "direct", "stop", "reset", "forward", "new", "sum", "average", "extreme"}, checkM05)
	register("M06", []string{"ordered", "complete", "empty", "errors", "name", "copy", "add"}, checkM06)
}

// goroutine runs the function started by a go statement from the state at the statement, in which other goroutines go on.
func (c *Ctx) goroutine(ev *eng.Event) []eng.Outcome {
	g := ev.Go
	if g == nil || g.Callee == nil || g.Callee.Op != eng.OFunc || g.Callee.Fn.Blocks == nil {
		return nil
	}
	return c.RunVal(g.Callee, g.St.Fork(), g.Args...)
}

// iterations visits the iterations of the loops of a path, however nested.
func iterations(evs []*eng.Event, f func(inst *eng.LoopInst, k *eng.IterKind)) {
	seen := map[*eng.LoopInst]bool{}
	var rec func(evs []*eng.Event)
	rec = func(evs []*eng.Event) {
		for _, ev := range evs {
			if ev.Kind == "loop" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, k := range ev.Loop.Kinds {
					f(ev.Loop, k)
					rec(k.Events)
				}
			}
		}
	}
	rec(evs)
}

// received lists the channels a list of events received from.
func received(evs []*eng.Event) []*eng.Term {
	var out []*eng.Term
	for _, ev := range evs {
		switch {
		case ev.Kind == "recv":
			out = append(out, ev.Addr)
		case ev.Kind == "select" && ev.Sel.Index >= 0 && !ev.Sel.States[ev.Sel.Index].Send:
			out = append(out, ev.Sel.States[ev.Sel.Index].Ch)
		}
	}
	return out
}

func hasTerm(l []*eng.Term, t *eng.Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func checkM05(c *Ctx) {
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	t := c.Type("pkg/metric.SampledSeries")
	f64 := types.Typ[types.Float64]
	inner := c.role(t, "s", typeIs("*metric.Series"))
	obs := c.role(t, "obs", typeIs("[]float64"))
	tick := c.role(t, "t", typeIs("*time.Ticker"))
	trans := c.role(t, "transform", typeIs("func([]float64) float64"))
	direct := c.role(t, "direct", typeIs("bool"))
	ts := "pkg/metric.Series."
	get := func(st *eng.State, s *eng.Term, f string) *eng.Term { return c.Get(st, s, t, f) }
	rec := func(ev *eng.Event) bool { return c.callTo(ev, ts+"Record") }
	c.opaque(ts+"Record", ts+"Reset", ts+"Values", ts+"Count", ts+"Capacity", ts+"Name", "pkg/metric.NewSeries")
	defer func() { c.E.Opaque = nil }()

	// construction
	ctor := c.Fn("pkg/metric.NewSampledSeries")
	args := c.params(ctor, 0)
	window := args[1]
	for _, o := range SplitNil(c.Run(ctor, c.E.NewState(), args...), 2) {
		if o.Kind != "return" {
			continue
		}
		if isNil(o.St, o.Ret[2]) == -1 {
			ok := isNil(o.St, o.Ret[0]) == 1 && exists(o.St, o.St.Events(), func(st *eng.State, ev *eng.Event) bool {
				return c.callTo(ev, "pkg/metric.NewSeries") && ev.Res != nil && isNil(st, ev.Res) == -1
			})
			c.OblSt("new", "NewSampledSeries", ok, ctor.Pos(), o.St, "fails although the series can be made, or returns %v with an error", o.Ret)
			continue
		}
		p := o.Ret[0]
		var made *eng.Event
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if c.callTo(ev, "pkg/metric.NewSeries") {
				made = ev
			}
		})
		ok := isNil(o.St, p) == -1 && made != nil && made.Args[0] == args[0] && made.Args[1] == args[3] && get(o.St, p, inner) == made.Val && isNil(o.St, made.Res) == 1
		c.OblSt("new", "NewSampledSeries", ok, ctor.Pos(), o.St, "the series returned does not store into the one made with the capacity and options asked for")
		if !ok {
			continue
		}
		var gos []*eng.Event
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if ev.Kind == "go" {
				gos = append(gos, ev)
			}
		})
		for _, sampled := range []bool{true, false} {
			st := o.St.Clone()
			if !st.Assume(eng.Lt(eng.Int(0), window), sampled) {
				continue
			}
			stops := c.RunVal(o.Ret[1], st.Clone())
			if !sampled {
				ok := len(gos) == 0 && st.Truth(get(st, p, direct)) == 1
				for _, q := range stops {
					eachEvent(q.St.Events(), func(ev *eng.Event) {
						if waits(ev) != "" {
							ok = false
						}
					})
					ok = ok && q.Kind == "return"
				}
				c.OblSt("direct", "NewSampledSeries", ok, ctor.Pos(), st, "a series without sample window does not store observations as they come")
				continue
			}
			ok := len(gos) == 1 && st.Truth(get(st, p, direct)) == -1 && get(st, p, trans) == args[2]
			tk := get(st, p, tick)
			ok = ok && anyEvent(st.Events(), func(ev *eng.Event) bool {
				return ev.Kind == "call" && ev.Name == "time.NewTicker" && ev.Val == tk && ev.Args[0] == window
			})
			c.OblSt("sample", "NewSampledSeries", ok, ctor.Pos(), st, "a series with a sample window is not sampled once per window with its function")
			if !ok {
				continue
			}
			// the channel that ends the sampling
			ends := map[*eng.Term]bool{}
			waitsDone := true
			for _, q := range stops {
				if q.Kind != "return" {
					waitsDone = false
					continue
				}
				w := false
				for _, ev := range q.St.Events()[len(st.Events()):] {
					switch {
					case ev.Kind == "send" || ev.Kind == "close":
						ends[ev.Addr] = true
					case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
						w = true
					}
				}
				waitsDone = waitsDone && w
			}
			// the sampling goroutine
			c.E.Interfere = true
			outs := c.goroutine(gos[0])
			c.E.Interfere = false
			tickC := func(s *eng.State) *eng.Term {
				tt := tk.Typ.Underlying().(*types.Pointer).Elem()
				return c.Get(s, tk, tt, "C")
			}
			seen := map[*eng.IterKind]bool{}
			stopped := len(outs) > 0
			for _, q := range outs {
				if q.Kind != "return" {
					stopped = false
					continue
				}
				base := len(gos[0].Go.St.Events())
				_ = base
				st2 := q.St
				var tail []*eng.Event
				evs := st2.Events()
				for i, ev := range evs {
					if ev.Kind == "loop" {
						tail = evs[i+1:]
					}
				}
				got := received(tail)
				end := len(ends) > 0
				for e := range ends {
					end = end && hasTerm(got, e)
				}
				end = end && anyEvent(tail, func(ev *eng.Event) bool {
					return ev.Kind == "call" && ev.Name == "(*time.Ticker).Stop" && ev.Args[0] == tk
				})
				end = end && anyEvent(tail, func(ev *eng.Event) bool { return ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done" })
				stopped = stopped && end && !anyEvent(tail, rec)
				iterations(evs, func(inst *eng.LoopInst, k *eng.IterKind) {
					if seen[k] {
						return
					}
					seen[k] = true
					ticked := hasTerm(received(k.Events), tickC(k.St))
					var recs []*eng.Event
					eachEvent(k.Events, func(ev *eng.Event) {
						if rec(ev) {
							recs = append(recs, ev)
						}
					})
					if !ticked {
						c.OblSt("sample-once", "sampling", len(recs) == 0 && len(changes(k.St)) == len(changes(inst.Entry)), ctor.Pos(), k.St, "something is stored although no sample window ended")
						return
					}
					if !c.OblSt("sample-once", "sampling", len(recs) == 1, ctor.Pos(), k.St, "the end of a sample window stores %d values", len(recs)) {
						return
					}
					r := recs[0]
					old := k.St.Old()
					o0, o1 := get(old, p, obs), get(k.St, p, obs)
					v := r.Args[1]
					empty := k.St.Truth(eng.Eq(k.St.LenOf(o0), eng.Int(0)))
					good := c.isEmpty(k.St, o1)
					if z, isf := floatVal(v); isf && z == 0 {
						good = good && empty == 1
					} else {
						good = good && empty == -1 && anyEvent(k.Events, func(ev *eng.Event) bool {
							return ev.Kind == "callfn" && (ev.Res == v || ev.Val == v) && len(ev.Args) == 1 && sameSeq(old, ev.Args[0], o0)
						})
					}
					good = good && r.Args[0] == get(old, p, inner)
					c.OblSt("sample", "sampling", good, r.Pos, k.St, "the end of a sample window stores %v for observations %v and leaves %v", v, o0, o1)
				})
			}
			c.OblSt("stop", "NewSampledSeries", stopped && waitsDone && len(seen) > 0, ctor.Pos(), st, "stopping does not end the sampling, or does not wait for its end")
		}
	}
	// methods
	c.E.Interfere = true
	defer func() { c.E.Interfere = false }()
	x := c.Sym("x", f64)
	f := c.Method(t, "Record")
	st := c.E.NewState()
	s := c.Recv(st, "ss", t)
	outs := c.Run(f, st.Clone(), s, x)
	c.oneStep("buffer", "SampledSeries.Record", f, outs)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		for _, d := range []bool{true, false} {
			q := o.St.Clone()
			old := q.Old()
			if !q.Assume(get(old, s, direct), d) {
				continue
			}
			o0, o1 := get(old, s, obs), get(q, s, obs)
			var recs []*eng.Event
			eachEvent(q.Events(), func(ev *eng.Event) {
				if rec(ev) {
					recs = append(recs, ev)
				}
			})
			if d {
				ok := len(recs) == 1 && recs[0].Args[0] == get(old, s, inner) && recs[0].Args[1] == x && o1 == o0
				c.OblSt("direct", "SampledSeries.Record", ok, f.Pos(), q, "an observation without sample window is not stored once")
			} else {
				ok := len(recs) == 0 && sameSeq(q, o1, eng.Mk(eng.OAppend, "", o0.Typ, o0, x))
				c.OblSt("buffer", "SampledSeries.Record", ok, f.Pos(), q, "an observation does not join those of the sample window: %v becomes %v", o0, o1)
			}
		}
	}
	f = c.Method(t, "Reset")
	outs = c.Run(f, st.Clone(), s)
	c.oneStep("reset", "SampledSeries.Reset", f, outs)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		old := o.St.Old()
		ok := c.isEmpty(o.St, get(o.St, s, obs)) && anyEvent(o.St.Events(), func(ev *eng.Event) bool {
			return c.callTo(ev, ts+"Reset") && ev.Args[0] == get(old, s, inner)
		}) && !anyEvent(o.St.Events(), rec)
		c.OblSt("reset", "SampledSeries.Reset", ok, f.Pos(), o.St, "a reset leaves observations of the sample window or of the series")
	}
	for _, m := range []string{"Values", "Count", "Capacity", "Name"} {
		f = c.Method(t, m)
		for _, o := range c.Run(f, st.Clone(), s) {
			if o.Kind != "return" {
				continue
			}
			old := o.St.Old()
			ok := len(changes(o.St)) == 0 && anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				return c.callTo(ev, ts+m) && ev.Args[0] == get(old, s, inner) && (ev.Res == o.Ret[0] || ev.Val == o.Ret[0])
			})
			c.OblSt("forward", "SampledSeries."+m, ok, f.Pos(), o.St, "does not report what the series holds")
		}
	}
	c.E.Interfere = false
	// sample functions
	c.E.Opaque = nil
	arr := c.Sym("arr", types.NewSlice(f64))
	id := func(el *eng.Term) *eng.Term { return el }
	n := eng.Convert(c.E.NewState().LenOf(arr), types.Typ[types.Int], f64)
	for _, fn := range []string{"SampleSum", "SampleAverage", "SampleMin", "SampleMax"} {
		f = c.Fn("pkg/metric." + fn)
		for _, o := range c.Run(f, c.E.NewState(), arr) {
			if o.Kind != "return" {
				continue
			}
			r := o.Ret[0]
			for _, empty := range []bool{true, false} {
				q := o.St.Clone()
				if !q.Assume(eng.Eq(q.LenOf(arr), eng.Int(0)), empty) {
					continue
				}
				rule := map[string]string{"SampleSum": "sum", "SampleAverage": "average"}[fn]
				if rule == "" {
					rule = "extreme"
				}
				z, isf := floatVal(r)
				ok := empty && isf && z == 0
				switch fn {
				case "SampleSum", "SampleAverage":
					sum, found := c.sumOver(q, r, arr, id)
					if fn == "SampleSum" {
						ok = ok || found && r == sum
					} else {
						ok = ok || !empty && found && near(r, eng.FloatOp(tQUO, sum, n, f64))
					}
				default:
					ok = ok || !empty && c.extreme(q, r, arr, fn == "SampleMin")
				}
				c.OblSt(rule, fn, ok, f.Pos(), q, "returns %v", r)
			}
		}
	}
}

// isEmpty reports whether a sequence has no elements.
func (c *Ctx) isEmpty(st *eng.State, seq *eng.Term) bool {
	return st.Truth(eng.Eq(st.LenOf(seq), eng.Int(0))) == 1
}

// extreme reports whether v is the least or greatest element of a sequence.
func (c *Ctx) extreme(st *eng.State, v, seq *eng.Term, least bool) bool {
	f64 := types.Typ[types.Float64]
	inst := c.E.LoopVars[v]
	if inst == nil || inst.Trav == nil || inst.Trav.Idx == nil || !complete(st.Events(), inst) {
		return false
	}
	// every element, or every element but the first, which the result starts from
	n := inst.Trav.N
	fromSecond := false
	if !full(st, inst, seq, inst.Trav.Idx) {
		if !st.Same(n, eng.Sub(st.LenOf(seq), eng.Int(1))) {
			return false
		}
		fromSecond = true
	}
	first := st.Load(st.ElemAddr(seq, eng.Int(0)), f64)
	last := st.Load(st.ElemAddr(seq, eng.Sub(st.LenOf(seq), eng.Int(1))), f64)
	name := "math.Min"
	if !least {
		name = "math.Max"
	}
	for _, s := range inst.Slots {
		if s.Sym != v {
			continue
		}
		if s.Init != first && s.Init != last && (fromSecond || !infinite(s.Init, least)) || len(inst.Kinds) == 0 {
			return false
		}
		for _, k := range inst.Kinds {
			next := k.Next[s]
			el := k.St.Load(k.St.ElemAddr(seq, inst.Trav.Idx), f64)
			ok := false
			els := []*eng.Term{el}
			if fromSecond { // all but the first, or all but the last
				els = nil
				if s.Init == last {
					els = append(els, el)
				}
				if s.Init == first {
					els = append(els, k.St.Load(k.St.ElemAddr(seq, eng.Add(inst.Trav.Idx, eng.Int(1))), f64))
				}
			}
			for _, e := range els {
				if next == eng.Pure(name, f64, s.Sym, e) || next == eng.Pure(name, f64, e, s.Sym) {
					ok = true
				}
				lo, hi := e, s.Sym
				if !least {
					lo, hi = hi, lo
				}
				// taken only when beyond, kept only when not
				less := k.St.Truth(eng.FLt(lo, hi))
				more := k.St.Truth(eng.FLt(hi, lo))
				if next == e && (less == 1 || more == -1) || next == s.Sym && (less == -1 || more == 1) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

func infinite(t *eng.Term, pos bool) bool {
	if t == nil || t.Op != eng.OCall || t.Name != "math.Inf" {
		return false
	}
	v, ok := t.Args[0].IntVal()
	return ok && (pos && v >= 0 || !pos && v < 0)
}
