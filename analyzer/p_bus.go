package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("E01", []string{"excluded", "lock-released", "lock-paired"}, checkE01)
	register("E02", []string{"no-wait", "publish", "bounded", "sender"}, checkE02)
	register("E03", []string{"default", "topics", "only", "event", "topics-kept", "stopped", "subscribe", "unsubscribe"}, checkE03)
	register("E04", []string{"close-owned", "send-owned", "guarded", "once"}, checkE04)
	register("E05", []string{"stopping", "closes", "waits", "timeout", "late", "signal", "listed"}, checkE05)
	register("E06", []string{"type", "payload", "decode", "errors"}, checkE06)
}

// bus is the view of the event bus by the roles of its fields.
type bus struct {
	c                   *Ctx
	t                   *types.Named
	e                   *eng.Term
	subs, done, started string
	lock                string
	regs                []string // maps keyed by event channel: who is subscribed
	section             int
	path                []*eng.Event
	topic               types.Type
}

func (c *Ctx) bus() *bus {
	b := &bus{c: c, t: c.Type("pkg/eventbus.EventBus")}
	b.topic = c.Type("pkg/eventbus.Topic")
	b.subs = c.role(b.t, "subscribers", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), b.topic)
	})
	b.done = c.role(b.t, "done", typeIs("[]chan struct{}"))
	b.started = c.role(b.t, "sdStarted", func(t types.Type) bool { x, ok := t.Underlying().(*types.Basic); return ok && x.Kind() == types.Bool })
	b.lock = c.role(b.t, "mutex", func(t types.Type) bool { return syncType(t) })
	s := b.t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			if _, ok := m.Key().Underlying().(*types.Chan); ok {
				b.regs = append(b.regs, s.Field(i).Name())
			}
		}
	}
	return b
}

func (b *bus) get(st *eng.State, f string) *eng.Term { return b.c.Get(st, b.e, b.t, f) }

func (b *bus) addr(f string) *eng.Term {
	a, _ := b.c.Field(b.e, b.t, f)
	return a
}

// held is the section of the bus lock an event happened in: 0 is none.
func (b *bus) held(ev *eng.Event, write bool) int {
	l := b.addr(b.lock)
	for _, h := range ev.Locks {
		if h.Addr == l && (h.Write || !write) {
			return h.Seq + 1
		}
	}
	return 0
}

// loads reports whether a path loaded v from a field of the bus, in the given section of its lock or a later one.
func (b *bus) loads(evs []*eng.Event, f string, v *eng.Term, section int) bool {
	a := b.addr(f)
	return anyEvent(evs, func(ev *eng.Event) bool {
		return ev.Kind == "load" && ev.Addr == a && ev.Val == v && b.held(ev, false) != 0 && (section == 0 || b.held(ev, false) >= section)
	})
}

// isReg reports whether a map was loaded from one of the registries of the bus.
func (b *bus) isReg(t *eng.Term) bool {
	if t == nil || t.Op != eng.OInit {
		return false
	}
	for _, r := range b.regs {
		if t.Args[0] == b.addr(r) {
			return true
		}
	}
	return false
}

// regEntry finds the entry of a registry a term is reached through, and its key.
func (b *bus) regEntry(t *eng.Term) (m, key *eng.Term) {
	if t == nil {
		return nil, nil
	}
	eng.Find(t, func(x *eng.Term) {
		if x.Op == eng.OLookup && b.isReg(x.Args[0]) {
			m, key = x.Args[0], x.Args[1]
		}
	})
	return
}

// registered tells whether the path found the channel in a registry (1) or did not find it (-1).
func (b *bus) registered(st *eng.State, ch *eng.Term) int {
	is := func(t *eng.Term) bool { return t.Op == eng.OHas && t.Args[1] == ch && b.isReg(t.Args[0]) }
	switch {
	case has(st, true, is):
		return 1
	case has(st, false, is):
		return -1
	}
	return 0
}

// conc runs every operation of the bus beside the others.
func (b *bus) conc() *conc {
	c := b.c
	k := c.newConc("EventBus")
	st := c.E.NewState()
	b.e = c.Recv(st, "bus", b.t)
	k.entries(b.t, "bus", b.e, st)
	ctor := c.Fn("pkg/eventbus.New")
	k.ctor("New", ctor, 0, "bus", c.E.NewState(), c.params(ctor, 0)...)
	// the function that signals the end of a subscriber
	f := c.Method(b.t, "Subscribe")
	for _, o := range c.Run(f, st.Clone(), append([]*eng.Term{b.e}, c.params(f, 1)...)...) {
		if o.Kind == "return" && len(o.Ret) == 2 && o.Ret[1].Op == eng.OFunc {
			t := &thread{name: "ShutdownFunc", multi: true, aliases: aliasMap{b.e: "bus"}, start: eng.AllocCount()}
			t.outs = c.RunVal(o.Ret[1], o.St.Fork())
			k.add(t)
			break
		}
	}
	return k
}

func checkE01(c *Ctx) {
	b := c.bus()
	k := b.conc()
	k.races("excluded", nil)
	k.locking("lock")
}

// ---- E02: nobody waits for a slow subscriber

func checkE02(c *Ctx) {
	b := c.bus()
	k := b.conc()
	for _, t := range k.threads {
		for _, o := range t.outs {
			eachEvent(o.St.Events(), func(ev *eng.Event) {
				if w := waits(ev); w != "" {
					c.OblSt("no-wait", t.name, len(ev.Locks) == 0, ev.Pos, o.St, "%s %s while it holds the lock of the bus", t.name, w)
				}
				if t.parent == nil && (t.name == "Dispatch" || t.name == "Subscribe" || t.name == "ShutdownFunc" || t.name == "New") {
					c.OblSt("publish", t.name, waits(ev) == "", ev.Pos, o.St, "%s %s", t.name, waits(ev))
				}
			})
		}
	}
	// what lets a sender go on: a channel closed before the operation waits for the sender
	type gate struct{ wg, quit string }
	gates := map[gate]bool{}
	var waitsOn []gate
	for _, t := range k.threads {
		if t.parent != nil || t.name != "Unsubscribe" && t.name != "Shutdown" {
			continue
		}
		for _, o := range t.outs {
			ctxDone := func(ch *eng.Term) bool { return isInvokeOf(o.St, ch, "Done") }
			var rec func(evs []*eng.Event, closed []*eng.Term)
			rec = func(evs []*eng.Event, closed []*eng.Term) {
				for _, ev := range evs {
					switch {
					case ev.Kind == "close":
						closed = append(closed[:len(closed):len(closed)], ev.Addr)
					case ev.Kind == "loop":
						for _, kd := range ev.Loop.Kinds {
							rec(kd.Events, closed)
						}
						// what every iteration closes is closed afterwards
						for _, kd := range ev.Loop.Kinds {
							for _, e2 := range kd.Events {
								if e2.Kind == "close" {
									closed = append(closed[:len(closed):len(closed)], e2.Addr)
								}
							}
						}
					case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
						wg := ev.Args[0]
						ok := false
						for _, q := range closed {
							if q.Op == eng.OInit && q.Args[0].Op == eng.OFld && wg.Op == eng.OFld && q.Args[0].Args[0] == wg.Args[0] {
								g := gate{t.aliases.loc2(b, wg), t.aliases.loc2(b, q)}
								gates[g] = true
								waitsOn = append(waitsOn, g)
								ok = true
							}
						}
						c.OblSt("bounded", t.name, ok, ev.Pos, o.St, "%s waits for senders without telling them to stop first", t.name)
					case waits(ev) != "":
						ok := false
						if ev.Kind == "select" {
							for _, s := range ev.Sel.States {
								ok = ok || !s.Send && ctxDone(s.Ch)
							}
						}
						c.OblSt("bounded", t.name, ok, ev.Pos, o.St, "%s %s with no way out when its context ends", t.name, waits(ev))
					}
				}
			}
			rec(o.St.Events(), nil)
		}
	}
	// every goroutine that counts as a sender waits only where the closed channel lets it go on, and ends its count
	for _, t := range k.threads {
		if t.parent == nil {
			continue
		}
		root := t
		for root.parent != nil {
			root = root.parent
		}
		if root.name != "Dispatch" {
			continue
		}
		for _, o := range t.outs {
			if o.Kind == "stuck" {
				c.OblSt("sender", "Dispatch goroutine", false, o.Pos, o.St, "a sender gets stuck: %s", o.Why)
				continue
			}
			var adds []*eng.Term
			dones := map[*eng.Term]int{}
			eachEvent(o.St.Events(), func(ev *eng.Event) {
				switch {
				case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add":
					adds = append(adds, ev.Args[0])
					n, isInt := ev.Args[1].IntVal()
					c.OblSt("sender", "Dispatch goroutine", isInt && n == 1, ev.Pos, o.St, "a sender counts as %v", ev.Args[1])
				case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done":
					dones[ev.Args[0]]++
				case waits(ev) != "":
					ok := false
					if ev.Kind == "select" {
						for _, s := range ev.Sel.States {
							if s.Send || s.Ch.Op != eng.OInit || s.Ch.Args[0].Op != eng.OFld {
								continue
							}
							for _, wg := range adds {
								if wg.Op == eng.OFld && wg.Args[0] == s.Ch.Args[0].Args[0] && gates[gate{t.aliases.loc2(b, wg), t.aliases.loc2(b, s.Ch)}] {
									ok = true
								}
							}
						}
					}
					c.OblSt("sender", "Dispatch goroutine", ok, ev.Pos, o.St, "a sender %s with no way out when its subscriber goes", waits(ev))
				}
			})
			for _, wg := range adds {
				c.OblSt("sender", "Dispatch goroutine", dones[wg] == 1, o.Pos, o.St, "a sender ends with %d of its counts ended", dones[wg])
			}
		}
	}
	_ = waitsOn
}

// loc2 names a location of the bus by types only, so that terms of different goroutines compare.
func (m aliasMap) loc2(b *bus, t *eng.Term) string {
	switch t.Op {
	case eng.OFld:
		if t.Typ != nil {
			return types.TypeString(t.Typ, nil) + "." + fieldNameOf(t.Typ, t.N)
		}
	case eng.OInit:
		return m.loc2(b, t.Args[0])
	}
	return t.String()
}

// isInvokeOf reports whether a value is the result of a method of an interface.
func isInvokeOf(st *eng.State, v *eng.Term, name string) bool {
	return anyEvent(st.Events(), func(ev *eng.Event) bool {
		return ev.Kind == "invoke" && (ev.Res == v || ev.Val == v) && len(ev.Name) > len(name) && ev.Name[len(ev.Name)-len(name)-1:] == "."+name
	})
}

// ---- E03: who receives an event

// site is a send reached from a path, through loops and goroutines.
type site struct {
	ev     *eng.Event
	ch     *eng.Term
	val    *eng.Term
	st     *eng.State
	scopes []*eng.LoopInst
	evs    []*eng.Event // the goroutine it happens in
}

// reach interprets the goroutines of a path.
type reach struct {
	c     *Ctx
	cache map[*eng.Event][]eng.Outcome
}

func (r *reach) outs(ev *eng.Event) []eng.Outcome {
	if o, ok := r.cache[ev]; ok {
		return o
	}
	r.cache[ev] = nil
	o := r.c.goroutine(ev)
	r.cache[ev] = o
	return o
}

// sites lists every send reached from a path.
func (r *reach) sites(evs []*eng.Event, st *eng.State, scopes []*eng.LoopInst) []site {
	var out []site
	for _, ev := range evs {
		switch {
		case ev.Kind == "send":
			out = append(out, site{ev: ev, ch: ev.Addr, val: ev.Val, st: st, scopes: scopes, evs: evs})
		case ev.Kind == "select" && ev.Sel.Index >= 0 && ev.Sel.States[ev.Sel.Index].Send:
			s := ev.Sel.States[ev.Sel.Index]
			out = append(out, site{ev: ev, ch: s.Ch, val: s.Val, st: st, scopes: scopes, evs: evs})
		case ev.Kind == "loop":
			for _, k := range ev.Loop.Kinds {
				out = append(out, r.sites(k.Events, k.St, append(scopes[:len(scopes):len(scopes)], ev.Loop))...)
			}
		case ev.Kind == "go":
			for _, o := range r.outs(ev) {
				out = append(out, r.sites(o.St.Events(), o.St, scopes)...)
			}
		}
	}
	return out
}

// most is the greatest number of sends of one run of a path for one element of every loop.
func (r *reach) most(evs []*eng.Event) int {
	n := 0
	for _, ev := range evs {
		switch {
		case ev.Kind == "send", ev.Kind == "select" && ev.Sel.Index >= 0 && ev.Sel.States[ev.Sel.Index].Send:
			n++
		case ev.Kind == "loop":
			m := 0
			for _, k := range ev.Loop.Kinds {
				if x := r.most(k.Events); x > m {
					m = x
				}
			}
			n += m
		case ev.Kind == "go":
			m := 0
			for _, o := range r.outs(ev) {
				if x := r.most(o.St.Events()); x > m {
					m = x
				}
			}
			n += m
		}
	}
	return n
}

// always reports whether every run of the path reaches an accepted send for every element of the loops around it,
// but for runs that are excused.
func (r *reach) always(evs []*eng.Event, st *eng.State, scopes []*eng.LoopInst, ok func(s site) bool, excused func(st *eng.State, evs []*eng.Event, scopes []*eng.LoopInst) bool) bool {
	for i, ev := range evs {
		switch {
		case ev.Kind == "send":
			if ok(site{ev: ev, ch: ev.Addr, val: ev.Val, st: st, scopes: scopes}) {
				return true
			}
		case ev.Kind == "select" && ev.Sel.Index >= 0 && ev.Sel.States[ev.Sel.Index].Send:
			s := ev.Sel.States[ev.Sel.Index]
			if ok(site{ev: ev, ch: s.Ch, val: s.Val, st: st, scopes: scopes}) {
				return true
			}
		case ev.Kind == "loop" && len(ev.Loop.Kinds) > 0 && complete(evs[i:], ev.Loop):
			all, any := true, false
			for _, k := range ev.Loop.Kinds {
				sc := append(scopes[:len(scopes):len(scopes)], ev.Loop)
				if excused(k.St, k.Events, sc) {
					continue
				}
				any = true
				if !r.always(k.Events, k.St, sc, ok, excused) {
					all = false
					break
				}
			}
			if all && any {
				return true
			}
		case ev.Kind == "go":
			outs := r.outs(ev)
			all, any := len(outs) > 0, false
			for _, o := range outs {
				if excused(o.St, o.St.Events(), scopes) {
					continue
				}
				any = true
				if o.Kind != "return" || !r.always(o.St.Events(), o.St, scopes, ok, excused) {
					all = false
					break
				}
			}
			if all && any {
				return true
			}
		}
	}
	return false
}

func uncopy(t *eng.Term) *eng.Term {
	for t.Op == eng.OCopy {
		t = t.Args[0]
	}
	return t
}

// subscribersOf finds the topic whose subscriber list a channel is an element of.
func (b *bus) subscribersOf(s site) (topic *eng.Term, inst *eng.LoopInst, ok bool) {
	if len(s.scopes) == 0 {
		return nil, nil, false
	}
	seq, idx, is := elemOf(s.ch)
	if !is {
		return nil, nil, false
	}
	inst = s.scopes[len(s.scopes)-1]
	if !full(inst.Entry, inst, seq, idx) {
		return nil, nil, false
	}
	l := uncopy(seq)
	if l.Op != eng.OLookup || l.Args[0].Op != eng.OInit || l.Args[0].Args[0] != b.addr(b.subs) {
		return nil, nil, false
	}
	return l.Args[1], inst, true
}

// topicSeq tells what a sequence of topics holds: the topics given, the default topic, or both, each once.
func (b *bus) topicSeq(st *eng.State, q, topics, def *eng.Term) (given, dflt, ok bool) {
	n, lt := st.LenOf(q), st.LenOf(topics)
	at := func(i, want *eng.Term, given bool) bool {
		s := st.Clone()
		if given {
			if !s.Assume(eng.Lt(i, lt), true) || !s.Assume(eng.Lt(i, eng.Int(0)), false) {
				return false
			}
		}
		v := s.Load(s.ElemAddr(q, i), b.topic)
		return sameElem(v, want) || s.Same(v, want)
	}
	i := b.c.Sym("ti", types.Typ[types.Int])
	el := st.Load(st.ElemAddr(topics, i), b.topic)
	switch {
	case st.Same(n, lt):
		return true, false, at(i, el, true)
	case st.Same(n, eng.Add(lt, eng.Int(1))):
		if at(i, el, true) && at(lt, def, false) {
			return true, true, true
		}
		// the default topic first
		s := st.Clone()
		if !s.Assume(eng.Lt(i, lt), true) || !s.Assume(eng.Lt(i, eng.Int(0)), false) {
			return false, false, false
		}
		v := s.Load(s.ElemAddr(q, eng.Add(i, eng.Int(1))), b.topic)
		return true, true, sameElem(v, el) && at(eng.Int(0), def, false)
	}
	return false, false, false
}

// sameElem compares values read from a sequence, whenever they were.
func sameElem(a, b *eng.Term) bool {
	return a == b || a.Op == eng.OInit && b.Op == eng.OInit && a.Name == b.Name && a.Args[0] == b.Args[0]
}

func checkE03(c *Ctx) {
	b := c.bus()
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	st := c.E.NewState()
	b.e = c.Recv(st, "bus", b.t)
	def := eng.Const(c.Const("pkg/eventbus", "defaultTopic"), b.topic)
	r := &reach{c: c, cache: map[*eng.Event][]eng.Outcome{}}
	c.E.Interfere = true
	f := c.Method(b.t, "Dispatch")
	args := c.params(f, 1)
	event, topics := args[0], args[1]
	for _, o := range c.Run(f, st.Clone(), append([]*eng.Term{b.e}, args...)...) {
		if o.Kind != "return" {
			c.OblSt("default", "Dispatch", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if ev.Kind == "append" || ev.Kind == "store" && ev.Addr.Op == eng.OElem {
				to := ev.Addr
				if to == nil {
					to = ev.Args[0]
				}
				mine := eng.Root(to) != eng.Root(topics)
				if ev.Kind == "append" {
					mine = mine || to.Op == eng.OCopy || o.St.Same(o.St.CapOf(to), o.St.LenOf(to))
				}
				c.OblSt("topics-kept", "Dispatch", mine, ev.Pos, o.St, "writes to the list of topics of its caller")
			}
		})
		for _, stopped := range []bool{true, false} {
			q := o.St.Clone()
			if !q.Assume(b.get(q, b.started), stopped) {
				continue
			}
			evs := q.Events()
			all := r.sites(evs, q, nil)
			if stopped {
				c.OblSt("stopped", "Dispatch", len(all) == 0, f.Pos(), q, "an event published after the shutdown is sent")
				continue
			}
			classify := func(s site) (given, dflt, ok bool) {
				topic, _, is := b.subscribersOf(s)
				if !is {
					return
				}
				if topic == def {
					return false, true, len(s.scopes) == 1
				}
				seq, idx, is := elemOf(topic)
				if !is || len(s.scopes) != 2 || !full(q, s.scopes[0], seq, idx) {
					return
				}
				return b.topicSeq(q, seq, topics, def)
			}
			// runs that may leave a subscriber out
			excused := func(st *eng.State, evs []*eng.Event, scopes []*eng.LoopInst) bool {
				if st.Truth(b.get(st, b.started)) == 1 {
					return true
				}
				out := false
				for t, v := range st.FactTerms() {
					if t.Op == eng.OHas && !v && (b.isReg(t.Args[0]) || t.Args[0].Op == eng.OInit && t.Args[0].Args[0] == b.addr(b.subs)) {
						if _, _, is := elemOf(t.Args[1]); is {
							out = true
						}
						if t.Args[1] == def {
							out = true
						}
					}
				}
				if out {
					return true
				}
				eachEvent(evs, func(ev *eng.Event) {
					// nobody subscribed to the topic
					if ev.Kind == "mapread" && len(ev.Args) == 1 && ev.Addr.Op == eng.OInit && ev.Addr.Args[0] == b.addr(b.subs) {
						for t := range st.FactTerms() {
							eng.Find(t, func(x *eng.Term) {
								if x.Op == eng.OLookup && x.Args[0] == ev.Addr && x.Args[1] == ev.Args[0] && st.Truth(eng.Eq(st.LenOf(x), eng.Int(0))) == 1 {
									out = true
								}
							})
						}
					}
					// the subscriber left
					if ev.Kind == "select" && ev.Sel.Index >= 0 && !ev.Sel.States[ev.Sel.Index].Send {
						ch := ev.Sel.States[ev.Sel.Index].Ch
						for _, s := range ev.Sel.States {
							if _, key := b.regEntry(ch); s.Send && key == s.Ch {
								out = true
							}
						}
					}
				})
				return out
			}
			nests := map[*eng.Event]bool{}
			okDef := r.always(evs, q, nil, func(s site) bool {
				_, d, ok := classify(s)
				if ok && d {
					nests[s.ev] = true
				}
				return ok && d
			}, excused)
			c.OblSt("default", "Dispatch", okDef, f.Pos(), q, "an event is not offered to every subscriber of the default topic")
			okTop := r.always(evs, q, nil, func(s site) bool {
				g, _, ok := classify(s)
				if ok && g {
					nests[s.ev] = true
				}
				return ok && g
			}, excused)
			c.OblSt("topics", "Dispatch", okTop, f.Pos(), q, "an event is not offered to every subscriber of every topic given")
			for _, s := range all {
				_, _, ok := classify(s)
				c.OblSt("only", "Dispatch", ok, s.ev.Pos, s.st, "an event is sent to %v, which is no subscriber of a topic given or of the default topic", s.ch)
				c.OblSt("event", "Dispatch", s.val == event, s.ev.Pos, s.st, "what is sent is %v", s.val)
			}
			lines := map[ssa.Instruction]bool{}
			_ = lines
			pos := map[int]bool{}
			for ev := range nests {
				pos[int(ev.Pos)] = true
			}
			c.OblSt("only", "Dispatch once", r.most(evs) == len(pos), f.Pos(), q, "a subscriber is sent an event more than once for a topic")
		}
	}
	c.E.Interfere = false
	b.subscribe(def)
	b.unsubscribe()
}

// subscribe checks which lists a new subscriber joins.
func (b *bus) subscribe(def *eng.Term) {
	c := b.c
	f := c.Method(b.t, "Subscribe")
	st := c.E.NewState()
	topics := c.Sym("topics", f.Params[1].Type())
	chans := b.t.Underlying().(*types.Struct)
	_ = chans
	for _, o := range c.Run(f, st.Clone(), b.e, topics) {
		if o.Kind != "return" {
			c.OblSt("subscribe", "Subscribe", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		old := o.St.Old()
		if o.St.Truth(b.get(old, b.started)) == 1 {
			continue
		}
		ch := o.Ret[0]
		subs := b.get(old, b.subs)
		joins := func(ev *eng.Event, topic *eng.Term, sc ...*eng.LoopInst) bool {
			st := o.St
			for _, inst := range sc {
				for _, k := range inst.Kinds {
					for _, e2 := range k.Events {
						if e2 == ev {
							st = k.St
						}
					}
				}
			}
			return ev.Kind == "mapwrite" && ev.Name == "" && ev.Addr == subs && len(ev.Args) == 1 && ev.Args[0] == topic && ev.Val != nil && b.joined(st, ev.Val, subs, topic, ch)
		}
		write := func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if b.isReg(ev.Addr) {
				return len(ev.Args) == 1 && ev.Args[0] == ch && ev.Name == ""
			}
			if len(sc) > 0 && len(ev.Args) == 1 {
				q, idx, is := elemOf(ev.Args[0])
				return is && uncopy(q) == topics && full(o.St, sc[len(sc)-1], q, idx) && joins(ev, ev.Args[0], sc...)
			}
			return joins(ev, def)
		}
		for _, none := range []bool{true, false} {
			q := o.St.Clone()
			if !q.Assume(eng.Eq(q.LenOf(topics), eng.Int(0)), none) {
				continue
			}
			var ok bool
			evs := q.Events()
			if none {
				ok = covers(evs, nil, func(ev *eng.Event, sc []*eng.LoopInst) bool { return len(sc) == 0 && joins(ev, def) })
			} else {
				ok = covers(evs, nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
					return len(sc) == 1 && ev.Kind == "mapwrite" && ev.Args[0] != def && write(ev, sc)
				})
				ok = ok && !anyEvent(evs, func(ev *eng.Event) bool { return joins(ev, def) })
			}
			ok = ok && onlyMapWrites(q, write)
			c.OblSt("subscribe", "Subscribe", ok, f.Pos(), q, "a subscriber does not join exactly the topics it asks for, or the default topic when it asks for none")
		}
		reg := true
		for _, r := range b.regs {
			a := b.get(old, r)
			reg = reg && anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				return ev.Kind == "mapwrite" && ev.Name == "" && ev.Addr == a && ev.Args[0] == ch && ev.Val != nil && isNil(o.St, ev.Val) == -1
			})
		}
		c.OblSt("subscribe", "Subscribe registry", reg, f.Pos(), o.St, "a subscriber is not registered, so nothing is sent to it")
	}
}

// joined reports whether v is the list of a topic with one more channel at its end.
func (b *bus) joined(st *eng.State, v, subs, topic, ch *eng.Term) bool {
	if v.Op == eng.OAppend && len(v.Args) == 2 && v.Args[1] == ch {
		base := uncopy(v.Args[0])
		if base.Op == eng.OLookup && base.Args[0] == subs && base.Args[1] == topic {
			return true
		}
	}
	if v.Op == eng.OCat && len(v.Args) == 2 {
		base := uncopy(v.Args[1])
		if n, ok := st.LenOf(v.Args[0]).IntVal(); ok && n == 1 && st.Load(st.ElemAddr(v.Args[0], eng.Int(0)), ch.Typ) == ch && base.Op == eng.OLookup && base.Args[0] == subs && base.Args[1] == topic {
			return true
		}
	}
	if n, ok := st.LenOf(v).IntVal(); !ok || n != 1 || st.Load(st.ElemAddr(v, eng.Int(0)), ch.Typ) != ch {
		return false
	}
	// nobody is subscribed to the topic yet
	for t := range lookupsOf(st, subs, topic) {
		if c := st.Truth(eng.Eq(st.LenOf(t), eng.Int(0))); c == 1 || isNil(st, t) == 1 {
			return true
		}
	}
	return has(st, false, func(t *eng.Term) bool { return t.Op == eng.OHas && t.Args[0] == subs && t.Args[1] == topic })
}

// unsubscribe checks that one subscriber leaves and the others stay.
func (b *bus) unsubscribe() {
	c := b.c
	f := c.Method(b.t, "Unsubscribe")
	st := c.E.NewState()
	args := c.params(f, 1)
	ch, done := args[0], args[1]
	for _, o := range c.Run(f, st.Clone(), b.e, ch, done) {
		if o.Kind != "return" {
			c.OblSt("unsubscribe", "Unsubscribe", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		old := o.St.Old()
		subs := b.get(old, b.subs)
		not := func(x *eng.Term) func(s *eng.State, el *eng.Term) int {
			return func(s *eng.State, el *eng.Term) int { return -s.Truth(eng.Eq(el, x)) }
		}
		cht := ch.Typ
		leaves := func(st *eng.State, ev *eng.Event, inst *eng.LoopInst) bool {
			if ev.Kind != "mapwrite" || ev.Addr != subs || inst.Trav == nil || inst.Trav.Kind != "map" || inst.Trav.Map != subs || ev.Args[0] != inst.Trav.Key {
				return false
			}
			found := false
			for t := range lookupsOf(st, subs, inst.Trav.Key) {
				if ev.Name == "" {
					found = found || c.filtered(st, ev.Val, t, cht, not(ch))
					continue
				}
				// nobody is left
				for _, e2 := range st.Events() {
					if e2.Kind == "loop" {
						for _, s := range e2.Loop.Slots {
							found = found || s.Sym != nil && c.isEmpty(st, s.Sym) && c.filtered(st, s.Sym, t, cht, not(ch))
						}
					}
				}
			}
			return found
		}
		ok := false
		evs := o.St.Events()
		for i, ev := range evs {
			if ev.Kind != "loop" || ev.Loop.Trav == nil || ev.Loop.Trav.Kind != "map" || ev.Loop.Trav.Map != subs || !complete(evs[i:], ev.Loop) {
				continue
			}
			all := len(ev.Loop.Kinds) > 0
			for _, k := range ev.Loop.Kinds {
				hit := 0
				for _, e2 := range k.Events {
					if leaves(k.St, e2, ev.Loop) {
						hit++
					}
				}
				all = all && hit == 1
			}
			ok = ok || all
		}
		only := onlyMapWrites(o.St, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if b.isReg(ev.Addr) {
				return ev.Name == "delete" && ev.Args[0] == ch
			}
			return len(sc) > 0 && ev.Addr == subs
		})
		c.OblSt("unsubscribe", "Unsubscribe", ok && only, f.Pos(), o.St, "the lists of subscribers do not lose exactly the subscriber that leaves")
		c.OblSt("unsubscribe", "Unsubscribe done", c.filtered(o.St, b.get(o.St, b.done), b.get(old, b.done), done.Typ, not(done)), f.Pos(), o.St, "the shutdown waits for %v after a subscriber left", b.get(o.St, b.done))
		for _, r := range b.regs {
			a := b.get(old, r)
			gone := anyEvent(evs, func(ev *eng.Event) bool {
				return ev.Kind == "mapwrite" && ev.Name == "delete" && ev.Addr == a && ev.Args[0] == ch
			})
			c.OblSt("unsubscribe", "Unsubscribe registry", gone || b.registered(o.St, ch) == -1, f.Pos(), o.St, "a subscriber that left stays registered")
		}
	}
}

// lookupsOf finds the values read from a map under a key.
func lookupsOf(st *eng.State, m, key *eng.Term) map[*eng.Term]bool {
	out := map[*eng.Term]bool{}
	add := func(t *eng.Term) {
		if t != nil {
			eng.Find(t, func(x *eng.Term) {
				if x.Op == eng.OLookup && x.Args[0] == m && x.Args[1] == key {
					out[x] = true
				}
			})
		}
	}
	for _, ev := range st.Events() {
		add(ev.Val)
		add(ev.Res)
		for _, a := range ev.Args {
			add(a)
		}
	}
	return out
}

// ---- E04: channels are closed once, and never while something is sent

// recovers reports whether a deferred function called directly recovers.
func recovers(ev *eng.Event) bool {
	if ev.Kind != "defer" || ev.Val == nil || ev.Val.Op != eng.OFunc || ev.Val.Fn == nil {
		return false
	}
	for _, bl := range ev.Val.Fn.Blocks {
		for _, in := range bl.Instrs {
			if ca, ok := in.(*ssa.Call); ok {
				if bi, ok := ca.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// guarded reports whether a panic at the i-th event of a list is recovered by a function called in that list.
func guarded(evs []*eng.Event, i int) bool {
	at := evs[i]
	for _, ev := range evs[:i] {
		if !recovers(ev) {
			continue
		}
		if ev.Fn == at.Fn {
			return true
		}
		for _, f := range at.Stack {
			if f == ev.Fn {
				return true
			}
		}
	}
	return false
}

func checkE04(c *Ctx) {
	b := c.bus()
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	c.E.Interfere = true
	st := c.E.NewState()
	b.e = c.Recv(st, "bus", b.t)
	r := &reach{c: c, cache: map[*eng.Event][]eng.Outcome{}}
	var every func(evs []*eng.Event, st *eng.State, up [][]*eng.Event, f func(evs []*eng.Event, i int, st *eng.State, up [][]*eng.Event))
	every = func(evs []*eng.Event, st *eng.State, up [][]*eng.Event, f func(evs []*eng.Event, i int, st *eng.State, up [][]*eng.Event)) {
		for i, ev := range evs {
			f(evs, i, st, up)
			before := append(up[:len(up):len(up)], evs[:i])
			switch ev.Kind {
			case "loop":
				for _, k := range ev.Loop.Kinds {
					every(k.Events, k.St, before, f)
				}
			case "go":
				for _, o := range r.outs(ev) {
					if o.Kind == "panic" {
						c.OblSt("guarded", "goroutine", false, o.Pos, o.St, "%s", o.Why)
					}
					every(o.St.Events(), o.St, nil, f)
				}
			}
		}
	}
	isEvents := func(ch *eng.Term) bool {
		return ch.Typ != nil && typeIs("chan eventbus.Event")(ch.Typ) || ch.Typ != nil && typeIs("chan<- eventbus.Event")(ch.Typ)
	}
	for _, m := range []string{"Subscribe", "Unsubscribe", "Dispatch", "Shutdown"} {
		f := c.Method(b.t, m)
		args := append([]*eng.Term{b.e}, c.params(f, 1)...)
		for _, o := range c.Run(f, st.Clone(), args...) {
			if o.Kind == "panic" {
				c.OblSt("guarded", m, false, o.Pos, o.St, "%s", o.Why)
			}
			closed := map[*eng.Term]bool{}
			every(o.St.Events(), o.St, nil, func(evs []*eng.Event, i int, st *eng.State, up [][]*eng.Event) {
				ev := evs[i]
				switch {
				case ev.Kind == "close":
					ch := ev.Addr
					c.OblSt("once", m, !closed[ch], ev.Pos, st, "%s closes %v twice", m, ch)
					closed[ch] = true
					if ch.Op == eng.OChan {
						// made here: nobody else closes it
						c.OblSt("close-owned", m, true, ev.Pos, st, "")
						return
					}
					key := ch
					_, k := b.regEntry(ch)
					if k != nil {
						key = k
					}
					owned := b.taken(append(up[:len(up):len(up)], evs[:i]), st, key)
					if isEvents(ch) {
						c.OblSt("guarded", m, guarded(evs, i), ev.Pos, st, "%s closes the channel of a subscriber that may have closed it", m)
						// senders are done
						waited := b.waited(evs[:i], key)
						c.OblSt("close-owned", m, owned && waited, ev.Pos, st, "%s closes %v, which others may close or send on", m, ch)
						return
					}
					if k == nil {
						// the channel that signals the end of a subscriber: closed by the subscriber too
						c.OblSt("guarded", m, guarded(evs, i), ev.Pos, st, "%s closes %v, which may be closed already", m, ch)
						return
					}
					c.OblSt("close-owned", m, owned, ev.Pos, st, "%s closes %v, which others may close", m, ch)
				case ev.Kind == "send" || ev.Kind == "select":
					chs := []*eng.Term{ev.Addr}
					if ev.Kind == "select" {
						chs = nil
						for _, s := range ev.Sel.States {
							if s.Send {
								chs = append(chs, s.Ch)
							}
						}
					}
					for _, ch := range chs {
						if !isEvents(ch) {
							continue
						}
						c.OblSt("guarded", m, guarded(evs, i), ev.Pos, st, "sends to a subscriber that may have closed its channel")
						c.OblSt("send-owned", m, b.counted(evs[:i], st, ch), ev.Pos, st, "sends on %v, which may be closed meanwhile", ch)
					}
				}
			})
			if m == "Subscribe" && o.Kind == "return" && o.Ret[1].Op == eng.OFunc {
				n := 0
				s := o.St.Clone()
				c.E.Interfere = false
				for i := 0; i < 2; i++ {
					for _, q := range c.RunVal(o.Ret[1], s.Clone()) {
						s = q.St
					}
				}
				c.E.Interfere = true
				for _, ev := range s.Events()[len(o.St.Events()):] {
					if ev.Kind == "close" {
						n++
					}
				}
				c.OblSt("once", "ShutdownFunc", n == 1, f.Pos(), o.St, "calling the shutdown function twice closes a channel %d times", n)
				c.OblSt("once", "ShutdownFunc goroutines", b.onceOnly(o.Ret[1]), f.Pos(), o.St, "the shutdown function may close its channel twice when called by several goroutines")
			}
		}
	}
}

// onceOnly reports whether a function closes channels inside sync.Once only.
func (b *bus) onceOnly(f *eng.Term) bool {
	ok := true
	for _, q := range b.c.RunVal(f, b.c.E.NewState()) {
		in := false
		for _, ev := range q.St.Events() {
			if ev.Kind == "once" && ev.Name == "run" {
				in = true
			}
			if ev.Kind == "close" && !in && len(ev.Locks) == 0 {
				ok = false
			}
		}
	}
	return ok
}

// taken reports whether the path removed the subscriber from the registries while it held the lock, having found it.
func (b *bus) taken(lists [][]*eng.Event, st *eng.State, key *eng.Term) bool {
	for _, evs := range lists {
		for i, ev := range evs {
			sec := b.held(ev, true)
			if sec == 0 {
				continue
			}
			if ev.Kind == "mapwrite" && ev.Name == "delete" && ev.Args[0] == key && b.isReg(ev.Addr) && b.registered(st, key) == 1 {
				return true
			}
			// the whole registry was replaced: the old one is ours
			if ev.Kind == "store" && ev.Addr.Op == eng.OFld {
				for _, r := range b.regs {
					if ev.Addr != b.addr(r) || ev.Val.Op != eng.OMapA {
						continue
					}
					for _, e2 := range evs[:i] {
						if e2.Kind == "load" && e2.Addr == ev.Addr && b.held(e2, true) == sec && keyOf(key, e2.Val) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// keyOf reports whether a value is the key of an iteration over a map.
func keyOf(k, m *eng.Term) bool {
	return k.Op == eng.OKey && len(k.Args) > 0 && k.Args[0] == m
}

// waited reports whether the senders of the subscriber were waited for.
func (b *bus) waited(evs []*eng.Event, key *eng.Term) bool {
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" {
			if _, k := b.regEntry(ev.Args[0]); k == key {
				return true
			}
		}
	}
	return false
}

// counted reports whether the path counts as a sender of the channel: it joined while it held the lock, having found the
// channel registered, and has not left.
func (b *bus) counted(evs []*eng.Event, st *eng.State, ch *eng.Term) bool {
	var wg *eng.Term
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		switch ev.Name {
		case "(*sync.WaitGroup).Add":
			if _, k := b.regEntry(ev.Args[0]); k == ch && b.held(ev, false) != 0 && b.registered(st, ch) == 1 {
				wg = ev.Args[0]
			}
		case "(*sync.WaitGroup).Done":
			if ev.Args[0] == wg {
				wg = nil
			}
		}
	}
	return wg != nil
}

// ---- E05: shutdown

func checkE05(c *Ctx) {
	b := c.bus()
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	st := c.E.NewState()
	b.e = c.Recv(st, "bus", b.t)
	c.E.Interfere = true
	defer func() { c.E.Interfere = false }()
	f := c.Method(b.t, "Shutdown")
	ctx := c.Sym("ctx", f.Params[1].Type())
	r := &reach{c: c, cache: map[*eng.Event][]eng.Outcome{}}
	for _, o := range SplitNil(c.Run(f, st.Clone(), b.e, ctx), 0) {
		if o.Kind != "return" {
			c.OblSt("stopping", "Shutdown", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		evs := o.St.Events()
		// no event is accepted from here on
		section := 0
		for _, ev := range evs {
			if ev.Kind == "store" && ev.Addr == b.addr(b.started) && ev.Val.IsTrue() {
				section = b.held(ev, true)
			}
		}
		if !c.OblSt("stopping", "Shutdown", section != 0, f.Pos(), o.St, "the shutdown does not stop events and subscribers under the lock") {
			continue
		}
		// every subscriber is told
		for _, rg := range b.regs {
			told := false
			for i, ev := range evs {
				if ev.Kind != "loop" || ev.Loop.Trav == nil || ev.Loop.Trav.Kind != "map" || !complete(evs[i:], ev.Loop) || len(ev.Loop.Kinds) == 0 {
					continue
				}
				if !b.loads(evs, rg, ev.Loop.Trav.Map, section) {
					continue
				}
				all := true
				for _, k := range ev.Loop.Kinds {
					all = all && anyEvent(k.Events, func(e2 *eng.Event) bool { return e2.Kind == "close" && e2.Addr == ev.Loop.Trav.Key })
				}
				told = told || all
			}
			c.OblSt("closes", "Shutdown", told, f.Pos(), o.St, "the shutdown does not close the channel of every subscriber")
		}
		// the result
		var got []*eng.Term
		for _, ev := range evs {
			got = append(got, received([]*eng.Event{ev})...)
		}
		switch isNil(o.St, o.Ret[0]) {
		case -1, 0:
			ok := false
			for _, g := range got {
				ok = ok || isInvokeOf(o.St, g, "Done")
			}
			ok = ok && o.Ret[0].Op == eng.OInit && o.Ret[0].Args[0].Op == eng.OGlobal && o.Ret[0].Args[0].Name != ""
			c.OblSt("timeout", "Shutdown", ok, f.Pos(), o.St, "fails with %v although its context did not end", o.Ret[0])
		case 1:
			ok := b.allDone(r, evs, o.St, section)
			for _, g := range got {
				ok = ok || b.afterAll(r, evs, o.St, g, section)
			}
			c.OblSt("waits", "Shutdown", ok, f.Pos(), o.St, "succeeds before every subscriber signalled its end")
		}
	}
	// nothing restarts the bus
	for _, m := range []string{"Subscribe", "Unsubscribe", "Dispatch", "Shutdown"} {
		f := c.Method(b.t, m)
		for _, o := range c.Run(f, st.Clone(), append([]*eng.Term{b.e}, c.params(f, 1)...)...) {
			bad := anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				return ev.Kind == "store" && ev.Addr == b.addr(b.started) && !ev.Val.IsTrue()
			})
			c.OblSt("stopping", m, !bad, f.Pos(), o.St, "%s restarts a bus that was shut down", m)
			if m == "Shutdown" || m == "Unsubscribe" || o.Kind != "return" {
				continue
			}
			lost := anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				return ev.Kind == "store" && ev.Addr == b.addr(b.done) && !(ev.Val.Op == eng.OAppend && uncopy(ev.Val.Args[0]).Op == eng.OInit && uncopy(ev.Val.Args[0]).Args[0] == b.addr(b.done))
			})
			c.OblSt("listed", m, !lost, f.Pos(), o.St, "%s drops subscribers the shutdown has to wait for", m)
		}
	}
	c.E.Interfere = false
	// subscribers before and after
	f = c.Method(b.t, "Subscribe")
	for _, o := range c.Run(f, st.Clone(), append([]*eng.Term{b.e}, c.params(f, 1)...)...) {
		if o.Kind != "return" {
			continue
		}
		old := o.St.Old()
		evs := o.St.Events()
		var signal *eng.Term
		if o.Ret[1].Op == eng.OFunc {
			for _, q := range c.RunVal(o.Ret[1], o.St.Clone()) {
				for _, ev := range q.St.Events()[len(evs):] {
					if ev.Kind == "close" {
						signal = ev.Addr
					}
				}
			}
		}
		c.OblSt("signal", "Subscribe", signal != nil, f.Pos(), o.St, "the shutdown function signals nothing")
		switch o.St.Truth(b.get(old, b.started)) {
		case 1:
			ok := anyEvent(evs, func(ev *eng.Event) bool { return ev.Kind == "close" && ev.Addr == o.Ret[0] })
			ok = ok && onlyMapWrites(o.St, func(ev *eng.Event, sc []*eng.LoopInst) bool { return false })
			ok = ok && b.get(o.St, b.done) == b.get(old, b.done)
			c.OblSt("late", "Subscribe", ok, f.Pos(), o.St, "who subscribes after the shutdown is not told")
		case -1:
			d, d0 := b.get(o.St, b.done), b.get(old, b.done)
			ok := d.Op == eng.OAppend && uncopy(d.Args[0]) == d0 && len(d.Args) == 2 && d.Args[1] == signal
			ok = ok && !anyEvent(evs, func(ev *eng.Event) bool { return ev.Kind == "close" })
			c.OblSt("listed", "Subscribe", ok, f.Pos(), o.St, "the shutdown does not wait for the subscriber, or it is closed at once")
		default:
			c.OblSt("late", "Subscribe", false, f.Pos(), o.St, "does not distinguish subscribers after the shutdown")
		}
	}
}

// afterAll reports whether a channel made on the path is closed or sent to only once every subscriber has signalled.
func (b *bus) afterAll(r *reach, evs []*eng.Event, st *eng.State, ch *eng.Term, section int) bool {
	made := anyEvent(evs, func(ev *eng.Event) bool { return ev.Kind == "makechan" && ev.Res == ch })
	if !made {
		return false
	}
	n := 0
	ok := true
	signals := func(ev *eng.Event) bool { return (ev.Kind == "close" || ev.Kind == "send") && ev.Addr == ch }
	var rec func(evs []*eng.Event, outer []*eng.Event)
	rec = func(evs []*eng.Event, outer []*eng.Event) {
		for i, ev := range evs {
			if signals(ev) {
				n++
				ok = ok && (b.allDone(r, evs[:i], st, section) || b.allDone(r, outer, st, section))
			}
			if ev.Kind == "go" {
				for _, o := range r.outs(ev) {
					rec(o.St.Events(), evs[:i])
				}
			}
			if ev.Kind == "loop" {
				for _, k := range ev.Loop.Kinds {
					if anyEvent(k.Events, signals) {
						ok = false
					}
				}
			}
		}
	}
	_ = section
	b.section, b.path = section, evs
	rec(evs, nil)
	return ok && n > 0
}

// allDone reports whether a signal of every subscriber the shutdown waits for was received before the end of a path.
func (b *bus) allDone(r *reach, evs []*eng.Event, st *eng.State, section int) bool {
	for i, ev := range evs {
		if ev.Kind != "loop" || ev.Loop.Trav == nil || len(ev.Loop.Kinds) == 0 || !complete(evs[i:], ev.Loop) {
			continue
		}
		inst := ev.Loop
		mine := func(ch *eng.Term) bool {
			seq, idx, ok := elemOf(ch)
			return ok && full(inst.Entry, inst, seq, idx) && b.loads(b.path, b.done, uncopy(seq), section)
		}
		var wgs []*eng.Term
		all := true
		for _, k := range inst.Kinds {
			if anyEvent(k.Events, func(e *eng.Event) bool { return e.Kind == "recv" && mine(e.Addr) }) {
				continue
			}
			var wg *eng.Term
			for j, e := range k.Events {
				if e.Kind != "go" {
					continue
				}
				outs := r.outs(e)
				ok := len(outs) > 0
				var dn *eng.Term
				for _, o := range outs {
					got := false
					var d *eng.Term
					for _, e2 := range o.St.Events() {
						for _, g := range received([]*eng.Event{e2}) {
							got = got || mine(g)
						}
						if e2.Kind == "call" && e2.Name == "(*sync.WaitGroup).Done" {
							if !got {
								ok = false
							}
							d = e2.Args[0]
						}
					}
					ok = ok && got && d != nil && (dn == nil || dn == d) && o.Kind == "return"
					dn = d
				}
				if ok && b.added(k.Events[:j], evs[:i], inst, dn) {
					wg = dn
				}
			}
			if wg == nil {
				all = false
			}
			wgs = append(wgs, wg)
		}
		if !all {
			continue
		}
		ok := true
		for _, w := range wgs {
			ok = ok && anyEvent(evs[i+1:], func(e *eng.Event) bool {
				return e.Kind == "call" && e.Name == "(*sync.WaitGroup).Wait" && e.Args[0] == w
			})
		}
		if ok {
			return true
		}
	}
	return false
}

// added reports whether a wait group counts the goroutines of a loop before they start.
func (b *bus) added(iter, before []*eng.Event, inst *eng.LoopInst, wg *eng.Term) bool {
	adds := func(evs []*eng.Event) (n int, amount *eng.Term) {
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add" && ev.Args[0] == wg {
				n++
				amount = ev.Args[1]
			}
		}
		return
	}
	n, a := adds(iter)
	m, all := adds(before)
	switch {
	case n == 1 && m == 0:
		v, ok := a.IntVal()
		return ok && v == 1
	case n == 0 && m == 1:
		return inst.Entry.Same(all, inst.Trav.N)
	}
	return false
}

// ---- E06: events

func checkE06(c *Ctx) {
	c.E.NoMerge = true
	t := c.Type("pkg/eventbus.Event")
	typ := c.role(t, "t", typeIs("eventbus.EventType"))
	data := c.role(t, "d", typeIs("[]byte"))
	field := func(v *eng.Term, f string) *eng.Term { return structField(v, t, f) }
	ev := c.Sym("ev", t)
	for _, m := range []string{"String", "Type"} {
		f := c.ValueMethod(t, m)
		for _, o := range c.Run(f, c.E.NewState(), ev) {
			ok := o.Kind == "return" && strip(o.Ret[0]) == strip(field(ev, typ))
			c.OblSt("type", "Event."+m, ok, f.Pos(), o.St, "an event shows %v", o.Ret)
		}
	}
	// an event carries its type and the encoding of its payload
	for _, name := range []string{"NewEvent", "NewErrorEvent"} {
		f := c.Fn("pkg/eventbus." + name)
		args := c.params(f, 0)
		kind, payload := args[0], args[1]
		encodes := func(e *eng.Event) bool { return e.Kind == "call" && e.Name == "(*encoding/gob.Encoder).Encode" }
		for _, o := range SplitNil(c.Run(f, c.E.NewState(), args...), 1) {
			if o.Kind != "return" {
				c.OblSt("errors", name, false, o.Pos, o.St, "%s", o.Why)
				continue
			}
			failed := exists(o.St, o.St.Events(), func(s *eng.State, e *eng.Event) bool { return encodes(e) && isNil(s, e.Res) == -1 })
			if isNil(o.St, o.Ret[1]) != 1 {
				c.OblSt("errors", name, failed, f.Pos(), o.St, "fails although the payload was encoded")
				continue
			}
			c.OblSt("errors", name, !failed && !anyLost(o.St, encodes), f.Pos(), o.St, "succeeds although the payload was not encoded")
			c.OblSt("type", name, field(o.Ret[0], typ) == kind, f.Pos(), o.St, "the event has type %v", field(o.Ret[0], typ))
			var enc *eng.Event
			n := 0
			eachEvent(o.St.Events(), func(e *eng.Event) {
				if encodes(e) {
					enc = e
					n++
				}
			})
			d := field(o.Ret[0], data)
			if n == 0 {
				c.OblSt("payload", name, isNil(o.St, payload) == 1, f.Pos(), o.St, "a payload is not encoded")
				continue
			}
			var buf *eng.Term
			for _, e := range o.St.Events() {
				if e.Kind == "call" && e.Name == "encoding/gob.NewEncoder" && (e.Res == enc.Args[0] || e.Val == enc.Args[0]) {
					buf = strip(e.Args[0])
				}
			}
			ok := n == 1 && buf != nil && strip(enc.Args[1]) == strip(payload) && anyEvent(o.St.Events(), func(e *eng.Event) bool {
				return e.Kind == "call" && e.Name == "(*bytes.Buffer).Bytes" && e.Args[0] == buf && (e.Res == d || e.Val == d || d.Op == eng.OCopy && (e.Res == d.Args[0] || e.Val == d.Args[0])) && e.Seq > enc.Seq
			})
			if ok {
				own := buf.Op == eng.OAlloc
				for _, e := range o.St.Events() {
					if e.Kind != "call" {
						continue
					}
					if (e.Name == "bytes.NewBuffer" || e.Name == "bytes.NewBufferString") && (e.Res == buf || e.Val == buf) {
						n, is := o.St.LenOf(e.Args[0]).IntVal()
						own = is && n == 0 && (e.Args[0].Op == eng.ONil || e.Args[0].Op == eng.OConst || eng.Root(e.Args[0]).Op == eng.OMake)
					}
					if len(e.Args) > 0 && strip(e.Args[0]) == buf {
						switch e.Name {
						case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Cap":
							own = own && !(e.Name == "(*bytes.Buffer).Reset" && e.Seq > enc.Seq)
						case "encoding/gob.NewEncoder", "bytes.NewBuffer", "bytes.NewBufferString":
						default:
							own = false
						}
					}
				}
				c.OblSt("payload", name+" buffer", own, f.Pos(), o.St, "the payload of an event is kept in memory that is not its own")
			}
			c.OblSt("payload", name, ok, f.Pos(), o.St, "the event carries %v", d)
		}
	}
	f := c.ValueMethod(t, "Decode")
	recv := c.Sym("receiver", f.Params[1].Type())
	decodes := func(e *eng.Event) bool { return e.Kind == "call" && e.Name == "(*encoding/gob.Decoder).Decode" }
	for _, o := range SplitNil(c.Run(f, c.E.NewState(), ev, recv), 0) {
		if o.Kind != "return" {
			c.OblSt("decode", "Event.Decode", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		var dec *eng.Event
		n := 0
		eachEvent(o.St.Events(), func(e *eng.Event) {
			if decodes(e) {
				dec = e
				n++
			}
		})
		ok := n == 1
		if ok {
			src := false
			for _, e := range o.St.Events() {
				if e.Kind == "call" && e.Name == "encoding/gob.NewDecoder" && (e.Res == dec.Args[0] || e.Val == dec.Args[0]) {
					rd := strip(e.Args[0])
					for _, e2 := range o.St.Events() {
						if e2.Kind == "call" && (e2.Name == "bytes.NewReader" || e2.Name == "bytes.NewBuffer") && (e2.Res == rd || e2.Val == rd) {
							src = e2.Args[0] == field(ev, data)
						}
					}
				}
			}
			ok = src && strip(dec.Args[1]) == strip(recv) && isNil(o.St, o.Ret[0]) == isNil(o.St, dec.Res)
		}
		c.OblSt("decode", "Event.Decode", ok, f.Pos(), o.St, "the payload is not decoded into the receiver, or its error is lost")
		if isNil(o.St, o.Ret[0]) == -1 {
			private := !mentions(o.St, o.Ret[0], func(x *eng.Term) bool { return x == field(ev, data) || x == recv })
			c.OblSt("payload", "Event.Decode", private, f.Pos(), o.St, "the error of a decoding holds the payload")
		}
	}
}

// mentions reports whether a value is built from a term, through the arguments of the calls that make it.
func mentions(st *eng.State, v *eng.Term, is func(*eng.Term) bool) bool {
	seen := map[*eng.Term]bool{}
	var rec func(v *eng.Term) bool
	rec = func(v *eng.Term) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if is(v) {
			return true
		}
		for _, a := range v.Args {
			if rec(a) {
				return true
			}
		}
		if v.Op == eng.OSlice || v.Op == eng.OAppend || v.Op == eng.OCat {
			var et types.Type
			if v.Typ != nil {
				if sl, ok := v.Typ.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			if es, ok := st.Elems(v, et); et != nil && ok {
				for _, x := range es {
					if rec(x) {
						return true
					}
				}
			} else if r := eng.Root(v); r.Op == eng.OAlloc {
				// what was stored before the memory was handed on
				hit := false
				eachEvent(st.Events(), func(ev *eng.Event) {
					if ev.Kind == "store" && ev.Addr.Op == eng.OElem && eng.Root(ev.Addr) == r && !hit {
						hit = rec(ev.Val)
					}
				})
				if hit {
					return true
				}
			}
		}
		if v.Op != eng.ORes {
			return false
		}
		hit := false
		eachEvent(st.Events(), func(ev *eng.Event) {
			if ev.Kind == "call" && (ev.Res == v || ev.Val == v) && formats(ev.Name) {
				for _, a := range ev.Args {
					hit = hit || rec(a)
				}
			}
		})
		return hit
	}
	return rec(v)
}

// formats names the calls whose result shows their arguments.
func formats(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "errors.", "strconv.", "encoding/hex.", "encoding/base64."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
