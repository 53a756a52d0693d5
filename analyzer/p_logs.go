package main

import (
	"bufio"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("L01", []string{"history", "event", "event-error", "echo", "echo-route", "sink-error", "order", "every-line", "shared"}, checkL01)
	register("L02", []string{"emitter", "counted", "done", "scan-error", "wait", "wait-bounded", "closed", "excluded"}, checkL02)
	register("L03", []string{"apply-order", "apply-once", "priority", "refused", "history", "command", "filter"}, checkL03)
	register("T01", []string{"off", "tick", "tick-only", "stop", "bus"}, checkT01)
}

const procPkg = "pkg/monny/proc"

// logs is the view of the log processor.
type logs struct {
	c                  *Ctx
	t, opt, src, sink  *types.Named
	eb, options        *eng.Term
	outs               []eng.Outcome
	emitters           []*emitter
	emBy               map[*eng.LoopInst]bool
	dispatchI, busName string
}

// emitter is a goroutine started for a source.
type emitter struct {
	start       eng.Outcome
	iter        *eng.IterKind
	inst        *eng.LoopInst
	ev          *eng.Event
	srcs, idx   *eng.Term // the sequence of sources and the index of this one
	name, q, in *eng.Term
	lp          *eng.Term // the processor
	optp        *eng.Term // its options
}

// busOpaque makes the event bus and the queue primitive.
func (c *Ctx) busOpaque(more ...string) {
	set := map[*ssa.Function]bool{}
	for _, n := range more {
		set[c.Fn(n)] = true
	}
	newEvent := c.Fn("pkg/eventbus.NewEvent")
	bus := c.Type("pkg/eventbus.EventBus")
	c.E.Opaque = func(f *ssa.Function) bool {
		if set[f] || f == newEvent {
			return true
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			return types.Identical(t, bus) && f.Object() != nil && f.Object().Exported()
		}
		return false
	}
}

// dispatches are the events put on a bus by a path: what, and on which topics.
type dispatched struct {
	ev     *eng.Event
	bus    *eng.Term
	what   *eng.Term
	topics []*eng.Term
	known  bool
}

func (c *Ctx) dispatches(st *eng.State, evs []*eng.Event) []dispatched {
	var out []dispatched
	for _, ev := range evs {
		var d dispatched
		switch {
		case ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "eventbus.EventDispatcher.Dispatch"):
			d = dispatched{ev: ev, bus: ev.Addr, what: ev.Args[0]}
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "eventbus.EventBus).Dispatch"):
			d = dispatched{ev: ev, bus: ev.Args[0], what: ev.Args[1]}
		default:
			continue
		}
		if d.bus.Op == eng.OIface {
			d.bus = d.bus.Args[0]
		}
		l := ev.Args[len(ev.Args)-1]
		if ev.Var != nil {
			l = ev.Var
		}
		if isNil(st, l) == 1 {
			d.known = true
		} else if es, ok := st.Elems(l, nil); ok {
			d.topics, d.known = es, true
		}
		out = append(out, d)
	}
	return out
}

// isStr reports whether a term is a given string constant, of whatever string type.
func isStr(t *eng.Term, s string) bool {
	t = unconv(t)
	return t != nil && t.Op == eng.OConst && t.C != nil && t.C.Kind() == constant.String && constant.StringVal(t.C) == s
}

func unconv(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == eng.OConv || t.Op == eng.OIface || t.Op == eng.OCopy) && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// newEventOf is the call that made an event.
func (c *Ctx) newEventOf(evs []*eng.Event, what *eng.Term) *eng.Event {
	for _, ev := range evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "eventbus.NewEvent") && ev.Val == what {
			return ev
		}
	}
	return nil
}

// reportsError reports whether a path dispatches an error event of the given type that tells the error.
func (c *Ctx) reportsError(st *eng.State, evs []*eng.Event, bus *eng.Term, typ string, err *eng.Term) int {
	onErr := constant.StringVal(c.onErrorTopic())
	n := 0
	for _, d := range c.dispatches(st, evs) {
		if d.bus != bus || len(d.topics) != 1 || !isStr(d.topics[0], onErr) {
			continue
		}
		ne := c.newEventOf(evs, d.what)
		if ne == nil {
			continue
		}
		kind := isStr(ne.Args[0], "proc."+typ) || mentions(st, ne.Args[0], func(t *eng.Term) bool {
			return t.Op == eng.OIface && strings.HasSuffix(t.Typ.String(), "proc."+typ)
		})
		if kind && mentions(st, ne.Args[1], func(t *eng.Term) bool { return t == err }) {
			n++
		}
	}
	return n
}

// onErrorTopic is the topic error events go to.
func (c *Ctx) onErrorTopic() constant.Value {
	f := c.Fn("pkg/eventbus.OnErrorTopic")
	for _, o := range c.E.Run(f, nil, c.E.NewState()) {
		if o.Kind == "return" && len(o.Ret) == 1 {
			if t := unconv(o.Ret[0]); t.Op == eng.OConst {
				return t.C
			}
		}
	}
	c.Violate("anchor", "OnErrorTopic", f.Pos(), nil, "the topic of errors is not a constant")
	panic(abort{"topic"})
}

func (c *Ctx) logs() *logs {
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	l := &logs{c: c, t: c.Type(procPkg + ".LogProcessor"), opt: c.Type(procPkg + ".logProcOpt"), src: c.Type(procPkg + ".source"), sink: c.Type(procPkg + ".sink")}
	c.busOpaque(procPkg+".Queue.Add", procPkg+".NewQueue")
	f := c.Fn(procPkg + ".NewLogProcessor")
	st := c.E.NewState()
	l.eb = c.Recv(st, "eb", c.Type("pkg/eventbus.EventBus"))
	l.options = c.Sym("options", f.Params[1].Type())
	l.outs = SplitNil(c.Run(f, st.Clone(), l.eb, l.options), 1)
	for _, o := range l.outs {
		o := o
		iterations(o.St.Events(), func(inst *eng.LoopInst, k *eng.IterKind) {
			for _, ev := range k.Events {
				if ev.Kind != "go" {
					continue
				}
				e := &emitter{start: o, iter: k, inst: inst, ev: ev}
				if o.Kind == "return" && len(o.Ret) == 2 {
					e.lp = o.Ret[0]
					e.optp = l.optsOf(o.St, e.lp)
					e.srcs = c.Get(k.St, e.optp, l.opt, "sources")
					if tr := inst.Trav; tr != nil && tr.Idx != nil {
						e.idx = tr.Idx
						el := k.St.ElemAddr(e.srcs, tr.Idx)
						e.name = c.Get(k.St, el, l.src, "name")
						e.q = c.Get(k.St, el, l.src, "q")
						e.in = c.Get(k.St, el, l.src, "in")
					}
				}
				l.emitters = append(l.emitters, e)
			}
		})
	}
	return l
}

// optsOf is the address of the options of a processor.
func (l *logs) optsOf(st *eng.State, lp *eng.Term) *eng.Term {
	a, t := l.c.Field(lp, l.t, "logProcOpt")
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return st.Load(a, t)
	}
	return a
}

func scanCall(ev *eng.Event, name string) bool {
	return ev.Kind == "call" && ev.Name == "(*bufio.Scanner)."+name
}

// scanner is the scanner of a goroutine reading the given source.
func scannerOf(evs []*eng.Event, in *eng.Term) *eng.Term {
	var out *eng.Term
	eachEvent(evs, func(ev *eng.Event) {
		if ev.Kind == "call" && ev.Name == "bufio.NewScanner" && (ev.Args[0] == in || unconv(ev.Args[0]) == in) {
			out = ev.Val
		}
	})
	return out
}

// byLines reports whether what a scanner reads is split into lines, as long as they are by default, in the events.
func byLines(sc *eng.Term, evs ...[]*eng.Event) bool {
	ok := true
	for _, es := range evs {
		eachEvent(es, func(ev *eng.Event) {
			if scanCall(ev, "Split") && ev.Args[0] == sc {
				f := unconv(ev.Args[1])
				ok = ok && f.Op == eng.OFunc && f.Fn != nil && eng.FuncName(f.Fn) == "bufio.ScanLines"
			}
			if scanCall(ev, "Buffer") && ev.Args[0] == sc {
				n, known := ev.Args[2].IntVal()
				ok = ok && !(known && n < bufio.MaxScanTokenSize)
			}
		})
	}
	return ok
}

// ofLine reports whether a value is the line of an iteration.
func ofLine(evs []*eng.Event, sc, t *eng.Term) bool {
	t = unconv(t)
	for t != nil && t.Op == eng.OCat && len(t.Args) == 2 && (t.Args[0].Op == eng.ONil || isEmptyLit(t.Args[0])) {
		t = unconv(t.Args[1])
	}
	for _, ev := range evs {
		if (scanCall(ev, "Bytes") || scanCall(ev, "Text")) && ev.Args[0] == sc && ev.Val == t {
			return true
		}
	}
	return false
}

func isEmptyLit(t *eng.Term) bool {
	if t.Op == eng.OMake {
		n, ok := t.Args[1].IntVal()
		return ok && n == 0
	}
	return false
}

// sinkWrite is what an event writes to.
func sinkWrite(ev *eng.Event) *eng.Term {
	switch {
	case ev.Kind == "invoke" && (strings.HasSuffix(ev.Name, ".Write") || strings.HasSuffix(ev.Name, ".WriteString")):
		return ev.Addr
	case ev.Kind == "call" && (strings.HasPrefix(ev.Name, "fmt.Fprint") || ev.Name == "io.WriteString"):
		return unconv(ev.Args[0])
	}
	return nil
}

// lineAndNewline reports whether an event writes the line and a newline.
func lineAndNewline(st *eng.State, evs []*eng.Event, sc *eng.Term, ev *eng.Event) bool {
	nl := func(x *eng.Term) bool {
		if n, ok := x.IntVal(); ok {
			return n == '\n'
		}
		return isStr(x, "\n")
	}
	var parts []*eng.Term
	if ev.Kind == "invoke" {
		t := unconv(ev.Args[0])
		if t.Op == eng.OAppend && len(t.Args) == 2 {
			return ofLine(evs, sc, t.Args[0]) && nl(t.Args[1])
		}
		if t.Op == eng.OCat && len(t.Args) == 2 && ofLine(evs, sc, t.Args[0]) {
			es, ok := st.Elems(t.Args[1], types.Typ[types.Byte])
			return ok && len(es) == 1 && nl(es[0]) || nl(unconv(t.Args[1]))
		}
		parts = text(st, t)
	} else {
		parts = output(st, ev)
		if ev.Name == "fmt.Fprintln" {
			return len(parts) == 1 && ofLine(evs, sc, parts[0])
		}
	}
	return len(parts) == 2 && ofLine(evs, sc, parts[0]) && nl(parts[1])
}

// names of the sources and sinks of the process and of monny
func (l *logs) is(name string) *eng.Term {
	return eng.Const(l.c.Const(procPkg, name), l.c.Type(procPkg+".sourceOrSink"))
}

// lineLoop finds the loop of a goroutine that scans a source.
func lineLoop(evs []*eng.Event, sc *eng.Term) *eng.LoopInst {
	for _, ev := range evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, k := range ev.Loop.Kinds {
			for _, e := range k.Events {
				if scanCall(e, "Scan") && e.Args[0] == sc {
					return ev.Loop
				}
			}
		}
	}
	return nil
}

func checkL01(c *Ctx) {
	l := c.logs()
	// the sources share the list of sinks they were made from
	var all []*ssa.Function
	all = append(append(all, c.Fn(procPkg+".NewLogProcessor")), c.Fn(procPkg+".NewLogProcessor").AnonFuncs...)
	sinkList := types.NewSlice(l.sink)
	c.unshared("shared", all, func(v ssa.Value) bool { return types.Identical(v.Type(), sinkList) }, "the list of sinks is overwritten while sources use it")
	logTopic := constant.StringVal(c.Const(procPkg, "LogTopic"))
	logLine := constant.StringVal(c.Const(procPkg, "LogLine"))
	seen := false
	for _, e := range l.emitters {
		if e.srcs == nil || e.idx == nil {
			c.OblSt("every-line", "NewLogProcessor", false, e.ev.Pos, e.iter.St, "a log source is read by a goroutine of no processor")
			continue
		}
		// the routes a source can have
		for _, route := range []string{"pStdout", "pStderr", "other"} {
			g := *e.ev
			gi := *e.ev.Go
			gi.St = gi.St.Clone()
			out, er := gi.St.Assume(eng.Eq(e.name, l.is("pStdout")), route == "pStdout"), true
			if route != "pStdout" {
				er = gi.St.Assume(eng.Eq(e.name, l.is("pStderr")), route == "pStderr")
			}
			if !out || !er {
				continue
			}
			g.Go = &gi
			for _, o := range c.goroutine(&g) {
				sc := scannerOf(o.St.Events(), e.in)
				if sc == nil {
					continue
				}
				seen = true
				inst := lineLoop(o.St.Events(), sc)
				if o.Kind != "return" || inst == nil {
					c.OblSt("every-line", "log emitter", false, o.Pos, o.St, "the lines of a source are not all read: %s", o.Why)
					continue
				}
				c.OblSt("every-line", "log emitter", byLines(sc, o.St.Events()), o.Pos, o.St, "a source is not split into lines")
				// reading ends only where there is no line left
				var last *eng.Event
				n := 0
				for _, ev := range o.St.Events() {
					if scanCall(ev, "Scan") && ev.Args[0] == sc {
						last = ev
						n++
					}
				}
				c.OblSt("every-line", "log emitter", n == 1 && o.St.Truth(last.Val) == -1, o.Pos, o.St, "a source is left before its end")
				for _, k := range inst.Kinds {
					l.line(e, route, o, sc, k, logTopic, logLine)
				}
			}
		}
	}
	c.Obl("every-line", "NewLogProcessor", seen, c.Fn(procPkg+".NewLogProcessor").Pos(), "no goroutine reads the lines of a log source")
}

// line checks what happens with one line of a source.
func (l *logs) line(e *emitter, route string, o eng.Outcome, sc *eng.Term, k *eng.IterKind, logTopic, logLine string) {
	c := l.c
	evs := k.Events
	st := k.St
	scans, adds, ne := 0, 0, (*eng.Event)(nil)
	nes := 0
	late := false
	for _, ev := range evs {
		switch {
		case scanCall(ev, "Scan") && ev.Args[0] == sc:
			scans++
			c.OblSt("order", "log emitter", scans == 1 && st.Truth(ev.Val) == 1, ev.Pos, st, "a line is read before the one before is dealt with")
			late = true
		case ev.Kind == "go":
			c.OblSt("order", "log emitter", false, ev.Pos, st, "lines of one source are dealt with by several goroutines")
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "proc.Queue).Add") && ev.Args[0] == e.q:
			adds++
			c.OblSt("history", "log emitter", late && ofLine(evs, sc, ev.Args[1]), ev.Pos, st, "the history of a source gets %v and not the line", ev.Args[1])
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "proc.Queue).Add"):
			c.OblSt("history", "log emitter", false, ev.Pos, st, "a line goes into the history of another source")
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "eventbus.NewEvent") && isStr(ev.Args[0], logLine):
			ne = ev
			nes++
		}
	}
	c.OblSt("history", "log emitter", adds == 1, o.Pos, st, "a line goes %d times into the history of its source", adds)
	ok := nes == 1
	if ok {
		p := ne.Args[1]
		ok = p.Op == eng.OIface
		if ok {
			t := c.Type(procPkg + ".LogEvent")
			v := p.Args[0]
			if pt, isp := p.Typ.(*types.Pointer); isp {
				v = st.Load(v, pt.Elem())
			}
			ok = ofLine(evs, sc, structField(v, t, "Line")) && isNow(st, structField(v, t, "Timestamp"))
		}
		c.OblSt("event", "log emitter", ok, ne.Pos, st, "the event of a line has payload %v", p)
		sent := 0
		for _, d := range c.dispatches(st, evs) {
			if d.what == ne.Val && d.bus == l.eb {
				if len(d.topics) == 1 && isStr(d.topics[0], logTopic) {
					sent++
				} else {
					sent += 2
				}
			}
		}
		switch isNil(st, ne.Res) {
		case -1:
			c.OblSt("event-error", "log emitter", c.reportsError(st, evs, l.eb, "EventError", ne.Res) == 1, ne.Pos, st, "a line that cannot be made an event is not reported once as an error")
		case 0:
			c.OblSt("event-error", "log emitter", false, ne.Pos, st, "it is not looked at whether a line could be made an event")
		default:
			c.OblSt("event", "log emitter", sent == 1, ne.Pos, st, "a line is put %d times on the topic of logs", sent)
			c.OblSt("event-error", "log emitter", c.reportsError(st, evs, l.eb, "EventError", ne.Res) == 0, ne.Pos, st, "an event error is reported for a line that made one")
		}
	} else {
		c.OblSt("event", "log emitter", false, o.Pos, st, "a line makes %d events", nes)
	}
	// the sinks
	sinks := c.Get(e.ev.Go.St, e.optp, l.opt, "sinks")
	keep := func(s *eng.State, el *eng.Term) int {
		name := structField(el, l.sink, "name")
		not := map[string]string{"pStdout": "mStderr", "pStderr": "mStdout"}[route]
		if not == "" {
			return 1
		}
		return -s.Truth(eng.Eq(name, l.is(not)))
	}
	good := 0
	for i, ev := range evs {
		if sinkWrite(ev) != nil {
			c.OblSt("echo", "log emitter", false, ev.Pos, st, "a line is written to %v, whatever the sinks are", sinkWrite(ev))
		}
		if ev.Kind != "loop" || !anyEvent([]*eng.Event{ev}, func(x *eng.Event) bool { return sinkWrite(x) != nil }) {
			continue
		}
		inst := ev.Loop
		tr := inst.Trav
		if tr == nil || tr.Kind != "index" || tr.Idx == nil || !complete(evs[i:], inst) {
			c.OblSt("echo", "log emitter", false, ev.Pos, st, "a line is not written to every sink")
			continue
		}
		good++
		for _, ik := range inst.Kinds {
			writes := 0
			var w *eng.Event
			var seq *eng.Term
			for _, x := range ik.Events {
				if x.Kind == "loop" {
					if anyEvent([]*eng.Event{x}, func(y *eng.Event) bool { return sinkWrite(y) != nil }) {
						writes += 2
					}
				}
				if sinkWrite(x) != nil {
					writes++
					w = x
					if s, idx, ok := baseElem(sinkWrite(x)); ok && idx == tr.Idx {
						seq = s
					}
				}
			}
			// which sinks the loop visits
			all := fullSeq(st, inst, sinks)
			switch {
			case writes == 0:
				el := ik.St.Load(ik.St.ElemAddr(sinks, tr.Idx), l.sink)
				c.OblSt("echo", "log emitter", all && keep(ik.St, el) == -1, ev.Pos, ik.St, "a line of %s is not written to a sink it goes to", route)
			case writes > 1 || seq == nil:
				c.OblSt("echo", "log emitter", false, ev.Pos, ik.St, "a line is written %d times to a sink", writes)
			default:
				c.OblSt("echo", "log emitter", lineAndNewline(ik.St, append(evs[:i:i], ik.Events...), sc, w), w.Pos, ik.St, "a sink is not given the line (%v)", w.Args)
				ok := false
				if seq == sinks {
					el := ik.St.Load(ik.St.ElemAddr(sinks, tr.Idx), l.sink)
					ok = fullSeq(st, inst, sinks) && keep(ik.St, el) == 1
				} else {
					ok = full(st, inst, seq, tr.Idx) && (c.filtered(o.St, seq, sinks, l.sink, keep) || c.filtered(e.ev.Go.St, seq, sinks, l.sink, keep))
				}
				c.OblSt("echo-route", "log emitter", ok, w.Pos, ik.St, "lines of %s do not go to the sinks they should", route)
				evs2 := ik.Events
				n := c.reportsError(ik.St, evs2, l.eb, "SinkError", w.Res)
				switch isNil(ik.St, w.Res) {
				case -1:
					c.OblSt("sink-error", "log emitter", n == 1, w.Pos, ik.St, "a line that could not be written is not reported once as an error")
				case 1:
					c.OblSt("sink-error", "log emitter", n == 0, w.Pos, ik.St, "a line that was written is reported as an error")
				default:
					c.OblSt("sink-error", "log emitter", false, w.Pos, ik.St, "it is not looked at whether a line could be written")
				}
			}
		}
	}
	c.OblSt("echo", "log emitter", good == 1, o.Pos, st, "a line goes %d times over the sinks", good)
}

func checkL02(c *Ctx) {
	l := c.logs()
	f := c.Fn(procPkg + ".NewLogProcessor")
	for _, o := range l.outs {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		lp := o.Ret[0]
		srcs := c.Get(o.St, l.optsOf(o.St, lp), l.opt, "sources")
		n := 0
		ok := covers(o.St.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if ev.Kind != "go" {
				return false
			}
			for _, e := range l.emitters {
				if e.ev == ev && len(sc) == 1 && sc[0] == e.inst && e.idx != nil && full(o.St, e.inst, e.srcs, e.idx) && uncopy(e.srcs) == uncopy(srcs) {
					return true
				}
			}
			return false
		})
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if ev.Kind == "go" {
				n++
			}
		})
		c.OblSt("emitter", "NewLogProcessor", ok, f.Pos(), o.St, "not every source of the logs is read")
		iterations(o.St.Events(), func(inst *eng.LoopInst, k *eng.IterKind) {
			g := 0
			for _, ev := range k.Events {
				if ev.Kind == "go" {
					g++
				}
			}
			c.OblSt("emitter", "NewLogProcessor", g <= 1, f.Pos(), k.St, "a source is read by %d goroutines", g)
		})
	}
	wgs := map[*eng.Term]bool{}
	for _, e := range l.emitters {
		if e.idx == nil {
			continue
		}
		for _, o := range c.goroutine(e.ev) {
			if o.Kind != "return" {
				c.OblSt("done", "log emitter", false, o.Pos, o.St, "a log emitter does not end: %s", o.Why)
				continue
			}
			sc := scannerOf(o.St.Events(), e.in)
			if !c.OblSt("emitter", "log emitter", sc != nil, o.Pos, o.St, "a log emitter does not read its source") {
				continue
			}
			// its end is counted once, last
			var wg *eng.Term
			dones := 0
			after := ""
			eachEvent(o.St.Events(), func(ev *eng.Event) {
				if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done" {
					dones++
					wg = ev.Args[0]
				} else if dones > 0 && (ev.Kind == "invoke" || ev.Kind == "call" && !strings.HasPrefix(ev.Name, "(*sync.WaitGroup)")) {
					after = ev.Name
				}
			})
			c.OblSt("done", "log emitter", dones == 1 && after == "", o.Pos, o.St, "the end of a source is signalled %d times, or before %s", dones, after)
			if wg != nil {
				wgs[wg] = true
				i := 0
				for j, ev := range e.iter.Events {
					if ev == e.ev {
						i = j
					}
				}
				var before []*eng.Event
				for _, ev := range e.start.St.Events() {
					if ev.Kind == "loop" && ev.Loop == e.inst {
						break
					}
					before = append(before, ev)
				}
				c.OblSt("counted", "log emitter", (*bus)(nil).added(e.iter.Events[:i], before, e.inst, wg), e.ev.Pos, e.iter.St, "a log emitter is not counted before it starts")
			}
			// what ended the scan
			var errs []*eng.Term
			tail := o.St.Events()
			for i, ev := range tail {
				if ev.Kind == "loopexit" {
					tail = tail[i:]
					break
				}
			}
			eachEvent(tail, func(ev *eng.Event) {
				if scanCall(ev, "Err") && ev.Args[0] == sc {
					errs = append(errs, ev.Val)
				}
			})
			verdict := 0
			told := 0
			for _, x := range errs {
				if v := isNil(o.St, x); v != 0 {
					verdict = v
				}
				told += c.reportsError(o.St, o.St.Events(), l.eb, "ScanError", x)
			}
			ok := verdict == 1 && told == 0 || verdict == -1 && told == 1
			c.OblSt("scan-error", "log emitter", ok, o.Pos, o.St, "an error that ends the reading of a source is not reported once, or one is reported where there is none")
		}
	}
	// waiting
	st := c.E.NewState()
	lp := c.Recv(st, "lp", l.t)
	w := c.Method(l.t, "Wait")
	ctx := c.Sym("ctx", w.Params[1].Type())
	for _, o := range SplitNil(c.Run(w, st.Clone(), lp, ctx), 0) {
		if o.Kind != "return" {
			c.OblSt("wait", "Wait", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		evs := o.St.Events()
		// the wait group of the processor
		mine := func(t *eng.Term) bool { b := base(t); return b == lp }
		joined := false
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && mine(ev.Args[0]) {
				joined = true
			}
		}
		for _, ch := range received(evs) {
			for _, ev := range evs {
				if ev.Kind != "go" {
					continue
				}
				outs := c.goroutine(ev)
				ok := len(outs) > 0
				for _, g := range outs {
					waited, signalled, early := false, false, false
					for _, x := range g.St.Events() {
						switch {
						case x.Kind == "call" && x.Name == "(*sync.WaitGroup).Wait" && mine(x.Args[0]):
							waited = true
						case (x.Kind == "close" || x.Kind == "send") && x.Addr == ch:
							signalled = true
							early = early || !waited
						}
					}
					ok = ok && waited && signalled && !early && g.Kind == "return"
				}
				joined = joined || ok
			}
		}
		ended := false
		for _, ch := range received(evs) {
			ended = ended || isInvokeOf(o.St, ch, "Done")
		}
		ctxErr := false
		eachEvent(evs, func(ev *eng.Event) {
			if ev.Kind == "invoke" && ev.Name == "context.Context.Err" && isNil(o.St, ev.Res) == -1 {
				ctxErr = true
			}
		})
		switch isNil(o.St, o.Ret[0]) {
		case 1:
			c.OblSt("wait", "Wait", joined, w.Pos(), o.St, "it says that all is processed before all is")
		case -1:
			c.OblSt("wait", "Wait", (ended || ctxErr) && !joined, w.Pos(), o.St, "it fails although its context did not end first")
		default:
			c.OblSt("wait", "Wait", false, w.Pos(), o.St, "it returns %v whatever happened", o.Ret[0])
		}
		// nothing it waits for is without way out
		eachEvent(evs, func(ev *eng.Event) {
			if waits(ev) == "" {
				return
			}
			ok := false
			if ev.Kind == "select" {
				for _, s := range ev.Sel.States {
					ok = ok || !s.Send && isInvokeOf(o.St, s.Ch, "Done")
				}
			}
			c.OblSt("wait-bounded", "Wait", ok, ev.Pos, o.St, "it %s with no way out when its context ends", waits(ev))
		})
		// every sink is closed, after the wait
		sinks := c.Get(o.St, l.optsOf(o.St, lp), l.opt, "sinks")
		waitedAt := -1
		for i, ev := range evs {
			if waits(ev) != "" {
				waitedAt = i
			}
		}
		ok := waitedAt >= 0 && covers(evs[waitedAt+1:], nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if ev.Kind != "invoke" || !strings.HasSuffix(ev.Name, ".Close") || len(sc) != 1 {
				return false
			}
			q, i, is := baseElem(ev.Addr)
			return is && q == sinks && full(o.St, sc[0], q, i)
		})
		early := waitedAt >= 0 && anyEvent(evs[:waitedAt+1], func(ev *eng.Event) bool {
			return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Close")
		})
		c.OblSt("closed", "Wait", ok && !early, w.Pos(), o.St, "a sink is not closed at the end, or before it")
		c.OblSt("wait-bounded", "Wait", waitedAt >= 0, w.Pos(), o.St, "it waits for nothing")
	}
	c.E.Opaque = nil
	k := c.newConc("LogProcessor")
	s2 := c.E.NewState()
	eb := c.Recv(s2, "eb2", c.Type("pkg/eventbus.EventBus"))
	c.busOpaque()
	k.ctor("NewLogProcessor", f, 0, "processor", s2, eb, l.options)
	s3 := c.E.NewState()
	lp3 := c.Recv(s3, "lp3", l.t)
	k.entries(l.t, "processor", lp3, s3)
	k.races("excluded", func(loc string) bool { return !strings.Contains(loc, "eventbus") })
	c.E.Opaque = nil
}

// base is the object a location is part of.
func base(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == eng.OFld || t.Op == eng.OInit) {
		t = t.Args[0]
	}
	return t
}

// dynamic calls a method of an interface value whose dynamic type the path knows.
func (c *Ctx) dynamic(st *eng.State, v *eng.Term, method string, args ...*eng.Term) []eng.Outcome {
	if v == nil || v.Op != eng.OIface {
		return nil
	}
	var f *ssa.Function
	ms := c.P.SSA.MethodSets.MethodSet(v.Typ)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == method {
			f = c.P.SSA.MethodValue(s)
		}
	}
	if f == nil {
		return nil
	}
	return c.Run(f, st.Clone(), append([]*eng.Term{v.Args[0]}, args...)...)
}

func checkL03(c *Ctx) {
	l := c.logs()
	f := c.Fn(procPkg + ".NewLogProcessor")
	applied := func(ev *eng.Event) bool {
		return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "LogProcessorOption.apply")
	}
	ofOptions := func(seq *eng.Term) (sort bool, ok bool) {
		q := uncopy(seq)
		if q.Op == eng.OCall && q.Name == "sorted" {
			return true, uncopy(q.Args[0]) == l.options
		}
		return false, q == l.options
	}
	for _, o := range l.outs {
		if o.Kind != "return" {
			c.OblSt("refused", "NewLogProcessor", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		evs := o.St.Events()
		failed := exists(o.St, evs, func(st *eng.State, ev *eng.Event) bool {
			return applied(ev) && ev.Res != nil && isNil(st, ev.Res) == -1
		})
		started := anyEvent(evs, func(ev *eng.Event) bool { return ev.Kind == "go" })
		if isNil(o.St, o.Ret[1]) == -1 {
			c.OblSt("refused", "NewLogProcessor", failed && !started && isNil(o.St, o.Ret[0]) == 1, f.Pos(), o.St, "it fails although every option can be applied, or starts reading all the same")
			continue
		}
		c.OblSt("refused", "NewLogProcessor", !failed, f.Pos(), o.St, "an option that cannot be applied is ignored")
		lost := anyLost(o.St, func(ev *eng.Event) bool { return applied(ev) })
		c.OblSt("refused", "NewLogProcessor", !lost, f.Pos(), o.St, "an option that cannot be applied is ignored")
		var optp *eng.Term = l.optsOf(o.St, o.Ret[0])
		sorted := false
		ok := covers(evs, nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if !applied(ev) || len(sc) != 1 {
				return false
			}
			seq, idx, is := elemOf(ev.Addr)
			if !is || !full(o.St, sc[0], seq, idx) || sc[0].Trav.Rev {
				return false
			}
			s, mine := ofOptions(seq)
			sorted = s
			return mine && (ev.Args[0] == optp)
		})
		c.OblSt("apply-once", "NewLogProcessor", ok, f.Pos(), o.St, "not every option is applied to the processor that is returned")
		n := 0
		iterations(evs, func(inst *eng.LoopInst, k *eng.IterKind) {
			m := 0
			for _, ev := range k.Events {
				if applied(ev) {
					m++
				}
			}
			if m > 1 {
				n = m
			}
		})
		loops := 0
		for _, ev := range evs {
			if ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, applied) {
				loops++
			}
		}
		c.OblSt("apply-once", "NewLogProcessor", n <= 1 && loops <= 1, f.Pos(), o.St, "options are applied several times")
		// in the order of their priorities
		for _, ev := range evs {
			if ev.Kind != "call" || ev.Name != "sort.Slice" && ev.Name != "sort.SliceStable" {
				continue
			}
			if seq := unconv(ev.Args[0]); uncopy(seq) != l.options {
				continue
			}
			sorted = sorted && l.ascending(o.St, ev)
		}
		c.OblSt("apply-order", "NewLogProcessor", sorted, f.Pos(), o.St, "options are not applied in the order of their priorities")
	}
	l.effects()
}

// ascending reports whether the order of a sort is that of the priorities.
func (l *logs) ascending(st *eng.State, ev *eng.Event) bool {
	c := l.c
	less := unconv(ev.Args[1])
	i, j := c.Sym("i", types.Typ[types.Int]), c.Sym("j", types.Typ[types.Int])
	outs := c.RunVal(less, st.Fork(), i, j)
	if len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		if o.Kind != "return" {
			return false
		}
		var vi, vj *eng.Term
		eachEvent(o.St.Events(), func(e *eng.Event) {
			if e.Kind == "invoke" && strings.HasSuffix(e.Name, ".priority") {
				if _, idx, ok := elemOf(e.Addr); ok {
					if idx == i {
						vi = e.Res
					}
					if idx == j {
						vj = e.Res
					}
				}
			}
		})
		if vi == nil || vj == nil {
			return false
		}
		lt := eng.Lt(vi, vj)
		if o.Ret[0] == lt {
			continue
		}
		want := o.St.Truth(lt)
		got := o.St.Truth(o.Ret[0])
		if want == 0 || want != got {
			return false
		}
	}
	return true
}

// effects checks what each option does, and when.
func (l *logs) effects() {
	c := l.c
	pri := map[string]int64{}
	type option struct {
		name   string
		filter string // what the option drops
		input  bool
	}
	opts := []option{{name: "WithHistory"}, {name: "WithCommand"}, {name: "WithNoOutput"}, {"WithNoStderrOutput", "mStderr", false}, {"WithNoStdoutOutput", "mStdout", false},
		{"WithNoStdoutInput", "pStdout", true}, {"WithNoStderrInput", "pStderr", true}}
	for _, op := range opts {
		f := c.Fn(procPkg + "." + op.name)
		st := c.E.NewState()
		args := c.params(f, 0)
		if op.name == "WithCommand" {
			args = []*eng.Term{c.Recv(st, "cmd", args[0].Typ.Underlying().(*types.Pointer).Elem())}
		}
		for _, o := range c.Run(f, st, args...) {
			if o.Kind != "return" {
				c.OblSt("filter", op.name, false, o.Pos, o.St, "%s", o.Why)
				continue
			}
			v := o.Ret[0]
			for _, p := range c.dynamic(o.St, v, "priority") {
				if n, ok := p.Ret[0].IntVal(); ok {
					pri[op.name] = n
				} else {
					c.OblSt("priority", op.name, false, f.Pos(), p.St, "its priority is %v", p.Ret[0])
				}
			}
			s := o.St.Clone()
			lo := c.Recv(s, "lo", l.opt)
			was := func(n string) *eng.Term { return c.Get(s, lo, l.opt, n) }
			outs := c.dynamic(s, v, "apply", lo)
			if op.name != "WithCommand" {
				outs = SplitNil(outs, 0)
			}
			c.Obl("filter", op.name, len(outs) > 0, f.Pos(), "what it does cannot be told")
			for _, a := range outs {
				if a.Kind != "return" {
					c.OblSt("filter", op.name, false, a.Pos, a.St, "%s", a.Why)
					continue
				}
				now := func(n string) *eng.Term { return c.Get(a.St, lo, l.opt, n) }
				same := func(ns ...string) bool {
					for _, n := range ns {
						if now(n) != was(n) && !a.St.Same(now(n), was(n)) {
							return false
						}
					}
					return true
				}
				switch op.name {
				case "WithHistory":
					c.OblSt("history", op.name, isNil(a.St, a.Ret[0]) == 1 && a.St.Same(now("hist"), args[0]) && same("sources", "sinks"), f.Pos(), a.St, "the length of the history is not the one asked for")
				case "WithNoOutput":
					c.OblSt("filter", op.name, isNil(a.St, a.Ret[0]) == 1 && a.St.Same(a.St.LenOf(now("sinks")), eng.Int(0)) && same("sources", "hist"), f.Pos(), a.St, "a sink is left")
				case "WithCommand":
					l.command(a, f, args[0], lo, s)
				default:
					part, rest, t := "sinks", "sources", types.Type(l.sink)
					if op.input {
						part, rest, t = rest, part, l.src
					}
					ok := isNil(a.St, a.Ret[0]) == 1 && same(rest, "hist") && c.filtered(a.St, now(part), was(part), t, func(s *eng.State, el *eng.Term) int {
						return -s.Truth(eng.Eq(structField(el, t, "name"), l.is(op.filter)))
					})
					c.OblSt("filter", op.name, ok, f.Pos(), a.St, "it drops other %s than asked for", part)
				}
			}
		}
	}
	for _, op := range opts {
		switch op.name {
		case "WithHistory":
			c.Obl("priority", op.name, pri[op.name] < pri["WithCommand"], c.Fn(procPkg+"."+op.name).Pos(), "the length of the history is set after it is used")
		case "WithCommand":
		default:
			c.Obl("priority", op.name, pri["WithCommand"] < pri[op.name], c.Fn(procPkg+"."+op.name).Pos(), "sources and sinks are dropped before they are there")
		}
	}
}

// command checks the sources and sinks of a command.
func (l *logs) command(a eng.Outcome, f *ssa.Function, cmd, lo *eng.Term, s *eng.State) {
	c := l.c
	path := c.Get(s, cmd, cmd.Typ, "Path")
	piped := a.St.Truth(eng.Eq(path, eng.Str("")))
	var pipes []*eng.Event
	eachEvent(a.St.Events(), func(ev *eng.Event) {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*os/exec.Cmd).Std") {
			pipes = append(pipes, ev)
		}
	})
	failed := false
	got := map[string]*eng.Event{}
	for _, p := range pipes {
		if isNil(a.St, p.Res) == -1 {
			failed = true
		}
		if got[p.Name] != nil || p.Args[0] != cmd {
			failed = true
			c.OblSt("command", "WithCommand", false, p.Pos, a.St, "a pipe of the command is made twice, or of another command")
		}
		got[p.Name] = p
	}
	now := func(n string) *eng.Term { return c.Get(a.St, lo, l.opt, n) }
	was := func(n string) *eng.Term { return c.Get(s, lo, l.opt, n) }
	for _, r := range SplitNil([]eng.Outcome{a}, 0) {
		if isNil(r.St, r.Ret[0]) == -1 {
			c.OblSt("command", "WithCommand", failed, f.Pos(), r.St, "it fails although the pipes of the command can be made")
			continue
		}
		type want struct {
			name string
			v    func(x *eng.Term) bool
		}
		std := func(n string) func(x *eng.Term) bool {
			return func(x *eng.Term) bool {
				x = unconv(x)
				return x != nil && x.Op == eng.OInit && x.Args[0].Op == eng.OGlobal && strings.HasSuffix(x.Args[0].Name, "os."+n)
			}
		}
		pipe := func(n string) func(x *eng.Term) bool {
			return func(x *eng.Term) bool {
				p := got["(*os/exec.Cmd)."+n]
				return p != nil && unconv(x) == unconv(p.Val) && isNil(r.St, p.Res) == 1
			}
		}
		srcs := []want{{"mStdin", std("Stdin")}}
		sinks := []want{{"mStdout", std("Stdout")}}
		if piped == -1 {
			srcs = []want{{"pStdout", pipe("StdoutPipe")}, {"pStderr", pipe("StderrPipe")}}
			sinks = []want{{"mStdout", std("Stdout")}, {"mStderr", std("Stderr")}}
		}
		ok := piped != 0 && !failed && r.St.Same(now("hist"), was("hist"))
		queues := map[*eng.Term]bool{}
		check := func(field string, t *types.Named, io string, ws []want) bool {
			v, old := now(field), was(field)
			n := r.St.LenOf(old)
			if !r.St.Same(r.St.LenOf(v), eng.Add(n, eng.Int(int64(len(ws))))) {
				return false
			}
			s2 := r.St.Clone()
			i := c.Sym("at", types.Typ[types.Int])
			if s2.Assume(eng.Lt(i, n), true) && s2.Assume(eng.Lt(i, eng.Int(0)), false) && !sameItem(s2, s2.Load(s2.ElemAddr(v, i), t), s2.Load(s2.ElemAddr(old, i), t)) {
				return false
			}
			used := map[int]bool{}
			for j := range ws {
				el := r.St.Load(r.St.ElemAddr(v, eng.Add(n, eng.Int(int64(j)))), t)
				hit := false
				for x, w := range ws {
					if used[x] || !r.St.Same(structField(el, t, "name"), l.is(w.name)) {
						continue
					}
					if !w.v(structField(el, t, io)) {
						return false
					}
					used[x], hit = true, true
					break
				}
				if !hit {
					return false
				}
				if field == "sources" {
					q := structField(el, t, "q")
					made := false
					eachEvent(r.St.Events(), func(ev *eng.Event) {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "proc.NewQueue") && ev.Val == q && r.St.Same(ev.Args[0], was("hist")) {
							made = true
						}
					})
					if !made || queues[q] {
						return false
					}
					queues[q] = true
				}
			}
			return true
		}
		ok = ok && check("sources", l.src, "in", srcs) && check("sinks", l.sink, "out", sinks)
		c.OblSt("command", "WithCommand", ok, f.Pos(), r.St, "the sources and sinks of the command are not those of the way monny is run")
	}
}

func checkT01(c *Ctx) {
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	c.busOpaque()
	f := c.Fn(procPkg + ".NewTicker")
	st := c.E.NewState()
	d := c.Sym("d", f.Params[0].Type())
	eb := c.Recv(st, "eb", c.Type("pkg/eventbus.EventBus"))
	typ := c.Sym("evt", f.Params[2].Type())
	for _, o := range c.Run(f, st, d, eb, typ) {
		for _, off := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(eng.Lt(eng.Int(0), d), !off) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("off", "NewTicker", false, o.Pos, s, "%s", o.Why)
				continue
			}
			var sub, tick *eng.Event
			var gos []*eng.Event
			other := ""
			for _, ev := range s.Events() {
				switch {
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "EventBus).Subscribe"):
					if sub != nil {
						other = "a second subscription"
					}
					sub = ev
				case ev.Kind == "call" && ev.Name == "time.NewTicker":
					tick = ev
				case ev.Kind == "go":
					gos = append(gos, ev)
				}
			}
			if off {
				c.OblSt("off", "NewTicker", sub == nil && len(gos) == 0, f.Pos(), s, "a ticker without period subscribes to the bus")
				continue
			}
			ok := sub != nil && sub.Args[0] == eb && tick != nil && tick.Args[0] == d && len(gos) == 1 && other == ""
			c.OblSt("tick", "NewTicker", ok, f.Pos(), s, "a ticker does not tick once per period beside the bus it is for")
			if !ok {
				continue
			}
			c.tickerLoop(gos[0], sub, tick, eb, typ)
		}
	}
}

// tickerLoop checks the goroutine of a ticker.
func (c *Ctx) tickerLoop(g, sub, tick *eng.Event, eb, typ *eng.Term) {
	stopped := func(ev *eng.Event) bool {
		return ev.Kind == "call" && ev.Name == "(*time.Ticker).Stop" && ev.Args[0] == tick.Val
	}
	signalled := func(ev *eng.Event) bool { return ev.Kind == "callfn" && ev.Val == sub.Res }
	ticks := func(ch *eng.Term) bool {
		return ch.Op == eng.OInit && ch.Args[0].Op == eng.OFld && ch.Args[0].Args[0] == tick.Val
	}
	outs := c.goroutine(g)
	ended := false
	step := func(st *eng.State, evs []*eng.Event) {
		got, sent := 0, 0
		for _, ch := range received(evs) {
			if ticks(ch) {
				got++
			}
		}
		for _, d := range c.dispatches(st, evs) {
			ne := c.newEventOf(evs, d.what)
			ok := d.bus == eb && d.known && len(d.topics) == 0 && ne != nil && unconv(ne.Args[0]) == typ && isNil(st, ne.Args[1]) == 1
			c.OblSt("tick", "ticker", ok, d.ev.Pos, st, "a tick puts another event on the bus than the one asked for")
			sent++
		}
		for _, ev := range evs {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "eventbus.NewEvent") && isNil(st, ev.Res) == -1 && sent < got {
				sent++
			}
		}
		c.OblSt("tick", "ticker", sent >= got, g.Pos, st, "a tick puts no event on the bus")
		c.OblSt("tick-only", "ticker", sent <= got, g.Pos, st, "an event is put on the bus without a tick")
	}
	for _, o := range outs {
		if o.Kind != "return" {
			c.OblSt("stop", "ticker", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		iterations(o.St.Events(), func(inst *eng.LoopInst, k *eng.IterKind) {
			step(k.St, k.Events)
			closed := false
			for _, ev := range k.Events {
				if stopped(ev) || signalled(ev) {
					closed = true
				}
				if ev.Kind == "select" || ev.Kind == "recv" {
					for _, ch := range received([]*eng.Event{ev}) {
						if ch == sub.Val && ev.Val != nil && k.St.Truth(ev.Val) != 1 {
							closed = true
						}
					}
				}
			}
			c.OblSt("stop", "ticker", !closed, g.Pos, k.St, "a ticker goes on after the bus was shut down, or is stopped before")
			// it waits for ticks and for the end of the bus
			both := false
			for _, ev := range k.Events {
				if ev.Kind == "select" {
					a, b := false, false
					for _, s := range ev.Sel.States {
						a = a || s.Ch == sub.Val
						b = b || ticks(s.Ch)
					}
					both = both || a && b
				}
			}
			c.OblSt("bus", "ticker", both, g.Pos, k.St, "a ticker waits for something else than its ticks and the end of the bus")
		})
		if o.Kind != "return" {
			continue
		}
		ended = true
		var evs []*eng.Event
		for _, ev := range o.St.Events() {
			if ev.Kind != "loop" {
				evs = append(evs, ev)
			}
		}
		step(o.St, evs)
		nStop, nSig, last := 0, 0, false
		for _, ev := range evs {
			if stopped(ev) {
				nStop++
			}
			if signalled(ev) {
				nSig++
			}
			if (ev.Kind == "select" || ev.Kind == "recv") && hasTerm(received([]*eng.Event{ev}), sub.Val) && o.St.Truth(ev.Val) == -1 {
				last = true
			}
		}
		c.OblSt("stop", "ticker", nStop == 1 && nSig == 1 && last, g.Pos, o.St, "a ticker ends without the bus being shut down, without stopping, or without signalling its end once")
	}
	c.Obl("stop", "ticker", ended, g.Pos, "a ticker never ends")
}
