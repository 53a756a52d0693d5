package main

import (
	"go/token"
	"go/types"
	"strings"

	"monnyverif/eng"
)

func init() {
	register("R14", []string{"command", "refused", "start", "input", "finish", "flushed", "cleanup"}, checkR14)
	register("R15", []string{"offered", "finished", "signal", "timeout", "warning", "memory", "other", "handler"}, checkR15)
}

func callNamed(ev *eng.Event, name string) bool { return ev.Kind == "call" && ev.Name == name }

// process is the exec.Cmd made on a path.
func process(evs []*eng.Event) (ev *eng.Event, n int) {
	for _, e := range evs {
		if callNamed(e, "os/exec.Command") {
			ev = e
			n++
		}
	}
	return
}

// ---- R14

func checkR14(c *Ctx) {
	k := c.command()
	k.setup()
	c.opaque(mon+".checkRule", mon+".Command.processStdout", mon+".Command.processStderr")
	x := k.exec()
	str := types.Typ[types.String]
	user := k.get(x.st, x.cmd, "UserCommand")
	pos := x.f.Pos()
	for _, o := range x.outs {
		evs := o.St.Events()
		if o.Kind != "return" {
			c.OblSt("refused", "Exec", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		if !x.started(o) {
			quiet := !anyEvent(evs, func(ev *eng.Event) bool {
				return ev.Kind == "go" || x.handles(ev)
			})
			c.OblSt("refused", "Exec", quiet, pos, o.St, "a command that was not started is watched")
			var failed *eng.Event
			eachEvent(evs, func(ev *eng.Event) {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") && ev.Res != nil && isNil(o.St, ev.Res) == -1 {
					failed = ev
				}
			})
			why := o.Ret[0]
			switch {
			case failed != nil:
				c.OblSt("refused", "Exec", why == failed.Res || mentions(o.St, why, func(t *eng.Term) bool { return t == failed.Res }), failed.Pos, o.St, "%v is returned when the command could not be started", why)
			default:
				none := o.St.Same(o.St.LenOf(user), eng.Int(0))
				c.OblSt("refused", "Exec", none && isNil(o.St, why) == -1, pos, o.St, "a command is not started although nothing failed, or without an error")
			}
			continue
		}
		mk, n := process(evs)
		if !c.OblSt("command", "Exec", n == 1 && mk.Val != nil, pos, o.St, "%d processes are made", n) {
			continue
		}
		q := o.St.Clone()
		for i := len(evs) - 1; i >= 0; i-- {
			if evs[i].Kind == "go" {
				q = evs[i].Go.St.Clone()
			}
		}
		ok := !q.Clone().Assume(eng.Eq(q.LenOf(user), eng.Int(0)), true)
		ok = ok && mk.Args[0] == x.st.Clone().Load(x.st.ElemAddr(user, eng.Int(0)), str)
		rest := mk.Args[1]
		if mk.Var != nil {
			rest = mk.Var
		}
		switch {
		case isNil(q, rest) == 1 || c.isEmpty(q, rest):
			ok = ok && q.Same(q.LenOf(user), eng.Int(1))
		default:
			ok = ok && c.pointwise(q, rest, str, from(user, eng.Int(1), eng.Sub(q.LenOf(user), eng.Int(1)), str))
		}
		c.OblSt("command", "Exec", ok, mk.Pos, o.St, "the process is not the command given with all its arguments")
		plain := true
		eachEvent(evs, func(ev *eng.Event) {
			if ev.Kind == "store" && ev.Addr.Op == eng.OFld && ev.Addr.Args[0] == mk.Val {
				plain = false
			}
		})
		c.OblSt("command", "Exec", plain, mk.Pos, o.St, "the process is changed before it is started")
		starts := 0
		for _, ev := range evs {
			if callNamed(ev, "(*os/exec.Cmd).Start") {
				starts++
				c.OblSt("command", "Exec", ev.Args[0] == mk.Val, ev.Pos, o.St, "another process is started")
			}
			if x.handles(ev) {
				break
			}
		}
		c.OblSt("command", "Exec", starts == 1, mk.Pos, o.St, "the command is started %d times", starts)
		// the time of the start
		now := map[*eng.Term]bool{}
		for _, ev := range evs {
			if callNamed(ev, "time.Now") {
				now[ev.Val] = true
			}
			if ev.Kind == "go" {
				c.OblSt("start", "Exec", now[k.get(ev.Go.St, x.cmd, "Start")], ev.Pos, ev.Go.St, "the time of the start is not set before the run is watched")
			}
		}
		for i, ev := range evs {
			if ev.Kind == "go" {
				late := len(k.storesIn(evs[i:], x.cmd, "Start")) > 0
				c.OblSt("start", "Exec", !late, ev.Pos, o.St, "the time of the start changes while the run is watched")
				break
			}
		}
		x.input(o)
		x.finish(o)
	}
}

// handles reports whether an event asks what handles the run.
func (x *execution) handles(ev *eng.Event) bool {
	if ev.Kind != "invoke" || !strings.Contains(ev.Name, ".ProcessHandlers.") {
		return false
	}
	at := x.k.at(x.cmd, "handler")
	return x.k.c.comesFrom(ev.Addr, func(v *eng.Term) bool { return v.Op == eng.OInit && v.Args[0] == at })
}

// spawned lists the goroutines of a path with what they do.
type spawned struct {
	ev   *eng.Event
	outs []eng.Outcome
}

func (x *execution) spawned(evs []*eng.Event) []spawned {
	if x.ran == nil {
		x.ran = map[*eng.Event][]eng.Outcome{}
	}
	var out []spawned
	for _, ev := range evs {
		if ev.Kind != "go" {
			continue
		}
		outs, ok := x.ran[ev]
		if !ok {
			outs = x.k.c.goroutine(ev)
			x.ran[ev] = outs
		}
		out = append(out, spawned{ev, outs})
	}
	return out
}

func (s spawned) any(f func(ev *eng.Event) bool) bool {
	for _, o := range s.outs {
		if anyEvent(o.St.Events(), f) {
			return true
		}
	}
	return false
}

// input checks that the own input is passed on to the process, which always sees its end.
func (x *execution) input(o eng.Outcome) {
	c, k := x.k.c, x.k
	var pipe *eng.Event
	for _, ev := range o.St.Events() {
		if callNamed(ev, "(*os/exec.Cmd).StdinPipe") {
			pipe = ev
		}
	}
	if !c.OblSt("input", "Exec", pipe != nil, x.f.Pos(), o.St, "the process has no input to write to") {
		return
	}
	of := func(t *eng.Term) bool { return t != nil && unconv(t) == pipe.Val }
	closes := func(ev *eng.Event) bool {
		return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Close") && of(ev.Addr)
	}
	n := 0
	for _, s := range x.spawned(o.St.Events()) {
		if !s.any(closes) {
			bad := s.any(func(ev *eng.Event) bool { return callNamed(ev, "io.Copy") && of(ev.Args[0]) })
			c.OblSt("input", x.name(s.ev), !bad, s.ev.Pos, s.ev.Go.St, "the input of the process is written and not closed")
			continue
		}
		n++
		for _, q := range s.outs {
			x.inputPath(s, q, of, closes, k.get(s.ev.Go.St, x.cmd, k.errs))
		}
	}
	c.OblSt("input", "Exec", n == 1, pipe.Pos, o.St, "the input of the process is closed by %d goroutines", n)
}

func (x *execution) inputPath(s spawned, q eng.Outcome, of func(*eng.Term) bool, closes func(*eng.Event) bool, errs *eng.Term) {
	c := x.k.c
	name := x.name(s.ev)
	closed, copies := 0, 0
	var stat, mode, cp *eng.Event
	for _, ev := range q.St.Events() {
		switch {
		case closes(ev):
			closed++
		case callNamed(ev, "io.Copy") && of(ev.Args[0]):
			cp = ev
			copies++
			c.OblSt("input", name, closed == 0 && c.stdStream(s.ev.Go.St, unconv(ev.Args[1]), "Stdin"), ev.Pos, q.St, "what is copied to the process is not the own input, or comes after its end")
		case ev.Kind == "loop":
			bad := anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool {
				return closes(e) || callNamed(e, "io.Copy") && of(e.Args[0])
			})
			c.OblSt("input", name, !bad, ev.Pos, q.St, "the input is copied or closed in a loop")
		case callNamed(ev, "(*os.File).Stat") && c.stdStream(s.ev.Go.St, ev.Args[0], "Stdin"):
			stat = ev
		case ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Mode"):
			mode = ev
		}
	}
	c.OblSt("input", name, q.Kind == "return" && closed > 0, s.ev.Pos, q.St, "the process does not see the end of its input")
	reported := func(err *eng.Term) int {
		n := 0
		for _, ev := range reportedErrors(q.St.Events(), errs) {
			if mentions(q.St, ev.Args[0], func(t *eng.Term) bool { return t == err }) {
				n++
			}
		}
		return n
	}
	switch {
	case stat != nil && isNil(q.St, stat.Res) == -1:
		c.OblSt("input", name, copies == 0 && reported(stat.Res) == 1, stat.Pos, q.St, "it is not reported that the own input can not be looked at")
	default:
		p := 0
		if mode != nil && stat != nil && mode.Addr == stat.Val {
			p = pipeMode(q.St, mode.Res)
		}
		c.OblSt("input", name, p != 0 && (copies == 1) == (p == 1) && copies < 2, s.ev.Pos, q.St, "the own input is copied %d times, whatever it is", copies)
	}
	if cp != nil {
		want := 1
		if isNil(q.St, cp.Res) == 1 {
			want = 0
		}
		c.OblSt("input", name, reported(cp.Res) == want, cp.Pos, q.St, "an error copying the input is not reported once")
	}
}

// pipeMode decides whether a path established that a file mode is that of a pipe.
func pipeMode(st *eng.State, mode *eng.Term) int {
	const pipe = 1 << 25
	for t, v := range st.FactTerms() {
		if t.Op != eng.OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			b, k := t.Args[i], t.Args[1-i]
			n, ok := k.IntVal()
			if !ok || len(b.Args) != 2 || !strings.HasPrefix(b.Name, "&") {
				continue
			}
			for j := 0; j < 2; j++ {
				m, is := b.Args[1-j].IntVal()
				if unconv(b.Args[j]) == mode && is && m == pipe && (n == 0 || n == pipe) {
					if v == (n == pipe) {
						return 1
					}
					return -1
				}
			}
		}
	}
	return 0
}

// finish checks that the run ends once everything the process wrote is dealt with.
func (x *execution) finish(o eng.Outcome) {
	c, k := x.k.c, x.k
	evs := o.St.Events()
	mk, _ := process(evs)
	waits := func(ev *eng.Event) bool { return callNamed(ev, "(*os/exec.Cmd).Wait") && ev.Args[0] == mk.Val }
	gos := x.spawned(evs)
	var fin *spawned
	n := 0
	for i := range gos {
		if gos[i].any(waits) {
			fin = &gos[i]
			n++
		}
	}
	own := anyEvent(evs, waits)
	if !c.OblSt("finish", "Exec", n == 1 && !own, x.f.Pos(), o.St, "the process is waited for by %d goroutines", n) {
		return
	}
	name := x.name(fin.ev)
	gst := fin.ev.Go.St
	sinks := []*eng.Term{k.get(gst, x.cmd, "out"), k.get(gst, x.cmd, "err")}
	for _, q := range fin.outs {
		if !c.OblSt("finish", name, q.Kind == "return", q.Pos, q.St, "%s", q.Why) {
			continue
		}
		var before, after []*eng.Event
		var wait *eng.Event
		m, looped := 0, false
		for _, ev := range q.St.Events() {
			if waits(ev) {
				wait = ev
				m++
				continue
			}
			looped = looped || ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, waits)
			if wait == nil {
				before = append(before, ev)
			} else {
				after = append(after, ev)
			}
		}
		if !c.OblSt("finish", name, m == 1 && !looped, fin.ev.Pos, q.St, "the process is waited for %d times", m) {
			continue
		}
		// everything is read before
		for _, s := range streams {
			var of []spawned
			for _, r := range x.readersOf(s) {
				for _, g := range gos {
					if g.ev.Go.Instr == r.go_.Go.Instr {
						of = append(of, g)
					}
				}
			}
			ok := len(of) == 1 && x.joined(evs, gos, fin.ev, before, of[0].ev)
			c.OblSt("finish", name+" "+s.history, ok, wait.Pos, q.St, "the process is waited for before its output is read, or for ever")
		}
		all := q.St.Events()
		var at [2]int
		signal := -1
		var ch *eng.Term
		last, cleaned := 0, -1
		for i, ev := range all {
			if ev == wait {
				last = i
			}
			for j, s := range sinks {
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Close") && ev.Addr == s {
					at[j]++
					joinedBefore := true
					for _, s := range streams {
						for _, r := range x.readersOf(s) {
							joinedBefore = joinedBefore && s.sink == streams[j].sink && x.joined(evs, gos, fin.ev, all[:i], goOf(gos, r)) || s.sink != streams[j].sink && joinedBefore
						}
					}
					c.OblSt("flushed", name, joinedBefore && signal < 0, ev.Pos, q.St, "an output is closed before everything is written to it, or after the run")
				}
			}
			if (ev.Kind == "send" || ev.Kind == "close") && x.selected(evs, ev.Addr) {
				signal = i
				ch = ev.Addr
			}
			if x.cleans(q.St, all[i:], ev) {
				cleaned = i
			}
		}
		for j, s := range streams {
			c.OblSt("flushed", name, at[j] == 1, fin.ev.Pos, q.St, "the output %s is closed %d times", s.sink, at[j])
		}
		c.OblSt("finish", name, ch != nil && signal > last, fin.ev.Pos, q.St, "that the process has finished is not told, or told too early")
		list := k.get(q.St, x.cmd, "cleanup")
		none := q.St.Same(q.St.LenOf(list), eng.Int(0))
		c.OblSt("cleanup", name, none || cleaned > last && cleaned < signal, fin.ev.Pos, q.St, "what is registered to be done at the end of a run is not done")
		_ = after
	}
}

func goOf(gos []spawned, r *reader) *eng.Event {
	for _, g := range gos {
		if g.ev.Go.Instr == r.go_.Go.Instr {
			return g.ev
		}
	}
	return nil
}

func (x *execution) readersOf(s stream) []*reader {
	if x.byStream == nil {
		x.byStream = map[string][]*reader{}
	}
	rs, ok := x.byStream[s.pipe]
	if !ok {
		rs = x.readers(s)
		x.byStream[s.pipe] = rs
	}
	return rs
}

// joined reports whether a list of events of a goroutine waits for the end of another one of the path, and only for
// goroutines that end with the output of the process.
func (x *execution) joined(evs []*eng.Event, gos []spawned, by *eng.Event, waits []*eng.Event, g *eng.Event) bool {
	if g == nil {
		return false
	}
	count := map[*eng.Term]int{}
	for _, ev := range waits {
		switch {
		case callNamed(ev, "(*sync.WaitGroup).Wait"):
			count[ev.Args[0]] = -1
		case ev.Kind == "recv":
			if count[ev.Addr] >= 0 {
				count[ev.Addr]++
			}
		case ev.Kind == "select":
			return false
		case ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool { return waitsFor(e) }):
			return false
		}
	}
	found := false
	for on, n := range count {
		// who tells
		told, mine, closed := 0, false, false
		for _, s := range gos {
			times := map[int]bool{}
			for _, o := range s.outs {
				m := 0
				for _, ev := range o.St.Events() {
					switch {
					case callNamed(ev, "(*sync.WaitGroup).Done") && ev.Args[0] == on, ev.Kind == "send" && ev.Addr == on:
						m++
					case ev.Kind == "close" && ev.Addr == on:
						m++
						closed = true
					case m > 0 && (ev.Kind == "loop" || scanCall(ev, "Scan") || sinkWrite(ev) != nil || callNamed(ev, "io.Copy")):
						return false // goes on
					case ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool {
						return callNamed(e, "(*sync.WaitGroup).Done") && e.Args[0] == on || (e.Kind == "send" || e.Kind == "close") && e.Addr == on
					}):
						return false
					}
				}
				times[m] = true
			}
			switch {
			case len(times) == 1 && times[0] || len(s.outs) == 0:
				continue
			case len(times) == 1 && times[1]:
			default:
				return false
			}
			told++
			mine = mine || s.ev == g
			reads := false
			for _, st := range streams {
				for _, r := range x.readersOf(st) {
					reads = reads || r.go_.Go.Instr == s.ev.Go.Instr
				}
			}
			if !reads {
				return false // may last longer than the process
			}
		}
		if n < 0 {
			added := int64(0)
			for _, ev := range evs {
				if ev == by {
					break
				}
				if callNamed(ev, "(*sync.WaitGroup).Add") && ev.Args[0] == on {
					d, is := ev.Args[1].IntVal()
					if !is {
						return false
					}
					added += d
				}
				if callNamed(ev, "(*sync.WaitGroup).Done") && ev.Args[0] == on {
					added--
				}
			}
			if added != int64(told) {
				return false
			}
			found = found || mine
			continue
		}
		if closed && told != 1 || !closed && n > told {
			return false
		}
		found = found || mine && (closed || n == told)
	}
	return found
}

func waitsFor(ev *eng.Event) bool {
	return callNamed(ev, "(*sync.WaitGroup).Wait") || ev.Kind == "recv" || ev.Kind == "select"
}

// selected reports whether a path receives from a channel.
func (x *execution) selected(evs []*eng.Event, ch *eng.Term) bool {
	return anyEvent(evs, func(ev *eng.Event) bool {
		if ev.Kind == "recv" {
			return ev.Addr == ch
		}
		if ev.Kind == "select" {
			for _, s := range ev.Sel.States {
				if !s.Send && s.Ch == ch {
					return true
				}
			}
		}
		return false
	})
}

// cleans reports whether a loop calls every function registered with the command.
func (x *execution) cleans(st *eng.State, rest []*eng.Event, ev *eng.Event) bool {
	if ev.Kind != "loop" {
		return false
	}
	inst := ev.Loop
	list := x.k.get(st, x.cmd, "cleanup")
	if inst.Trav == nil || inst.Trav.Idx == nil || !complete(rest, inst) || !fullSeq(st, inst, list) {
		return false
	}
	lt := list.Typ.Underlying().(*types.Slice).Elem()
	for _, kd := range inst.Kinds {
		f := kd.St.Load(kd.St.ElemAddr(list, inst.Trav.Idx), lt)
		n := 0
		for _, e := range kd.Events {
			if e.Kind == "callfn" && e.Val == f {
				n++
			}
		}
		if isNil(kd.St, f) == 1 && n == 0 {
			continue
		}
		if n != 1 {
			return false
		}
	}
	return len(inst.Kinds) > 0
}

// ---- R15

// sources are the kinds of channels a run waits for.
type source string

const (
	sFinished source = "finished"
	sSignal   source = "signal"
	sTimeout  source = "timeout"
	sWarning  source = "warning"
	sMemory   source = "memory"
	sNever    source = "never"
	sOther    source = "other"
)

var handlerOf = map[source]string{sFinished: "Finished", sSignal: "Signal", sTimeout: "Timeout", sWarning: "TimeWarning", sMemory: "CheckMemory"}

// source is what a channel waited for stands for.
func (x *execution) source(o eng.Outcome, st *eng.State, ch *eng.Term) source {
	c, k := x.k.c, x.k
	kill, warn := k.get(x.st, x.cmd, "Config", "KillTimeout"), k.get(x.st, x.cmd, "Config", "NotifyTimeout")
	out := sNever
	if ch.Op != eng.ONil && ch.Op != eng.OChan && isNil(st, ch) != 1 {
		out = sOther
	}
	timer := func(ev *eng.Event, name string) bool {
		p, ok := ev.Val.Typ.Underlying().(*types.Pointer)
		if !ok || !callNamed(ev, "time."+name) || ch.Op != eng.OInit {
			return false
		}
		at, _ := c.Field(ev.Val, p.Elem(), "C")
		return ch.Args[0] == at
	}
	for _, ev := range o.St.Events() {
		switch {
		case ev.Kind == "go":
			for _, s := range x.spawned([]*eng.Event{ev}) {
				if s.any(func(e *eng.Event) bool { return callNamed(e, "(*os/exec.Cmd).Wait") }) && s.any(func(e *eng.Event) bool {
					return (e.Kind == "send" || e.Kind == "close") && e.Addr == ch
				}) {
					out = sFinished
				}
			}
		case callNamed(ev, "os/signal.Notify") && unconv(ev.Args[0]) == ch:
			out = sSignal
		case callNamed(ev, "time.After") && ev.Val == ch, ev.Val != nil && ev.Kind == "call" && timer(ev, "NewTimer"):
			switch ev.Args[0] {
			case kill:
				out = sTimeout
			case warn:
				out = sWarning
			}
		case callNamed(ev, "time.Tick") && ev.Val == ch, ev.Val != nil && ev.Kind == "call" && timer(ev, "NewTicker"):
			if n, ok := ev.Args[0].IntVal(); ok && n > 0 && n <= 60e9 {
				out = sMemory
			}
		}
	}
	return out
}

// mayBe lists what a channel can stand for on its iterations.
func (x *execution) mayBe(o eng.Outcome, st *eng.State, inst *eng.LoopInst, ch *eng.Term) map[source]bool {
	out := map[source]bool{}
	if inst != nil {
		for _, s := range inst.Slots {
			if s.Sym != ch || ch == nil {
				continue
			}
			if s.Init == nil {
				return map[source]bool{sOther: true}
			}
			out[x.source(o, st, s.Init)] = true
			first := x.source(o, st, s.Init)
			for _, kd := range inst.Kinds {
				n := kd.Next[s]
				if n == ch {
					continue
				}
				if n == nil {
					return map[source]bool{sOther: true}
				}
				is := x.source(o, kd.St, n)
				if is == sNever && first == sWarning && chosenIn(kd) == ch {
					continue // it comes only once
				}
				out[is] = true
			}
			return out
		}
	}
	out[x.source(o, st, ch)] = true
	return out
}

// chosenIn is the channel an iteration received from.
func chosenIn(kd *eng.IterKind) *eng.Term {
	var ch *eng.Term
	for _, ev := range kd.Events {
		if ev.Kind == "select" && ev.Sel.Index >= 0 {
			ch = ev.Sel.States[ev.Sel.Index].Ch
		}
	}
	return ch
}

func only(m map[source]bool) source {
	if len(m) != 1 {
		return sOther
	}
	for s := range m {
		return s
	}
	return sOther
}

// watching is where the run is watched for the last time.
func watching(evs []*eng.Event) int {
	last := -1
	for i, ev := range evs {
		if ev.Kind == "select" || ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool { return e.Kind == "select" }) {
			last = i
		}
	}
	return last
}

// heard checks that signals are not turned away while a run is watched.
func (x *execution) heard(st *eng.State, evs []*eng.Event) {
	deaf := func(ev *eng.Event) bool {
		return callNamed(ev, "os/signal.Ignore") || callNamed(ev, "os/signal.Reset") || callNamed(ev, "os/signal.Stop")
	}
	asked := false
	for i, ev := range evs[:watching(evs)+1] {
		asked = asked || callNamed(ev, "os/signal.Notify")
		if asked && (deaf(ev) || ev.Kind == "loop" && anyEvent(evs[i:i+1], deaf)) {
			x.k.c.OblSt("signal", "Exec", false, ev.Pos, st, "signals are turned away while the run is watched")
		}
	}
}

func checkR15(c *Ctx) {
	k := c.command()
	k.setup()
	c.opaque(mon+".checkRule", mon+".Command.processStdout", mon+".Command.processStderr")
	x := k.exec()
	handles := x.handles
	kill, warn := k.get(x.st, x.cmd, "Config", "KillTimeout"), k.get(x.st, x.cmd, "Config", "NotifyTimeout")
	zero := eng.Int(0)
	for _, o := range x.outs {
		if !x.started(o) {
			continue
		}
		evs := o.St.Events()
		mk, _ := process(evs)
		if mk == nil {
			c.OblSt("other", "Exec", false, x.f.Pos(), o.St, "no process is made")
			continue
		}
		if !c.OblSt("other", "Exec", o.Kind == "return", o.Pos, o.St, "%s", o.Why) {
			continue
		}
		for _, s := range x.spawned(evs) {
			c.OblSt("other", x.name(s.ev), !s.any(handles), s.ev.Pos, s.ev.Go.St, "something happens to a run while it is watched")
		}
		d := &dispatch{x: x, o: o, proc: mk.Val}
		var loop *eng.LoopInst
		for _, ev := range evs {
			if ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool { return e.Kind == "select" || handles(e) }) {
				loop = ev.Loop
				for _, kd := range loop.Kinds {
					d.list(kd.St, loop, kd.Events, nil)
				}
			}
		}
		d.list(o.St, loop, evs, o.Ret[0])
		x.heard(o.St, evs)
		// what must be waited for
		for _, w := range []struct {
			src   source
			limit *eng.Term
		}{{sTimeout, kill}, {sWarning, warn}} {
			for _, set := range []bool{true, false} {
				q := o.St.Clone()
				if !q.Assume(eng.Lt(zero, w.limit), set) {
					continue
				}
				c.OblSt("offered", "Exec", d.offered[w.src] == set && (set || !d.maybe[w.src]), x.f.Pos(), q, "the end of a time that is set: %v is waited for: %v (%s)", set, d.offered[w.src], w.src)
			}
		}
		for _, s := range []source{sFinished, sSignal, sMemory} {
			c.OblSt("offered", "Exec", d.offered[s], x.f.Pos(), o.St, "a run does not always wait for: %s", s)
		}
		for _, ev := range evs {
			if !callNamed(ev, "os/signal.Notify") {
				continue
			}
			ch := unconv(ev.Args[0])
			room := false
			for _, m := range evs {
				if m.Kind == "makechan" && m.Res == ch {
					n, ok := m.Args[0].IntVal()
					room = ok && n > 0
				}
			}
			c.OblSt("signal", "Exec", room, ev.Pos, o.St, "a signal that comes while nothing waits for it is lost")
			c.OblSt("signal", "Exec", interrupts(o.St, ev), ev.Pos, o.St, "an interrupt is not among the signals waited for")
		}
	}
	c.E.Opaque = nil
	f := c.Fn(mon + ".New")
	st := c.E.NewState()
	for _, o := range SplitNil(c.Run(f, st, c.Sym("user", f.Params[0].Type()), c.Sym("options", f.Params[1].Type())), 0) {
		if o.Kind != "return" || isNil(o.St, o.Ret[0]) == 1 {
			continue
		}
		h := k.get(o.St, o.Ret[0], "handler")
		c.OblSt("handler", "New", h != nil && isNil(o.St, h) == -1, f.Pos(), o.St, "a command is made that nothing handles")
		is := false
		if h != nil && h.Typ != nil {
			_, dyn := unconvTo(h)
			is = types.Identical(dyn, c.Type(mon+".handler"))
		}
		c.OblSt("handler", "New", is, f.Pos(), o.St, "a command is made that is handled by %v", h)
		for _, n := range []string{k.report, k.errs} {
			v := k.get(o.St, o.Ret[0], n)
			c.OblSt("handler", "New", isNil(o.St, v) == -1, f.Pos(), o.St, "a command is made without %s", n)
		}
	}
}

// unconvTo is the value in an interface and its type.
func unconvTo(t *eng.Term) (*eng.Term, types.Type) {
	v := unconv(t)
	if v == nil {
		return nil, nil
	}
	ty := v.Typ
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	return v, ty
}

// interrupts reports whether the signals asked for include an interrupt.
func interrupts(st *eng.State, ev *eng.Event) bool {
	list := ev.Args[1]
	if ev.Var != nil {
		list = ev.Var
	}
	if isNil(st, list) == 1 {
		return true // all
	}
	is := func(t *eng.Term) bool {
		return mentions(st, t, func(t *eng.Term) bool {
			return strings.Contains(t.String(), "os.Interrupt") || t.Typ != nil && t.Typ.String() == "syscall.Signal" && t.C != nil && t.C.ExactString() == "2"
		})
	}
	if list.Op == eng.OAppend {
		for _, a := range list.Args[1:] {
			if is(a) {
				return true
			}
		}
	}
	if sl, ok := list.Typ.Underlying().(*types.Slice); ok {
		if es, ok := st.Elems(list, sl.Elem()); ok {
			for _, a := range es {
				if is(a) {
					return true
				}
			}
		}
	}
	return false
}

type dispatch struct {
	x              *execution
	o              eng.Outcome
	proc           *eng.Term
	offered, maybe map[source]bool
}

// list checks what a list of events does about what it receives; ret is what it returns, or nil where the run goes on.
func (d *dispatch) list(st *eng.State, loop *eng.LoopInst, evs []*eng.Event, ret *eng.Term) {
	c := d.x.k.c
	var sel *eng.Event
	var calls []*eng.Event
	pos := d.x.f.Pos()
	for _, ev := range evs {
		switch {
		case ev.Kind == "select":
			can := map[source]bool{}
			may := map[source]bool{}
			for _, s := range ev.Sel.States {
				if s.Send {
					continue
				}
				m := d.x.mayBe(d.o, st, loop, s.Ch)
				can[only(m)] = true
				for k := range m {
					may[k] = true
				}
			}
			if ev.Sel.Blocking {
				if d.offered == nil {
					d.offered, d.maybe = can, may
				}
				for _, s := range []source{sFinished, sSignal, sTimeout, sWarning, sMemory} {
					d.offered[s] = d.offered[s] && can[s]
					d.maybe[s] = d.maybe[s] || may[s]
				}
			}
			if ev.Sel.Index >= 0 {
				if sel != nil {
					c.OblSt("other", "Exec", len(calls) > 0, ev.Pos, st, "what was received is dropped")
				}
				sel = ev
			}
		case ev.Kind == "recv":
			c.OblSt("other", "Exec", false, ev.Pos, st, "a run waits for something else")
		case d.x.handles(ev):
			calls = append(calls, ev)
		case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "Timer).Reset") || strings.HasSuffix(ev.Name, "Ticker).Reset") || len(calls) == 0 && (ret == nil || sel == nil) && (strings.HasSuffix(ev.Name, "Timer).Stop") || strings.HasSuffix(ev.Name, "Ticker).Stop"))):
			c.OblSt("offered", "Exec", false, ev.Pos, st, "a time that is waited for is changed")
		case ev.Kind == "call" && (ev.Name == "time.Sleep" || ev.Name == "(*sync.WaitGroup).Wait"):
			c.OblSt("other", "Exec", false, ev.Pos, st, "a run is not watched")
		}
	}
	if sel == nil {
		if ret != nil || len(calls) > 0 {
			c.OblSt("other", "Exec", false, pos, st, "a run ends, or is dealt with, for no reason")
		}
		return
	}
	got := d.x.mayBe(d.o, st, loop, sel.Sel.States[sel.Sel.Index].Ch)
	delete(got, sNever) // nothing comes
	if len(got) == 0 {
		return
	}
	src := only(got)
	want := handlerOf[src]
	if !c.OblSt("other", "Exec", want != "", sel.Pos, st, "a run waits for something else") {
		return
	}
	rule := string(src)
	is := func(ev *eng.Event, name string) bool {
		return strings.HasSuffix(ev.Name, ".ProcessHandlers."+name) && ev.Args[0] == d.x.cmd && (len(ev.Args) < 2 || ev.Args[1] == d.proc)
	}
	if !c.OblSt(rule, "Exec", len(calls) > 0 && is(calls[0], want), sel.Pos, st, "%s is not dealt with as such", src) {
		return
	}
	end := calls[0]
	switch src {
	case sWarning:
		c.OblSt(rule, "Exec", len(calls) == 1 && ret == nil, end.Pos, st, "a warning about time ends the run, or more is done")
		return
	case sMemory:
		failed := isNil(st, calls[0].Res)
		switch {
		case failed == 1:
			c.OblSt(rule, "Exec", len(calls) == 1 && ret == nil, end.Pos, st, "a run ends although its memory is within the limit")
			return
		case failed == 0:
			c.OblSt(rule, "Exec", false, end.Pos, st, "it is not looked at whether the memory is within the limit")
			return
		}
		if !c.OblSt(rule, "Exec", len(calls) == 2 && is(calls[1], "KillOnHighMemory"), end.Pos, st, "a process that uses too much memory is not killed") {
			return
		}
		end = calls[1]
	case sSignal:
		sig := sel.Res
		c.OblSt(rule, "Exec", len(calls) == 1 && len(end.Args) == 3 && unconv(end.Args[2]) == unconv(sig), end.Pos, st, "the signal dealt with is not the one received")
	default:
		c.OblSt(rule, "Exec", len(calls) == 1, end.Pos, st, "more is done than to deal with: %s", src)
	}
	ok := ret != nil && (ret == end.Res || ret == end.Val)
	c.OblSt(rule, "Exec", ok, end.Pos, st, "the run does not end with the result of: %s", src)
}

var _ = token.NoPos
