package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R09", []string{"read", "every-line", "passed-on", "write-error", "history", "rest"}, checkR09)
}

// execution is the view of the run of a command.
type execution struct {
	k    *command
	f    *ssa.Function
	st   *eng.State
	cmd  *eng.Term
	outs []eng.Outcome
	gos  []*eng.Event

	ran      map[*eng.Event][]eng.Outcome
	byStream map[string][]*reader
}

func (k *command) exec() *execution {
	c := k.c
	x := &execution{k: k, f: c.Method(k.t, "Exec")}
	st := c.E.NewState()
	x.cmd = c.Recv(st, "cmd", k.t)
	x.st = st.Clone()
	x.outs = c.Run(x.f, st, x.cmd)
	seen := map[*ssa.Go]bool{}
	for _, o := range x.outs {
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if ev.Kind == "go" && !seen[ev.Go.Instr] {
				seen[ev.Go.Instr] = true
				x.gos = append(x.gos, ev)
			}
		})
	}
	return x
}

func (x *execution) name(g *eng.Event) string { return "goroutine of " + eng.FuncName(g.Fn) }

// stream is one of the outputs of the process.
type stream struct {
	pipe, sink, history, limit string
}

var streams = []stream{{"StdoutPipe", "out", "Stdout", "StdoutHistory"}, {"StderrPipe", "err", "Stderr", "StderrHistory"}}

// reader is the goroutine that reads a stream.
type reader struct {
	stream
	go_      *eng.Event
	in, scan *eng.Term
	outs     []eng.Outcome
}

// readers finds the goroutine of every stream among the goroutines of the execution.
func (x *execution) readers(s stream) []*reader {
	var out []*reader
	for _, g := range x.gos {
		evs := g.Go.St.Events()
		var in *eng.Term
		eachEvent(evs, func(ev *eng.Event) {
			if ev.Kind == "call" && ev.Name == "(*os/exec.Cmd)."+s.pipe {
				in = ev.Val
			}
		})
		if in == nil {
			continue
		}
		outs := x.k.c.goroutine(g)
		for _, o := range outs {
			sc := scannerOf(append(evs[:len(evs):len(evs)], o.St.Events()...), in)
			if sc != nil && anyEvent(o.St.Events(), func(ev *eng.Event) bool { return scanCall(ev, "Scan") && ev.Args[0] == sc }) {
				out = append(out, &reader{s, g, in, sc, outs})
				break
			}
		}
	}
	return out
}

// ---- R09

// open checks that a stream is not closed while it is read.
func (x *execution) open(r *reader) {
	c := x.k.c
	closes := func(ev *eng.Event) bool {
		return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Close") && unconv(ev.Addr) == r.in
	}
	for _, o := range x.outs {
		if !x.started(o) {
			continue
		}
		evs := o.St.Events()
		for i, ev := range evs[:watching(evs)+1] {
			if closes(ev) || ev.Kind == "loop" && anyEvent(evs[i:i+1], closes) {
				c.OblSt("every-line", "Exec", false, ev.Pos, o.St, "an output is closed while it is read")
			}
		}
		for _, s := range x.spawned(evs) {
			if s.ev.Go.Instr == r.go_.Go.Instr {
				continue
			}
			for _, g := range s.outs {
				for _, ev := range g.St.Events() {
					if callNamed(ev, "(*sync.WaitGroup).Wait") {
						break
					}
					if closes(ev) {
						c.OblSt("every-line", x.name(s.ev), false, ev.Pos, g.St, "an output is closed while it is read")
					}
				}
			}
		}
	}
}

func checkR09(c *Ctx) {
	k := c.command()
	k.setup()
	c.opaque(mon + ".checkRule")
	x := k.exec()
	str := types.Typ[types.String]
	for _, s := range streams {
		rs := x.readers(s)
		at := map[*ssa.Go]bool{}
		for _, r := range rs {
			at[r.go_.Go.Instr] = true
		}
		for _, o := range x.outs {
			if !x.started(o) {
				continue
			}
			n := 0
			for _, ev := range o.St.Events() {
				if ev.Kind == "go" && at[ev.Go.Instr] {
					n++
				}
			}
			c.OblSt("read", "Exec "+s.history, n == 1, x.f.Pos(), o.St, "the lines of an output of the process are read by %d goroutines", n)
		}
		for _, r := range rs {
			x.open(r)
		}
		for _, r := range rs {
			name := r.history
			get := func(st *eng.State, f ...string) *eng.Term { return k.get(st, x.cmd, f...) }
			gst := r.go_.Go.St
			sink, cell := get(gst, r.sink), k.at(x.cmd, r.history)
			errs := get(gst, k.errs)
			for _, o := range r.outs {
				evs := o.St.Events()
				inst := lineLoop(evs, r.scan)
				if o.Kind != "return" || inst == nil {
					c.OblSt("every-line", name, false, o.Pos, o.St, "the lines of an output are not all read: %s", o.Why)
					continue
				}
				c.OblSt("every-line", name, byLines(r.scan, gst.Events(), evs), o.Pos, o.St, "an output is not split into lines")
				// reading ends only where there is no line left
				var last, err *eng.Event
				n := 0
				for _, ev := range evs {
					switch {
					case scanCall(ev, "Scan") && ev.Args[0] == r.scan:
						last = ev
						n++
					case scanCall(ev, "Err") && ev.Args[0] == r.scan && n == 1:
						err = ev
					}
				}
				c.OblSt("every-line", name, n == 1 && o.St.Truth(last.Val) == -1, o.Pos, o.St, "an output is left before its end")
				// what can not be split into lines does not block the process
				switch {
				case err == nil || isNil(o.St, err.Val) == 0:
					c.OblSt("rest", name, false, o.Pos, o.St, "it is not looked at why there is no line left")
				case isNil(o.St, err.Val) == -1:
					var drained *eng.Event
					for _, ev := range evs {
						if r.drains(ev) {
							drained = ev
						}
					}
					c.OblSt("rest", name, drained != nil, err.Pos, o.St, "an output with a line that can not be read is not read to its end")
					rep := 0
					for _, ev := range reportedErrors(evs, errs) {
						if mentions(o.St, ev.Args[0], func(t *eng.Term) bool { return t == err.Val }) {
							rep++
						}
					}
					c.OblSt("rest", name, rep == 1, err.Pos, o.St, "an error reading an output is reported %d times", rep)
				}
				for _, kd := range inst.Kinds {
					scans := 0
					for _, ev := range kd.Events {
						switch {
						case scanCall(ev, "Scan") && ev.Args[0] == r.scan:
							scans++
							c.OblSt("every-line", name, scans == 1 && kd.St.Truth(ev.Val) == 1, ev.Pos, kd.St, "a line is read before the one before is dealt with")
						case scans == 0 && (sinkWrite(ev) != nil || r.drains(ev)):
							c.OblSt("passed-on", name, false, ev.Pos, kd.St, "something is written before the line is read")
						}
					}
					r.passedOn(c, kd, sink, errs)
					var sl *eng.Slot
					for _, s := range inst.Slots {
						if s.Cell == cell {
							sl = s
						}
					}
					if sl == nil || sl.Sym == nil {
						c.OblSt("history", name, false, inst.Pos, kd.St, "the lines of an output are not remembered")
						continue
					}
					now := kd.St.Load(cell, sl.Typ)
					was, limit := sl.Sym, get(kd.St, "Config", r.limit)
					for _, kind := range []string{"none", "room", "full"} {
						q := kd.St.Clone()
						n := q.LenOf(was)
						ok := false
						zero := eng.Int(0)
						switch kind {
						case "none":
							ok = q.Assume(eng.Lt(zero, limit), false) && q.Assume(eng.Eq(n, zero), true)
						case "room":
							ok = q.Assume(eng.Lt(n, limit), true)
						case "full":
							ok = q.Assume(eng.Lt(zero, limit), true) && q.Assume(eng.Eq(n, limit), true)
						}
						if !ok {
							continue
						}
						if kind == "none" {
							c.OblSt("history", name, q.Same(q.LenOf(now), zero), inst.Pos, q, "lines are remembered although none should be")
							continue
						}
						line := q.Load(q.ElemAddr(now, eng.Sub(q.LenOf(now), eng.Int(1))), str)
						mine := ofLine(kd.Events, r.scan, line)
						if kind == "room" {
							ok = c.pointwise(q, now, str, from(was, zero, n, str), one(line))
						} else {
							ok = c.pointwise(q, now, str, from(was, eng.Int(1), eng.Sub(n, eng.Int(1)), str), one(line))
						}
						msg := map[string]string{"room": "a line is not added to the lines before it", "full": "a line does not replace the oldest one"}[kind]
						c.OblSt("history", name, ok && mine, inst.Pos, q, "%s", msg)
					}
				}
			}
		}
	}
}

// started reports whether the process is started on a path.
func (x *execution) started(o eng.Outcome) bool {
	for _, ev := range o.St.Events() {
		if ev.Kind == "call" && ev.Name == "(*os/exec.Cmd).Start" && isNil(o.St, ev.Res) == 1 {
			return true
		}
	}
	return false
}

// drains reports whether an event reads a stream to its end.
func (r *reader) drains(ev *eng.Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "io.Copy", "io.CopyBuffer":
		return unconv(ev.Args[1]) == r.in
	case "io.ReadAll", "io/ioutil.ReadAll":
		return unconv(ev.Args[0]) == r.in
	}
	return false
}

// passedOn checks that a line is written to the own output, with a newline.
func (r *reader) passedOn(c *Ctx, kd *eng.IterKind, sink, errs *eng.Term) {
	st := kd.St
	state := 0 // 1: the line, 2: the newline
	good := true
	var first *eng.Event
	for _, ev := range kd.Events {
		if ev.Kind == "loop" && anyEvent([]*eng.Event{ev}, func(e *eng.Event) bool { return sinkWrite(e) != nil }) {
			good = false
		}
		w := sinkWrite(ev)
		if w == nil {
			continue
		}
		good = good && w == sink
		if first == nil {
			first = ev
		}
		var parts []*eng.Term
		var arg *eng.Term
		switch {
		case state == 0 && lineAndNewline(st, kd.Events, r.scan, ev):
			state = 2
			continue
		case ev.Kind == "invoke":
			arg = ev.Args[0]
			parts = text(st, unconv(arg))
		default:
			parts = output(st, ev)
		}
		switch {
		case state == 0 && (arg != nil && ofLine(kd.Events, r.scan, arg) || len(parts) == 1 && ofLine(kd.Events, r.scan, parts[0])):
			state = 1
		case state == 1 && (arg != nil && isNewline(st, ev) || len(parts) == 1 && isStr(parts[0], "\n")):
			state = 2
		default:
			good = false
		}
	}
	pos := token.NoPos
	if first != nil {
		pos = first.Pos
	}
	c.OblSt("passed-on", r.history, good && state == 2, pos, st, "a line of an output is not written to it once, with a newline")
	if first == nil {
		return
	}
	rep := 0
	for _, ev := range reportedErrors(kd.Events, errs) {
		if mentions(st, ev.Args[0], func(t *eng.Term) bool { return t == first.Res }) {
			rep++
		}
	}
	switch isNil(st, first.Res) {
	case 1:
		c.OblSt("write-error", r.history, rep == 0, pos, st, "an error is reported for a line that was written")
	default:
		c.OblSt("write-error", r.history, rep == 1, pos, st, "a line that can not be written is reported as an error %d times", rep)
	}
}

// isNewline reports whether an event writes a newline.
func isNewline(st *eng.State, ev *eng.Event) bool {
	one := func(es []*eng.Term) bool {
		if len(es) != 1 {
			return false
		}
		n, is := es[0].IntVal()
		return is && n == '\n'
	}
	if ev.Var != nil && ev.Var.Op == eng.OAppend && one(ev.Var.Args[1:]) {
		return true
	}
	es, ok := st.Elems(ev.Args[0], types.Typ[types.Byte])
	return ok && one(es) || isStr(ev.Args[0], "\n")
}
