package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R02", []string{"time", "memory", "once", "kill", "peak", "measured", "closed"}, checkR02)
	register("R03", []string{"counted", "done", "background", "wait"}, checkR03)
	register("R06", []string{"times", "success", "failure", "killed", "passed-on", "report", "before"}, checkR06)
	register("R07", []string{"each", "missing", "present", "unknown"}, checkR07)
}

// request is a report asked for by a path.
type request struct {
	ev            *eng.Event
	cmd, why      *eng.Term
	direct        bool // the path itself waits for it
	sure          bool // sent once whatever happens
	counted, done bool // by something Wait waits for
	at            int
}

// requests lists the reports asked for by a list of events, without those of loops.
func (k *command) requests(r *reach, evs []*eng.Event) []request {
	var out []request
	balance := map[*eng.Term]int64{}
	for i, ev := range evs {
		switch {
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add":
			if n, ok := ev.Args[1].IntVal(); ok {
				balance[ev.Args[0]] += n
			}
		case isSend(ev):
			out = append(out, request{ev: ev, cmd: ev.Args[0], why: ev.Args[1], direct: true, sure: true, counted: true, done: true, at: i})
		case ev.Kind == "go" && ev.Go.Method != nil && ev.Go.Method.Name() == "Send" && len(ev.Go.Args) == 2:
			out = append(out, request{ev: ev, cmd: ev.Go.Args[0], why: ev.Go.Args[1], sure: true, at: i})
		case ev.Kind == "go":
			outs := r.outs(ev)
			var q request
			n := 0
			sure := len(outs) > 0
			done := true
			var wg *eng.Term
			for _, o := range outs {
				m, dones := 0, 0
				sent := false
				for _, e := range o.St.Events() {
					if isSend(e) {
						m++
						sent = true
						q.cmd, q.why = e.Args[0], e.Args[1]
					}
					if e.Kind == "call" && e.Name == "(*sync.WaitGroup).Done" {
						dones++
						done = done && sent && (wg == nil || wg == e.Args[0])
						wg = e.Args[0]
					}
				}
				if m > n {
					n = m
				}
				sure = sure && m == 1 && o.Kind == "return"
				done = done && dones == 1
			}
			if n == 0 {
				continue
			}
			q.ev, q.at, q.sure = ev, i, sure
			q.done = done && wg != nil
			if wg != nil {
				q.counted = balance[wg] > 0 && eng.DeepRoot(wg) == q.cmd
				balance[wg]--
			}
			for j := 0; j < n; j++ {
				out = append(out, q)
			}
		}
	}
	return out
}

func isSend(ev *eng.Event) bool {
	return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ReportSender.Send")
}

// is reports whether a request is for a reason.
func (k *command) is(st *eng.State, q request, cmd *eng.Term, name string) bool {
	return q.cmd == cmd && st.Same(q.why, k.c.reason(name, q.why.Typ))
}

type handled struct {
	f         *ssa.Function
	st        *eng.State
	cmd, proc *eng.Term
	args      []*eng.Term
	outs      []eng.Outcome
}

func (k *command) handle(name string) *handled {
	c := k.c
	t := c.Type(mon + ".handler")
	h := &handled{f: c.ValueMethod(t, name)}
	st := c.E.NewState()
	h.cmd = c.Recv(st, "cmd", k.t)
	args := []*eng.Term{c.Sym("h", h.f.Params[0].Type()), h.cmd}
	for _, p := range h.f.Params[2:] {
		a := c.Sym("arg."+p.Name(), p.Type())
		st.MarkNonNil(a)
		args = append(args, a)
	}
	if len(args) > 2 {
		h.proc = args[2]
	}
	h.st, h.args = st.Clone(), args
	h.outs = c.Run(h.f, st, args...)
	return h
}

// child is the process of an exec.Cmd.
func (c *Ctx) child(st *eng.State, proc *eng.Term, field string) *eng.Term {
	return c.Get(st, proc, proc.Typ.Underlying().(*types.Pointer).Elem(), field)
}

func (k *command) setup() *reach {
	k.c.E.NoMerge = true
	k.c.E.Stable = k.c.stable()
	return &reach{c: k.c, cache: map[*eng.Event][]eng.Outcome{}}
}

// ---- R02

func checkR02(c *Ctx) {
	k := c.command()
	r := k.setup()
	get := k.get
	// the warning about time
	flag := "timeWarnSent"
	h := k.handle("TimeWarning")
	for _, o := range h.outs {
		for _, sent := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(get(h.st, h.cmd, flag), sent) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("time", "TimeWarning", false, o.Pos, s, "%s", o.Why)
				continue
			}
			qs := k.requests(r, s.Events())
			noLoops(c, "time", "TimeWarning", h.f, s)
			if sent {
				c.OblSt("once", "TimeWarning", len(qs) == 0 && s.Truth(get(s, h.cmd, flag)) == 1, h.f.Pos(), s, "a second warning about time is sent")
				continue
			}
			ok := len(qs) == 1 && qs[0].sure && k.is(s, qs[0], h.cmd, "TimeWarning")
			c.OblSt("time", "TimeWarning", ok, h.f.Pos(), s, "no warning is sent when the time is up")
			c.OblSt("once", "TimeWarning", s.Truth(get(s, h.cmd, flag)) == 1, h.f.Pos(), s, "that a warning was sent is not remembered")
		}
	}
	// memory
	calc := mon + ".calculateMemory"
	c.opaque(calc)
	h = k.handle("CheckMemory")
	flag = "memWarnSent"
	zero := eng.Int(0)
	for _, o := range h.outs {
		if o.Kind != "return" {
			c.OblSt("memory", "CheckMemory", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		var mem *eng.Term
		n := 0
		for _, ev := range o.St.Events() {
			if c.callTo(ev, calc) {
				mem = ev.Val
				n++
				p := c.child(h.st, h.proc, "Process")
				pid := c.Get(h.st, p, p.Typ.Underlying().(*types.Pointer).Elem(), "Pid")
				c.OblSt("measured", "CheckMemory", ev.Args[0] == pid, ev.Pos, o.St, "the memory measured is not that of the process")
			}
		}
		if !c.OblSt("measured", "CheckMemory", n == 1, h.f.Pos(), o.St, "the memory is not measured once") {
			continue
		}
		warn, kill, peak := get(h.st, h.cmd, "Config", "MemoryWarn"), get(h.st, h.cmd, "Config", "MemoryKill"), get(h.st, h.cmd, "MaxMemory")
		was := get(h.st, h.cmd, flag)
		noLoops(c, "memory", "CheckMemory", h.f, o.St)
		for _, higher := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(eng.Lt(peak, mem), higher) {
				continue
			}
			now := get(s, h.cmd, "MaxMemory")
			ok := higher && s.Same(now, mem) || !higher && (s.Same(now, peak) || s.Same(now, mem) && s.EntailLe(peak, mem))
			c.OblSt("peak", "CheckMemory", ok, h.f.Pos(), s, "the highest memory seen becomes %v instead of the greater of %v and %v", now, peak, mem)
		}
		for i := 0; i < 8; i++ {
			s := o.St.Clone()
			set, over, sent := i&1 != 0, i&2 != 0, i&4 != 0
			if !s.Assume(eng.Lt(zero, warn), set) || !set && !s.Assume(eng.Eq(warn, zero), true) || !s.Assume(eng.Lt(mem, warn), !over) || !s.Assume(was, sent) {
				continue
			}
			qs := k.requests(r, s.Events())
			want := set && over && !sent
			if want {
				ok := len(qs) == 1 && qs[0].sure && k.is(s, qs[0], h.cmd, "MemoryWarning")
				c.OblSt("memory", "CheckMemory", ok, h.f.Pos(), s, "no warning is sent although the memory has reached the limit")
			} else {
				what := "a second warning about memory is sent"
				if !set || !over {
					what = "a warning is sent although the memory has not reached a limit that is set"
				}
				c.OblSt("memory", "CheckMemory", len(qs) == 0, h.f.Pos(), s, "%s", what)
			}
			ok := want || sent
			tr := s.Truth(get(s, h.cmd, flag))
			c.OblSt("once", "CheckMemory", ok && tr == 1 || !ok && tr == -1, h.f.Pos(), s, "what is remembered is not whether a warning was sent")
		}
		for i := 0; i < 4; i++ {
			set, over := i&1 != 0, i&2 != 0
			for _, s := range SplitNil([]eng.Outcome{{St: o.St.Clone(), Ret: o.Ret, Kind: "return"}}, 0) {
				q := s.St
				if !q.Assume(eng.Lt(zero, kill), set) || !set && !q.Assume(eng.Eq(kill, zero), true) || !q.Assume(eng.Lt(mem, kill), !over) {
					continue
				}
				failed := isNil(q, s.Ret[0]) == -1
				c.OblSt("kill", "CheckMemory", failed == (set && over), h.f.Pos(), q, "asks for a kill: %v, for memory %v and limit %v", failed, mem, kill)
			}
		}
	}
	c.E.Opaque = nil
	k.neverReset("once", "timeWarnSent")
	k.neverReset("once", "memWarnSent")
	k.measure(calc)
}

// noLoops refuses requests made in loops, which are not counted.
func noLoops(c *Ctx, rule, what string, f *ssa.Function, s *eng.State) {
	bad := false
	for _, ev := range s.Events() {
		if ev.Kind == "loop" {
			for _, k := range ev.Loop.Kinds {
				eachEvent(k.Events, func(ev *eng.Event) { bad = bad || ev.Kind == "go" || isSend(ev) })
			}
		}
	}
	c.OblSt(rule, what, !bad, f.Pos(), s, "asks for reports in a loop")
}

// neverReset checks that nothing in the repository clears a flag of a command.
func (k *command) neverReset(rule, field string) {
	c := k.c
	i := -1
	st := k.t.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == field {
			i = j
		}
	}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != i || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), k.t) {
					continue
				}
				for _, r := range *fa.Referrers() {
					s, ok := r.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(fa) {
						continue
					}
					v, ok := s.Val.(*ssa.Const)
					good := ok && v.Value != nil && v.Value.ExactString() == "true"
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						good = true
					}
					c.Obl(rule, field+" in "+eng.FuncName(f), good, s.Pos(), "that a warning was sent can be forgotten")
				}
			}
		}
	}
}

// measure checks the memory of a process: the sum of its proportional set sizes, or nothing.
func (k *command) measure(calc string) {
	c := k.c
	f := c.Fn(calc)
	pid := c.Sym("pid", f.Params[0].Type())
	for _, o := range c.Run(f, c.E.NewState(), pid) {
		if o.Kind != "return" {
			c.OblSt("measured", "memory", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		s := o.St
		var open, clos *eng.Event
		for _, ev := range s.Events() {
			switch {
			case ev.Kind == "call" && ev.Name == "os.Open":
				open = ev
			case ev.Kind == "call" && ev.Name == "(*os.File).Close" && open != nil && ev.Args[0] == open.Val:
				clos = ev
			}
		}
		n, isConst := o.Ret[0].IntVal()
		if open == nil || isNil(s, open.Res) == -1 {
			c.OblSt("measured", "memory", isConst && n == 0, f.Pos(), s, "memory that can not be read is %v", o.Ret[0])
			continue
		}
		path := mentions(s, open.Args[0], func(t *eng.Term) bool { return t == pid })
		text := mentions(s, open.Args[0], func(t *eng.Term) bool {
			v, ok := t.StrVal()
			return ok && strings.HasPrefix(v, "/proc/") && (strings.HasSuffix(v, "/smaps") || v == "/proc/")
		})
		c.OblSt("measured", "memory", path && text, open.Pos, s, "the memory is not read from that of the process")
		c.OblSt("closed", "memory", clos != nil, open.Pos, s, "the file the memory is read from stays open")
		sc := scannerOf(s.Events(), open.Val)
		inst := (*eng.LoopInst)(nil)
		if sc != nil {
			inst = lineLoop(s.Events(), sc)
		}
		if isConst && n == 0 {
			// a line or a read failed, or there was none
			all := anyEvent(s.Events(), func(ev *eng.Event) bool { return scanCall(ev, "Scan") && s.Truth(ev.Val) == -1 }) &&
				anyEvent(s.Events(), func(ev *eng.Event) bool { return scanCall(ev, "Err") && isNil(s, ev.Val) == 1 })
			c.OblSt("measured", "memory", !all, f.Pos(), s, "the memory is zero although all sizes were read")
			continue
		}
		ok := inst != nil && sc != nil
		if ok {
			ok = false
			for _, sl := range inst.Slots {
				if sl.Sym != o.Ret[0] || sl.Init == nil {
					continue
				}
				z, isz := sl.Init.IntVal()
				ok = isz && z == 0
				for _, kd := range inst.Kinds {
					next := kd.Next[sl]
					pss := 0
					for t, v := range kd.St.FactTerms() {
						if t.Op == eng.OCall && (t.Name == "bytes.HasPrefix" || t.Name == "strings.HasPrefix") && ofLine(kd.Events, sc, t.Args[0]) && mentions(kd.St, t.Args[1], func(x *eng.Term) bool { return isStr(x, "Pss:") }) {
							if pss = -1; v {
								pss = 1
							}
						}
					}
					switch {
					case next == sl.Sym:
						ok = ok && pss == -1
					default:
						size := eng.Sub(next, sl.Sym)
						ok = ok && pss == 1 && c.parsed(kd.St, kd.Events, sc, size)
					}
				}
			}
		}
		ok = ok && (sc == nil || byLines(sc, s.Events()))
		c.OblSt("measured", "memory", ok, f.Pos(), s, "the memory is not the sum of the proportional set sizes")
		c.OblSt("measured", "memory", anyEvent(s.Events(), func(ev *eng.Event) bool { return scanCall(ev, "Scan") && s.Truth(ev.Val) == -1 }), f.Pos(), s,
			"the sum of some of the sizes is taken for the memory")
		c.OblSt("measured", "memory", anyEvent(s.Events(), func(ev *eng.Event) bool { return scanCall(ev, "Err") && isNil(s, ev.Val) == 1 }), f.Pos(), s,
			"a sum that could not be read to the end is taken for the memory")
	}
}

// wrongPart recognises a part of a line that does not start behind "Pss:".
func wrongPart(t *eng.Term) bool {
	if t.Op != eng.OSlice || len(t.Args) < 2 {
		return false
	}
	n, ok := t.Args[1].IntVal()
	return ok && n != 4 && n != 5
}

// parsed reports whether a number was read from a line without an error.
func (c *Ctx) parsed(s *eng.State, evs []*eng.Event, sc, n *eng.Term) bool {
	n = unconv(n)
	for _, ev := range evs {
		if ev.Kind != "call" && ev.Kind != "pure" {
			continue
		}
		line := func(t *eng.Term) bool {
			return mentions(s, t, func(x *eng.Term) bool { return ofLine(evs, sc, x) }) && !mentions(s, t, wrongPart)
		}
		switch ev.Name {
		case "fmt.Sscanf", "fmt.Sscan", "fmt.Sscanln", "fmt.Fscanf", "fmt.Fscan", "fmt.Fscanln":
			if ev.Var == nil {
				continue
			}
			for _, a := range ev.Var.Args {
				a = unconv(a)
				if n.Op == eng.OInit && n.Args[0] == a && line(ev.Args[0]) && isNil(s, ev.Res) == 1 {
					return true
				}
			}
		case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
			if ev.Val == n && line(ev.Args[0]) && isNil(s, ev.Res) == 1 {
				return true
			}
		}
	}
	return false
}

// ---- R03

func checkR03(c *Ctx) {
	k := c.command()
	r := k.setup()
	each := func(name string, f *ssa.Function, outs []eng.Outcome) {
		for _, o := range outs {
			lists := [][]*eng.Event{o.St.Events()}
			iterations(o.St.Events(), func(_ *eng.LoopInst, kd *eng.IterKind) { lists = append(lists, kd.Events) })
			for _, l := range lists {
				for _, q := range k.requests(r, l) {
					c.OblSt("background", name, !q.direct, q.ev.Pos, o.St, "%s waits for its report to be sent", name)
					c.OblSt("counted", name, q.counted, q.ev.Pos, o.St, "%s asks for a report nothing counts before it goes on, so that waiting can miss it", name)
					c.OblSt("done", name, q.done && q.sure, q.ev.Pos, o.St, "a report %s asked for is taken for sent before it is, or never", name)
				}
			}
		}
	}
	for _, n := range []string{"Finished", "Signal", "Timeout", "TimeWarning", "CheckMemory", "KillOnHighMemory"} {
		h := k.handle(n)
		each(n, h.f, h.outs)
	}
	c.E.Frame = nil
	x := k.exec()
	for _, g := range x.gos {
		each(x.name(g), x.f, r.outs(g))
	}
	// waiting
	f := c.Method(k.t, "Wait")
	st := c.E.NewState()
	cmd := c.Recv(st, "cmd", k.t)
	// the counter of reports
	var wgs []string
	ct := k.t.Underlying().(*types.Struct)
	for i := 0; i < ct.NumFields(); i++ {
		if s := ct.Field(i).Type().String(); s == "sync.WaitGroup" || s == "*sync.WaitGroup" {
			wgs = append(wgs, ct.Field(i).Name())
		}
	}
	for _, o := range c.Run(f, st.Clone(), cmd) {
		if o.Kind != "return" {
			c.OblSt("wait", "Command.Wait", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		for _, w := range wgs {
			ok := anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				return ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && (ev.Args[0] == k.at(cmd, w) || ev.Args[0] == k.get(o.St, cmd, w))
			})
			c.OblSt("wait", "Command.Wait "+w, ok, f.Pos(), o.St, "does not wait for the reports asked for")
		}
		var inv *eng.Event
		for _, ev := range o.St.Events() {
			if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ReportSender.Wait") && ev.Addr == k.get(st, cmd, k.report) {
				inv = ev
			}
		}
		c.OblSt("wait", "Command.Wait", inv != nil && (o.Ret[0] == inv.Val || isNil(o.St, inv.Val) == 1 && isNil(o.St, o.Ret[0]) == 1), f.Pos(), o.St, "does not wait for the reports under way, or loses what that returns")
	}
	c.Obl("wait", "Command", len(wgs) > 0, f.Pos(), "nothing counts the reports asked for")
	rep := c.Type(mon + ".Report")
	f = c.Method(rep, "Wait")
	st = c.E.NewState()
	rr := c.Recv(st, "report", rep)
	for _, o := range c.Run(f, st.Clone(), rr) {
		ok := o.Kind == "return" && anyEvent(o.St.Events(), func(ev *eng.Event) bool {
			return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".sender.wait")
		})
		c.OblSt("wait", "Report.Wait", ok, f.Pos(), o.St, "does not wait for what is being sent")
	}
}

// ---- R06

var ends = map[string]bool{"(*os.Process).Signal": true, "(*os.Process).Kill": true, "syscall.Kill": true}

func checkR06(c *Ctx) {
	k := c.command()
	r := k.setup()
	get := k.get
	i32 := types.Typ[types.Int32]
	// every request comes after everything it tells is known
	before := func(name string, h *handled, s *eng.State, q request, fields ...string) {
		for _, f := range fields {
			late := false
			for i, ev := range s.Events() {
				if i > q.at && ev.Kind == "store" && ev.Addr == k.at(h.cmd, f) {
					late = true
				}
			}
			c.OblSt("before", name+" "+f, !late, q.ev.Pos, s, "the report is asked for before %s is known", f)
		}
	}
	times := func(name string, h *handled, s *eng.State) {
		fin := get(s, h.cmd, "Finish")
		ok := isNow(s, fin) && s.Same(get(s, h.cmd, "Duration"), eng.Sub(eng.Nanos(fin), eng.Nanos(get(h.st, h.cmd, "Start"))))
		c.OblSt("times", name, ok && get(s, h.cmd, "Start") == get(h.st, h.cmd, "Start"), h.f.Pos(), s, "the end is not now, or the duration not the time from start to end")
	}
	killed := map[string]string{"Signal": "Signal", "Timeout": "Timeout", "KillOnHighMemory": "Memory"}
	for _, n := range []string{"Signal", "Timeout", "KillOnHighMemory"} {
		h := k.handle(n)
		for _, o := range h.outs {
			if o.Kind != "return" {
				c.OblSt("killed", n, false, o.Pos, o.St, "%s", o.Why)
				continue
			}
			s := o.St
			times(n, h, s)
			kr, rr := get(s, h.cmd, "KillReason"), get(s, h.cmd, "ReportReason")
			ok := s.Truth(get(s, h.cmd, "Killed")) == 1 && s.Same(kr, c.reason(killed[n], kr.Typ)) && s.Same(rr, c.reason("Killed", rr.Typ))
			c.OblSt("killed", n, ok, h.f.Pos(), s, "the command is not known as killed, for this reason")
			c.OblSt("killed", n, get(s, h.cmd, "Success") == get(h.st, h.cmd, "Success") || s.Truth(get(s, h.cmd, "Success")) == -1, h.f.Pos(), s, "a killed command becomes successful")
			qs := k.requests(r, s.Events())
			noLoops(c, "report", n, h.f, s)
			ok = len(qs) == 1 && qs[0].sure && k.is(s, qs[0], h.cmd, "Killed")
			if c.OblSt("report", n, ok, h.f.Pos(), s, "the kill is not reported once") {
				before(n, h, s, qs[0], "Killed", "KillReason", "Finish", "Duration", "Success")
			}
			// the process
			var sigs []*eng.Event
			for _, ev := range s.Events() {
				if ev.Kind == "call" && (ev.Name == "(*os.Process).Signal" || ev.Name == "(*os.Process).Kill") {
					sigs = append(sigs, ev)
				}
			}
			p := c.child(h.st, h.proc, "Process")
			ok = len(sigs) == 1 && sigs[0].Args[0] == p
			if ok {
				ev := sigs[0]
				switch {
				case n == "Signal":
					ok = len(ev.Args) == 2 && ev.Args[1] == h.args[3]
				case ev.Name == "(*os.Process).Signal":
					ok = isKill(ev.Args[1])
				}
				ok = ok && (o.Ret[0] == ev.Val || s.Same(o.Ret[0], ev.Val) || isNil(s, ev.Val) == -1 && wraps(s, o.Ret[0], func(t *eng.Term) bool { return t == ev.Val }))
			}
			c.OblSt("passed-on", n, ok, h.f.Pos(), s, "the process does not get the signal once, or the failure to send it is not returned")
		}
	}
	// nothing else ends the process
	var handlers []*ssa.Function
	for _, f := range c.P.Fns {
		if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), c.Type(mon+".handler")) {
			handlers = append(handlers, f)
		}
	}
	c.uses(func(v ssa.Value) bool {
		f, ok := v.(*ssa.Function)
		return ok && ends[eng.FuncName(f)]
	}, func(fn *ssa.Function, in ssa.Instruction, call bool) {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), mon) {
			return
		}
		ok := false
		for _, h := range handlers {
			ok = ok || h == fn || reaches(h, fn, 0)
		}
		c.Obl("passed-on", eng.FuncName(fn), ok, in.Pos(), "the process gets a signal that no handler sends")
	})
	h := k.handle("Finished")
	for _, o := range h.outs {
		if o.Kind != "return" {
			c.OblSt("success", "Finished", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		state := c.child(h.st, h.proc, "ProcessState")
		var end *eng.Event
		var sys *eng.Term
		for _, ev := range o.St.Events() {
			if ev.Kind != "call" || len(ev.Args) == 0 || ev.Args[0] != state {
				continue
			}
			switch ev.Name {
			case "(*os.ProcessState).Success":
				end = ev
			case "(*os.ProcessState).Sys":
				sys = ev.Val
			}
		}
		if !c.OblSt("success", "Finished", end != nil, h.f.Pos(), o.St, "how the process ended is not asked") {
			continue
		}
		for _, good := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(end.Val, good) {
				continue
			}
			times("Finished", h, s)
			c.OblSt("times", "Finished", len(k.writes(s, h.cmd, "Killed")) == 0 && len(k.writes(s, h.cmd, "KillReason")) == 0, h.f.Pos(), s, "a finished command becomes a killed one")
			var qs []request
			for _, q := range k.requests(r, s.Events()) {
				if !k.is(s, q, h.cmd, "FileNotCreated") {
					qs = append(qs, q)
				}
			}
			rule, reason := "failure", "Failure"
			if good {
				rule, reason = "success", "Success"
			}
			ok := len(qs) == 1 && qs[0].sure && k.is(s, qs[0], h.cmd, reason)
			if !c.OblSt("report", "Finished "+reason, ok, h.f.Pos(), s, "the end of the process is not reported once, as a %s", reason) {
				continue
			}
			val := func(f string) *eng.Term { return lastStore(k, h, s, qs[0].at, f) }
			before("Finished", h, s, qs[0], "Finish", "Duration", "ExitCode", "ExitCodeValid")
			su := val("Success")
			tr := s.Truth(su)
			ok = good && tr == 1 || !good && (tr == -1 || su == nil)
			if su == nil {
				ok = false
			}
			c.OblSt(rule, "Finished", ok, h.f.Pos(), s, "the success of the command is %v", su)
			rr := val("ReportReason")
			c.OblSt(rule, "Finished", rr != nil && s.Same(rr, c.reason(reason, rr.Typ)), h.f.Pos(), s, "the reason of the report is %v", rr)
			if good {
				ec := val("ExitCode")
				ok = s.Truth(get(s, h.cmd, "ExitCodeValid")) == 1 && (ec == nil || s.Same(ec, eng.Int(0)))
				c.OblSt(rule, "Finished", ok, h.f.Pos(), s, "the exit code of a successful command is not known to be zero")
				continue
			}
			// what the system tells
			isWait := 0
			var code *eng.Term
			for t, v := range s.FactTerms() {
				if sys != nil && t.Op == eng.OIs && t.Args[0] == sys {
					if isWait = -1; v {
						isWait = 1
					}
				}
			}
			for _, ev := range s.Events() {
				if (ev.Kind == "call" || ev.Kind == "pure") && (ev.Name == "(syscall.WaitStatus).ExitStatus" || ev.Name == "(*os.ProcessState).ExitCode") {
					code = ev.Val
					if code == nil {
						code = ev.Res
					}
				}
			}
			ec, ev := get(s, h.cmd, "ExitCode"), get(s, h.cmd, "ExitCodeValid")
			if code != nil {
				ok = ec == eng.Convert(code, types.Typ[types.Int], i32) && s.Truth(ev) == 1
			} else {
				ok = isWait != 1 && sys != nil && ec == get(h.st, h.cmd, "ExitCode") && ev == get(h.st, h.cmd, "ExitCodeValid")
			}
			c.OblSt(rule, "Finished", ok, h.f.Pos(), s, "the exit code of a failed command is not that of the process")
		}
	}
}

// lastStore is the value of a field of the command when a report was asked for; nil when nothing was stored.
func lastStore(k *command, h *handled, s *eng.State, at int, f string) *eng.Term {
	var v *eng.Term
	for i, ev := range s.Events() {
		if i < at && ev.Kind == "store" && ev.Addr == k.at(h.cmd, f) {
			v = ev.Val
		}
	}
	return v
}

// isKill reports whether a signal is the one that can not be refused.
func isKill(t *eng.Term) bool {
	t = unconv(t)
	if t == nil {
		return false
	}
	if t.Op == eng.OInit && t.Args[0].Op == eng.OGlobal && strings.HasSuffix(t.Args[0].String(), "os.Kill") {
		return true
	}
	n, ok := t.IntVal()
	return ok && n == 9
}

// ---- R07

func checkR07(c *Ctx) {
	k := c.command()
	r := k.setup()
	h := k.handle("Finished")
	files := k.get(h.st, h.cmd, "Config", "Creates")
	str := types.Typ[types.String]
	file := c.Type(mon + ".File")
	seen := map[*eng.LoopInst]bool{}
	for _, o := range h.outs {
		if o.Kind != "return" {
			c.OblSt("each", "Finished", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		s := o.St
		none := s.Same(s.LenOf(files), eng.Int(0))
		// one look at every file
		ok := none || covers(s.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if ev.Kind != "call" || ev.Name != "os.Stat" && ev.Name != "os.Lstat" || len(sc) != 1 {
				return false
			}
			seq, idx, is := elemOf(ev.Args[0])
			return is && seq == files && full(s, sc[0], files, idx)
		})
		c.OblSt("each", "Finished", ok, h.f.Pos(), s, "not every file that should have been created is looked for")
		for _, q := range k.requests(r, s.Events()) {
			c.OblSt("missing", "Finished", !k.is(s, q, h.cmd, "FileNotCreated"), q.ev.Pos, s, "a missing file is reported without looking for one")
		}
		iterations(s.Events(), func(inst *eng.LoopInst, kd *eng.IterKind) {
			if seen[inst] && kd == nil {
				return
			}
			var stat *eng.Event
			n := 0
			for _, ev := range kd.Events {
				if ev.Kind == "call" && (ev.Name == "os.Stat" || ev.Name == "os.Lstat") {
					stat = ev
					n++
				}
			}
			if n == 0 {
				return
			}
			c.OblSt("each", "Finished", n == 1, stat.Pos, kd.St, "a file is looked for %d times", n)
			q := kd.St
			name := stat.Args[0]
			err := stat.Res
			miss := 0
			for _, ev := range kd.Events {
				if ev.Kind == "call" && ev.Name == "os.IsNotExist" && ev.Args[0] == err || ev.Kind == "pure" && ev.Name == "errors.Is" && ev.Args[0] == err {
					v := ev.Val
					if v == nil {
						v = ev.Res
					}
					miss = q.Truth(v)
				}
			}
			if isNil(q, err) == 1 {
				miss = -1
			}
			qs := k.requests(r, kd.Events)
			entry := kd.St.Old()
			slot := func(f string) (was, now *eng.Term) {
				a := k.at(h.cmd, f)
				for _, sl := range inst.Slots {
					if sl.Cell == a {
						if sl.Sym != nil {
							return sl.Sym, kd.Next[sl]
						}
						return nil, kd.Next[sl]
					}
				}
				v := k.get(entry, h.cmd, f)
				return v, k.get(q, h.cmd, f)
			}
			msgs0, msgs := slot("Messages")
			cr0, cr := slot("Created")
			if c.OblSt("missing", "Finished", miss != 0, stat.Pos, q, "whether the file is missing is not asked"); miss == 1 {
				ok := len(qs) == 1 && qs[0].sure && k.is(q, qs[0], h.cmd, "FileNotCreated")
				c.OblSt("missing", "Finished", ok, stat.Pos, q, "a missing file is not reported once")
				c.OblSt("missing", "Finished", len(k.storesIn(kd.Events, h.cmd, "Success")) > 0 && q.Truth(k.get(q, h.cmd, "Success")) == -1, stat.Pos, q, "a command that did not create a file is successful")
				added := msgs != nil && msgs0 != nil && c.pointwise(q, msgs, str, from(msgs0, eng.Int(0), q.LenOf(msgs0), str), part{eng.Int(1), func(s *eng.State, i *eng.Term) *eng.Term {
					v := s.Load(s.ElemAddr(msgs, eng.Add(s.LenOf(msgs0), eng.Int(0))), str)
					if mentions(q, v, func(t *eng.Term) bool { return t == name }) {
						return v
					}
					return nil
				}})
				c.OblSt("missing", "Finished", added, stat.Pos, q, "the message does not name the missing file")
				c.OblSt("missing", "Finished", cr == cr0, stat.Pos, q, "a missing file is listed as created")
				return
			}
			c.OblSt("unknown", "Finished", len(qs) == 0 && msgs == msgs0 && len(k.storesIn(kd.Events, h.cmd, "Success")) == 0, stat.Pos, q, "a file that is not known to be missing fails the command")
			switch isNil(q, err) {
			case 1:
				ok := cr != nil && cr0 != nil && c.pointwise(q, cr, file, from(cr0, eng.Int(0), q.LenOf(cr0), file), part{eng.Int(1), func(s *eng.State, i *eng.Term) *eng.Term {
					v := s.Load(s.ElemAddr(cr, eng.Add(s.LenOf(cr0), i)), file)
					of := func(f, m string) bool {
						t := structField(v, file, f)
						return len(t.Args) == 1 && strings.HasSuffix(t.Name, "."+m) && t.Args[0] == stat.Val
					}
					if of("Time", "ModTime") && of("Size", "Size") && (of("Path", "Name") || structField(v, file, "Path") == name) {
						return v
					}
					return nil
				}})
				c.OblSt("present", "Finished", ok, stat.Pos, q, "a created file is not listed with its name, size and time")
			case -1:
				c.OblSt("unknown", "Finished", cr == cr0, stat.Pos, q, "a file that could not be looked at is listed as created")
			default:
				c.OblSt("present", "Finished", false, stat.Pos, q, "whether looking at the file failed is not asked")
			}
		})
	}
	if c.Rules["present"] == 0 {
		c.Obl("present", "Finished", false, h.f.Pos(), "no created file is ever listed")
	}
}

// storesIn lists the stores to a field of the command in a list of events.
func (k *command) storesIn(evs []*eng.Event, cmd *eng.Term, f string) []*eng.Event {
	var out []*eng.Event
	a := k.at(cmd, f)
	eachEvent(evs, func(ev *eng.Event) {
		if ev.Kind == "store" && ev.Addr == a {
			out = append(out, ev)
		}
	})
	return out
}
