package main

import (
	"go/types"
	"strings"

	"monnyverif/eng"
)

const mon = "pkg/monny"

func init() {
	register("R01", []string{"gate", "once", "snapshot", "rate", "clear", "keep", "failed", "timeout", "enough"}, checkR01)
}

// command is the view of the monitored command.
type command struct {
	c            *Ctx
	t, cfg       *types.Named
	mutex        string
	errs, report string
}

func (c *Ctx) command() *command {
	k := &command{c: c, t: c.Type(mon + ".Command"), cfg: c.Type(mon + ".Config")}
	k.mutex = c.role(k.t, "mutex", func(t types.Type) bool { return isMutex(t) })
	k.errs = c.role(k.t, "errors", func(t types.Type) bool { return named(t, "ErrorReporter") })
	k.report = c.role(k.t, "report", func(t types.Type) bool { return named(t, "ReportSender") })
	return k
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex"
}

func named(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func (k *command) get(st *eng.State, cmd *eng.Term, f ...string) *eng.Term {
	return k.c.Get(st, cmd, k.t, f...)
}

func (k *command) at(cmd *eng.Term, f ...string) *eng.Term {
	a, _ := k.c.Field(cmd, k.t, f...)
	return a
}

// reason is a constant of the protocol.
func (c *Ctx) reason(name string, t types.Type) *eng.Term {
	return eng.Const(c.Const("pkg/proto", name), t)
}

var reasons = []string{"Success", "Failure", "Alert", "AlertRate", "MemoryWarning", "TimeWarning", "FileNotCreated", "Killed", "Start"}

// holds reports whether the lock of the command is held at an event.
func (k *command) holds(ev *eng.Event, cmd *eng.Term) bool {
	m := k.at(cmd, k.mutex)
	for _, h := range ev.Locks {
		if h.Addr == m && h.Write {
			return true
		}
	}
	return false
}

// background is one call that sends a report.
type background struct {
	ev                         *eng.Event
	recv, report, result, quit *eng.Term
}

// sends lists the transmissions started by a path, itself or in goroutines it starts.
func (r *reach) backgrounds(evs []*eng.Event) []background {
	var out []background
	for _, ev := range evs {
		switch {
		case ev.Kind == "go" && ev.Go.Method != nil && ev.Go.Method.Name() == "sendBackground":
			a := ev.Go.Args
			out = append(out, background{ev, ev.Go.Iface, a[0], a[1], a[2]})
		case ev.Kind == "go" && ev.Go.Callee != nil && ev.Go.Callee.Op == eng.OBound && strings.HasSuffix(ev.Go.Callee.Name, "sendBackground"):
			a := ev.Go.Args
			out = append(out, background{ev, ev.Go.Callee.Args[0], a[0], a[1], a[2]})
		case ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".sendBackground"):
			out = append(out, background{ev, ev.Addr, ev.Args[0], ev.Args[1], ev.Args[2]})
		case ev.Kind == "loop":
			for _, k := range ev.Loop.Kinds {
				b := r.backgrounds(k.Events)
				out = append(append(out, b...), b...)
			}
		case ev.Kind == "go":
			var most []background
			for _, o := range r.outs(ev) {
				if b := r.backgrounds(o.St.Events()); len(b) > len(most) {
					most = b
				}
			}
			out = append(out, most...)
		}
	}
	return out
}

// reported lists the errors a path reports.
func reportedErrors(evs []*eng.Event, to *eng.Term) []*eng.Event {
	var out []*eng.Event
	eachEvent(evs, func(ev *eng.Event) {
		if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ErrorReporter.ReportError") && (to == nil || ev.Addr == to) {
			out = append(out, ev)
		}
	})
	return out
}

func checkR01(c *Ctx) {
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	k := c.command()
	rep := c.Type(mon + ".Report")
	f := c.Method(rep, "Send")
	rate := mon + ".calcAlertRate"
	c.opaque(rate)
	st := c.E.NewState()
	r := c.Recv(st, "report", rep)
	cmd := c.Recv(st, "cmd", k.t)
	why := c.Sym("why", f.Params[len(f.Params)-1].Type())
	snd := c.role(rep, "sender", func(t types.Type) bool { return named(t, "sender") })
	entry := st.Clone()
	sender := c.Get(entry, r, rep, snd)
	c.E.Frame = func(name string) bool { return strings.HasSuffix(name, ".sender.create") }
	outs := c.Run(f, st, r, cmd, why)
	c.E.Frame = nil
	gate := map[string]string{"Success": "NotifyOnSuccess", "Failure": "NotifyOnFailure", "Start": "Daemon"}
	for _, o := range outs {
		for _, name := range append(reasons[:len(reasons):len(reasons)], "another") {
			for _, on := range []bool{true, false} {
				s := o.St.Clone()
				what := name
				feasible := true
				if name == "another" {
					for _, n := range reasons {
						feasible = feasible && s.Assume(eng.Eq(why, c.reason(n, why.Typ)), false)
					}
				} else {
					feasible = s.Assume(eng.Eq(why, c.reason(name, why.Typ)), true)
				}
				var rates []*eng.Event
				for _, ev := range s.Events() {
					if c.callTo(ev, rate) {
						rates = append(rates, ev)
					}
				}
				want := name != "another"
				switch {
				case gate[name] != "":
					feasible = feasible && s.Assume(k.get(entry, cmd, "Config", gate[name]), on)
					want = on
				case name == "AlertRate":
					if len(rates) == 1 {
						feasible = feasible && s.Assume(rates[0].Val, on)
						want = on
					} else if feasible && on {
						c.OblSt("rate", "Report.Send", false, f.Pos(), s, "a rate alert is sent or dropped without counting the matches once")
					}
				default:
					feasible = feasible && on
				}
				if !feasible {
					continue
				}
				if o.Kind != "return" {
					c.OblSt("gate", "Report.Send "+what, false, o.Pos, s, "%s", o.Why)
					continue
				}
				rc := &reach{c: c, cache: map[*eng.Event][]eng.Outcome{}}
				bs := rc.backgrounds(s.Events())
				if name == "AlertRate" && len(rates) == 1 {
					ev := rates[0]
					ok := k.holds(ev, cmd) && isRead(s, ev.Args[0], k.at(cmd, "RuleMatches")) &&
						ev.Args[1] == k.get(entry, cmd, "Config", "RuleQuantity") && ev.Args[2] == k.get(entry, cmd, "Config", "RulePeriod")
					c.OblSt("rate", "Report.Send", ok, ev.Pos, s, "the rate is not that of the matches so far for the configured quantity and period")
				}
				if !want {
					c.OblSt("gate", "Report.Send "+what, len(bs) == 0, f.Pos(), s, "a report is sent although it should not be (%s)", what)
					c.OblSt("keep", "Report.Send "+what, len(k.writes(s, cmd, "RuleMatches")) == 0, f.Pos(), s, "matches are forgotten although no report was sent (%s)", what)
					continue
				}
				c.OblSt("gate", "Report.Send "+what, len(bs) >= 1, f.Pos(), s, "no report is sent (%s)", what)
				if !c.OblSt("once", "Report.Send "+what, len(bs) <= 1, f.Pos(), s, "more than one report is sent (%s)", what) || len(bs) != 1 {
					continue
				}
				b := bs[0]
				made := 0
				snapshot := false
				eachEvent(s.Events(), func(ev *eng.Event) {
					if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".sender.create") {
						made++
						snapshot = ev.Val == b.report && ev.Addr == sender && ev.Args[0] == cmd && s.Same(ev.Args[1], why) && k.holds(ev, cmd)
					}
				})
				c.OblSt("snapshot", "Report.Send "+what, made == 1 && snapshot && b.recv == sender, b.ev.Pos, s,
					"the report sent is not the one made of the command for this reason, under the command's lock (%s)", what)
				k.answer(s, cmd, b, what, name == "Alert" || name == "AlertRate")
			}
		}
	}
	c.E.Opaque = nil
	k.alertRate()
	// making the report leaves the command as it is
	svc := c.Type(mon + ".senderService")
	f = c.Method(svc, "create")
	st = c.E.NewState()
	cmd = c.Recv(st, "cmd", k.t)
	for _, o := range c.Run(f, st, c.Recv(st, "service", svc), cmd, why) {
		if o.Kind != "return" {
			continue
		}
		ok := true
		for _, ev := range changes(o.St) {
			ok = ok && eng.DeepRoot(ev.Addr) != cmd
		}
		c.OblSt("snapshot", "senderService.create", ok, f.Pos(), o.St, "making a report changes the command")
	}
}

// writes lists the changes of a field of the command.
func (k *command) writes(st *eng.State, cmd *eng.Term, f string) []*eng.Event {
	var out []*eng.Event
	a := k.at(cmd, f)
	for _, ev := range changes(st) {
		for x := ev.Addr; x != nil; {
			if x == a {
				out = append(out, ev)
			}
			if len(x.Args) == 0 {
				break
			}
			x = x.Args[0]
		}
	}
	return out
}

// isRead reports whether a value was loaded from an address on this path.
func isRead(st *eng.State, v, addr *eng.Term) bool {
	return anyEvent(st.Events(), func(ev *eng.Event) bool { return ev.Kind == "load" && ev.Addr == addr && ev.Val == v })
}

// answer checks what follows a transmission.
func (k *command) answer(s *eng.State, cmd *eng.Term, b background, what string, alert bool) {
	c := k.c
	var got *eng.Term
	var at *eng.Event
	after := false
	var quits, waitsFor int
	evs := s.Events()
	for _, ev := range evs {
		switch {
		case ev.Kind == "recv" && ev.Addr == b.result:
			got, at = ev.Res, ev
			if got == nil {
				got = ev.Val
			}
		case ev.Kind == "select":
			var ch *eng.Term
			if ev.Sel.Index >= 0 && !ev.Sel.States[ev.Sel.Index].Send {
				ch = ev.Sel.States[ev.Sel.Index].Ch
			}
			for _, x := range ev.Sel.States {
				if x.Ch == b.result || isTimer(evs, x.Ch) {
					waitsFor++
				}
			}
			switch {
			case ch == b.result:
				got, at = ev.Res, ev
			case ch != nil && isTimer(evs, ch):
				after, at = true, ev
			}
		case (ev.Kind == "send" || ev.Kind == "close") && ev.Addr == b.quit && at != nil:
			quits++
		}
	}
	errs := reportedErrors(evs, nil)
	own := k.get(k.c.E.NewState(), cmd, k.errs)
	one := len(errs) == 1 && errs[0].Addr == own
	writes := k.writes(s, cmd, "RuleMatches")
	switch {
	case got != nil && !after:
		for _, fail := range []bool{true, false} {
			q := s.Clone()
			if !q.Assume(eng.Eq(got, eng.Nil(nil)), !fail) {
				continue
			}
			if fail {
				c.OblSt("failed", "Report.Send "+what, one && errs[0].Args[0] == got, at.Pos, q, "the failure to send a report is not reported once (%s)", what)
				c.OblSt("keep", "Report.Send "+what, len(writes) == 0, at.Pos, q, "matches are forgotten although their report could not be sent (%s)", what)
				continue
			}
			c.OblSt("failed", "Report.Send "+what, len(errs) == 0, at.Pos, q, "an error is reported although the report was sent (%s)", what)
			if alert {
				empty := false
				good := len(writes) > 0
				seen := false
				for _, ev := range evs {
					seen = seen || ev == at
					for _, w := range writes {
						if w == ev && (!seen || !k.holds(w, cmd)) {
							good = false
						}
					}
				}
				empty = c.isEmpty(q, k.get(q, cmd, "RuleMatches"))
				c.OblSt("clear", "Report.Send "+what, good && empty, at.Pos, q, "matches are not forgotten, under the lock, once their alert was sent (%s)", what)
			} else {
				c.OblSt("keep", "Report.Send "+what, len(writes) == 0, at.Pos, q, "matches are forgotten by a report that is no alert (%s)", what)
			}
		}
	case after && got == nil:
		ok := one && quits == 1 && len(writes) == 0 && waitsFor >= 2
		c.OblSt("timeout", "Report.Send "+what, ok, at.Pos, s, "a report that could not be sent for an hour is not cancelled and reported, or its matches are forgotten (%s)", what)
	default:
		c.OblSt("failed", "Report.Send "+what, false, b.ev.Pos, s, "the result of sending a report is not waited for, for an hour at most (%s)", what)
	}
}

// isTimer reports whether a channel tells when an hour has passed.
func isTimer(evs []*eng.Event, ch *eng.Term) bool {
	hour := int64(3600 * 1000000000)
	is := func(t *eng.Term) bool {
		n, ok := t.IntVal()
		return ok && n == hour
	}
	found := false
	eachEvent(evs, func(ev *eng.Event) {
		if ev.Kind != "call" {
			return
		}
		switch {
		case ev.Name == "time.After" && ev.Val == ch && is(ev.Args[0]):
			found = true
		case ev.Name == "time.NewTimer" && is(ev.Args[0]) && ch.Op == eng.OInit && ch.Args[0].Op == eng.OFld && ch.Args[0].Args[0] == ev.Val:
			found = true
		}
	})
	return found
}

// alertRate checks that the rate is exceeded exactly when the matches in the period reach the quantity.
func (k *command) alertRate() {
	c := k.c
	f := c.Fn(mon + ".calcAlertRate")
	ms := c.Sym("matches", f.Params[0].Type())
	qty := c.Sym("quantity", f.Params[1].Type())
	per := c.Sym("period", f.Params[2].Type())
	m := c.Type(mon + ".RuleMatch")
	zero := eng.Int(0)
	for _, o := range SplitBool(c.Run(f, c.E.NewState(), ms, qty, per), 0) {
		for _, rate := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(eng.Lt(zero, per), rate) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("enough", "rate", false, o.Pos, s, "%s", o.Why)
				continue
			}
			yes := s.Truth(o.Ret[0]) == 1
			// what is counted: all matches, or those of the period
			var counts []*eng.Term
			if !rate {
				counts = []*eng.Term{s.LenOf(ms)}
			}
			for _, ev := range s.Events() {
				if ev.Kind == "loop" && complete(s.Events(), ev.Loop) {
					counts = append(counts, c.counters(s, ev.Loop, ms, func(ks *eng.State, el *eng.Term) *eng.Term {
						at := c.Get(ks, el, m, "Time")
						if !rate {
							return eng.Bool(true)
						}
						for _, n := range nows(s) {
							age := eng.Sub(eng.Nanos(n), eng.Nanos(at))
							return eng.Not(eng.Lt(per, age))
						}
						return nil
					})...)
				}
			}
			ok := false
			for _, n := range counts {
				if yes && s.Truth(eng.Lt(n, qty)) == -1 || !yes && s.Truth(eng.Lt(n, qty)) == 1 {
					ok = true
				}
			}
			c.OblSt("enough", "rate", ok, f.Pos(), s, "the answer %v is not whether the matches, those of the period if there is one, reach the quantity", o.Ret[0])
		}
	}
}

// counters are the variables that count, in a loop over all of a sequence, the elements a condition holds for.
func (c *Ctx) counters(st *eng.State, inst *eng.LoopInst, seq *eng.Term, cond func(st *eng.State, el *eng.Term) *eng.Term) []*eng.Term {
	if inst.Trav == nil || inst.Trav.Idx == nil || !full(st, inst, seq, inst.Trav.Idx) {
		return nil
	}
	var out []*eng.Term
	for _, s := range inst.Slots {
		if s.Sym == nil || s.Init == nil {
			continue
		}
		if n, ok := s.Init.IntVal(); !ok || n != 0 {
			continue
		}
		good := len(inst.Kinds) > 0
		for _, k := range inst.Kinds {
			q := cond(k.St, k.St.ElemAddr(seq, inst.Trav.Idx))
			if q == nil {
				good = false
				break
			}
			switch {
			case k.Next[s] == s.Sym:
				good = good && k.St.Truth(q) == -1
			case k.Next[s] == eng.Add(s.Sym, eng.Int(1)):
				good = good && k.St.Truth(q) == 1
			default:
				good = false
			}
		}
		if good {
			out = append(out, s.Sym)
		}
	}
	return out
}
