package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R04", []string{"suppressed", "reported", "only", "stays-off", "off", "private"}, checkR04)
	register("R05", []string{"tls", "verified", "address", "acknowledged", "closed", "answered", "report"}, checkR05)
}

const rollbar = "github.com/stvp/rollbar."

// uses lists the places a function or variable of a package is used at.
func (c *Ctx) uses(match func(v ssa.Value) bool, f func(fn *ssa.Function, in ssa.Instruction, call bool)) {
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
					if match(callee) {
						f(fn, in, true)
					}
				}
				n := 0
				for _, op := range in.Operands(nil) {
					if *op != nil && match(*op) {
						n++
					}
				}
				if callee != nil && match(callee) {
					n--
				}
				if n > 0 {
					f(fn, in, false)
				}
			}
		}
	}
}

// telemetry reports whether a function sends something to the error collecting service.
func telemetry(v ssa.Value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), strings.TrimSuffix(rollbar, ".")) && f.Signature.Recv() == nil && f.Name() != "init" && f.Name() != "Wait" && f.Name() != "BuildStack"
}

func checkR04(c *Ctx) {
	k := c.command()
	c.E.NoMerge = true
	t := c.Type(mon + ".errorService")
	f := c.ValueMethod(t, "ReportError")
	var off *ssa.Global
	for _, p := range c.P.By {
		if v := p.Var("SuppressErrorReporting"); v != nil && p.Pkg.Path() == modPath+"/"+mon {
			off = v
		}
	}
	c.Obl("off", "switch", off != nil, f.Pos(), "there is no switch for error reports")
	if off == nil {
		return
	}
	st := c.E.NewState()
	err := c.Sym("err", f.Params[len(f.Params)-1].Type())
	var args []*eng.Term
	for _, p := range f.Params[:len(f.Params)-1] {
		args = append(args, c.Sym(p.Name(), p.Type()))
	}
	sends := func(s *eng.State) []*eng.Event {
		var out []*eng.Event
		eachEvent(s.Events(), func(ev *eng.Event) {
			if (ev.Kind == "call" || ev.Kind == "pure" || ev.Kind == "go") && strings.HasPrefix(ev.Name, rollbar) && !strings.HasSuffix(ev.Name, ".Wait") {
				out = append(out, ev)
			}
			if ev.Kind == "go" && ev.Go.Callee != nil && ev.Go.Callee.Op == eng.OFunc && telemetry(ev.Go.Callee.Fn) {
				out = append(out, ev)
			}
		})
		return out
	}
	within := map[*ssa.Function]bool{f: true}
	cell := eng.Global(off)
	for _, o := range c.Run(f, st.Clone(), append(args, err)...) {
		for _, supp := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(st.Load(cell, types.Typ[types.Bool]), supp) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("reported", "ReportError", false, o.Pos, s, "%s", o.Why)
				continue
			}
			es := sends(s)
			for _, ev := range es {
				within[ev.Fn] = true
			}
			if supp {
				c.OblSt("suppressed", "ReportError", len(es) == 0, f.Pos(), s, "an error is sent although error reports are off")
				continue
			}
			ok := len(es) == 1 && mentionsArg(es[0], err)
			c.OblSt("reported", "ReportError", ok, f.Pos(), s, "the error is not sent once")
		}
	}
	// no other place sends errors
	c.uses(telemetry, func(fn *ssa.Function, in ssa.Instruction, call bool) {
		c.Obl("only", eng.FuncName(fn), call && within[fn], in.Pos(), "sends to the error service without asking whether that is off")
	})
	for fn := range within {
		if fn == f {
			continue
		}
		c.uses(func(v ssa.Value) bool { return v == ssa.Value(fn) }, func(by *ssa.Function, in ssa.Instruction, call bool) {
			c.Obl("only", eng.FuncName(by), call && within[by], in.Pos(), "sends to the error service without asking whether that is off")
		})
	}
	// nothing turns error reports on again
	c.uses(func(v ssa.Value) bool { return v == ssa.Value(off) }, func(fn *ssa.Function, in ssa.Instruction, call bool) {
		ok := false
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
			ok = true
		case *ssa.Store:
			v, is := x.Val.(*ssa.Const)
			ok = is && x.Addr == ssa.Value(off) && v.Value != nil && v.Value.ExactString() == "true"
		}
		c.Obl("stays-off", eng.FuncName(fn), ok, in.Pos(), "error reports can be turned on again")
	})
	for _, o := range c.option("NoErrorReports", nil) {
		ok := o.Kind == "return" && o.St.Truth(o.St.Load(cell, types.Typ[types.Bool])) == 1 && isNil(o.St, o.Ret[0]) == 1
		c.OblSt("off", "NoErrorReports", ok, f.Pos(), o.St, "the option does not turn error reports off")
	}
	k.private()
}

func mentionsArg(ev *eng.Event, t *eng.Term) bool {
	args := ev.Args
	if ev.Go != nil {
		args = ev.Go.Args
	}
	for _, a := range args {
		if a == t {
			return true
		}
	}
	return false
}

// option applies an option of the configuration to an arbitrary configuration.
func (c *Ctx) option(name string, args []*eng.Term) []eng.Outcome {
	outs, _, _ := c.optionOn(name, args)
	return outs
}

func (c *Ctx) optionOn(name string, args []*eng.Term) (outs []eng.Outcome, st *eng.State, cfg *eng.Term) {
	f := c.Fn(mon + "." + name)
	t := c.Type(mon + ".Config")
	start := c.E.NewState()
	cfg = c.Recv(start, "cfg", t)
	for _, o := range c.Run(f, start.Clone(), args...) {
		if o.Kind != "return" {
			outs = append(outs, o)
			continue
		}
		for _, p := range c.RunVal(o.Ret[0], o.St, cfg) {
			outs = append(outs, p)
		}
	}
	return outs, start, cfg
}

// private checks that errors sent away do not contain what belongs to the user.
func (k *command) private() {
	c := k.c
	r := k.setup()
	secret := map[string]bool{}
	ct := k.t.Underlying().(*types.Struct)
	for _, n := range []string{"Stdout", "Stderr", "UserCommand", "Config", "RuleMatches", "Messages", "Created"} {
		for i := 0; i < ct.NumFields(); i++ {
			if ct.Field(i).Name() == n {
				secret[fieldKey(k.t, i)] = true
			}
		}
	}
	whole := map[string]bool{}
	for _, n := range []*types.Named{k.t, k.cfg, c.Type(mon + ".RuleMatch"), c.Type(mon + ".File"), c.Type("pkg/pb.Report")} {
		whole[n.String()] = true
	}
	private := func(t types.Type) bool {
		for t != nil {
			if whole[t.String()] {
				return true
			}
			switch u := t.(type) {
			case *types.Pointer:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return false
			}
		}
		return false
	}
	leaks := func(s *eng.State, t *eng.Term) string {
		what := ""
		mentions(s, t, func(x *eng.Term) bool {
			if x.Op == eng.OIface && private(x.Typ) || x.Op == eng.OFld && private(x.Typ) && !named(x.Typ.Underlying().(*types.Pointer).Elem(), "Command") {
				what = "what a command was configured with, wrote or was called with"
			}
			if x.Op == eng.OFld && secret[fieldKey(x.Typ, x.N)] {
				what = "what a command was configured with, wrote or was called with"
			}
			if x.Op == eng.ORes && (strings.HasPrefix(x.Name, "(*bufio.Scanner).Bytes") || strings.HasPrefix(x.Name, "(*bufio.Scanner).Text")) {
				what = "a line of output"
			}
			return what != ""
		})
		return what
	}
	n := 0
	check := func(name string, outs []eng.Outcome) {
		for _, o := range outs {
			states := []*eng.State{o.St}
			iterations(o.St.Events(), func(_ *eng.LoopInst, kd *eng.IterKind) { states = append(states, kd.St) })
			evs := [][]*eng.Event{o.St.Events()}
			iterations(o.St.Events(), func(_ *eng.LoopInst, kd *eng.IterKind) { evs = append(evs, kd.Events) })
			for i, s := range states {
				for _, ev := range evs[i] {
					if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ErrorReporter.ReportError") {
						n++
						what := leaks(s, ev.Args[0])
						c.OblSt("private", name, what == "", ev.Pos, s, "an error report contains %s", what)
					}
				}
			}
		}
	}
	x := k.exec()
	check("Command.Exec", x.outs)
	for _, g := range x.gos {
		check(x.name(g), r.outs(g))
	}
	rep := c.Type(mon + ".Report")
	st := c.E.NewState()
	f := c.Method(rep, "Send")
	rr, cmd := c.Recv(st, "report", rep), c.Recv(st, "cmd", k.t)
	c.E.Frame = func(name string) bool { return strings.HasSuffix(name, ".sender.create") }
	outs := c.Run(f, st, rr, cmd, c.Sym("why", f.Params[len(f.Params)-1].Type()))
	c.E.Frame = nil
	check("Report.Send", outs)
	svc := c.Type(mon + ".senderService")
	f = c.Method(svc, "create")
	st = c.E.NewState()
	check("senderService.create", c.Run(f, st, c.Recv(st, "service", svc), c.Recv(st, "cmd", k.t), c.Sym("why", f.Params[2].Type())))
	for _, m := range []string{"Finished", "Signal", "Timeout", "TimeWarning", "CheckMemory", "KillOnHighMemory"} {
		h := k.handle(m)
		check(m, h.outs)
	}
	c.Obl("private", "errors", n > 0, f.Pos(), "no error is ever reported")
}

// ---- R05

func checkR05(c *Ctx) {
	k := c.command()
	c.E.NoMerge = true
	svc := c.Type(mon + ".senderService")
	optsField := c.role(svc, "opts", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && strings.HasSuffix(s.Elem().String(), "grpc.DialOption")
	})
	const grpc = "google.golang.org/grpc."
	// how to connect
	f := c.Method(svc, "create")
	st := c.E.NewState()
	cmd := c.Recv(st, "cmd", k.t)
	recv := c.Recv(st, "service", svc)
	cfgTLS := k.get(st, cmd, "Config", c.tlsField(k))
	c.opaque(mon + ".reportFromCommand")
	isReport := mon + ".reportFromCommand"
	c.E.Frame = func(name string) bool { return name == eng.FuncName(c.Fn(isReport)) }
	for _, o := range c.Run(f, st.Clone(), recv, cmd, c.Sym("why", f.Params[2].Type())) {
		for _, tls := range []bool{true, false} {
			s := o.St.Clone()
			if !s.Assume(cfgTLS, tls) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("tls", "senderService.create", false, o.Pos, s, "%s", o.Why)
				continue
			}
			var made *eng.Event
			for _, ev := range s.Events() {
				if c.callTo(ev, isReport) && ev.Args[0] == cmd {
					made = ev
				}
			}
			c.OblSt("report", "senderService.create", made != nil && o.Ret[0] == made.Val, f.Pos(), s, "the report returned is not made of the command")
			opts := c.Get(s, recv, svc, optsField)
			es, known := s.Elems(opts, opts.Typ.Underlying().(*types.Slice).Elem())
			secure, plain := 0, 0
			for _, e := range es {
				switch src := unconv(e); {
				case strings.HasPrefix(src.Name, grpc+"WithTransportCredentials"):
					if c.secureCreds(s, src) {
						secure++
					} else {
						plain++
					}
				case strings.HasPrefix(src.Name, grpc+"WithInsecure"):
					plain++
				}
			}
			ok := known && (tls && secure == 1 && plain == 0 || !tls && secure == 0 && plain == 1)
			c.OblSt("tls", "senderService.create", ok, f.Pos(), s, "a connection is encrypted exactly when the configuration asks for it: no (encrypted=%v)", tls)
		}
	}
	c.E.Frame = nil
	c.opaque("pkg/pb.NewReportsClient")
	c.E.Stable = c.stable()
	c.uses(func(v ssa.Value) bool { fa, ok := v.(*ssa.FieldAddr); return ok && weakens(fa) }, func(fn *ssa.Function, in ssa.Instruction, call bool) {
		ok := false
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
			ok = true
		case *ssa.Store:
			v, is := x.Val.(*ssa.Const)
			ok = is && (v.Value == nil || v.Value.ExactString() == "false" || v.Value.ExactString() == `""`)
			// the name that is verified may be that of the host
			if ld, isLoad := x.Val.(*ssa.UnOp); isLoad {
				if at, isField := ld.X.(*ssa.FieldAddr); isField {
					ok = ok || strings.EqualFold(fieldOf(at), "host")
				}
			}
		}
		c.Obl("verified", eng.FuncName(fn), ok, in.Pos(), "the server's certificate is not verified")
	})
	c.uses(func(v ssa.Value) bool { g, ok := v.(*ssa.Function); return ok && g.String() == grpc+"WithInsecure" }, func(fn *ssa.Function, in ssa.Instruction, call bool) {
		c.Obl("verified", eng.FuncName(fn), fn == f || reaches(f, fn, 0), in.Pos(), "a connection is made without encryption elsewhere")
	})
	// transmission
	f = c.Method(svc, "sendBackground")
	st = c.E.NewState()
	recv = c.Recv(st, "service", svc)
	rep, res, quit := c.Sym("rpt", f.Params[1].Type()), c.Sym("result", f.Params[2].Type()), c.Sym("cancel", f.Params[3].Type())
	st.MarkNonNil(res)
	st.MarkNonNil(quit)
	done := 0
	for _, o := range c.Run(f, st.Clone(), recv, rep, res, quit) {
		if o.Kind != "return" {
			c.OblSt("answered", "sendBackground", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		s := o.St
		var answers []*eng.Term
		cancelled := false
		var retry *eng.Event
		tries := 0
		eachEvent(s.Events(), func(ev *eng.Event) {
			switch {
			case ev.Kind == "send" && ev.Addr == res:
				answers = append(answers, ev.Val)
			case ev.Kind == "select" && ev.Sel.Index >= 0:
				x := ev.Sel.States[ev.Sel.Index]
				if x.Send && x.Ch == res {
					answers = append(answers, x.Val)
				}
				if !x.Send && x.Ch == quit {
					cancelled = true
				}
			case ev.Kind == "recv" && ev.Addr == quit:
				cancelled = true
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "github.com/cenkalti/backoff.Retry"):
				retry = ev
				tries++
			}
		})
		if isNil(s, rep) == 1 {
			ok := len(answers) == 1 && isNil(s, answers[0]) == -1 && tries == 0
			c.OblSt("answered", "sendBackground", ok, f.Pos(), s, "a report that could not be made is taken for sent")
			continue
		}
		if !c.OblSt("answered", "sendBackground", tries == 1 && (len(answers) == 1 && answers[0] == retry.Val || len(answers) == 0 && cancelled), f.Pos(), s,
			"the result of the transmission is not answered once") {
			continue
		}
		done++
		c.attempt(svc, retry, s, recv, rep, optsField)
	}
	c.Obl("answered", "sendBackground", done > 0, f.Pos(), "no report is ever sent")
	// a new command sends to the server it was configured with
	k.made(func(s *eng.State, cmd *eng.Term) {
		f := c.Fn(mon + ".New")
		rt := c.Type(mon + ".Report")
		report := unconv(k.get(s, cmd, k.report))
		ok := report != nil && pointsTo(report, rt)
		if ok {
			snd := unconv(c.Get(s, report, rt, c.role(rt, "sender", func(t types.Type) bool { return named(t, "sender") })))
			ok = snd != nil && pointsTo(snd, svc) && c.Get(s, snd, svc, "host") == k.get(s, cmd, "Config", "host") && c.Get(s, snd, svc, "port") == k.get(s, cmd, "Config", "port")
		}
		c.OblSt("address", "New", ok, f.Pos(), s, "the reports of a new command do not go to the server it was configured with")
	})
}

// made visits the commands New can return.
func (k *command) made(f func(s *eng.State, cmd *eng.Term)) {
	c := k.c
	fn := c.Fn(mon + ".New")
	n := 0
	for _, o := range c.Run(fn, c.E.NewState(), c.params(fn, 0)...) {
		if o.Kind == "return" && o.Ret[0].Op != eng.ONil {
			n++
			f(o.St, o.Ret[0])
		}
	}
	if n == 0 {
		panic(abort{"New never returns a command"})
	}
}

func pointsTo(t *eng.Term, n types.Type) bool {
	if t.Typ == nil {
		return false
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

// tlsField is the switch for encryption in the configuration.
func (c *Ctx) tlsField(k *command) string {
	for i, st := 0, k.cfg.Underlying().(*types.Struct); i < st.NumFields(); i++ {
		if n := st.Field(i).Name(); strings.Contains(strings.ToLower(n), "tls") {
			return n
		}
	}
	panic(abort{"no switch for encryption"})
}

func weakens(fa *ssa.FieldAddr) bool {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || p.Elem().String() != "crypto/tls.Config" {
		return false
	}
	switch fieldOf(fa) {
	case "InsecureSkipVerify", "RootCAs", "ServerName", "Time":
		return true
	}
	return false
}

func fieldOf(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// reaches reports whether a function is called by another, directly or not.
func reaches(from, to *ssa.Function, d int) bool {
	if d > 6 {
		return false
	}
	for _, b := range from.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				var g *ssa.Function
				switch x := (*op).(type) {
				case *ssa.Function:
					g = x
				case *ssa.MakeClosure:
					g = x.Fn.(*ssa.Function)
				}
				if g != nil && (g == to || reaches(g, to, d+1)) {
					return true
				}
			}
		}
	}
	return false
}

// secureCreds reports whether credentials encrypt the connection.
func (c *Ctx) secureCreds(s *eng.State, opt *eng.Term) bool {
	return mentions(s, opt, func(t *eng.Term) bool {
		return strings.HasPrefix(t.Name, "google.golang.org/grpc/credentials.NewTLS") || strings.HasPrefix(t.Name, "google.golang.org/grpc/credentials.NewClientTLSFromCert")
	})
}

// attempt checks one try to send a report.
func (c *Ctx) attempt(svc *types.Named, retry *eng.Event, s *eng.State, recv, rep *eng.Term, optsField string) {
	fn := retry.Args[0]
	for _, o := range c.RunVal(fn, s.Fork()) {
		if o.Kind != "return" {
			c.OblSt("acknowledged", "attempt", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		q := o.St
		var dial, create, clos, client *eng.Event
		n := 0
		for _, ev := range q.Events() {
			switch {
			case ev.Kind == "call" && (ev.Name == "google.golang.org/grpc.Dial" || ev.Name == "google.golang.org/grpc.DialContext" || ev.Name == "google.golang.org/grpc.NewClient"):
				dial = ev
			case c.callTo(ev, "pkg/pb.NewReportsClient"):
				client = ev
			case ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ReportsClient.Create"):
				create = ev
				n++
			case ev.Kind == "call" && ev.Name == "(*google.golang.org/grpc.ClientConn).Close" && dial != nil && ev.Args[0] == dial.Val && clos == nil:
				clos = ev
			}
		}
		for _, w := range SplitNil([]eng.Outcome{o}, 0) {
			q := w.St
			good := isNil(q, w.Ret[0]) == 1
			if dial == nil {
				c.OblSt("acknowledged", "attempt", !good, retry.Pos, q, "a report is taken for sent without a connection")
				continue
			}
			at := dial.Args[len(dial.Args)-2]
			host, port := c.Get(s, recv, svc, "host"), c.Get(s, recv, svc, "port")
			ok := len(at.Args) > 0 && at.Args[0] == host && at.Args[len(at.Args)-1] == port && (len(at.Args) == 2 && at.Name == "net.JoinHostPort" || len(at.Args) == 3 && isStr(at.Args[1], ":"))
			c.OblSt("address", "attempt", ok, dial.Pos, q, "the connection is not to the configured server but to %v", at)
			opts := dial.Args[len(dial.Args)-1]
			ok = isRead(s, opts, c.at(recv, svc, optsField)) || opts == c.Get(s, recv, svc, optsField)
			c.OblSt("tls", "attempt", ok, dial.Pos, q, "the connection is not made as the report's configuration asks")
			if isNil(q, dial.Res) == -1 {
				c.OblSt("acknowledged", "attempt", !good, dial.Pos, q, "a report is taken for sent although the connection failed")
				continue
			}
			c.OblSt("closed", "attempt", clos != nil, dial.Pos, q, "the connection stays open")
			c.OblSt("closed", "attempt", clos == nil || create == nil || clos.Seq > create.Seq, dial.Pos, q, "the connection is closed before the report was sent")
			if !good {
				// every failure has a reason
				ok = create == nil || isNil(q, create.Res) == -1 || q.Truth(c.ack(q, create)) == -1
				c.OblSt("acknowledged", "attempt", ok, dial.Pos, q, "a report that was acknowledged is sent again")
				continue
			}
			ok = n == 1 && client != nil && unconv(client.Args[0]) == dial.Val && create.Addr == client.Val && create.Args[1] == rep && isNil(q, create.Res) == 1 && q.Truth(c.ack(q, create)) == 1
			c.OblSt("acknowledged", "attempt", ok, dial.Pos, q, "a report is taken for sent without the server acknowledging it")
		}
	}
}

// ack is whether the answer of the server acknowledges a report.
func (c *Ctx) ack(q *eng.State, create *eng.Event) *eng.Term {
	t := create.Val
	return c.Get(q, t, t.Typ.Underlying().(*types.Pointer).Elem(), "Success")
}

func (c *Ctx) at(base *eng.Term, t types.Type, f ...string) *eng.Term {
	a, _ := c.Field(base, t, f...)
	return a
}
