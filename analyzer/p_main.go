package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R16", []string{"parsed", "refused", "run", "reports", "status", "told"}, checkR16)
}

// prints reports whether an event writes something that holds a value to the user.
func (c *Ctx) prints(st *eng.State, ev *eng.Event, v func(*eng.Term) bool) bool {
	if ev.Kind != "call" && ev.Kind != "exit" {
		return false
	}
	switch {
	case strings.HasPrefix(ev.Name, "fmt.Print"), strings.HasPrefix(ev.Name, "fmt.Fprint"), strings.HasPrefix(ev.Name, "log.Print"), strings.HasPrefix(ev.Name, "log.Fatal"), strings.HasPrefix(ev.Name, "log.Panic"),
		strings.HasPrefix(ev.Name, "print"), strings.HasPrefix(ev.Name, "io.WriteString"), strings.Contains(ev.Name, "os.File).Write"), strings.HasPrefix(ev.Name, "(*log.Logger)."):
	default:
		return false
	}
	if ev.Var != nil && mentions(st, ev.Var, v) {
		return true
	}
	for _, a := range ev.Args {
		if mentions(st, a, v) {
			return true
		}
	}
	return false
}

func checkR16(c *Ctx) {
	c.E.NoMerge = true
	c.E.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() != "main" }
	p := c.P.By["cmd/monny"]
	if p == nil || p.Func("main") == nil {
		c.Violate("anchor", "main", 0, nil, "there is no program cmd/monny")
		return
	}
	f := p.Func("main")
	reached := map[string]int{}
	for _, o := range c.Run(f, c.E.NewState()) {
		if o.Kind != "exit" && o.Kind != "return" {
			c.OblSt("status", "main", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		calls := map[string][]*eng.Event{}
		at := map[*eng.Event]int{}
		code := eng.Int(0)
		for i, ev := range o.St.Events() {
			at[ev] = i
			switch {
			case ev.Kind == "exit" && strings.HasPrefix(ev.Name, "log."):
				code = eng.Int(1)
			case ev.Kind == "exit" && len(ev.Args) > 0:
				code = ev.Args[0]
			case ev.Kind == "call":
				for _, n := range []string{mon + ".ParseCommandLine", mon + ".New", mon + ".Command.Exec", mon + ".Command.Wait"} {
					if c.callTo(ev, n) {
						calls[n[len(mon)+1:]] = append(calls[n[len(mon)+1:]], ev)
					}
				}
			}
		}
		inLoop := false
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if _, top := at[ev]; !top && ev.Kind == "call" && strings.Contains(ev.Name, "/pkg/monny") {
				inLoop = true
			}
		})
		parse, made, exec, wait := calls["ParseCommandLine"], calls["New"], calls["Command.Exec"], calls["Command.Wait"]
		if !c.OblSt("parsed", "main", !inLoop && len(parse) == 1 && len(parse[0].Rs) == 3, o.Pos, o.St, "the command line is not parsed once") {
			continue
		}
		status := func(failed bool, why string) {
			zero := o.St.Same(code, eng.Int(0))
			n, known := code.IntVal()
			c.OblSt("status", "main", failed && known && n != 0 && n&0xff == n || !failed && zero, o.Pos, o.St, "exits with %v though %s", code, why)
		}
		said := func(v ...*eng.Term) bool {
			for _, ev := range o.St.Events() {
				if c.prints(o.St, ev, func(t *eng.Term) bool {
					for _, x := range v {
						if t == x {
							return true
						}
					}
					return false
				}) {
					return true
				}
			}
			return false
		}
		perr := parse[0].Res
		if isNil(o.St, perr) != 1 {
			reached["parse"]++
			is := has(o.St, true, func(t *eng.Term) bool { return t.Op == eng.OCall && t.Name == "errors.Is" && t.Args[0] == perr })
			c.OblSt("refused", "main", len(made)+len(exec)+len(wait) == 0 && (is || isNil(o.St, perr) == -1), o.Pos, o.St, "goes on after a command line that can not be parsed")
			help := is ||
				has(o.St, true, func(t *eng.Term) bool {
					return t.Op == eng.OEq && eng.Has(t, perr) && t.Args[0].Op != eng.ONil && t.Args[1].Op != eng.ONil
				})
			if !help {
				status(true, "the command line could not be parsed")
			}
			c.OblSt("told", "main", help || said(perr), o.Pos, o.St, "does not say why the command line could not be parsed")
			continue
		}
		// the configuration
		ok := len(made) == 1 && at[made[0]] > at[parse[0]] && len(made[0].Args) == 2 && made[0].Args[0] == parse[0].Rs[0] && made[0].Args[1] == parse[0].Rs[1]
		if !c.OblSt("parsed", "main", ok, o.Pos, o.St, "the command is not made once of the user's command and the options of the command line") {
			continue
		}
		errs := made[0].Res
		n := o.St.LenOf(errs)
		none := o.St.Same(n, eng.Int(0)) || isNil(o.St, errs) == 1 || o.St.EntailLe(n, eng.Int(0))
		if !none {
			reached["config"]++
			c.OblSt("refused", "main", len(exec)+len(wait) == 0 && o.St.EntailLt(eng.Int(0), n), o.Pos, o.St, "goes on after options with errors")
			status(true, "options had errors")
			whole := func(t *eng.Term) bool {
				for t != nil && t.Op == eng.OIface {
					t = t.Args[0]
				}
				return t == errs
			}
			all := anyEvent(o.St.Events(), func(ev *eng.Event) bool {
				if !c.prints(o.St, ev, func(*eng.Term) bool { return true }) {
					return false
				}
				args := ev.Args
				if ev.Var != nil {
					args = append(append([]*eng.Term{}, args...), ev.Var.Args...)
				}
				for _, a := range args {
					if whole(a) {
						return true
					}
				}
				return false
			}) || covers(o.St.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
				if len(sc) == 0 {
					return false
				}
				inst := sc[len(sc)-1]
				return inst.Trav != nil && inst.Trav.Idx != nil && full(o.St, inst, errs, inst.Trav.Idx) && len(inst.Kinds) > 0 && c.prints(inst.Kinds[0].St, ev, func(t *eng.Term) bool {
					s, i, ok := elemOf(t)
					return ok && s == errs && i == inst.Trav.Idx || t == inst.Kinds[0].St.Load(inst.Kinds[0].St.ElemAddr(errs, inst.Trav.Idx), elemType(errs))
				})
			})
			c.OblSt("told", "main", all, o.Pos, o.St, "does not say every error of the options")
			continue
		}
		// the run
		ok = len(exec) == 1 && at[exec[0]] > at[made[0]] && exec[0].Args[0] == made[0].Val
		if !c.OblSt("run", "main", ok, o.Pos, o.St, "the command made is not run once") {
			continue
		}
		ok = len(wait) > 0
		for _, w := range wait {
			ok = ok && at[w] > at[exec[0]] && w.Args[0] == made[0].Val
		}
		if !c.OblSt("reports", "main", ok, o.Pos, o.St, "ends without waiting for the reports of the run") {
			continue
		}
		failed := false
		for _, x := range []struct {
			ev   *eng.Event
			what string
		}{{exec[0], "the run failed"}, {wait[0], "reports were not sent"}} {
			switch isNil(o.St, x.ev.Res) {
			case -1:
				failed = true
				reached[x.what]++
				c.OblSt("told", "main", said(x.ev.Res), o.Pos, o.St, "does not say why %s", x.what)
			case 0:
				c.OblSt("status", "main", o.St.Same(code, eng.Int(0)) == false, o.Pos, o.St, "ends with success on a path that does not look whether %s", x.what)
			}
		}
		if failed {
			status(true, "the run or its reports failed")
		} else {
			if isNil(o.St, exec[0].Res) == 1 && isNil(o.St, wait[0].Res) == 1 {
				reached["ok"]++
				status(false, "nothing failed")
			}
		}
	}
	for k, rule := range map[string]string{"parse": "refused", "config": "refused", "the run failed": "run", "reports were not sent": "reports", "ok": "run"} {
		c.Obl(rule, "main", reached[k] > 0, f.Pos(), "no path for: %s", k)
	}
}

func elemType(seq *eng.Term) types.Type { return seq.Typ.Underlying().(*types.Slice).Elem() }
