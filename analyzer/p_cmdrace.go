package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R08", []string{"excluded", "lock-paired", "lock-released", "kept"}, checkR08)
}

// ---- R08

func checkR08(c *Ctx) {
	k := c.command()
	c.E.NoMerge = true
	c.bindAll()
	// the reports are sent by goroutines of their own: one thread stands for all of them
	bind := c.E.Bind
	c.E.Bind = func(st *eng.State, recv *eng.Term, m *types.Func) *ssa.Function {
		f := bind(st, recv, m)
		if f != nil && m.Name() == "Send" {
			return nil
		}
		return f
	}
	con := c.newConc("Command")
	st := c.E.NewState()
	cmd := c.Recv(st, "cmd", k.t)
	con.entry("Exec", c.Method(k.t, "Exec"), false, aliasMap{cmd: "command"}, st, cmd)
	st = c.E.NewState()
	con.entry("Wait", c.Method(k.t, "Wait"), false, aliasMap{cmd: "command"}, st, c.Recv(st, "cmd", k.t)).later = true
	rt := c.Type(mon + ".Report")
	st = c.E.NewState()
	report := c.Recv(st, "sent", rt)
	send := c.Method(rt, "Send")
	con.entry("Send", send, true, aliasMap{cmd: "command", report: "command.report*"}, st, report, c.Recv(st, "cmd", k.t), c.Sym("why", send.Params[2].Type())).later = true
	con.races("excluded", nil)
	con.locking("lock")
	// a report holds lists of the command itself
	cmd = c.Recv(st, "cmd", k.t)
	lists := map[*eng.Term]bool{}
	for _, t := range con.threads {
		for _, o := range t.outs {
			eachEvent(o.St.Events(), func(ev *eng.Event) {
				if ev.Kind != "store" || ev.Addr.Op != eng.OFld || !typeIs("*pb.Report")(ev.Addr.Typ) {
					return
				}
				switch v := ev.Val; {
				case v.Op != eng.OInit || eng.Root(v.Args[0]) != cmd:
				default:
					switch v.Typ.Underlying().(type) {
					case *types.Slice, *types.Map, *types.Pointer:
						lists[v.Args[0]] = true
						c.OblSt("kept", "report", true, ev.Pos, o.St, "")
					}
				}
			})
		}
	}
	for _, t := range con.threads {
		name := strings.TrimSpace(t.name)
		for _, o := range t.outs {
			inStates(o.St, func(st *eng.State, ev *eng.Event) {
				switch ev.Kind {
				case "store":
					if q, _, ok := baseElem(ev.Addr); ok {
						c.OblSt("kept", name, !c.ofList(q, lists), ev.Pos, st, "a list that reports hold is changed in place")
					}
				case "copy":
					c.OblSt("kept", name, !c.ofList(ev.Args[0], lists), ev.Pos, st, "a list that reports hold is changed in place")
				case "append":
					b := ev.Args[0]
					if c.ofList(b, lists) {
						all := b.Op != eng.OSlice || len(b.Args) < 3 || b.Args[2] == nil || st.EntailLe(st.LenOf(b.Args[0]), b.Args[2])
						c.OblSt("kept", name, all, ev.Pos, st, "a list that reports hold is overwritten behind the part that is kept")
					}
				}
			})
		}
	}
}

// ofList reports whether a slice shares the memory of a list.
func (c *Ctx) ofList(q *eng.Term, lists map[*eng.Term]bool) bool {
	for q != nil {
		switch q.Op {
		case eng.OSlice, eng.OAppend:
			q = q.Args[0]
		case eng.OInit:
			return lists[q.Args[0]]
		default:
			inst := c.E.LoopVars[q]
			if inst == nil {
				return false
			}
			var of *eng.Slot
			for _, s := range inst.Slots {
				if s.Sym == q {
					of = s
				}
			}
			switch {
			case of == nil:
				return false
			case of.Cell != nil:
				return lists[of.Cell]
			}
			q = of.Init
		}
	}
	return false
}

// inStates visits the events of a path with the states they belong to.
func inStates(st *eng.State, f func(st *eng.State, ev *eng.Event)) {
	seen := map[*eng.LoopInst]bool{}
	var rec func(st *eng.State, evs []*eng.Event)
	rec = func(st *eng.State, evs []*eng.Event) {
		for _, ev := range evs {
			f(st, ev)
			if ev.Kind == "loop" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, kd := range ev.Loop.Kinds {
					rec(kd.St, kd.Events)
				}
				seen[ev.Loop] = false
			}
		}
	}
	rec(st, st.Events())
}
