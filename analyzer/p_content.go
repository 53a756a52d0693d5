package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"monnyverif/eng"
)

func init() {
	register("R13", []string{"content", "complete", "encoded", "errors", "codes", "name"}, checkR13)
}

// told is what a field of a report says.
type told struct {
	field string   // of the report
	of    []string // of the command, nil for what is not recorded there
	how   string   // "", "unix", "text", "joined", "json", "reason", "now"
}

// contents lists what each field of a report says, by the names both sides of the protocol use.
var contents = []told{
	{field: "Id", of: []string{"Config", "ID"}},
	{field: "Hostname", of: []string{"Config", "Hostname"}},
	{field: "Stdout", of: []string{"Stdout"}},
	{field: "Stderr", of: []string{"Stderr"}},
	{field: "Success", of: []string{"Success"}},
	{field: "MaxMemory", of: []string{"MaxMemory"}},
	{field: "Killed", of: []string{"Killed"}},
	{field: "KillReason", of: []string{"KillReason"}},
	{field: "Created", of: []string{"Created"}, how: "json"},
	{field: "ReportReason", how: "reason"},
	{field: "Start", of: []string{"Start"}, how: "unix"},
	{field: "Finish", of: []string{"Finish"}, how: "unix"},
	{field: "Duration", of: []string{"Duration"}, how: "text"},
	{field: "ExitCode", of: []string{"ExitCode"}},
	{field: "ExitCodeValid", of: []string{"ExitCodeValid"}},
	{field: "Messages", of: []string{"Messages"}},
	{field: "Matches", of: []string{"RuleMatches"}, how: "json"},
	{field: "UserCommand", of: []string{"UserCommand"}, how: "joined"},
	{field: "Config", of: []string{"Config"}, how: "json"},
	{field: "CreatedAt", how: "now"},
}

func checkR13(c *Ctx) {
	c.E.NoMerge = true
	c.E.Stable = c.stable()
	k := c.command()
	rt := c.Type("pkg/pb.Report")
	// the function that makes a report of a command
	f := c.Fn(mon + ".reportFromCommand")
	st := c.E.NewState()
	cmd := c.Recv(st, "cmd", k.t)
	why := c.Sym("why", f.Params[1].Type())
	onError := c.Sym("onError", f.Params[2].Type())
	for _, o := range c.Run(f, st.Clone(), cmd, why, onError) {
		c.says("reportFromCommand", k, rt, o, st, cmd, why, func(ev *eng.Event) *eng.Term {
			if ev.Kind == "callfn" && ev.Val == onError && len(ev.Args) == 1 {
				return ev.Args[0]
			}
			return nil
		})
	}
	// the service that sends it
	svc := c.Type(mon + ".senderService")
	f = c.Method(svc, "create")
	st = c.E.NewState()
	cmd = c.Recv(st, "cmd", k.t)
	recv := c.Recv(st, "service", svc)
	errs := c.Get(st, recv, svc, c.role(svc, "errors", func(t types.Type) bool { return named(t, "ErrorReporter") }))
	why = c.Sym("why", f.Params[2].Type())
	for _, o := range c.Run(f, st.Clone(), recv, cmd, why) {
		c.says("senderService.create", k, rt, o, st, cmd, why, func(ev *eng.Event) *eng.Term {
			if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".ReportError") && len(ev.Args) == 1 && o.St.Same(ev.Addr, errs) {
				return ev.Args[0]
			}
			return nil
		})
	}
	c.codes()
}

// says checks what the report of one path says of the command it was made of.
func (c *Ctx) says(who string, k *command, rt *types.Named, o eng.Outcome, start *eng.State, cmd, why *eng.Term, reported func(ev *eng.Event) *eng.Term) {
	if o.Kind != "return" {
		c.OblSt("content", who, false, o.Pos, o.St, "%s", o.Why)
		return
	}
	st := o.St
	pos := c.Fn(mon + ".reportFromCommand").Pos()
	if !c.OblSt("complete", who, len(o.Ret) == 1 && isNil(st, o.Ret[0]) == -1, pos, st, "no report is made") {
		return
	}
	s := rt.Underlying().(*types.Struct)
	listed := map[string]bool{}
	encodings := 0
	for _, t := range contents {
		listed[t.field] = true
		has := false
		for i := 0; i < s.NumFields(); i++ {
			has = has || s.Field(i).Name() == t.field
		}
		if !c.Obl("complete", t.field, has, pos, "a report has no %s", t.field) {
			continue
		}
		got := c.Get(st, o.Ret[0], rt, t.field)
		var want *eng.Term
		if t.of != nil {
			want = k.get(start, cmd, t.of...)
		}
		ok := false
		switch t.how {
		case "":
			ok = st.Same(unint(got), unint(want)) || copied(st, got, want)
		case "reason":
			ok = st.Same(unint(got), unint(why))
		case "unix":
			ok = isUnix(st, got, want)
		case "now":
			eachEvent(st.Events(), func(ev *eng.Event) {
				ok = ok || ev.Kind == "call" && ev.Name == "time.Now" && isUnix(st, got, ev.Val)
			})
		case "text":
			ok = printed(st, got, want)
		case "joined":
			ok = got.Op == eng.OCall && got.Name == "strings.Join" && (st.Same(got.Args[0], want) || got.Args[0] == st.Seq(want, types.Typ[types.String])) && isStr(got.Args[1], " ")
		case "json":
			encodings++
			var at *eng.Event
			eachEvent(st.Events(), func(ev *eng.Event) {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "encoding/json.Marshal") && len(ev.Args) > 0 && ev.Args[0].Op == eng.OIface {
					if x := ev.Args[0].Args[0]; st.Same(x, want) || x == k.at(cmd, t.of...) || copied(st, x, want) {
						at = ev
					}
				}
			})
			if at == nil {
				break
			}
			failed := eng.Eq(at.Res, eng.Nil(nil))
			n, other := 0, 0
			eachEvent(st.Events(), func(ev *eng.Event) {
				switch e := reported(ev); {
				case e == nil:
				case unwrapErr(st, e) == at.Res:
					n++
				default:
					other++
				}
			})
			for _, fail := range []bool{false, true} {
				q := st.Clone()
				if !q.Assume(failed, !fail) {
					continue
				}
				if fail {
					c.OblSt("errors", who+" "+t.field, n == 1, at.Pos, q, "the failure to encode %s is not reported once", t.field)
				} else {
					c.OblSt("errors", who+" "+t.field, n == 0, at.Pos, q, "an error is reported although %s was encoded", t.field)
					c.OblSt("encoded", who+" "+t.field, got == at.Val || st.Same(got, at.Val), at.Pos, q, "%s of the report is not the encoding", t.field)
				}
			}
			ok = true
		}
		c.OblSt("content", who+" "+t.field, ok, pos, st, "%s of the report is not that of the run", t.field)
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		c.Obl("complete", n, listed[n] || strings.HasPrefix(n, "XXX_") || !s.Field(i).Exported(), pos, "nothing is known of what %s of a report says", n)
	}
	left := true
	for _, ev := range changes(st) {
		left = left && eng.DeepRoot(ev.Addr) != cmd
	}
	c.OblSt("content", who, left, pos, st, "making a report changes the command")
}

// unwrapErr takes the error out of one that describes it.
func unwrapErr(st *eng.State, e *eng.Term) *eng.Term {
	if e.Op == eng.OCall && e.Name == "fmt.Errorf" {
		found := map[*eng.Term]bool{}
		subterms(e, found)
		for t := range found {
			if t.Op == eng.OCall && strings.HasPrefix(t.Name, "encoding/json.") || strings.Contains(t.Name, "json.Marshal") {
				return t
			}
		}
	}
	return e
}

// copied reports whether a list holds exactly the elements of another.
func copied(st *eng.State, got, want *eng.Term) bool {
	s, ok := want.Typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	for got.Op == eng.OCopy {
		got = got.Args[0]
	}
	for got.Op == eng.OCat && isNil(st, got.Args[0]) == 1 || got.Op == eng.OCat && emptySeq(st, got.Args[0]) {
		got = got.Args[1]
	}
	if got.Op == eng.OSlice {
		lo, ok := got.Args[1].IntVal()
		if ok && lo == 0 && (got.Args[2] == nil || st.Same(got.Args[2], st.LenOf(got.Args[0]))) {
			got = got.Args[0]
		}
	}
	return st.Same(got, want) || st.Seq(got, s.Elem()) == st.Seq(want, s.Elem())
}

func emptySeq(st *eng.State, t *eng.Term) bool {
	n, ok := st.LenOf(t).IntVal()
	return ok && n == 0
}

// isUnix reports whether a number is the seconds from 1970 to a time.
func isUnix(st *eng.State, n, t *eng.Term) bool {
	return n.Op == eng.OCall && n.Name == "(time.Time).Unix" && unUTC(n.Args[0]) == unUTC(t)
}

func unUTC(t *eng.Term) *eng.Term {
	for t.Op == eng.OCall && (t.Name == "(time.Time).UTC" || t.Name == "(time.Time).Local") {
		t = t.Args[0]
	}
	return t
}

// printed reports whether a text is how a duration is printed.
func printed(st *eng.State, s, d *eng.Term) bool {
	if s.Op != eng.OCall {
		return false
	}
	switch s.Name {
	case "(time.Duration).String":
		return st.Same(s.Args[0], d)
	case "fmt.Sprintf", "fmt.Sprint":
		args := s.Args[len(s.Args)-1]
		if s.Name == "fmt.Sprintf" && !isStr(s.Args[0], "%v") && !isStr(s.Args[0], "%s") {
			return false
		}
		es, ok := st.Elems(args, types.NewInterfaceType(nil, nil))
		return ok && len(es) == 1 && unconv(es[0]) != nil && es[0].Op == eng.OIface && st.Same(es[0].Args[0], d)
	}
	return false
}

// codes checks that both sides of the protocol mean the same by a number, and that it has the right name.
func (c *Ctx) codes() {
	consts := func(pkg, typ string) map[string]constant.Value {
		p := c.P.By[pkg]
		out := map[string]constant.Value{}
		if p == nil {
			return out
		}
		for _, n := range p.Pkg.Scope().Names() {
			if k, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && named(k.Type(), typ) {
				out[strings.TrimPrefix(n, typ+"_")] = k.Val()
			}
		}
		return out
	}
	for _, typ := range []string{"ReportReason", "KillReason"} {
		ours, wire := consts("pkg/proto", typ), consts("pkg/pb", typ)
		var names []string
		for n := range ours {
			names = append(names, n)
		}
		sort.Strings(names)
		c.Obl("codes", typ, len(names) > 0, c.Fn(mon+".reportFromCommand").Pos(), "no codes of %s are known", typ)
		seen := map[string]string{}
		t := c.Type("pkg/proto." + typ)
		str := c.ValueMethod(t, "String")
		for _, n := range names {
			pos := c.P.By["pkg/proto"].Pkg.Scope().Lookup(n).Pos()
			v := ours[n]
			w, ok := wire[n]
			c.Obl("codes", typ+" "+n, ok && constant.Compare(v, token.EQL, w), pos, "the code of %s %s is not the one of the protocol", typ, n)
			c.Obl("codes", typ+" "+n, seen[v.ExactString()] == "", pos, "%s and %s have the same code", n, seen[v.ExactString()])
			seen[v.ExactString()] = n
			if z, exact := constant.Int64Val(v); exact {
				c.Obl("codes", typ+" "+n, z != 0, pos, "the code of %s is what the protocol uses for none", n)
			}
			if str != nil {
				ok := true
				outs := c.Run(str, c.E.NewState(), eng.Const(v, t))
				for _, o := range outs {
					ok = ok && o.Kind == "return" && isStr(o.Ret[0], n)
				}
				c.Obl("name", typ+" "+n, ok && len(outs) > 0, str.Pos(), "%s %s is not printed as its name", typ, n)
			}
		}
	}
}
