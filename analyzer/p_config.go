package main

import (
	"go/types"
	"strings"

	"monnyverif/eng"
)

func init() {
	register("R12", []string{"sets", "only", "refused", "memory", "host", "defaults", "applied", "required", "made"}, checkR12)
}

// conversion is a call that makes a value of a text, and says if it could not.
type conversion struct {
	name     string
	args     []*eng.Term
	val, err *eng.Term
}

// conversions are the calls of the named functions on a path.
func conversions(o eng.Outcome, names ...string) []conversion {
	var out []conversion
	terms := map[*eng.Term]bool{}
	for t := range o.St.FactTerms() {
		subterms(t, terms)
	}
	for _, r := range o.Ret {
		subterms(r, terms)
	}
	for _, ev := range o.St.Events() {
		for _, n := range names {
			if ev.Name != n || ev.Kind != "pure" && ev.Kind != "call" {
				continue
			}
			cv := conversion{name: n, args: ev.Args, val: ev.Val, err: ev.Res}
			if ev.Kind == "pure" {
				cv.val, cv.err = ev.Res, nil
				for t := range terms {
					if t.Op == eng.OCall && t.Name == n+"/1" && sameArgs(t.Args, ev.Res.Args) {
						cv.err = t
					}
				}
			}
			out = append(out, cv)
		}
	}
	return out
}

func sameArgs(a, b []*eng.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// failed reports whether the conversion failed (1), did not (-1), or is not asked.
func (cv conversion) failed(st *eng.State) int {
	if cv.err == nil {
		return 0
	}
	return -isNil(st, cv.err)
}

// wholeNumber reports whether a conversion makes a number of a decimal text.
func (cv conversion) wholeNumber() bool {
	if cv.name == "strconv.Atoi" {
		return true
	}
	base, ok1 := cv.args[1].IntVal()
	size, ok2 := cv.args[2].IntVal()
	return ok1 && ok2 && base == 10 && (size == 64 || size == 0)
}

// setting is an option: what it makes of its arguments.
type setting struct {
	name   string
	args   int
	fields []string // it may change
	rule   string
	// judge decides whether a path is right: the option failed (1), did not (-1); after is the value of a field
	judge func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (ok bool, what string)
}

var numbers = []string{"strconv.Atoi", "strconv.ParseInt"}

func (c *Ctx) settings() []setting {
	constant := func(name, field string, v bool) setting {
		return setting{name, 0, []string{field}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			return failed == -1 && after(field) == eng.Bool(v), "is not set"
		}}
	}
	number := func(name string) setting {
		return setting{name, 1, []string{name}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			for _, cv := range conversions(o, numbers...) {
				if cv.args[0] == a[0] && cv.wholeNumber() {
					return agrees(o, cv, failed) && (failed == 1 || unint(after(name)) == cv.val), "is not the number given, or an error"
				}
			}
			return false, "is not made of the number given"
		}}
	}
	duration := func(name string) setting {
		return setting{name, 1, []string{name}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			for _, cv := range conversions(o, "time.ParseDuration") {
				if cv.args[0] == a[0] {
					return agrees(o, cv, failed) && (failed == 1 || after(name) == cv.val), "is not the duration given, or an error"
				}
			}
			return false, "is not made of the duration given"
		}}
	}
	memory := func(name string) setting {
		return setting{name, 1, []string{name}, "memory", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			return c.memoryLimit(o, a[0], after(name), failed)
		}}
	}
	text := func(name, field string) setting {
		return setting{name, 1, []string{field}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			return failed == -1 && after(field) == a[0], "is not what was given"
		}}
	}
	rt := c.Type(mon + ".rule")
	rule := func(name string, args int) setting {
		return setting{name, args, []string{"Rules"}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			for _, cv := range conversions(o, "regexp.Compile") {
				if cv.args[0] != a[len(a)-1] {
					continue
				}
				if !agrees(o, cv, failed) {
					return false, "is not an error exactly if the pattern is not a regular expression"
				}
				if failed == 1 {
					return true, ""
				}
				t := after("Rules")
				if t.Op != eng.OAppend || len(t.Args) != 2 || t.Args[0] != before("Rules") {
					return false, "are not those before and this one"
				}
				field := structField(t.Args[1], rt, "Field")
				ok := structField(t.Args[1], rt, "Regex") == cv.val
				if args == 2 {
					ok = ok && field == a[0]
				} else {
					ok = ok && isStr(field, "")
				}
				return ok, "do not end with the rule given"
			}
			return false, "are not made of the pattern given"
		}}
	}
	return []setting{
		text("ID", "ID"), rule("Rule", 1), rule("JSONRule", 2), number("RuleQuantity"), duration("RulePeriod"),
		number("StdoutHistory"), number("StderrHistory"), constant("NoNotifyOnSuccess", "NotifyOnSuccess", false), constant("NoNotifyOnFailure", "NotifyOnFailure", false),
		constant("Daemon", "Daemon", true), memory("MemoryWarn"), memory("MemoryKill"), duration("KillTimeout"), duration("NotifyTimeout"),
		{"Creates", 1, []string{"Creates"}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			t := after("Creates")
			return failed == -1 && t.Op == eng.OAppend && len(t.Args) == 2 && t.Args[0] == before("Creates") && t.Args[1] == a[0], "are not those before and this one"
		}},
		{"Host", 1, []string{"host", "port"}, "host", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			return c.hostAndPort(o, a[0], after, failed)
		}},
		constant("Insecure", "useTLS", false),
		{"NoErrorReports", 0, nil, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			return failed == -1, "can fail"
		}},
		{"Shell", 1, []string{"Shell"}, "sets", func(o eng.Outcome, a []*eng.Term, before, after func(string) *eng.Term, failed int) (bool, string) {
			for _, cv := range conversions(o, "os/exec.LookPath") {
				if cv.args[0] == a[0] {
					return agrees(o, cv, failed) && (failed == 1 || after("Shell") == cv.val), "is not the one found"
				}
			}
			return false, "is not looked for"
		}},
		text("logOut", "out"), text("logErr", "err"),
	}
}

// agrees reports whether an option fails exactly if a conversion does.
func agrees(o eng.Outcome, cv conversion, failed int) bool {
	if cv.err != nil && o.Ret[0] == cv.err {
		return true
	}
	return failed != 0 && cv.failed(o.St) == failed
}

// keeps reports whether a conversion loses no digits.
func keeps(conv *eng.Term) bool {
	if conv.Op != eng.OConv || conv.Args[0].Typ == nil {
		return false
	}
	for _, t := range []types.Type{conv.Typ, conv.Args[0].Typ} {
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	sizes := types.SizesFor("gc", "amd64")
	return sizes.Sizeof(conv.Typ) >= sizes.Sizeof(conv.Args[0].Typ)
}

// unint takes a number for what it was before it was converted between types of integers.
func unint(t *eng.Term) *eng.Term {
	for keeps(t) {
		t = t.Args[0]
	}
	return t
}

// unit is the letter a path knows a text to end with, 0 if none, -1 if it is not looked at.
func unit(st *eng.State, text *eng.Term) int {
	none := 0
	for _, l := range []string{"K", "M", "G"} {
		switch st.Truth(eng.Pure("strings.HasSuffix", types.Typ[types.Bool], text, eng.Str(l))) {
		case 1:
			return int(l[0])
		case -1:
			none++
			continue
		}
		for t, v := range st.FactTerms() {
			if lastIs(st, t, text, int64(l[0])) {
				if v {
					return int(l[0])
				}
				none++
				break
			}
		}
	}
	if none == 3 || st.Same(st.LenOf(text), eng.Int(0)) {
		return 0
	}
	return -1
}

// lastIs reports whether a fact is that the last letter of a text is l.
func lastIs(st *eng.State, t, text *eng.Term, l int64) bool {
	if t.Op != eng.OEq {
		return false
	}
	for i := range t.Args {
		at := unint(t.Args[1-i])
		if n, ok := t.Args[i].IntVal(); ok && n == l && at.Op == eng.OCall && len(at.Args) == 2 && at.Args[0] == text {
			return st.Same(at.Args[1], eng.Sub(st.LenOf(text), eng.Int(1)))
		}
	}
	return false
}

// memoryLimit decides whether a limit is the number of kilobytes a text stands for.
func (c *Ctx) memoryLimit(o eng.Outcome, text, got *eng.Term, failed int) (bool, string) {
	u := unit(o.St, text)
	if u < 0 {
		return false, "does not depend on the unit given"
	}
	factor := map[int]int64{0: 1, 'K': 1, 'M': 1000, 'G': 1000000}[u]
	short := func(t *eng.Term) bool {
		if u == 0 {
			return t == text
		}
		if t.Op != eng.OCall {
			return false
		}
		switch t.Name {
		case "substr":
			lo, ok := t.Args[1].IntVal()
			return ok && lo == 0 && t.Args[0] == text && o.St.Same(t.Args[2], eng.Sub(o.St.LenOf(text), eng.Int(1)))
		case "strings.TrimSuffix":
			return t.Args[0] == text && isStr(t.Args[1], string(rune(u)))
		}
		return false
	}
	for _, cv := range conversions(o, "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") {
		if !cv.wholeNumber() || !short(cv.args[0]) {
			continue
		}
		if !agrees(o, cv, failed) {
			return false, "is not an error exactly if there is no number"
		}
		if failed == 1 {
			return true, ""
		}
		for t := got; ; t = t.Args[0] {
			want := eng.Int(0)
			for k := int64(1); k <= factor; k *= 10 {
				if k == factor {
					want = scaled(unint(cv.val), factor)
				}
			}
			if o.St.Same(t, want) || o.St.Same(t, scaled(eng.Convert(cv.val, cv.val.Typ, got.Typ), factor)) {
				return true, ""
			}
			if !keeps(t) {
				break
			}
		}
		return false, "is not the number given in that unit"
	}
	return false, "is not made of the number given"
}

// scaled is a number of times another.
func scaled(t *eng.Term, n int64) *eng.Term {
	sum := eng.Int(0)
	for bit := t; n > 0; n >>= 1 {
		if n&1 == 1 {
			sum = eng.Add(sum, bit)
		}
		bit = eng.Add(bit, bit)
	}
	return sum
}

// hostAndPort decides whether host and port are the two parts of a text, which has no others.
func (c *Ctx) hostAndPort(o eng.Outcome, text *eng.Term, after func(string) *eng.Term, failed int) (bool, string) {
	st := o.St
	host, port := after("host"), after("port")
	const bad = "is not refused exactly if it is not a host and a port"
	for _, cv := range conversions(o, "net.SplitHostPort") {
		if cv.args[0] == text {
			p := eng.Pure("net.SplitHostPort/1", cv.val.Typ, text)
			return agrees(o, cv, failed) && (failed == 1 || host == cv.val && port == p), bad
		}
	}
	terms := map[*eng.Term]bool{}
	for t := range st.FactTerms() {
		subterms(t, terms)
	}
	colon := func(t *eng.Term) bool {
		if n, ok := t.IntVal(); ok {
			return n == ':'
		}
		return isStr(t, ":")
	}
	two := 0
	for t := range terms {
		if t.Op != eng.OCall || len(t.Args) < 2 || t.Args[0] != text || !colon(t.Args[1]) {
			continue
		}
		switch t.Name {
		case "strings.Split":
			if d := st.Truth(eng.Eq(st.LenOf(t), eng.Int(2))); d != 0 {
				two = d
			}
		case "strings.Count":
			if d := st.Truth(eng.Eq(t, eng.Int(1))); d != 0 {
				two = d
			}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
			switch st.Truth(eng.Lt(t, eng.Int(0))) {
			case 1:
				two = -1
			case -1:
				for x := range terms {
					if x.Op == eng.OCall && strings.HasPrefix(x.Name, "strings.") && strings.Contains(x.Name, "Index") && strings.Contains(x.Name, "Last") != strings.Contains(t.Name, "Last") && x.Args[0] == text && colon(x.Args[1]) {
						two = st.Truth(eng.Eq(t, x))
					}
				}
			}
		case "strings.Cut/2":
			switch st.Truth(t) {
			case -1:
				two = -1
			case 1:
				for x := range terms {
					if x.Op == eng.OCall && strings.HasPrefix(x.Name, "strings.Contains") && x.Args[0].Op == eng.OCall && x.Args[0].Name == "strings.Cut/1" && x.Args[0].Args[0] == text && colon(x.Args[1]) {
						two = -st.Truth(x)
					}
				}
			}
		}
	}
	if two == 0 || two != -failed {
		return false, bad
	}
	if failed == 1 {
		return true, ""
	}
	part := func(t *eng.Term, i int64) bool {
		if s, at := elemAt(t); s != nil {
			n, ok := at.IntVal()
			return ok && n == i && s.Op == eng.OCall && strings.HasPrefix(s.Name, "strings.Split") && s.Args[0] == text && colon(s.Args[1])
		}
		if t.Op == eng.OCall && t.Name == "substr" && t.Args[0] == text {
			at := func(t *eng.Term) bool {
				return t.Op == eng.OCall && strings.Contains(t.Name, "Index") && strings.HasPrefix(t.Name, "strings.") && t.Args[0] == text && colon(t.Args[1])
			}
			if i == 0 {
				lo, ok := t.Args[1].IntVal()
				return ok && lo == 0 && at(t.Args[2])
			}
			return at(eng.Sub(t.Args[1], eng.Int(1))) && st.Same(t.Args[2], st.LenOf(text))
		}
		return t.Op == eng.OCall && t.Name == []string{"strings.Cut", "strings.Cut/1"}[i] && t.Args[0] == text && colon(t.Args[1])
	}
	return part(host, 0) && part(port, 1), "does not set host and port to the parts of it"
}

// ---- R12

func checkR12(c *Ctx) {
	c.E.NoMerge = true
	ct := c.Type(mon + ".Config")
	fields := ct.Underlying().(*types.Struct)
	for _, s := range c.settings() {
		f := c.Fn(mon + "." + s.name)
		var args []*eng.Term
		for i := 0; i < s.args; i++ {
			args = append(args, c.Sym(s.name+"/"+f.Params[i].Name(), f.Params[i].Type()))
		}
		outs, start, cfg := c.optionOn(s.name, args)
		for _, o := range outs {
			if o.Kind != "return" || len(o.Ret) != 1 {
				c.OblSt("sets", s.name, false, o.Pos, o.St, "%s", o.Why)
				continue
			}
			get := func(st *eng.State) func(string) *eng.Term {
				return func(n string) *eng.Term { return c.Get(st, cfg, ct, n) }
			}
			failed := -isNil(o.St, o.Ret[0])
			before, after := get(start.Clone()), get(o.St)
			ok, what := s.judge(o, args, before, after, failed)
			rule := s.rule
			if failed == 1 {
				rule = "refused"
			}
			c.OblSt(rule, s.name, ok, f.Pos(), o.St, "%s of the configuration %s", strings.Join(s.fields, ", "), what)
			for i := 0; i < fields.NumFields(); i++ {
				n := fields.Field(i).Name()
				mine := false
				for _, x := range s.fields {
					mine = mine || x == n
				}
				if !mine {
					c.OblSt("only", s.name, before(n) == after(n), f.Pos(), o.St, "the option changes %s", n)
				}
			}
		}
	}
	c.made12()
}

// made12 decides what New makes of its options.
func (c *Ctx) made12() {
	f := c.Fn(mon + ".New")
	st := c.E.NewState()
	user, options := c.Sym("user", f.Params[0].Type()), c.Sym("options", f.Params[1].Type())
	ct, cmdT := c.Type(mon+".Config"), c.Type(mon+".Command")
	fields := ct.Underlying().(*types.Struct)
	errT := types.Universe.Lookup("error").Type()
	optT := c.Type(mon + ".ConfigOption")
	for _, o := range c.Run(f, st, user, options) {
		if o.Kind != "return" {
			c.OblSt("made", "New", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		// the loop that applies the options
		var inst *eng.LoopInst
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if ev.Kind == "loop" {
				for _, k := range ev.Loop.Kinds {
					if anyEvent(k.Events, func(e *eng.Event) bool { return e.Kind == "callfn" }) {
						inst = ev.Loop
					}
				}
			}
		})
		ok := inst != nil && inst.Trav != nil && inst.Trav.Idx != nil && !inst.Trav.Rev && complete(o.St.Events(), inst) && fullSeq(o.St, inst, options)
		if !c.OblSt("applied", "New", ok, f.Pos(), o.St, "not every option is applied, in order") {
			continue
		}
		var cfg *eng.Term
		applied := func(k *eng.IterKind, idx *eng.Term) *eng.Event {
			var call *eng.Event
			n := 0
			for _, ev := range k.Events {
				if ev.Kind == "callfn" {
					call = ev
					n++
				}
			}
			if n == 1 && call.Val == k.St.Load(k.St.ElemAddr(options, idx), optT) {
				return call
			}
			return nil
		}
		for _, k := range inst.Kinds {
			call := applied(k, inst.Trav.Idx)
			if c.OblSt("applied", "New", call != nil && (cfg == nil || cfg == call.Args[0]), inst.Pos, k.St, "an option is not applied once to the configuration") {
				cfg = call.Args[0]
			}
		}
		if cfg == nil {
			continue
		}
		// what the options start with
		entry := inst.Entry.Clone()
		for i := 0; i < fields.NumFields(); i++ {
			n := fields.Field(i).Name()
			v := c.Get(entry, cfg, ct, n)
			ok := false
			switch n {
			case "StdoutHistory", "StderrHistory":
				k, is := v.IntVal()
				ok = is && k == 30
			case "NotifyOnSuccess", "NotifyOnFailure", "useTLS":
				ok = v == eng.Bool(true)
			case "Hostname":
				for _, ev := range o.St.Events() {
					if ev.Kind == "call" && ev.Name == "os.Hostname" {
						ok = v == ev.Val || isStr(v, "") && isNil(o.St, ev.Res) == -1
					}
				}
			case "host":
				ok = isStr(v, "report.lmkwtf.com")
			case "port":
				ok = isStr(v, "443")
			case "out":
				ok = c.stdStream(entry, v, "Stdout")
			case "err":
				ok = c.stdStream(entry, v, "Stderr")
			default:
				ok = v == eng.Zero(fields.Field(i).Type()) || c.isEmpty(entry, v)
			}
			c.OblSt("defaults", "New", ok, inst.Pos, o.St, "%s is %v before any option", n, v)
		}
		// the errors
		list := o.Ret[1]
		extra := 0
		for list.Op == eng.OAppend {
			extra += len(list.Args) - 1
			list = list.Args[0]
		}
		none := 0
		if isNil(o.St, o.Ret[0]) == -1 {
			none = 1
		} else if isNil(o.St, o.Ret[0]) == 1 {
			none = -1
		}
		if none == 1 && c.isEmpty(o.St, o.Ret[1]) {
			// no error left of those collected
			list = nil
			for _, s := range inst.Slots {
				if s.Sym != nil && s.Sym.Typ != nil && types.Identical(s.Sym.Typ.Underlying(), types.NewSlice(errT)) {
					list = s.Sym
				}
			}
			ok := list != nil && o.St.Same(o.St.LenOf(list), eng.Int(0))
			c.OblSt("required", "New", ok, f.Pos(), o.St, "a command is made although an option failed")
		}
		if list != nil {
			ok := c.collects(o.St, list, options, func(k *eng.IterKind, idx *eng.Term) int {
				if call := applied(k, idx); call != nil {
					return -isNil(k.St, call.Res)
				}
				return 0
			}, func(k *eng.IterKind, idx, got *eng.Term) bool { return got == applied(k, idx).Res })
			c.OblSt("required", "New", ok, f.Pos(), o.St, "the errors are not those of the options that failed")
		}
		id := c.emptyText(o.St, cfg, ct, "ID")
		if none == 1 {
			cmd := o.Ret[0]
			idv := c.Get(o.St, cmd, cmdT, "Config", "ID")
			shell := c.Get(o.St, cmd, cmdT, "Config", "Shell")
			c.OblSt("required", "New", c.textLen(o.St, idv) == 1, f.Pos(), o.St, "a command is made without an identifier")
			c.OblSt("required", "New", c.textLen(o.St, shell) == 1, f.Pos(), o.St, "a command is made without a shell")
			for i := 0; i < fields.NumFields(); i++ {
				n := fields.Field(i).Name()
				v := c.Get(o.St, cmd, cmdT, "Config", n)
				ok := v.Op == eng.OInit && v.Args[0] == c.at(cfg, ct, n)
				if n == "Shell" && !ok {
					ok = c.initial(o.St, cfg, ct, n) == -1 && v == c.shellVar(o)
				}
				c.OblSt("made", "New", ok, f.Pos(), o.St, "%s of the command is not what the options made it", n)
			}
			c.OblSt("made", "New", c.Get(o.St, cmd, cmdT, "UserCommand") == user, f.Pos(), o.St, "the command is not the one given")
			c.OblSt("made", "New", c.Get(o.St, cmd, cmdT, "out") == c.Get(o.St, cmd, cmdT, "Config", "out") && c.Get(o.St, cmd, cmdT, "err") == c.Get(o.St, cmd, cmdT, "Config", "err"), f.Pos(), o.St, "output is not passed on where the configuration says")
			continue
		}
		want := 0
		if id == 1 {
			want++
		}
		shell := c.missingShell(o, cfg, ct)
		if shell == 1 {
			want++
		}
		ok = none == -1 && id != 0 && shell != 0 && extra == want && (extra > 0 || list != nil && o.St.Truth(eng.Lt(eng.Int(0), o.St.LenOf(list))) == 1)
		c.OblSt("required", "New", ok, f.Pos(), o.St, "the options are refused for no reason, or not all reasons are given")
	}
}

// stdStream reports whether a value is a standard stream of the process.
func (c *Ctx) stdStream(st *eng.State, v *eng.Term, name string) bool {
	v = unconv(v)
	if v.Op == eng.OIface {
		v = v.Args[0]
	}
	if v.Op != eng.OInit {
		return false
	}
	return strings.HasSuffix(v.Args[0].String(), "os."+name)
}

// textLen reports whether a path knows that a text is not empty (1) or is (-1).
func (c *Ctx) textLen(st *eng.State, v *eng.Term) int {
	if d := st.Truth(eng.Lt(eng.Int(0), st.LenOf(v))); d != 0 {
		return d
	}
	return -st.Truth(eng.Eq(v, eng.Str("")))
}

// emptyText reports whether a path knows that a field the options made is empty (1) or is not (-1).
func (c *Ctx) emptyText(st *eng.State, cfg *eng.Term, ct *types.Named, field string) int {
	return -c.textLen(st, c.Get(st, cfg, ct, field))
}

// initial reports whether the options made a field not empty (1) or left it so (-1).
func (c *Ctx) initial(st *eng.State, cfg *eng.Term, ct *types.Named, field string) int {
	at := c.at(cfg, ct, field)
	terms := map[*eng.Term]bool{}
	for t := range st.FactTerms() {
		subterms(t, terms)
	}
	for t := range terms {
		if t.Op == eng.OInit && t.Args[0] == at {
			if d := c.textLen(st, t); d != 0 {
				return d
			}
		}
	}
	return 0
}

// missingShell reports whether there is no shell (1) or there is one (-1).
func (c *Ctx) missingShell(o eng.Outcome, cfg *eng.Term, ct *types.Named) int {
	switch c.initial(o.St, cfg, ct, "Shell") {
	case 1:
		return -1
	case 0:
		return 0
	}
	if v := c.shellVar(o); v != nil {
		return -c.textLen(o.St, v)
	}
	return 0
}

// shellVar is the shell the environment names.
func (c *Ctx) shellVar(o eng.Outcome) *eng.Term {
	for _, ev := range o.St.Events() {
		if ev.Kind == "call" && (ev.Name == "os.Getenv" || ev.Name == "os.LookupEnv") && isStr(ev.Args[0], "SHELL") {
			return ev.Val
		}
	}
	return nil
}
