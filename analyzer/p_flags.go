package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("R11", []string{"given", "flag", "meaning", "switch", "json-rule", "unknown", "declared", "file", "list", "file-errors"}, checkR11)
}

// optionOf is the option each flag stands for.
var optionOf = map[string]string{
	"id": "ID", "rule": "Rule", "rule-json": "JSONRule", "stdout-history": "StdoutHistory", "stderr-history": "StderrHistory",
	"no-notify-on-success": "NoNotifyOnSuccess", "no-notify-on-failure": "NoNotifyOnFailure", "daemon": "Daemon",
	"memory-warn": "MemoryWarn", "memory-kill": "MemoryKill", "timeout-warn": "NotifyTimeout", "timeout-kill": "KillTimeout",
	"creates": "Creates", "host": "Host", "insecure": "Insecure", "no-error-reports": "NoErrorReports", "shell": "Shell",
}

// meaningOf finds the function that makes an option of a name and a value.
func (c *Ctx) meaningOf() *ssa.Function {
	optT := c.Type(mon + ".ConfigOption")
	var all []*ssa.Function
	for _, f := range c.P.Fns {
		sig := f.Signature
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), mon) || f.Parent() != nil || sig.Results().Len() != 2 || !types.Identical(sig.Results().At(0).Type(), optT) {
			continue
		}
		n := len(f.Params)
		if n < 2 || f.Params[n-1].Type() != types.Typ[types.String] || f.Params[n-2].Type() != types.Typ[types.String] || n > 2 && sig.Recv() == nil {
			continue
		}
		all = append(all, f)
	}
	// not those that only help another
	var h *ssa.Function
	for _, f := range all {
		helps := false
		for _, g := range all {
			helps = helps || g != f && calls(g, f)
		}
		if helps {
			continue
		}
		if h != nil {
			return nil
		}
		h = f
	}
	return h
}

// calls reports whether a function calls another directly.
func calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func checkR11(c *Ctx) {
	c.E.NoMerge = true
	h := c.meaningOf()
	if !c.OblSt("meaning", "options", h != nil, c.Fn(mon+".parse").Pos(), nil, "no function makes an option of a name and a value") {
		return
	}
	known := c.meanings(h)
	c.declared(known)
	c.given(h)
	c.wholeLine()
	c.eitherForm()
}

// wholeLine decides that the command line is all arguments of the process but its name.
func (c *Ctx) wholeLine() {
	f := c.Fn(mon + ".ParseCommandLine")
	c.opaque(mon+".parse", mon+".createFlagSet")
	defer func() { c.E.Opaque = nil }()
	for _, o := range c.Run(f, c.E.NewState()) {
		ok := false
		for _, ev := range o.St.Events() {
			if !c.callTo(ev, mon+".parse") || len(ev.Args) != 2 || ev.Args[0].Op != eng.OSlice {
				continue
			}
			a := ev.Args[0]
			lo, is := a.Args[1].IntVal()
			ok = is && lo == 1 && c.stdStream(o.St, a.Args[0], "Args") && (a.Args[2] == nil || o.St.Same(a.Args[2], o.St.LenOf(a.Args[0])))
			set := false
			for _, e := range o.St.Events() {
				set = set || c.callTo(e, mon+".createFlagSet") && e.Val == ev.Args[1]
			}
			ok = ok && set && len(o.Ret) == 3 && o.Ret[2] == ev.Res
		}
		c.OblSt("given", "ParseCommandLine", o.Kind == "return" && ok, f.Pos(), o.St, "the command line is not that of the process")
	}
}

// letterOf are the short forms that the program tells its users.
var letterOf = map[string]string{"id": "i", "config": "c"}

// eitherForm decides that a key which may have a list may also have a single text.
func (c *Ctx) eitherForm() {
	for _, f := range c.P.Fns {
		if f.Name() != "UnmarshalYAML" || f.Signature.Recv() == nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), mon) || f.Synthetic != "" || len(f.Params) != 2 {
			continue
		}
		pt, ok := f.Params[0].Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem().Underlying(), types.NewSlice(types.Typ[types.String])) {
			continue
		}
		st := c.E.NewState()
		recv, decode := c.Recv(st, "list", pt.Elem().(*types.Named)), c.Sym("decode", f.Params[1].Type())
		for _, o := range c.Run(f, st, recv, decode) {
			var single, list *eng.Event
			for _, ev := range o.St.Events() {
				if ev.Kind != "callfn" || ev.Val != decode || len(ev.Args) != 1 {
					continue
				}
				switch p := unconv(ev.Args[0]); {
				case p == recv && types.Identical(into2(ev.Args[0]), types.NewSlice(types.Typ[types.String])):
					list = ev
				case types.Identical(into2(ev.Args[0]), types.Typ[types.String]):
					single = ev
				}
			}
			is := func(ev *eng.Event) int {
				if ev == nil {
					return 0
				}
				return isNil(o.St, ev.Res)
			}
			ok := o.Kind == "return"
			switch {
			case !ok:
			case is(single) == 1:
				v := o.St.Load(recv, pt.Elem())
				es, known := o.St.Elems(v, types.Typ[types.String])
				ok = isNil(o.St, o.Ret[0]) == 1 && known && len(es) == 1 && es[0] == o.St.Load(unconv(single.Args[0]), types.Typ[types.String])
			case list != nil && is(list) != -1:
				ok = (o.Ret[0] == list.Res || isNil(o.St, o.Ret[0]) == is(list) && is(list) != 0) && (single == nil && is(list) == 1 || is(single) == -1)
			default:
				ok = is(single) == -1 && is(list) == -1 && isNil(o.St, o.Ret[0]) == -1
			}
			c.OblSt("list", "UnmarshalYAML", ok, f.Pos(), o.St, "what a file has for a key is neither its list nor its only text")
		}
	}
}

// acceptsBoth reports whether a type can be decoded from a list of texts and from a text.
func acceptsBoth(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	m, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), "UnmarshalYAML")
	return m != nil
}

// named is the name a path knows a term to be.
func nameOf(st *eng.State, t *eng.Term) string {
	if s, ok := t.StrVal(); ok {
		return s
	}
	for f, v := range st.FactTerms() {
		if !v || f.Op != eng.OEq {
			continue
		}
		for i := range f.Args {
			if s, ok := f.Args[i].StrVal(); ok && f.Args[1-i] == t {
				return s
			}
		}
	}
	return ""
}

// meanings decides which option a name and a value make; it is the names there are.
func (c *Ctx) meanings(h *ssa.Function) map[string]bool {
	makers := map[*ssa.Function]bool{}
	optT := c.Type(mon + ".ConfigOption")
	for _, n := range optionOf {
		makers[c.Fn(mon+"."+n)] = true
	}
	c.E.Opaque = func(f *ssa.Function) bool { return makers[f] }
	defer func() { c.E.Opaque = nil }()
	ct := c.Type(mon + ".Config")
	_ = optT
	n := len(h.Params)
	st := c.E.NewState()
	var args []*eng.Term
	for i := 0; i < n-2; i++ {
		args = append(args, c.Recv(st, "recv", h.Params[i].Type().(*types.Pointer).Elem().(*types.Named)))
	}
	name, value := c.Sym("name", types.Typ[types.String]), c.Sym("value", types.Typ[types.String])
	args = append(args, name, value)
	fn := h.Name()
	known := map[string]bool{}
	for _, o := range c.Run(h, st, args...) {
		if o.Kind != "return" {
			c.OblSt("meaning", fn, false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		opt := o.Ret[0]
		failed := -isNil(o.St, o.Ret[1])
		for _, cv := range conversions(o, "strconv.ParseBool") {
			if cv.err == o.Ret[1] {
				failed = cv.failed(o.St)
			}
		}
		key := nameOf(o.St, name)
		want, ok := optionOf[key]
		var call *eng.Event
		calls := 0
		for _, ev := range o.St.Events() {
			for m := range makers {
				if c.callTo(ev, mon+"."+m.Name()) {
					call = ev
					calls++
				}
			}
		}
		if !ok {
			// a name that is no option
			accepts := failed == 1 || key != "" && calls == 1
			c.OblSt("unknown", fn, accepts, h.Pos(), o.St, "an unknown name is an option")
			continue
		}
		one := calls == 1 && c.callTo(call, mon+"."+want) && call.Val == opt
		params := c.Fn(mon + "." + want).Params
		switch {
		case key == "rule-json":
			two := separated(o.St, value, ":")
			good := two != 0 && failed == -two
			if good && failed == -1 {
				good = one && len(call.Args) == 2 && c.before(o.St, call.Args[0], value) && after(o.St, call.Args[1], value)
			}
			c.OblSt("json-rule", fn, good, h.Pos(), o.St, "a rule for a field is not made of what is before and after the first colon, or refused exactly without one")
			known[key] = known[key] || failed == -1
		case len(params) == 0:
			// a switch
			good := false
			for _, cv := range conversions(o, "strconv.ParseBool") {
				if cv.args[0] != value {
					continue
				}
				switch cv.failed(o.St) {
				case 1:
					good = failed == 1
				case -1:
					switch o.St.Truth(cv.val) {
					case 1:
						good = failed == -1 && one
					case -1:
						good = failed == -1 && c.noOption(o.St, opt, ct)
					}
				}
			}
			for text, on := range map[string]bool{"true": true, "false": false} {
				if nameOf(o.St, value) == text {
					good = failed == -1 && (on && one || !on && c.noOption(o.St, opt, ct))
				}
			}
			c.OblSt("switch", fn, good, h.Pos(), o.St, "%s is not applied exactly if it is on", key)
			known[key] = known[key] || failed == -1
		default:
			c.OblSt("meaning", fn, failed == -1 && one && len(call.Args) == 1 && call.Args[0] == value, h.Pos(), o.St, "%s is not the option %s with the value given", key, want)
			known[key] = known[key] || failed == -1
		}
	}
	for key := range optionOf {
		c.OblSt("declared", fn, known[key], h.Pos(), nil, "%s is no option", key)
	}
	return known
}

// noOption reports whether an option changes nothing.
func (c *Ctx) noOption(st *eng.State, opt *eng.Term, ct *types.Named) bool {
	if opt.Op != eng.OFunc {
		return false
	}
	start := st.Clone()
	cfg := c.Recv(start, "cfg", ct)
	fields := ct.Underlying().(*types.Struct)
	for _, o := range c.RunVal(opt, start.Clone(), cfg) {
		if o.Kind != "return" || isNil(o.St, o.Ret[0]) != 1 {
			return false
		}
		for i := 0; i < fields.NumFields(); i++ {
			n := fields.Field(i).Name()
			if c.Get(start.Clone(), cfg, ct, n) != c.Get(o.St, cfg, ct, n) {
				return false
			}
		}
		if anyEvent(o.St.Events()[len(start.Events()):], func(ev *eng.Event) bool { return ev.Kind == "store" && eng.Root(ev.Addr).Op == eng.OGlobal }) {
			return false
		}
	}
	return true
}

// before and after recognise what is before and after the first colon of a text.
func (c *Ctx) before(st *eng.State, t, text *eng.Term) bool {
	n := &names{field: text, sep: ":"}
	if n.first(t) {
		return true
	}
	whole := func(e *eng.Term) bool {
		s, i := elemAt(e)
		if s == nil || s.Op != eng.OCall || s.Name != "strings.SplitAfterN" && s.Name != "strings.SplitAfter" || s.Args[0] != text || !isSep(s.Args[1], ":") {
			return false
		}
		k, ok := i.IntVal()
		return ok && k == 0
	}
	if t.Op != eng.OCall {
		return false
	}
	switch t.Name {
	case "substr":
		lo, ok := t.Args[1].IntVal()
		return ok && lo == 0 && whole(t.Args[0]) && st.Same(t.Args[2], eng.Sub(st.LenOf(t.Args[0]), eng.Int(1)))
	case "strings.TrimSuffix":
		return whole(t.Args[0]) && isStr(t.Args[1], ":")
	}
	return false
}

func after(st *eng.State, t, text *eng.Term) bool {
	n := &names{field: text, sep: ":"}
	if s, i := elemAt(t); s != nil && s.Op == eng.OCall && s.Name == "strings.SplitAfterN" {
		k, ok1 := i.IntVal()
		m, ok2 := s.Args[2].IntVal()
		return ok1 && ok2 && k == 1 && m == 2 && s.Args[0] == text && isSep(s.Args[1], ":")
	}
	if t.Op == eng.OCall && t.Name == "strings.Join" {
		return false
	}
	return n.rest(st, t)
}

// declared decides whether the flags are the options there are.
func (c *Ctx) declared(known map[string]bool) {
	f := c.Fn(mon + ".createFlagSet")
	optional := map[string]bool{}
	for key, opt := range optionOf {
		optional[key] = len(c.Fn(mon+"."+opt).Params) == 0
	}
	for _, o := range c.Run(f, c.E.NewState()) {
		if o.Kind != "return" {
			c.OblSt("declared", "createFlagSet", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		flags, letters := map[string]bool{}, map[string]bool{}
		for _, ev := range o.St.Events() {
			const set = "(*github.com/spf13/pflag.FlagSet)."
			if ev.Kind != "call" || !strings.HasPrefix(ev.Name, set) || ev.Args[0] != o.Ret[0] {
				continue
			}
			kind := ev.Name[len(set):]
			arg := 1
			if strings.Contains(kind, "Var") {
				arg = 2
			}
			if len(ev.Args) <= arg+1 {
				continue
			}
			name, ok := ev.Args[arg].StrVal()
			if !ok {
				continue
			}
			c.OblSt("declared", "createFlagSet", !flags[name] && (known[name] || name == "config"), ev.Pos, o.St, "the flag %s is no option, or declared twice", name)
			c.OblSt("declared", "createFlagSet", strings.HasPrefix(kind, "Bool") == optional[name], ev.Pos, o.St, "the flag %s does not take a value exactly if its option does", name)
			flags[name] = true
			letter := ""
			if strings.HasSuffix(kind, "P") {
				letter, _ = ev.Args[arg+1].StrVal()
			}
			if want := letterOf[name]; want != "" {
				c.OblSt("declared", "createFlagSet", letter == want, ev.Pos, o.St, "the flag %s can not be given as -%s", name, want)
			}
			c.OblSt("declared", "createFlagSet", letter == "" || !letters[letter], ev.Pos, o.St, "two flags have the letter %s", letter)
			letters[letter] = true
		}
		for name := range optionOf {
			c.OblSt("declared", "createFlagSet", flags[name], f.Pos(), o.St, "there is no flag %s", name)
		}
		c.OblSt("declared", "createFlagSet", flags["config"], f.Pos(), o.St, "there is no flag for a file")
	}
}

// given decides what the flags of a command line become.
func (c *Ctx) given(h *ssa.Function) {
	c.E.Opaque = func(g *ssa.Function) bool { return g == h }
	defer func() { c.E.Opaque = nil }()
	f := c.Fn(mon + ".parse")
	st := c.E.NewState()
	args, pf := c.Sym("args", f.Params[0].Type()), c.Sym("pf", f.Params[1].Type())
	for _, o := range c.Run(f, st, args, pf) {
		if o.Kind != "return" {
			c.OblSt("given", "parse", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		var all *eng.Event
		n := 0
		for _, ev := range o.St.Events() {
			if ev.Kind == "call" && ev.Name == "(*github.com/spf13/pflag.FlagSet).ParseAll" {
				all = ev
				n++
			}
		}
		if !c.OblSt("given", "parse", n == 1 && all.Args[0] == pf && all.Args[1] == args && all.Args[2].Op == eng.OFunc, f.Pos(), o.St, "not every flag that is given is handled, in order") {
			continue
		}
		rest := false
		for _, ev := range o.St.Events() {
			rest = rest || ev.Kind == "call" && ev.Name == "(*github.com/spf13/pflag.FlagSet).Args" && ev.Args[0] == pf && ev.Val == o.Ret[0] && ev.Seq > all.Seq
		}
		c.OblSt("given", "parse", rest, f.Pos(), o.St, "the command is not what follows the flags")
		cell := o.Ret[1]
		if !c.OblSt("given", "parse", cell.Op == eng.OInit, f.Pos(), o.St, "the options are not those of the flags") {
			continue
		}
		at := cell.Args[0]
		// a failure to parse is one
		failed := -isNil(o.St, all.Res)
		ok := failed != 0
		if failed == 1 {
			ok = isNil(o.St, o.Ret[2]) == -1
		} else if isNil(o.St, o.Ret[2]) != 1 {
			// an error kept by the handling of a flag, which makes parsing fail
			ok = ok && o.Ret[2].Op == eng.OInit && c.keptWithError(all.Args[2], o.St, o.Ret[2].Args[0])
		}
		c.OblSt("given", "parse", ok, f.Pos(), o.St, "an error is not told, or one where there is none")
		// nothing is there before the first flag
		empty := false
		for _, ev := range o.St.Events() {
			if ev.Seq < all.Seq && ev.Kind == "store" && (ev.Addr == at || eng.Root(ev.Addr) == eng.Root(at)) {
				empty = true
				if ev.Addr == at && !c.isEmpty(o.St, ev.Val) {
					empty = false
				}
			}
		}
		c.OblSt("given", "parse", empty || eng.Root(at).Op == eng.OAlloc, f.Pos(), o.St, "there are options that nobody gave")
		c.oneFlag(h, all.Args[2], o.St, at, cell.Typ)
	}
}

// keptWithError reports whether a cell is only set to an error by a handling that returns one.
func (c *Ctx) keptWithError(fn *eng.Term, st *eng.State, at *eng.Term) bool {
	flag, value := c.Sym("kept/flag", fn.Fn.Params[0].Type()), c.Sym("kept/value", types.Typ[types.String])
	start := st.Clone()
	errT := types.Universe.Lookup("error").Type()
	was := start.Load(at, errT)
	for _, o := range c.RunVal(fn, start.Clone(), flag, value) {
		if o.Kind != "return" || o.St.Load(at, errT) != was && isNil(o.St, o.Ret[0]) != -1 {
			return false
		}
	}
	return true
}

// oneFlag decides what a flag adds to the options, which are in a cell.
func (c *Ctx) oneFlag(h *ssa.Function, fn *eng.Term, st *eng.State, at *eng.Term, t types.Type) {
	flagT := fn.Fn.Params[0].Type().(*types.Pointer).Elem().(*types.Named)
	start := st.Clone()
	flag := c.Recv(start, "flag", flagT)
	value := c.Sym("text", types.Typ[types.String])
	name := c.Get(start, flag, flagT, "Name")
	was := start.Load(at, t)
	seen := map[string]bool{}
	for _, o := range c.RunVal(fn, start.Clone(), flag, value) {
		fname := fn.Fn.Name()
		if o.Kind != "return" {
			c.OblSt("flag", fname, false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		failed := -isNil(o.St, o.Ret[0])
		now := o.St.Load(at, t)
		evs := o.St.Events()[len(start.Events()):]
		if nameOf(o.St, name) == "config" {
			seen["config"] = seen["config"] || failed == -1
			c.fromFile(h, o, evs, value, was, now, failed)
			continue
		}
		call := c.onlyCall(evs, h)
		ok := call != nil && isNil(o.St, call.Res) == -failed && c.meansOf(call, name, value)
		if ok && failed == -1 {
			ok = now.Op == eng.OAppend && len(now.Args) == 2 && now.Args[0] == was && now.Args[1] == call.Val
		}
		c.OblSt("flag", fname, ok, fn.Fn.Pos(), o.St, "a flag does not add its option to those before, or fail if that does")
		seen[""] = true
	}
	c.OblSt("flag", fn.Fn.Name(), seen["config"] && seen[""], fn.Fn.Pos(), st, "no flag names a file")
}

// onlyCall is the only call of a function in a list of events.
func (c *Ctx) onlyCall(evs []*eng.Event, h *ssa.Function) *eng.Event {
	var call *eng.Event
	n := 0
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == eng.FuncName(h) {
			call = ev
			n++
		}
	}
	if n != 1 {
		return nil
	}
	return call
}

// meansOf reports whether an option was made of a name and a value.
func (c *Ctx) meansOf(call *eng.Event, name, value *eng.Term) bool {
	n := len(call.Args)
	return call.Args[n-2] == name && call.Args[n-1] == value
}

// fromFile decides which options a file gives.
func (c *Ctx) fromFile(h *ssa.Function, o eng.Outcome, evs []*eng.Event, path, was, now *eng.Term, failed int) {
	const fn = "config"
	pos := h.Pos()
	var read, decoded *eng.Event
	for _, ev := range evs {
		if ev.Kind == "call" && (ev.Name == "io/ioutil.ReadFile" || ev.Name == "os.ReadFile") && ev.Args[0] == path {
			read = ev
		}
		if read != nil && decoded == nil && c.yaml(ev, read) {
			decoded = ev
		}
	}
	if !c.OblSt("file", fn, read != nil, pos, o.St, "the file is not read") {
		return
	}
	if isNil(o.St, read.Res) == -1 {
		c.OblSt("file-errors", fn, failed == 1, pos, o.St, "a file that can not be read is no error")
		return
	}
	if !c.OblSt("file", fn, decoded != nil, pos, o.St, "what was read is not decoded") {
		return
	}
	if isNil(o.St, decoded.Val) == -1 {
		c.OblSt("file-errors", fn, failed == 1, pos, o.St, "a file that can not be decoded is no error")
		return
	}
	m := o.St.Load(unconv(decoded.Args[1]), into2(decoded.Args[1]))
	var inst *eng.LoopInst
	for _, ev := range evs {
		if ev.Kind == "loop" && ev.Loop.Trav != nil && ev.Loop.Trav.Kind == "map" && ev.Loop.Trav.Map == m {
			inst = ev.Loop
		}
	}
	if !c.OblSt("file", fn, inst != nil, pos, o.St, "not every key of the file is looked at") {
		return
	}
	var slot *eng.Slot
	for _, s := range inst.Slots {
		if s.Sym != nil && s.Sym.Typ != nil && types.Identical(s.Sym.Typ, was.Typ) {
			slot = s
		}
	}
	if !c.OblSt("file", fn, slot != nil, inst.Pos, o.St, "the options are not collected") {
		return
	}
	for _, k := range inst.Kinds {
		c.oneKey(h, inst, slot, k, m, read)
	}
	if failed == -1 {
		ok := complete(evs, inst)
		switch {
		case slot.Init == was:
			ok = ok && now == slot.Sym
		default:
			ok = ok && c.isEmpty(inst.Entry, slot.Init) && now.Op == eng.OCat && len(now.Args) == 2 && now.Args[0] == was && now.Args[1] == slot.Sym
		}
		c.OblSt("file", fn, ok, inst.Pos, o.St, "the options of the file are not added to those before")
		return
	}
	// an error must have a reason
	v := c.valueOf(o.St, m)
	ok := false
	if v != nil {
		key := v.Args[1]
		scalar := c.scalarIn(o.St, v)
		eachEvent(evs, func(ev *eng.Event) {
			if ev.Kind == "call" && ev.Name == eng.FuncName(h) && isNil(o.St, ev.Res) == -1 {
				ok = true // the option
			}
			if ev != decoded && c.yaml(ev, read) && isNil(o.St, ev.Val) == -1 && scalar == -1 {
				ok = true // the list
			}
		})
		switch {
		case ok || scalar != -1:
		case isNil(o.St, v) == 1:
			ok = true // nothing given
		default:
			ok = true
			for _, l := range []string{"rule", "rule-json", "creates"} {
				switch {
				case o.St.Truth(eng.Eq(key, eng.Str(l))) == -1:
				case nameOf(o.St, key) == l && c.emptyList(o.St, evs, read, l):
				default:
					ok = false
				}
				if nameOf(o.St, key) == l {
					break
				}
			}
		}
	}
	c.OblSt("file-errors", fn, ok, inst.Pos, o.St, "a file is refused for no reason")
}

// yaml reports whether an event decodes the file.
func (c *Ctx) yaml(ev *eng.Event, read *eng.Event) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "yaml.Unmarshal") && ev.Args[0] == read.Val
}

// valueOf is the value of the key of the file that a path is about.
func (c *Ctx) valueOf(st *eng.State, m *eng.Term) *eng.Term {
	terms := map[*eng.Term]bool{}
	for t := range st.FactTerms() {
		subterms(t, terms)
	}
	for t := range terms {
		if t.Op == eng.OLookup && t.Args[0] == m {
			return t
		}
	}
	return nil
}

// scalarIn reports whether a path knows that a value is a text, a number or a switch (1), or is none (-1).
func (c *Ctx) scalarIn(st *eng.State, v *eng.Term) int {
	none := -1
	for _, b := range []types.Type{types.Typ[types.String], types.Typ[types.Int], types.Typ[types.Bool]} {
		switch st.Truth(eng.Is(v, b)) {
		case 1:
			return 1
		case 0:
			none = 0
		}
	}
	return none
}

// oneKey decides what a key of the file adds to the options.
func (c *Ctx) oneKey(h *ssa.Function, inst *eng.LoopInst, slot *eng.Slot, k *eng.IterKind, m *eng.Term, read *eng.Event) {
	const fn = "config"
	st := k.St
	next := k.Next[slot]
	v := c.valueOf(st, m)
	if !c.OblSt("file", fn, v != nil && next != nil, inst.Pos, st, "the value of a key is not looked at") {
		return
	}
	key := v.Args[1]
	if call := c.onlyCall(k.Events, h); call != nil {
		n := len(call.Args)
		ok := call.Args[n-2] == key && c.textOf(st, call.Args[n-1], v) && isNil(st, call.Res) == 1
		ok = ok && next.Op == eng.OAppend && len(next.Args) == 2 && next.Args[0] == slot.Sym && next.Args[1] == call.Val
		c.OblSt("file", fn, ok, inst.Pos, st, "a key does not add its option with its value, once")
		return
	}
	// a list
	inner := c.E.LoopVars[next]
	name := nameOf(st, key)
	ok := inner != nil && inner.Trav != nil && inner.Trav.Idx != nil && !inner.Trav.Rev && complete(k.Events, inner) && c.scalarIn(st, v) == -1
	var in *eng.Slot
	if ok {
		for _, s := range inner.Slots {
			if s.Sym == next {
				in = s
			}
		}
		ok = in != nil && in.Init == slot.Sym && len(inner.Kinds) > 0
	}
	if !c.OblSt("list", fn, ok, inst.Pos, st, "a list does not add its options") {
		return
	}
	for _, kd := range inner.Kinds {
		call := c.onlyCall(kd.Events, h)
		got := kd.Next[in]
		ok := call != nil && call.Args[len(call.Args)-2] == key && isNil(kd.St, call.Res) == 1 && got != nil && got.Op == eng.OAppend && len(got.Args) == 2 && got.Args[0] == in.Sym && got.Args[1] == call.Val
		if ok {
			seq, idx := elemAt(call.Args[len(call.Args)-1])
			ok = seq != nil && idx == inner.Trav.Idx && fullSeq(st, inner, seq) && c.listOf(st, k.Events, seq, read, name)
		}
		c.OblSt("list", fn, ok, inner.Pos, kd.St, "an element of a list does not add its option, once")
	}
}

// listOf reports whether a list is the one that the file has for a key.
func (c *Ctx) listOf(st *eng.State, evs []*eng.Event, seq *eng.Term, read *eng.Event, key string) bool {
	if seq.Op != eng.OInit || seq.Args[0].Op != eng.OFld {
		return false
	}
	at := seq.Args[0]
	for _, ev := range evs {
		if !c.yaml(ev, read) || unconv(ev.Args[1]) != at.Args[0] || isNil(st, ev.Val) != 1 {
			continue
		}
		s, ok := into2(ev.Args[1]).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		tag := strings.Split(reflect.StructTag(s.Tag(at.N)).Get("yaml"), ",")[0]
		return key != "" && tag == key && acceptsBoth(s.Field(at.N).Type())
	}
	return false
}

// emptyList reports whether a path knows that the list of a key is empty.
func (c *Ctx) emptyList(st *eng.State, evs []*eng.Event, read *eng.Event, key string) bool {
	for t, v := range st.FactTerms() {
		terms := map[*eng.Term]bool{}
		subterms(t, terms)
		_ = v
		for x := range terms {
			if x.Op == eng.OInit && c.listOf(st, evs, x, read, key) && st.Same(st.LenOf(x), eng.Int(0)) {
				return true
			}
		}
	}
	return false
}

// textOf reports whether a text is what a scalar value reads as.
func (c *Ctx) textOf(st *eng.State, t, v *eng.Term) bool {
	is := func(b types.BasicKind) bool { return st.Truth(eng.Is(v, types.Typ[b])) == 1 }
	t0 := unconv(t)
	if t0.Op == eng.OCall && (t0.Name == "fmt.Sprint" || t0.Name == "fmt.Sprintf") && c.scalarIn(st, v) == 1 {
		rest := t0.Args[0]
		if t0.Name == "fmt.Sprintf" {
			f, ok := t0.Args[0].StrVal()
			if !ok || f != "%v" && !(is(types.Int) && f == "%d") && !(is(types.Bool) && f == "%t") && !(is(types.String) && f == "%s") {
				return false
			}
			rest = t0.Args[1]
		}
		es, ok := st.Elems(rest, types.NewInterfaceType(nil, nil))
		return ok && len(es) == 1 && held(es[0], v)
	}
	switch {
	case is(types.String):
		return held(t, v)
	case is(types.Int):
		if t.Op != eng.OCall {
			return false
		}
		switch t.Name {
		case "strconv.Itoa":
			return held(t.Args[0], v)
		case "strconv.FormatInt":
			b, ok := t.Args[1].IntVal()
			return ok && b == 10 && held(unint(t.Args[0]), v)
		}
	case is(types.Bool):
		if t.Op == eng.OCall && t.Name == "strconv.FormatBool" {
			return held(t.Args[0], v)
		}
		if t.Op == eng.OConst && t.C.Kind() == constant.String {
			b := st.Truth(eng.Assert(v, types.Typ[types.Bool]))
			return isStr(t, "true") && b == 1 || isStr(t, "false") && b == -1
		}
	}
	return false
}
