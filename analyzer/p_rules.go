package main

import (
	"go/types"
	"strings"

	"monnyverif/eng"
)

func init() {
	register("R10", []string{"every-rule", "text", "match", "path", "value", "list", "remembered", "alert"}, checkR10)
}

// collects reports whether out holds, in the order of src, one element for every element of src that keep says is kept (1, not -1).
func (c *Ctx) collects(st *eng.State, out, src *eng.Term, keep func(k *eng.IterKind, idx *eng.Term) int, made func(k *eng.IterKind, idx, got *eng.Term) bool) bool {
	inst := c.E.LoopVars[out]
	if inst == nil {
		return st.Same(st.LenOf(src), eng.Int(0)) && c.isEmpty(st, out)
	}
	if inst.Trav == nil || inst.Trav.Idx == nil || inst.Trav.Rev || !complete(st.Events(), inst) || !fullSeq(st, inst, src) || len(inst.Kinds) == 0 {
		return false
	}
	for _, s := range inst.Slots {
		if s.Sym != out {
			continue
		}
		if s.Init == nil {
			return false
		}
		if n, ok := inst.Entry.LenOf(s.Init).IntVal(); !ok || n != 0 {
			return false
		}
		for _, k := range inst.Kinds {
			next := k.Next[s]
			ok := false
			switch keep(k, inst.Trav.Idx) {
			case 1:
				ok = next != nil && next.Op == eng.OAppend && len(next.Args) == 2 && next.Args[0] == s.Sym && made(k, inst.Trav.Idx, next.Args[1])
			case -1:
				ok = next == s.Sym
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

// ---- R10

func checkR10(c *Ctx) {
	c.checkRules()
	c.extract()
	c.alerts()
}

// checkRules decides which matches a line has.
func (c *Ctx) checkRules() {
	c.E.NoMerge = true
	extract := mon + ".extractTextFromJSON"
	c.opaque(extract)
	f := c.Fn(mon + ".checkRule")
	rt, mt := c.Type(mon+".rule"), c.Type(mon+".RuleMatch")
	st := c.E.NewState()
	line, rules := c.Sym("line", f.Params[0].Type()), c.Sym("rules", f.Params[1].Type())
	for _, o := range c.Run(f, st, line, rules) {
		if o.Kind != "return" {
			c.OblSt("every-rule", "checkRule", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		rule := func(k *eng.IterKind, idx *eng.Term, field string) *eng.Term {
			return structField(k.St.Load(k.St.ElemAddr(rules, idx), rt), rt, field)
		}
		// the text a rule looks at, and what it finds there
		search := func(k *eng.IterKind, idx *eng.Term) *eng.Event {
			var found *eng.Event
			n := 0
			for _, ev := range k.Events {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*regexp.Regexp).FindAll") && strings.HasSuffix(ev.Name, "Index") {
					found = ev
					n++
				}
			}
			if n == 1 && (found.Args[0] == rule(k, idx, "Regex")) {
				return found
			}
			return nil
		}
		matched := func(k *eng.IterKind, idx *eng.Term) int {
			for t, v := range k.St.FactTerms() {
				if t.Op == eng.OCall && (t.Name == "(*regexp.Regexp).Match" || t.Name == "(*regexp.Regexp).MatchString") && t.Args[0] == rule(k, idx, "Regex") {
					c.OblSt("text", "checkRule", c.ruleText(k, line, rule(k, idx, "Field"), t.Args[1], extract), f.Pos(), k.St, "a rule is not matched against the text it is for")
					if v {
						return 1
					}
					return -1
				}
			}
			ev := search(k, idx)
			if ev == nil {
				return 0
			}
			n, ok := ev.Args[2].IntVal()
			c.OblSt("match", "checkRule", ok && n < 0, ev.Pos, k.St, "not every match of a rule is recorded")
			c.OblSt("text", "checkRule", c.ruleText(k, line, rule(k, idx, "Field"), ev.Args[1], extract), ev.Pos, k.St, "a rule is not matched against the text it is for")
			if d := isNil(k.St, ev.Val); d != 0 {
				return -d
			}
			return k.St.Truth(eng.Lt(eng.Int(0), k.St.LenOf(ev.Val)))
		}
		ok := c.collects(o.St, o.Ret[0], rules, matched, func(k *eng.IterKind, idx, got *eng.Term) bool {
			ev := search(k, idx)
			good := ev != nil && structField(got, mt, "Index") == ev.Val && unconv(structField(got, mt, "Line")) == line && isNow(k.St, structField(got, mt, "Time"))
			c.OblSt("match", "checkRule", good, f.Pos(), k.St, "a match is recorded with another line, time or place than it has")
			return true
		})
		c.OblSt("every-rule", "checkRule", ok, f.Pos(), o.St, "the matches of a line are not those of every rule, in order")
	}
	c.E.Opaque = nil
}

// ruleText reports whether a text is the one a rule for a field is matched against.
func (c *Ctx) ruleText(k *eng.IterKind, line, field, t *eng.Term, extract string) bool {
	whole := -k.St.Truth(eng.Lt(eng.Int(0), k.St.LenOf(field)))
	if whole == 0 {
		whole = k.St.Truth(eng.Eq(field, eng.Str("")))
	}
	switch whole {
	case 1:
		return unconv(t) == line
	case -1:
		for _, ev := range k.Events {
			if c.callTo(ev, extract) && ev.Val == unconv(t) {
				return unconv(ev.Args[0]) == line && ev.Args[1] == field
			}
		}
	}
	return false
}

// dotted reports whether a path knows that a name has a dot (1) or has none (-1).
func dotted(st *eng.State, field *eng.Term) int { return separated(st, field, ".") }

// separated reports whether a path knows that a text has a separator (1) or has none (-1).
func separated(st *eng.State, field *eng.Term, sep string) int {
	terms := map[*eng.Term]bool{}
	for t := range st.FactTerms() {
		subterms(t, terms)
	}
	for t := range terms {
		if t.Op != eng.OCall || len(t.Args) < 2 || unconv(t.Args[0]) != field || !isSep(t.Args[1], sep) {
			continue
		}
		d := 0
		switch t.Name {
		case "strings.Split":
			d = st.Truth(eng.Lt(eng.Int(1), st.LenOf(t)))
		case "strings.SplitAfter":
			d = st.Truth(eng.Lt(eng.Int(1), st.LenOf(t)))
		case "strings.SplitN", "strings.SplitAfterN":
			if n, ok := t.Args[2].IntVal(); ok && n >= 2 || n < 0 {
				d = st.Truth(eng.Lt(eng.Int(1), st.LenOf(t)))
				if d == 0 && n == 2 { // it has one or two parts
					d = st.Truth(eng.Eq(st.LenOf(t), eng.Int(2)))
				}
			}
		case "strings.Contains", "strings.ContainsRune", "strings.Cut/2":
			d = st.Truth(t)
		case "strings.Index", "strings.IndexByte", "strings.IndexRune":
			d = -st.Truth(eng.Lt(t, eng.Int(0)))
		case "strings.Count":
			d = st.Truth(eng.Lt(eng.Int(0), t))
		}
		if d != 0 {
			return d
		}
	}
	return 0
}

func isSep(t *eng.Term, sep string) bool {
	if n, ok := t.IntVal(); ok {
		return n == int64(sep[0])
	}
	return isStr(t, sep)
}

func subterms(t *eng.Term, out map[*eng.Term]bool) {
	if t == nil || out[t] {
		return
	}
	out[t] = true
	for _, a := range t.Args {
		subterms(a, out)
	}
}

// names recognises the parts of a name with dots, of which some may have been followed already.
type names struct {
	sep   string    // between them, a dot if empty
	field *eng.Term // the name left, nil if list is set
	list  *eng.Term // the list of names left
	done  bool      // all but the last name were followed
}

// elemAt reports whether a term is an element of a list, and of which at which index.
func elemAt(t *eng.Term) (list, idx *eng.Term) {
	if t.Op == eng.OInit && t.Args[0].Op == eng.OElem {
		return t.Args[0].Args[0], t.Args[0].Args[1]
	}
	return nil, nil
}

// parts is the list of names a term is.
func (n *names) parts(t *eng.Term) bool {
	return t == n.list || n.list == nil && t.Op == eng.OCall && (t.Name == "strings.Split" || t.Name == "strings.SplitN") && t.Args[0] == n.field && n.isSep(t.Args[1])
}

func (n *names) isSep(t *eng.Term) bool {
	if n.sep == "" {
		return isSep(t, ".")
	}
	return isSep(t, n.sep)
}

// nested reports whether a path knows that there is more than one name (1) or is not (-1).
func (n *names) nested(st *eng.State) int {
	switch {
	case n.done:
		return -1
	case n.list != nil:
		return st.Truth(eng.Lt(eng.Int(1), st.LenOf(n.list)))
	}
	return dotted(st, n.field)
}

// first recognises the first of several names.
func (n *names) first(t *eng.Term) bool {
	if s, i := elemAt(t); s != nil {
		k, ok := i.IntVal()
		return ok && k == 0 && n.parts(s)
	}
	switch {
	case n.list != nil:
	case t.Op == eng.OCall && t.Name == "strings.Cut":
		return t.Args[0] == n.field && n.isSep(t.Args[1])
	case t.Op == eng.OCall && t.Name == "substr" && t.Args[0] == n.field:
		k, ok := t.Args[1].IntVal()
		return ok && k == 0 && n.isIndex(t.Args[2])
	}
	return false
}

// rest recognises the names after the first.
func (n *names) rest(st *eng.State, t *eng.Term) bool {
	if s, i := elemAt(t); s != nil {
		k, ok := i.IntVal()
		if !ok || k != 1 || s.Op != eng.OCall || s.Name != "strings.SplitN" || !n.parts(s) {
			return false
		}
		m, ok := s.Args[2].IntVal()
		return ok && m == 2
	}
	tail := func(s *eng.Term) bool {
		if s.Op != eng.OSlice || !n.parts(s.Args[0]) {
			return false
		}
		k, ok := s.Args[1].IntVal()
		return ok && k == 1 && (s.Args[2] == nil || st.Same(s.Args[2], st.LenOf(s.Args[0])))
	}
	switch {
	case n.list != nil:
		return tail(t)
	case t.Op == eng.OCall && t.Name == "strings.Join":
		return n.isSep(t.Args[1]) && tail(t.Args[0])
	case t.Op == eng.OCall && t.Name == "strings.Cut/1":
		return t.Args[0] == n.field && n.isSep(t.Args[1])
	case t.Op == eng.OCall && t.Name == "substr" && t.Args[0] == n.field:
		d := eng.Sub(t.Args[1], eng.Int(1))
		return n.isIndex(d) && (t.Args[2] == nil || st.Same(t.Args[2], st.LenOf(n.field)))
	}
	return false
}

// last recognises the only name there is.
func (n *names) last(st *eng.State, t *eng.Term) bool {
	if n.field != nil && t == n.field && !n.done {
		return true
	}
	s, i := elemAt(t)
	if s == nil {
		return !n.done && n.list == nil && t.Op == eng.OCall && t.Name == "strings.Cut" && t.Args[0] == n.field && n.isSep(t.Args[1])
	}
	k, ok := i.IntVal()
	return n.parts(s) && (ok && k == 0 && !n.done || st.Same(i, eng.Sub(st.LenOf(s), eng.Int(1))))
}

// decodes is the only decoding of JSON in a list of events.
func decodes(evs []*eng.Event) *eng.Event {
	var one *eng.Event
	n := 0
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "encoding/json.Unmarshal" {
			one = ev
			n++
		}
	}
	if n != 1 {
		return nil
	}
	return one
}

// readKey is the name a term was looked up with in the fields that were decoded; a field that is not there is nil.
func readKey(st *eng.State, evs []*eng.Event, decoded *eng.Event, v *eng.Term) *eng.Term {
	fields := st.Load(unconv(decoded.Args[1]), into2(decoded.Args[1]))
	if v.Op == eng.ONil {
		var key *eng.Term
		for _, ev := range evs {
			if ev.Kind == "mapread" && ev.Addr == fields {
				key = ev.Args[0]
			}
		}
		return key
	}
	if v = unconv(v); v.Op == eng.OLookup && v.Args[0] == fields {
		return v.Args[1]
	}
	return nil
}

// follows decides what is left to look up once a loop has followed the names of a field: it holds what it reached in cur.
func (c *Ctx) follows(st *eng.State, raw, field, cur *eng.Term) *names {
	inst := c.E.LoopVars[cur]
	if inst == nil || len(inst.Kinds) == 0 {
		return nil
	}
	var at, left *eng.Slot
	for _, s := range inst.Slots {
		switch {
		case s.Sym == cur && s.Init == raw:
			at = s
		case s.Init != nil && (s.Init == field || splits(s.Init, field) && s.Init.Name == "strings.Split"):
			left = s
		}
	}
	if at == nil {
		return nil
	}
	var n *names
	switch {
	case left != nil && left.Init == field:
		n = &names{field: left.Sym}
	case left != nil:
		n = &names{list: left.Sym}
	}
	var all *eng.Term // the names of a loop over them
	for _, k := range inst.Kinds {
		d := decodes(k.Events)
		if d == nil || d.Args[0] != at.Sym || isNil(k.St, d.Val) != 1 || k.Next[at] == nil {
			return nil
		}
		key := readKey(k.St, k.Events, d, k.Next[at])
		if key == nil {
			return nil
		}
		if n != nil {
			if n.nested(k.St) != 1 || !n.first(key) || k.Next[left] == nil || !n.rest(k.St, k.Next[left]) {
				return nil
			}
			continue
		}
		s, i := elemAt(key)
		if s == nil || inst.Trav == nil || inst.Trav.Rev || inst.Trav.Kind != "index" || inst.Trav.Idx != i {
			return nil
		}
		if s.Op == eng.OSlice {
			if lo, ok := s.Args[1].IntVal(); !ok || lo != 0 {
				return nil
			}
			s = s.Args[0]
		}
		if !splits(s, field) || s.Name != "strings.Split" || !st.Same(inst.Trav.N, eng.Sub(st.LenOf(s), eng.Int(1))) {
			return nil
		}
		all = s
	}
	if n == nil {
		n = &names{field: field, list: all, done: complete(st.Events(), inst)}
	}
	return n
}

func splits(t, field *eng.Term) bool { return (&names{field: field}).parts(t) }

func (n *names) isIndex(t *eng.Term) bool {
	return t != nil && t.Op == eng.OCall && strings.HasPrefix(t.Name, "strings.Index") && t.Args[0] == n.field && n.isSep(t.Args[1])
}

// extract decides which text a field of a line has.
func (c *Ctx) extract() {
	c.E.NoMerge = true
	name := mon + ".extractTextFromJSON"
	f := c.Fn(name)
	st := c.E.NewState()
	raw, field := c.Sym("raw", f.Params[0].Type()), c.Sym("field", f.Params[1].Type())
	anyT := types.NewInterfaceType(nil, nil)
	list := types.NewSlice(anyT)
	for _, o := range c.Run(f, st, raw, field) {
		if o.Kind != "return" {
			c.OblSt("value", "extractTextFromJSON", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		ret := o.Ret[0]
		evs := o.St.Events()
		decoded := decodes(evs)
		left := &names{field: field}
		if decoded != nil && decoded.Args[0] != raw {
			left = c.follows(o.St, raw, field, decoded.Args[0])
			c.OblSt("path", "extractTextFromJSON", left != nil, f.Pos(), o.St, "the names of a field are not followed one by one")
		}
		if !c.OblSt("value", "extractTextFromJSON", decoded != nil && left != nil && isNil(o.St, decoded.Val) != 0, f.Pos(), o.St, "the fields are not those of the line") {
			continue
		}
		empty := c.isEmpty(o.St, unconv(ret)) || c.isEmpty(o.St, ret)
		if isNil(o.St, decoded.Val) == -1 {
			c.OblSt("value", "extractTextFromJSON", empty, f.Pos(), o.St, "a line that is not JSON has a text")
			continue
		}
		// what the line was decoded into
		into := unconv(decoded.Args[1])
		fields := o.St.Load(into, into2(decoded.Args[1]))
		key := func(v *eng.Term) *eng.Term {
			if v.Op == eng.OLookup && v.Args[0] == fields {
				return v.Args[1]
			}
			return nil
		}
		var inner *eng.Event
		for _, ev := range evs {
			if c.callTo(ev, name) {
				inner = ev
			}
		}
		switch left.nested(o.St) {
		case 1:
			ok := inner != nil && ret == inner.Val
			c.OblSt("path", "extractTextFromJSON", ok, f.Pos(), o.St, "the text of a nested field is not that of the field in the one around it")
			if !ok {
				continue
			}
			from := readKey(o.St, evs, decoded, inner.Args[0])
			c.OblSt("path", "extractTextFromJSON", from != nil && left.first(from), inner.Pos, o.St, "a nested field is looked up in %v", from)
			c.OblSt("path", "extractTextFromJSON", left.rest(o.St, inner.Args[1]), inner.Pos, o.St, "in a nested field %v is looked up", inner.Args[1])
		case -1:
			// a field of the line itself
			var v *eng.Term
			for _, ev := range evs {
				if ev.Kind == "mapread" && ev.Addr == fields {
					c.OblSt("value", "extractTextFromJSON", left.last(o.St, ev.Args[0]), ev.Pos, o.St, "another field is read")
				}
			}
			terms := map[*eng.Term]bool{}
			for t := range o.St.FactTerms() {
				subterms(t, terms)
			}
			subterms(ret, terms)
			for t := range terms {
				if k := key(t); k != nil && left.last(o.St, k) {
					v = t
				}
			}
			if v == nil {
				c.OblSt("value", "extractTextFromJSON", empty, f.Pos(), o.St, "a field that is not there has a text")
				continue
			}
			is := func(t types.Type) bool { return o.St.Truth(eng.Is(v, t)) == 1 }
			rule, ok := "value", false
			switch {
			case is(list):
				rule = "list"
				ok = c.joined(o.St, ret, v, list, anyT)
			case is(types.Typ[types.String]), is(types.Typ[types.Float64]), is(types.Typ[types.Bool]):
				ok = scalar(o.St, ret, v)
			case is(types.Typ[types.Float32]): // decoding makes none
				ok = true
			default:
				// none of those
				ok = empty
				for _, t := range []types.Type{types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Bool], list} {
					ok = ok && o.St.Truth(eng.Is(v, t)) == -1
				}
			}
			c.OblSt(rule, "extractTextFromJSON", ok, f.Pos(), o.St, "the text of a field is %v", ret)
		default:
			c.OblSt("path", "extractTextFromJSON", false, f.Pos(), o.St, "it is not looked at whether a field is nested")
		}
	}
}

// into2 is the type a pointer handed over as an interface value points to.
func into2(t *eng.Term) types.Type {
	if t.Op == eng.OIface {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return t.Typ
}

// scalar reports whether a text is that of a decoded value, whose type the path knows.
func scalar(st *eng.State, t, v *eng.Term) bool {
	is := func(t types.Type) bool { return st.Truth(eng.Is(v, t)) == 1 }
	t = unconv(t)
	formats := func(verbs ...string) bool {
		if t.Op != eng.OCall || t.Name != "fmt.Sprintf" {
			return false
		}
		f, ok := t.Args[0].StrVal()
		found := false
		for _, verb := range verbs {
			found = found || f == verb
		}
		es, known := st.Elems(t.Args[1], types.NewInterfaceType(nil, nil))
		return ok && found && known && len(es) == 1 && held(es[0], v)
	}
	switch {
	case is(types.Typ[types.String]):
		return held(t, v)
	case is(types.Typ[types.Float64]):
		if t.Op == eng.OCall && t.Name == "strconv.FormatFloat" && held(t.Args[0], v) {
			f, ok1 := t.Args[1].IntVal()
			p, ok2 := t.Args[2].IntVal()
			b, ok3 := t.Args[3].IntVal()
			return ok1 && ok2 && ok3 && f == 'f' && p == 6 && b == 64
		}
		return formats("%f", "%.6f")
	case is(types.Typ[types.Bool]):
		if t.Op == eng.OCall && t.Name == "strconv.FormatBool" {
			return held(t.Args[0], v)
		}
		b := st.Truth(eng.Assert(v, types.Typ[types.Bool]))
		return formats("%v", "%t") || isStr(t, "true") && b == 1 || isStr(t, "false") && b == -1
	}
	return false
}

// held reports whether a term is the value an interface value holds, or that interface value.
func held(t, v *eng.Term) bool {
	t = unconv(t)
	return t == v || t.Op == eng.OAssert && t.Args[0] == v
}

// joined reports whether a text is that of the values of a list, one on a line.
func (c *Ctx) joined(st *eng.State, t, v *eng.Term, list, anyT types.Type) bool {
	t = unconv(t)
	if t.Op != eng.OCall || t.Name != "strings.Join" || !isStr(t.Args[1], "\n") {
		return false
	}
	src := eng.Assert(v, list)
	one := func(k *eng.IterKind, idx *eng.Term) *eng.Term { return k.St.Load(k.St.ElemAddr(src, idx), anyT) }
	return c.collects(st, t.Args[0], src, func(k *eng.IterKind, idx *eng.Term) int {
		el := one(k, idx)
		none := true
		for _, b := range []types.Type{types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Bool]} {
			switch k.St.Truth(eng.Is(el, b)) {
			case 1:
				return 1
			case 0:
				none = false
			}
		}
		if k.St.Truth(eng.Is(el, types.Typ[types.Float32])) == 1 {
			return 1
		}
		if none {
			return -1
		}
		return 0
	}, func(k *eng.IterKind, idx, got *eng.Term) bool {
		el := one(k, idx)
		return k.St.Truth(eng.Is(el, types.Typ[types.Float32])) == 1 || scalar(k.St, got, el)
	})
}

// alerts decides what happens with the matches of a line.
func (c *Ctx) alerts() {
	k := c.command()
	r := k.setup()
	check := mon + ".checkRule"
	c.opaque(check)
	x := k.exec()
	mt := c.Type(mon + ".RuleMatch")
	zero := eng.Int(0)
	cell := k.at(x.cmd, "RuleMatches")
	for _, s := range streams {
		for _, rd := range x.readers(s) {
			name := rd.history
			for _, o := range rd.outs {
				inst := lineLoop(o.St.Events(), rd.scan)
				if inst == nil {
					continue
				}
				for _, kd := range inst.Kinds {
					var call *eng.Event
					n := 0
					for _, ev := range kd.Events {
						if c.callTo(ev, check) {
							call = ev
							n++
						}
					}
					ok := n == 1 && ofLine(kd.Events, rd.scan, call.Args[0]) && call.Args[1] == k.get(kd.St, x.cmd, "Config", "Rules")
					if !c.OblSt("remembered", name, ok, inst.Pos, kd.St, "a line is not checked against the rules of the configuration") {
						continue
					}
					qs := k.requests(r, kd.Events)
					for _, some := range []bool{true, false} {
						st := kd.St.Clone()
						if !st.Assume(eng.Lt(zero, st.LenOf(call.Val)), some) {
							continue
						}
						if !some {
							c.OblSt("alert", name, len(qs) == 0, inst.Pos, st, "a report is sent for a line no rule matches")
							continue
						}
						// the matches are added to those there are
						var was *eng.Term
						added, at := 0, -1
						for i, ev := range kd.Events {
							switch {
							case ev.Kind == "load" && ev.Addr == cell:
								was = ev.Val
							case ev.Kind == "unlock":
								was = nil
							case ev.Kind == "store" && ev.Addr == cell:
								good := was != nil && c.pointwise(st, ev.Val, mt, from(was, zero, st.LenOf(was), mt), from(call.Val, zero, st.LenOf(call.Val), mt))
								if c.OblSt("remembered", name, good, ev.Pos, st, "the matches of a line are not added to the others in one step") {
									added++
									at = i
								}
							}
						}
						c.OblSt("remembered", name, added == 1, inst.Pos, st, "the matches of a line are remembered %d times", added)
						for _, rate := range []bool{true, false} {
							st := st.Clone()
							if !st.Assume(eng.Lt(zero, k.get(st, x.cmd, "Config", "RuleQuantity")), rate) {
								continue
							}
							want := "Alert"
							if rate {
								want = "AlertRate"
							}
							good := len(qs) == 1 && qs[0].sure && k.is(st, qs[0], x.cmd, want) && at < qs[0].at
							c.OblSt("alert", name, good, inst.Pos, st, "a line a rule matches sends %d reports, or one for another reason, or before it is remembered", len(qs))
						}
					}
				}
			}
		}
	}
	c.E.Opaque = nil
}
