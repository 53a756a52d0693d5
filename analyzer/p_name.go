package main

import (
	"go/types"
	"strings"

	"monnyverif/eng"
)

// collection is a list a map iteration gathers: keys or "@"+keys.
type collection struct {
	sym, seq           *eng.Term // as gathered, in order
	at                 bool      // items are "@"+key
	allSet, allEmpty   bool      // includes every key with a (an empty) value
	onlySet, onlyEmpty bool
}

// output describes the text an event writes: nil when the event writes none.
func output(st *eng.State, ev *eng.Event) []*eng.Term {
	if ev.Kind != "call" {
		return nil
	}
	var raw *eng.Term
	list := func(i int) *eng.Term {
		if ev.Var != nil && i == len(ev.Args)-1 {
			return ev.Var
		}
		return ev.Args[i]
	}
	switch ev.Name {
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "io.WriteString":
		raw = ev.Args[1]
	case "fmt.Fprintf":
		if parts, ok := st.Format(ev.Args[1], list(2)); ok {
			return text(st, parts...)
		}
		return ev.Args[2:]
	case "fmt.Fprint", "fmt.Fprintln":
		if es, ok := st.Elems(list(1), types.NewInterfaceType(nil, nil)); ok {
			return text(st, es...)
		}
		return ev.Args[1:]
	default:
		return nil
	}
	return text(st, raw)
}

// text splits written values into constant pieces and terms.
func text(st *eng.State, ts ...*eng.Term) []*eng.Term {
	out := []*eng.Term{}
	for _, t := range ts {
		for t.Op == eng.OIface || t.Op == eng.OConv && (t.Name == "bytes" || t.Name == "string") {
			t = t.Args[0]
		}
		if n, ok := t.IntVal(); ok {
			t = eng.Str(string(rune(n)))
		}
		if t.Op == eng.ONil {
			continue
		}
		if n, ok := st.LenOf(t).IntVal(); ok && n == 0 {
			continue
		}
		if t.Op == eng.OCall && t.Name == "concat" {
			out = append(out, text(st, t.Args...)...)
			continue
		}
		if es, ok := st.Elems(t, types.Typ[types.Byte]); ok && t.Op != eng.OConst {
			s, all := "", len(es) > 0
			for _, e := range es {
				n, ok := e.IntVal()
				all = all && ok
				s += string(rune(n))
			}
			if all {
				t = eng.Str(s)
			}
		}
		out = append(out, t)
	}
	return out
}

func sorted(t *eng.Term) *eng.Term { return eng.Mk(eng.OCall, "sorted", t.Typ, t) }

func checkM06(c *Ctx) {
	c.E.NoMerge = true
	c.marshal()
	t := c.Type("pkg/metric.Name")
	str := types.Typ[types.String]
	fName := c.role(t, "name", typeIs("string"))
	fMD := c.role(t, "md", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	n := c.Sym("n", t)
	md := structField(n, t, fMD)
	// String
	c.opaque("pkg/metric.MarshalText")
	f := c.ValueMethod(t, "String")
	for _, o := range c.Run(f, c.E.NewState(), n) {
		if o.Kind != "return" {
			c.OblSt("name", "Name.String", false, f.Pos(), o.St, "%s", o.Why)
			continue
		}
		var call *eng.Event
		eachEvent(o.St.Events(), func(ev *eng.Event) {
			if c.callTo(ev, "pkg/metric.MarshalText") && ev.Args[0] == md {
				call = ev
			}
		})
		if call == nil {
			c.OblSt("name", "Name.String", false, f.Pos(), o.St, "does not render the metadata")
			continue
		}
		for _, failed := range []bool{true, false} {
			q := o.St.Clone()
			if !q.Assume(eng.Eq(call.Res, eng.Nil(nil)), !failed) {
				continue
			}
			got := text(q, o.Ret[0])
			var want []*eng.Term
			want = append(want, structField(n, t, fName))
			if !failed {
				want = append(want, call.Val)
			}
			ok := len(got) == len(want)
			for i := range want {
				ok = ok && got[i] == want[i]
			}
			c.OblSt("name", "Name.String", ok, f.Pos(), q, "renders as %v", o.Ret[0])
		}
	}
	c.E.Opaque = nil
	// construction
	f = c.Fn("pkg/metric.NewName")
	args := c.params(f, 0)
	for _, o := range c.Run(f, c.E.NewState(), args...) {
		if o.Kind != "return" {
			continue
		}
		nm, m := structField(o.Ret[0], t, fName), structField(o.Ret[0], t, fMD)
		ok := nm == args[0]
		switch isNil(o.St, args[1]) {
		case 1:
			keys, _, known := o.St.KnownMap(m)
			ok = ok && isNil(o.St, m) == -1 && known && len(keys) == 0
		default:
			ok = ok && isNil(o.St, m) == -1 && (m == args[1] || c.copiedMap(o.St, m, args[1]))
		}
		c.OblSt("copy", "NewName", ok, f.Pos(), o.St, "makes a name with metadata %v from %v", m, args[1])
	}
	f = c.Fn("pkg/metric.NewNameFrom")
	for _, o := range c.Run(f, c.E.NewState(), n) {
		if o.Kind != "return" {
			continue
		}
		nm, m := structField(o.Ret[0], t, fName), structField(o.Ret[0], t, fMD)
		ok := nm == structField(n, t, fName) && m != md && (m.Op == eng.OMapA) && c.copiedMap(o.St, m, md)
		c.OblSt("copy", "NewNameFrom", ok, f.Pos(), o.St, "does not copy the name and all its metadata")
	}
	// additions
	f = c.ValueMethod(t, "AddMetadata")
	src := c.Sym("add", f.Params[1].Type())
	for _, o := range c.Run(f, c.E.NewState(), n, src) {
		if o.Kind != "return" {
			continue
		}
		ok := c.copiedMap(o.St, md, src) && onlyMapWrites(o.St, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			return ev.Addr == md && len(sc) > 0 && mapPair(ev, sc[len(sc)-1], src)
		})
		c.OblSt("add", "Name.AddMetadata", ok, f.Pos(), o.St, "does not set every entry given, or sets another")
	}
	f = c.ValueMethod(t, "AddAnnotation")
	anns := c.Sym("anns", f.Params[1].Type())
	for _, o := range c.Run(f, c.E.NewState(), n, anns) {
		if o.Kind != "return" {
			continue
		}
		match := func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if ev.Kind != "mapwrite" || ev.Addr != md || len(sc) == 0 {
				return false
			}
			inst := sc[len(sc)-1]
			v, ok := ev.Val.StrVal()
			if !ok || v != "" || inst.Trav == nil || inst.Trav.Idx == nil || !full(o.St, inst, anns, inst.Trav.Idx) {
				return false
			}
			return ev.Args[0] == o.St.Load(o.St.ElemAddr(anns, inst.Trav.Idx), str)
		}
		ok := o.St.Truth(eng.Eq(o.St.LenOf(anns), eng.Int(0))) == 1 || covers(o.St.Events(), nil, match)
		ok = ok && onlyMapWrites(o.St, match)
		c.OblSt("add", "Name.AddAnnotation", ok, f.Pos(), o.St, "does not set every annotation given, or sets something else")
	}
}

// mapPair reports whether an event writes the pair of an iteration over a map.
func mapPair(ev *eng.Event, inst *eng.LoopInst, src *eng.Term) bool {
	if ev.Kind != "mapwrite" || inst.Trav == nil || inst.Trav.Kind != "map" || inst.Trav.Map != src || ev.Args[0] != inst.Trav.Key {
		return false
	}
	v := ev.Val
	return v != nil && v.Op == eng.OLookup && v.Args[0] == src && v.Args[1] == inst.Trav.Key
}

// copiedMap reports whether the path writes every entry of src to m.
func (c *Ctx) copiedMap(st *eng.State, m, src *eng.Term) bool {
	if st.Truth(eng.Eq(st.LenOf(src), eng.Int(0))) == 1 || isNil(st, src) == 1 {
		return true
	}
	for _, ev := range st.Events() {
		// by way of another copy
		if ev.Kind == "loop" && ev.Loop.Trav != nil && ev.Loop.Trav.Kind == "map" {
			if via := ev.Loop.Trav.Map; via != src && via != m && via.Op == eng.OMapA && c.copiedMap(st, via, src) && c.copiedMap(st, m, via) {
				return true
			}
		}
	}
	return covers(st.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
		return len(sc) > 0 && ev.Kind == "mapwrite" && ev.Addr == m && mapPair(ev, sc[len(sc)-1], src)
	})
}

// onlyMapWrites reports whether every write to a map that is not new is accepted.
func onlyMapWrites(st *eng.State, match func(ev *eng.Event, sc []*eng.LoopInst) bool) bool {
	ok := true
	var rec func(evs []*eng.Event, sc []*eng.LoopInst)
	rec = func(evs []*eng.Event, sc []*eng.LoopInst) {
		for _, ev := range evs {
			if (ev.Kind == "mapwrite" || ev.Kind == "mapdelete") && ev.Addr.Op != eng.OMapA && !match(ev, sc) {
				ok = false
			}
			if ev.Kind == "loop" {
				for _, k := range ev.Loop.Kinds {
					rec(k.Events, append(sc[:len(sc):len(sc)], ev.Loop))
				}
			}
		}
	}
	rec(st.Events(), nil)
	return ok
}

func (c *Ctx) marshal() {
	f := c.Fn("pkg/metric.MarshalText")
	m := c.Sym("m", f.Params[0].Type())
	name := "MarshalText"
	encode := func(ev *eng.Event) bool {
		return ev.Kind == "call" && strings.HasSuffix(ev.Name, "logfmt.Encoder).EncodeKeyval")
	}
	none := eng.Eq(c.E.NewState().LenOf(m), eng.Int(0))
	isEmptyVal := func(st *eng.State, el *eng.Term) int {
		return st.Truth(eng.Eq(eng.Mk(eng.OLookup, "", types.Typ[types.String], m, el), eng.Str("")))
	}
	absent := func(st *eng.State, el *eng.Term) bool {
		return has(st, false, func(t *eng.Term) bool { return t.Op == eng.OHas && t.Args[0] == m && t.Args[1] == el })
	}
	for _, o := range SplitNil(c.Run(f, c.E.NewState(), m), 1) {
		if o.Kind != "return" {
			c.OblSt("complete", name, false, f.Pos(), o.St, "%s", o.Why)
			continue
		}
		if o.St.Truth(none) == 1 {
			c.OblSt("empty", name, o.St.Truth(eng.Eq(o.St.LenOf(o.Ret[0]), eng.Int(0))) == 1 && isNil(o.St, o.Ret[1]) == 1, f.Pos(), o.St, "metadata without entries renders as %v", o.Ret)
			continue
		}
		c.OblSt("errors", name, isNil(o.St, o.Ret[1]) == -1 || !anyLost(o.St, encode), f.Pos(), o.St, "succeeds although an entry could not be encoded")
		if isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		evs := o.St.Events()
		// what the iterations over the map gather
		var cols []*collection
		unordered := map[*eng.Term]bool{}
		for i, ev := range evs {
			if ev.Kind != "loop" || ev.Loop.Trav == nil {
				continue
			}
			inst := ev.Loop
			var el *eng.Term // the key of the iteration
			good := complete(evs[i:], inst)
			inMap := inst.Trav.Kind == "map"
			if inMap {
				good = good && inst.Trav.Map == m
				el = inst.Trav.Key
			} else {
				for _, col := range cols {
					if col.allSet && col.allEmpty && !col.at && inst.Trav.Idx != nil && !inst.Trav.Rev && full(o.St, inst, col.seq, inst.Trav.Idx) {
						el = o.St.Load(o.St.ElemAddr(col.seq, inst.Trav.Idx), types.Typ[types.String])
					}
				}
			}
			for _, s := range inst.Slots {
				if s.Sym == nil {
					continue
				}
				if inMap {
					unordered[s.Sym] = true
				}
				if _, slice := s.Typ.Underlying().(*types.Slice); !slice || el == nil {
					continue
				}
				col := &collection{sym: s.Sym, seq: s.Sym, allSet: true, allEmpty: true, onlySet: true, onlyEmpty: true}
				if inMap {
					col.seq = sorted(s.Sym)
				}
				ok, any := good && s.Init != nil && c.isEmpty(inst.Entry, s.Init), false
				for _, k := range inst.Kinds {
					if absent(k.St, el) {
						continue
					}
					empty := isEmptyVal(k.St, el)
					next := k.Next[s]
					switch {
					case next == s.Sym:
						if empty != 1 {
							col.allSet = false
						}
						if empty != -1 {
							col.allEmpty = false
						}
					case next != nil && next.Op == eng.OAppend && len(next.Args) == 2 && next.Args[0] == s.Sym:
						at := next.Args[1] == eng.Concat(eng.Str("@"), el)
						if !at && next.Args[1] != el || any && at != col.at {
							ok = false
						}
						col.at, any = at, true
						if empty != -1 {
							col.onlySet = false
						}
						if empty != 1 {
							col.onlyEmpty = false
						}
					default:
						ok = false
					}
				}
				if ok && any {
					if inMap && col.allSet && col.allEmpty {
						// the engine has a closed form for it
						body := eng.Bound
						if col.at {
							body = eng.Concat(eng.Str("@"), body)
						}
						col.sym = eng.Comp(eng.Pure("maplen", types.Typ[types.Int], m), body, s.Typ)
						col.seq = sorted(col.sym)
					}
					cols = append(cols, col)
				}
			}
		}
		// nothing gathered in map order is written
		free := func(t *eng.Term) bool { // contains something gathered in map order
			bad := false
			var rec func(t *eng.Term)
			rec = func(t *eng.Term) {
				if t == nil || bad || t.Op == eng.OLen || t.Op == eng.OCall && t.Name == "sorted" {
					return
				}
				if unordered[t] || t.Op == eng.OCall && t.Name == "maplen" {
					bad = true
					return
				}
				for _, a := range t.Args {
					rec(a)
				}
			}
			rec(t)
			return bad
		}
		order := !free(o.Ret[0])
		writes := func(st *eng.State, ev *eng.Event) []*eng.Term {
			if encode(ev) {
				return ev.Args[1:]
			}
			return output(st, ev)
		}
		var rec func(st *eng.State, evs []*eng.Event, inMap bool)
		rec = func(st *eng.State, evs []*eng.Event, inMap bool) {
			for _, ev := range evs {
				for _, t := range writes(st, ev) {
					if inMap || free(t) {
						order = false
					}
				}
				if ev.Kind == "loop" {
					for _, k := range ev.Loop.Kinds {
						rec(k.St, k.Events, inMap || ev.Loop.Trav != nil && ev.Loop.Trav.Kind == "map")
					}
				}
			}
		}
		rec(o.St, evs, false)
		c.OblSt("ordered", name, order, f.Pos(), o.St, "renders entries in the order the map is walked")
		// entries with a value
		lists := func(inst *eng.LoopInst, st *eng.State, want func(*collection) bool) (*collection, *eng.Term) {
			for _, col := range cols {
				if s := col.seq; want(col) && inst.Trav != nil && inst.Trav.Idx != nil && full(st, inst, s, inst.Trav.Idx) && !inst.Trav.Rev {
					return col, st.Load(st.ElemAddr(s, inst.Trav.Idx), types.Typ[types.String])
				}
			}
			return nil, nil
		}
		isPair := func(st *eng.State, ev *eng.Event, el *eng.Term) bool {
			if !encode(ev) || len(ev.Args) != 3 {
				return false
			}
			k, v := strip(ev.Args[1]), strip(ev.Args[2])
			if k != el {
				return false
			}
			if v.Op == eng.OLookup && v.Args[0] == m && v.Args[1] == el {
				return true
			}
			s, ok := v.StrVal()
			return ok && s == "" && absent(st, el)
		}
		none := func(want func(*collection) bool) bool {
			for _, col := range cols {
				if want(col) && c.isEmpty(o.St, col.sym) {
					return true
				}
			}
			return false
		}
		sets := func(col *collection) bool { return col.allSet && !col.at }
		empties := func(col *collection) bool { return col.allEmpty }
		pairs, marks := none(sets), none(empties)
		extra := false
		for i, ev := range evs {
			for _, t := range output(o.St, ev) {
				for _, col := range cols {
					if t.Op == eng.OCall && t.Name == "strings.Join" && t.Args[0] == col.seq {
						if sp, ok := t.Args[1].StrVal(); !ok || sp != " " || !col.at || !col.onlyEmpty {
							extra = true
						} else if col.allEmpty {
							marks = true
						}
					}
				}
			}
			if ev.Kind != "loop" || !complete(evs[i:], ev.Loop) {
				continue
			}
			inst := ev.Loop
			if col, el := lists(inst, o.St, sets); col != nil {
				all := true
				for _, k := range inst.Kinds {
					if absent(k.St, el) {
						continue
					}
					n := 0
					eachEvent(k.Events, func(ev *eng.Event) {
						if isPair(k.St, ev, el) {
							n++
						} else if encode(ev) {
							extra = true
						}
					})
					e := isEmptyVal(k.St, el)
					if n == 0 && (col.onlySet || e != 1) {
						all = false
					}
					if n > 1 || n == 1 && !col.onlySet && e != -1 {
						extra = true
					}
				}
				if all {
					pairs = true
				}
			} else if anyEvent([]*eng.Event{ev}, encode) {
				extra = true
			}
			if col, el := lists(inst, o.St, empties); col != nil {
				want := el
				if !col.at {
					want = eng.Concat(eng.Str("@"), el)
				}
				all := len(inst.Kinds) > 0
				for _, k := range inst.Kinds {
					if absent(k.St, el) {
						continue
					}
					n := 0
					eachEvent(k.Events, func(ev *eng.Event) {
						var ps []*eng.Term
						for _, p := range output(k.St, ev) {
							ps = append(ps, p)
						}
						for i, p := range ps {
							if p == want {
								n++
							} else if s, ok := p.StrVal(); ok && !col.at && strings.HasSuffix(s, "@") && i+1 < len(ps) && ps[i+1] == el {
								n++
							}
						}
					})
					e := isEmptyVal(k.St, el)
					if n == 0 && (col.onlyEmpty || e != -1) {
						all = false
					}
				}
				if all {
					marks = true
				}
			}
		}
		c.OblSt("complete", name, pairs && marks && !extra, f.Pos(), o.St, "does not render every entry once (values %v, annotations %v)", pairs, marks)
		// brackets
		var out []*eng.Term
		known := true
		for _, ev := range evs {
			if ev.Kind == "loop" {
				for _, k := range ev.Loop.Kinds {
					if anyEvent(k.Events, func(e *eng.Event) bool { return output(k.St, e) != nil }) {
						out = append(out, nil)
						break
					}
				}
			}
			out = append(out, output(o.St, ev)...)
		}
		for _, t := range out {
			if t == nil {
				known = false
				continue
			}
			if _, ok := t.StrVal(); !ok && !(t.Op == eng.OCall && t.Name == "strings.Join") {
				known = false
			}
		}
		if known && len(out) > 0 {
			first, ok1 := out[0].StrVal()
			last, ok2 := out[len(out)-1].StrVal()
			c.OblSt("brackets", name, ok1 && ok2 && first == "[" && last == "]", f.Pos(), o.St, "does not enclose the entries in brackets")
			spaces := 0
			for _, t := range out {
				if s, ok := t.StrVal(); ok {
					spaces += strings.Count(s, " ")
				}
			}
			both := !none(sets) && !none(empties)
			c.OblSt("brackets", name, (spaces == 1) == both, f.Pos(), o.St, "does not part the entries by one space")
		}
	}
}
