package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

// Field is the address of a (nested) field of the object at base, whose type is a pointer to a struct.
func (c *Ctx) Field(base *eng.Term, t types.Type, names ...string) (*eng.Term, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, n := range names {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.Violate("anchor", t.String()+"."+n, token.NoPos, nil, "%s is not a struct", t)
			panic(abort{"field"})
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				base = eng.Fld(base, i, types.NewPointer(t))
				t = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			c.Violate("anchor", t.String()+"."+n, token.NoPos, nil, "type %s has no field %s", t, n)
			panic(abort{"field"})
		}
	}
	return base, t
}

// Get loads a (nested) field of the object at base.
func (c *Ctx) Get(st *eng.State, base *eng.Term, t types.Type, names ...string) *eng.Term {
	a, ft := c.Field(base, t, names...)
	return st.Load(a, ft)
}

// elemOf splits the value of a sequence element.
func elemOf(t *eng.Term) (seq, idx *eng.Term, ok bool) {
	if t != nil && t.Op == eng.OInit && t.Args[0].Op == eng.OElem {
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	}
	return nil, nil, false
}

// baseElem walks from a projection of an element to the element's sequence and index.
func baseElem(t *eng.Term) (seq, idx *eng.Term, ok bool) {
	for t != nil {
		switch t.Op {
		case eng.OElem:
			return t.Args[0], t.Args[1], true
		case eng.OInit, eng.OFld, eng.OField, eng.OAssert:
			t = t.Args[0]
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// full reports whether the loop visits every element of seq, binding idx.
func full(st *eng.State, inst *eng.LoopInst, seq, idx *eng.Term) bool {
	tr := inst.Trav
	if tr == nil || tr.Kind != "index" || tr.Idx != idx {
		return false
	}
	for seq.Op == eng.OCopy {
		seq = seq.Args[0]
	}
	return tr.N == st.LenOf(seq) || st.Same(tr.N, st.LenOf(seq)) || inst.Entry.Same(tr.N, inst.Entry.LenOf(seq))
}

// complete reports whether the events that follow a loop leave it after everything was visited.
func complete(rest []*eng.Event, inst *eng.LoopInst) bool {
	for _, ev := range rest {
		if ev.Kind == "loopexit" && ev.Loop == inst {
			return ev.Exit.Header
		}
	}
	return false
}

// covers reports whether the events of a path include, for every element visited by a complete loop nest, an event
// accepted by match; scopes lists the enclosing loops, outermost first.
func covers(evs []*eng.Event, scopes []*eng.LoopInst, match func(ev *eng.Event, scopes []*eng.LoopInst) bool) bool {
	for i, ev := range evs {
		if match(ev, scopes) {
			return true
		}
		if ev.Kind == "loop" && len(ev.Loop.Kinds) > 0 && complete(evs[i:], ev.Loop) {
			all := true
			for _, k := range ev.Loop.Kinds {
				if !covers(k.Events, append(scopes[:len(scopes):len(scopes)], ev.Loop), match) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// anyEvent reports whether some event of the path, including those of loop iterations, is accepted.
func anyEvent(evs []*eng.Event, match func(ev *eng.Event) bool) bool {
	found := false
	eachEvent(evs, func(ev *eng.Event) {
		if match(ev) {
			found = true
		}
	})
	return found
}

// eachEvent visits the events of a path and of the iterations of its loops.
func eachEvent(evs []*eng.Event, f func(ev *eng.Event)) {
	seen := map[*eng.LoopInst]bool{}
	var rec func(evs []*eng.Event)
	rec = func(evs []*eng.Event) {
		for _, ev := range evs {
			f(ev)
			if ev.Kind == "loop" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, k := range ev.Loop.Kinds {
					rec(k.Events)
				}
				for _, x := range ev.Loop.Exits {
					_ = x
				}
			}
		}
	}
	rec(evs)
}

// member decides whether the path established that x is (1) or is not (-1) an element of seq.
func member(st *eng.State, seq, x *eng.Term) int {
	if st.Same(seq, eng.Nil(nil)) {
		return -1
	}
	if n, ok := st.LenOf(seq).IntVal(); ok && n == 0 {
		return -1
	}
	isElem := func(f *eng.Term) bool {
		if f.Op != eng.OEq {
			return false
		}
		for i := 0; i < 2; i++ {
			if s, _, ok := elemOf(f.Args[i]); ok && s == seq && (f.Args[1-i] == x || st.Same(f.Args[1-i], x)) {
				return true
			}
		}
		return false
	}
	for f, v := range st.FactTerms() {
		if v && isElem(f) {
			return 1
		}
	}
	neg := false
	for _, ev := range st.Events() {
		if ev.Kind != "loopexit" || !ev.Exit.Header || ev.Loop.Trav == nil {
			continue
		}
		inst := ev.Loop
		ok := true
		for _, k := range inst.Kinds {
			hit := false
			for f, v := range k.St.FactTerms() {
				if !v && isElem(f) {
					for i := 0; i < 2; i++ {
						if s, idx, is := elemOf(f.Args[i]); is && full(st, inst, s, idx) {
							hit = true
						}
					}
				}
			}
			if !hit {
				ok = false
			}
		}
		if ok && (len(inst.Kinds) > 0) {
			neg = true
		}
	}
	if neg {
		return -1
	}
	return 0
}

// has reports whether the path assumed a fact accepted by f with the given truth.
func has(st *eng.State, truth bool, f func(t *eng.Term) bool) bool {
	for t, v := range st.FactTerms() {
		if v == truth && f(t) {
			return true
		}
	}
	return false
}

// method finds a method of a type.
func (c *Ctx) Method(t types.Type, name string) *ssa.Function {
	for _, ty := range []types.Type{types.NewPointer(t), t} {
		ms := c.P.SSA.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name {
				return c.P.SSA.MethodValue(s)
			}
		}
	}
	c.Violate("anchor", t.String()+"."+name, token.NoPos, nil, "type %s has no method %s", t, name)
	panic(abort{"method"})
}

func retStr(o eng.Outcome) string {
	s := ""
	for _, r := range o.Ret {
		s += r.String() + " "
	}
	return s
}

const (
	tADD = token.ADD
	tSUB = token.SUB
	tMUL = token.MUL
	tQUO = token.QUO
)

// comesFrom reports whether every non-nil value t can take, following loop variables back to the iterations that set
// them, is accepted.
func (c *Ctx) comesFrom(t *eng.Term, ok func(*eng.Term) bool) bool {
	seen := map[*eng.Term]bool{}
	var rec func(t *eng.Term) bool
	rec = func(t *eng.Term) bool {
		if t == nil {
			return false
		}
		if seen[t] || t.Op == eng.ONil || ok(t) {
			return true
		}
		seen[t] = true
		inst := c.E.LoopVars[t]
		if inst == nil {
			return false
		}
		for _, s := range inst.Slots {
			if s.Sym != t {
				continue
			}
			if s.Init == nil || !rec(s.Init) {
				return false
			}
			for _, k := range inst.Kinds {
				if !rec(k.Next[s]) {
					return false
				}
			}
			return true
		}
		return false
	}
	return rec(t)
}

// elementwise reports whether out holds want(element) for every element of src, in order.
func (c *Ctx) elementwise(st *eng.State, out, src *eng.Term, outEl, srcEl types.Type, want func(st *eng.State, el *eng.Term) *eng.Term) bool {
	same := func() bool {
		n := st.LenOf(out)
		return n == st.LenOf(src) || st.Same(n, st.LenOf(src))
	}
	if !same() {
		return false
	}
	if st.Same(st.LenOf(src), eng.Int(0)) {
		return true
	}
	i := c.Sym("i", types.Typ[types.Int])
	s2 := st.Clone()
	el := s2.Load(s2.ElemAddr(src, i), srcEl)
	if w := want(s2, el); w != nil && w == s2.Load(s2.ElemAddr(out, i), outEl) {
		return true
	}
	return covers(st.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
		if ev.Kind != "store" || len(sc) == 0 || ev.Addr.Op != eng.OElem {
			return false
		}
		tr := sc[len(sc)-1].Trav
		if tr == nil || tr.Idx == nil || !full(st, sc[len(sc)-1], src, tr.Idx) || ev.Addr != st.ElemAddr(out, tr.Idx) {
			return false
		}
		el := st.Load(st.ElemAddr(src, tr.Idx), srcEl)
		return ev.Val == want(st, el)
	})
}

// params makes arbitrary arguments for the parameters of a function from the i-th.
func (c *Ctx) params(f *ssa.Function, i int) []*eng.Term {
	var out []*eng.Term
	for _, p := range f.Params[i:] {
		out = append(out, c.Sym(f.Name()+"."+p.Name(), p.Type()))
	}
	return out
}

// ValueMethod finds a method declared on the values of a type.
func (c *Ctx) ValueMethod(t types.Type, name string) *ssa.Function {
	ms := c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return c.P.SSA.MethodValue(s)
		}
	}
	return c.Method(t, name)
}
