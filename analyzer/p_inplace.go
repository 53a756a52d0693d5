package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

// inPlace finds where a list that others hold is overwritten: an append behind the front part of it that is not what
// the list becomes. It is a flow-insensitive look at functions that call each other.
type inPlace struct {
	c     *Ctx
	match func(v ssa.Value) bool // the lists it is about
	memo  map[*ssa.Function]map[int]token.Pos
}

// fronts are the places a list comes from of which a front part is cut off in v, if any.
func fronts(v ssa.Value, cut bool, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			fronts(e, cut, out, seen)
		}
	case *ssa.Slice:
		if _, arr := x.X.(*ssa.Alloc); arr {
			return
		}
		fronts(x.X, cut || x.High != nil && x.Max == nil, out, seen)
	case *ssa.ChangeType:
		fronts(x.X, cut, out, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			fronts(x.Call.Args[0], cut, out, seen)
		}
	case *ssa.Parameter, *ssa.UnOp, *ssa.Field, *ssa.Lookup:
		if cut {
			out[v] = true
		}
	}
}

// origins are the places a list comes from.
func origins(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	fronts(v, true, out, map[ssa.Value]bool{})
	return out
}

// becomes reports whether v is what the variable that o was read from becomes, so that nothing else is left of o.
func becomes(v ssa.Value, o ssa.Value) bool {
	ld, ok := o.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	todo, seen := []ssa.Value{v}, map[ssa.Value]bool{}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if seen[x] || x.Referrers() == nil {
			continue
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Val == x && samePlace(y.Addr, ld.X) {
					return true
				}
			case *ssa.Phi:
				todo = append(todo, y)
			case *ssa.Slice:
				todo = append(todo, y)
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && y.Call.Args[0] == x {
					todo = append(todo, y)
				}
			}
		}
	}
	return false
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePlace(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && samePlace(x.X, y.X)
	}
	return false
}

// writes are the parameters of a function whose elements it overwrites; shared is told of other lists it does this to.
func (p *inPlace) writes(f *ssa.Function, shared func(f *ssa.Function, pos token.Pos)) map[int]token.Pos {
	if m, ok := p.memo[f]; ok {
		return m
	}
	m := map[int]token.Pos{}
	p.memo[f] = m
	hit := func(o, result ssa.Value, pos token.Pos) {
		if x, ok := o.(*ssa.Parameter); ok {
			for i, q := range f.Params {
				if q == x {
					m[i] = pos
				}
			}
			return
		}
		if result == nil || !becomes(result, o) {
			shared(f, pos)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Store); ok {
				if at, ok := x.Addr.(*ssa.IndexAddr); ok && p.match(at.X) {
					for o := range origins(at.X) {
						hit(o, nil, x.Pos())
					}
				}
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && p.match(cc.Args[0]) {
					out := map[ssa.Value]bool{}
					fronts(cc.Args[0], false, out, map[ssa.Value]bool{})
					for o := range out {
						hit(o, call.Value(), cc.Pos())
					}
				}
				continue
			}
			g := cc.StaticCallee()
			if g == nil || g.Blocks == nil {
				continue
			}
			for i := range p.writes(g, shared) {
				if i < len(cc.Args) && p.match(cc.Args[i]) {
					for o := range origins(cc.Args[i]) {
						var res ssa.Value
						if v := call.Value(); v != nil {
							res = v
						}
						hit(o, res, cc.Pos())
					}
				}
			}
		}
	}
	return m
}

// unshared checks that no function that is called from root overwrites lists that others hold.
func (c *Ctx) unshared(rule string, roots []*ssa.Function, match func(v ssa.Value) bool, what string) {
	p := &inPlace{c: c, match: match, memo: map[*ssa.Function]map[int]token.Pos{}}
	for _, f := range roots {
		bad := false
		ws := p.writes(f, func(g *ssa.Function, pos token.Pos) {
			bad = true
			c.Obl(rule, eng.FuncName(g), false, pos, "%s", what)
		})
		for _, pos := range ws {
			bad = true
			c.Obl(rule, eng.FuncName(f), false, pos, "%s", what)
		}
		if !bad {
			c.Obl(rule, eng.FuncName(f), true, f.Pos(), "")
		}
	}
}
