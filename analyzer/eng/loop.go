package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	e.loops[fn] = li
	return li
}

// Slot is a variable or memory cell that changes across iterations.
type Slot struct {
	Phi    *ssa.Phi
	Cell   *Term
	Typ    types.Type
	Init   *Term
	Sym    *Term
	mode   int // 0 fixed, 1 constants, 2 symbol
	consts []*Term
	seeded map[string]bool
}

// IterKind is one way through an iteration that reaches the back edge.
type IterKind struct {
	Part     string
	NextPart string
	St       *State
	head     *LogNode
	Next     map[*Slot]*Term
	Events   []*Event
	Facts    map[*Term]bool // facts added during the iteration

	back end // the end of the iteration
}

// LoopExit is one way an iteration leaves the loop.
type LoopExit struct {
	Header bool // the loop condition ended it: every element was visited
	Kind   string
	St     *State
	Part   string
}

// Traversal describes the elements a loop visits.
type Traversal struct {
	Kind string // index map
	Idx  *Term  // index of the current element
	N    *Term  // number of visited elements when exhausted
	Map  *Term
	Key  *Term
	Rev  bool
}

// LoopInst is a solved loop.
type LoopInst struct {
	ID      int
	Fn      *ssa.Function
	Pos     token.Pos
	Entry   *State
	Slots   []*Slot
	Kinds   []*IterKind
	Exits   []*LoopExit
	Trav    *Traversal
	startID int
	l       *loop
}

// Local reports whether a term is made anew by every iteration.
func (inst *LoopInst) Local(t *Term) bool { return inst.local(t) }

func (inst *LoopInst) local(t *Term) bool {
	return hasLeaf(t, func(x *Term) bool {
		switch x.Op {
		case OAlloc, OMapA, OChan, OMake, ORes, OKey, OSym, OIter:
			return x.ID > inst.startID
		case OLoop:
			return x.ID > inst.startID && x.N != inst.ID
		}
		return false
	})
}

// variant reports whether t depends on the iteration.
func (inst *LoopInst) variant(e *Engine, t *Term) bool {
	return inst.local(t) || hasLeaf(t, func(x *Term) bool { return x.Op == OLoop && e.LoopVars[x] == inst })
}

func hasLeaf(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.Poly {
			for _, v := range m.vs {
				if rec(v) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// Has reports whether x occurs in t.
func Has(t, x *Term) bool { return hasLeaf(t, func(y *Term) bool { return y == x }) }

// HasOp reports whether a term with that constructor and name occurs in t.
func HasOp(t *Term, op Op, name string) bool {
	return hasLeaf(t, func(y *Term) bool { return y.Op == op && (name == "" || y.Name == name) })
}

// Find calls f on every subterm.
func Find(t *Term, f func(*Term)) {
	hasLeaf(t, func(y *Term) bool { f(y); return false })
}

// Subst replaces from by to.
func Subst(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x == nil {
			return nil
		}
		if x == from {
			return to
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if len(x.Args) > 0 || len(x.Poly) > 0 {
			args := make([]*Term, len(x.Args))
			changed := false
			for i, a := range x.Args {
				args[i] = rec(a)
				if args[i] != a {
					changed = true
				}
			}
			switch x.Op {
			case OLin:
				if changed {
					l := lin{c: map[*Term]int64{}, k: x.K}
					for i, a := range args {
						l = l.add(toLin(a), x.Coef[i])
					}
					r = l.term(x.Typ)
				}
			case OPoly:
				var ms []mono
				ch := false
				for _, m := range x.Poly {
					p := []mono{{c: m.c}}
					for _, v := range m.vs {
						w := rec(v)
						if w != v {
							ch = true
						}
						p = polyMul(p, toPoly(w))
					}
					ms = append(ms, p...)
				}
				if ch {
					r = polyTerm(ms, x.Typ)
				}
			default:
				if changed {
					switch x.Op {
					case OEq:
						r = Eq(args[0], args[1])
					case ONot:
						r = Not(args[0])
					case OLt:
						r = Lt(args[0], Int(0))
					case OFLt:
						r = FLt(args[0], args[1])
					default:
						y := *x
						y.Args = args
						r = intern(&y)
					}
				}
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func (e *Engine) doLoop(fr *frame, from *ssa.BasicBlock, l *loop, st *State, rg *region) []end {
	errs := len(e.Errs)
	if out, ok := e.unroll(fr.clone(), from, l, st.Clone(), rg); ok {
		return out
	}
	e.Errs = e.Errs[:errs]
	return e.summarise(fr, from, l, st, rg)
}

func (e *Engine) unroll(fr *frame, from *ssa.BasicBlock, l *loop, st *State, rg *region) ([]end, bool) {
	hif, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	_ = hif
	exits := false
	for _, s := range l.header.Succs {
		if !l.blocks[s] {
			exits = true
		}
	}
	if !exits {
		return nil, false
	}
	type item struct {
		fr   *frame
		from *ssa.BasicBlock
		st   *State
	}
	cur := []item{{fr, from, st}}
	var out []end
	r := &region{l: l, unroll: true, outer: rg}
	for iter := 0; len(cur) > 0; iter++ {
		if iter > 40 || len(cur) > 64 {
			return nil, false
		}
		var next []item
		for _, c := range cur {
			// the loop condition must be decided
			pf, ps := c.fr.clone(), c.st.Clone()
			if !e.decided(pf, c.from, l.header, ps) {
				return nil, false
			}
			for _, x := range e.body(c.fr, c.from, l.header, c.st, r) {
				if x.kind == "back" {
					next = append(next, item{x.fr, x.from, x.st})
				} else {
					out = append(out, x)
				}
			}
		}
		cur = next
	}
	return out, true
}

// decided evaluates the header of a loop and reports whether its condition has one value.
func (e *Engine) decided(fr *frame, from, h *ssa.BasicBlock, st *State) bool {
	n := 0
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	k := -1
	for i, p := range h.Preds {
		if p == from {
			k = i
		}
	}
	vals := make([]*Term, n)
	for i := 0; i < n && k >= 0; i++ {
		vals[i] = e.val(fr, h.Instrs[i].(*ssa.Phi).Edges[k])
	}
	for i := 0; i < n && k >= 0; i++ {
		fr.env[h.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	var run func(fr *frame, i int, st *State) bool
	run = func(fr *frame, i int, st *State) bool {
		for ; i < len(h.Instrs); i++ {
			if x, ok := h.Instrs[i].(*ssa.If); ok {
				return st.Truth(e.val(fr, x.Cond)) != 0
			}
			cs := e.instr(fr, h.Instrs[i], st)
			if len(cs) != 1 || cs[0].kind != "" {
				for _, c := range cs {
					if c.kind == "" && !run(c.fr, i+1, c.st) {
						return false
					}
				}
				return true
			}
			fr, st = cs[0].fr, cs[0].st
		}
		return false
	}
	return run(fr, n, st)
}

// Debug traces the loop fixpoints.
var Debug bool

type cand struct {
	slot *Slot
	c    lin  // over slot.Sym, <= 0
	len  bool // the slot is a list that is not empty
}

// holds reports whether a value of the slot keeps to the bound.
func (c cand) holds(s *State, v *Term) bool {
	if c.len {
		l := neg(toLin(s.LenOf(v)))
		l.k++
		return s.entailLe(l, 0)
	}
	return s.entailLe(substLin(c.c, c.slot.Sym, v), 0)
}

func (e *Engine) summarise(fr0 *frame, from *ssa.BasicBlock, l *loop, st0 *State, rg *region) []end {
	instN++
	inst := &LoopInst{ID: instN, Fn: fr0.fn, Entry: st0.Clone(), startID: tt.next, l: l}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			inst.Pos = in.Pos()
			break
		}
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	k := -1
	for i, p := range l.header.Preds {
		if p == from {
			k = i
		}
	}
	slots := map[interface{}]*Slot{}
	var order []*Slot
	addSlot := func(key interface{}, s *Slot) *Slot {
		s.seeded = map[string]bool{}
		slots[key] = s
		order = append(order, s)
		return s
	}
	for _, p := range phis {
		v := Sym(p.Name(), p.Type())
		if k >= 0 {
			v = e.val(fr0, p.Edges[k])
		}
		addSlot(p, &Slot{Phi: p, Typ: p.Type(), Init: v})
	}
	toSym := func(s *Slot) {
		if s.mode == 2 {
			return
		}
		s.mode = 2
		nm := fmt.Sprintf("%d:", inst.ID)
		if s.Phi != nil {
			c := s.Phi.Comment
			if c == "" {
				c = s.Phi.Name()
			}
			nm += c + "/" + s.Phi.Name()
		} else {
			nm += s.Cell.String() + fmt.Sprint(s.Cell.ID)
		}
		s.Sym = intern(&Term{Op: OLoop, Name: nm, N: inst.ID, Typ: s.Typ})
		e.LoopVars[s.Sym] = inst
	}
	roots := map[*Term]int{}
	var rootOrder []*Term
	gen := map[*Term]bool{}
	var genOrder []*Term
	var cands []cand
	candSeen := map[string]bool{}
	addCand := func(s *Slot, c lin) bool {
		key := fmt.Sprint(s.Sym.ID, ":", c.term(types.Typ[types.Int]).ID)
		if candSeen[key] {
			return false
		}
		candSeen[key] = true
		if !st0.entailLe(substLin(c, s.Sym, s.Init), 0) {
			return false
		}
		cands = append(cands, cand{s, c, false})
		return true
	}
	addLen := func(s *Slot) bool {
		c := lin{map[*Term]int64{st0.lenTerm(s.Sym): -1}, 1}
		key := fmt.Sprint(s.Sym.ID, ":", c.term(types.Typ[types.Int]).ID)
		if candSeen[key] {
			return false
		}
		candSeen[key] = true
		if n := (cand{s, c, true}); n.holds(st0, s.Init) {
			cands = append(cands, n)
			return true
		}
		return false
	}
	reg := &region{l: l, outer: rg}
	hasNext := false
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			_ = n
			hasNext = true
		}
	}
	_ = hasNext

	// others may run between two iterations
	free := e.Interfere && len(st0.locks) == 0
	foreign := func(c *Term) bool {
		if !free || st0.private(c) || e.Stable != nil && e.Stable(c) {
			return false
		}
		_, ok := e.Globals[c]
		return !ok
	}
	var kinds []*IterKind
	var ends []end
	var endParts []string
	early := map[*State]bool{}
	for round := 0; ; round++ {
		if Debug && round > 25 {
			fmt.Printf("round %d of loop in %s: slots", round, fr0.fn)
			for _, s := range order {
				fmt.Printf(" [%v %v mode %d init %v consts %v]", s.Phi, s.Cell, s.mode, s.Init, s.consts)
			}
			fmt.Printf(" roots %v gen %v cands", rootOrder, genOrder)
			for _, c := range cands {
				fmt.Printf(" %v", c.c.term(types.Typ[types.Int]))
			}
			fmt.Println()
		}
		if round > 40 {
			e.errf("loop in %s does not reach a fixpoint", fr0.fn)
			break
		}
		kinds, ends, endParts = nil, nil, nil
		changed := false
		type part struct{ vals []*Term }
		var work []part
		seen := map[string]bool{}
		constSlots := func() []*Slot {
			var cs []*Slot
			for _, s := range order {
				if s.mode == 1 {
					cs = append(cs, s)
				}
			}
			return cs
		}
		cs := constSlots()
		push := func(vals []*Term) {
			k := ""
			for _, v := range vals {
				k += fmt.Sprint(v.ID, ",")
			}
			if !seen[k] {
				seen[k] = true
				work = append(work, part{vals})
			}
		}
		var iv []*Term
		for _, s := range cs {
			iv = append(iv, s.Init)
		}
		push(iv)
		for len(work) > 0 && !changed {
			p := work[0]
			work = work[1:]
			fr, st := fr0.clone(), st0.Clone()
			if free {
				st.interfere()
			}
			for _, r := range rootOrder {
				st.Havoc(r, roots[r])
				delete(st.mem, intern(&Term{Op: OUn, Name: "content", Args: []*Term{r}}))
			}
			for _, m := range genOrder {
				st.maps[m] = append(st.maps[m][:len(st.maps[m]):len(st.maps[m])], mapUpd{gen: true})
			}
			ci := 0
			partName := ""
			for _, s := range order {
				var v *Term
				switch s.mode {
				case 0:
					v = s.Init
				case 1:
					v = p.vals[ci]
					partName += slotName(s) + "=" + v.String() + ";"
					ci++
				case 2:
					v = s.Sym
				}
				if s.Phi != nil {
					fr.env[s.Phi] = v
				} else if s.mode != 0 {
					st.mem[s.Cell] = v
				}
			}
			if e.KnownCell != nil {
				for _, s := range order {
					if s.mode == 2 && s.Phi == nil {
						e.KnownCell(st, s.Cell)
					}
				}
			}
			for _, c := range cands {
				st.lin = append(st.lin, c.c)
			}
			st.loops = append(st.loops, inst)
			st.Emit(&Event{Kind: "loop", Loop: inst, Part: partName, Fn: fr.fn, Pos: inst.Pos, Stack: fr.stack})
			head := st.Log
			headSt := st.Clone()
			pending := e.instrs(fr, l.header, len(phis), st, reg)
			for len(pending) > 0 {
				x := pending[0]
				pending = pending[1:]
				if x.kind == "back" {
					// decide boolean variables so that they stay partitions
					if y, ok := splitBool(e, x, order, l.header); ok {
						pending = append([]end{y[0], y[1]}, pending...)
						continue
					}
				}
				if x.kind != "back" {
					ends = append(ends, x)
					endParts = append(endParts, partName)
					x.st.loops = st0.loops
					continue
				}
				if xs := e.terminal(x, order, l, reg); xs != nil {
					for _, y := range xs {
						ends = append(ends, y)
						endParts = append(endParts, partName)
						y.st.loops = st0.loops
						early[y.st] = true
					}
					continue
				}
				kd := &IterKind{Part: partName, St: x.st, head: head, Next: map[*Slot]*Term{}, back: x}
				kinds = append(kinds, kd)
				if len(x.st.locks) != len(headSt.locks) {
					e.errf("lock set changes across an iteration of a loop in %s", fr0.fn)
				}
				kk := -1
				for i, q := range l.header.Preds {
					if q == x.from {
						kk = i
					}
				}
				var nv []*Term
				note := func(s *Slot, v *Term) {
					if s.mode != 2 {
						v = boolConst(x.st, v)
					}
					kd.Next[s] = v
					switch s.mode {
					case 0:
						if v != s.Init && !x.st.Same(v, s.Init) {
							changed = true
							if isConstable(s) && s.Init.IsConst() && v.IsConst() {
								s.mode = 1
								s.consts = []*Term{s.Init, v}
							} else {
								toSym(s)
							}
						}
					case 1:
						if !v.IsConst() {
							if c := x.st.rep(v); c.IsConst() {
								v = c
							}
						}
						if !v.IsConst() {
							changed = true
							toSym(s)
							return
						}
						in := false
						for _, c := range s.consts {
							if c == v {
								in = true
							}
						}
						if !in {
							s.consts = append(s.consts, v)
							changed = true
							if len(s.consts) > 6 {
								toSym(s)
							}
						}
						nv = append(nv, v)
					}
				}
				for _, s := range order {
					if s.Phi != nil {
						note(s, e.val(x.fr, s.Phi.Edges[kk]))
					} else {
						v, ok := x.st.mem[s.Cell]
						if !ok {
							v = x.st.Load(s.Cell, s.Typ)
						}
						note(s, v)
					}
				}
				// new cells
				var nc []*Term
				for c, v := range x.st.mem {
					if slots[c] != nil || foreign(c) {
						continue
					}
					if hv, ok := headSt.mem[c]; ok && hv == v {
						continue
					}
					nc = append(nc, c)
				}
				sort.Slice(nc, func(i, j int) bool { return nc[i].ID < nc[j].ID })
				for _, c := range nc {
					v := x.st.mem[c]
					r := Root(c)
					if c.Op == OUn {
						r = Root(c.Args[0])
					}
					if inst.local(r) || r.Op == OLoop {
						continue
					}
					if inst.variant(e, c) || c.Op == OUn {
						if _, ok := roots[r]; !ok {
							verN++
							roots[r] = verN
							rootOrder = append(rootOrder, r)
							changed = true
						}
						continue
					}
					t := v.Typ
					hv, ok := headSt.mem[c]
					if !ok {
						if t == nil {
							t = types.Typ[types.Int]
						}
						hv = headSt.Load(c, t)
					}
					if hv == v {
						continue
					}
					if hv.Typ != nil {
						t = hv.Typ
					}
					s := addSlot(c, &Slot{Cell: c, Typ: t, Init: hv})
					changed = true
					if isConstable(s) && hv.IsConst() && v.IsConst() {
						s.mode = 1
						s.consts = []*Term{hv, v}
					} else {
						toSym(s)
					}
				}
				for r, v := range x.st.ver {
					if inst.local(r) || r.Op == OLoop && r.N == inst.ID || foreign(r) {
						continue
					}
					if hv, ok := headSt.ver[r]; !ok || hv != v {
						if _, ok := roots[r]; !ok {
							verN++
							roots[r] = verN
							rootOrder = append(rootOrder, r)
							changed = true
						}
					}
				}
				var gm []*Term
				for m, us := range x.st.maps {
					if inst.local(m) || gen[m] || foreign(m) && m.Op != OMapA {
						continue
					}
					if len(us) != len(headSt.maps[m]) {
						gm = append(gm, m)
					}
				}
				sort.Slice(gm, func(i, j int) bool { return gm[i].ID < gm[j].ID })
				for _, m := range gm {
					gen[m] = true
					genOrder = append(genOrder, m)
					changed = true
				}
				if !changed {
					push(nv)
				}
			}
		}
		if changed {
			continue
		}
		// candidate bounds
		grew := false
		headKeys := map[int]bool{}
		for _, c := range st0.lin {
			headKeys[c.term(types.Typ[types.Int]).ID] = true
		}
		for _, c := range cands {
			headKeys[c.c.term(types.Typ[types.Int]).ID] = true
		}
		perSlot := map[*Slot]int{}
		for _, c := range cands {
			perSlot[c.slot]++
		}
		for _, s := range order {
			if s.mode != 2 || s.Typ == nil {
				continue
			}
			if _, list := s.Typ.Underlying().(*types.Slice); (list || isStringType(s.Typ)) && s.Init != nil && addLen(s) {
				grew = true
			}
			if !isIntType(s.Typ) {
				continue
			}
			d := toLin(s.Sym).add(toLin(s.Init), -1)
			if addCand(s, d) {
				grew = true
			}
			if addCand(s, neg(d)) {
				grew = true
			}
			for _, kd := range kinds {
				bv := kd.Next[s]
				if bv == nil {
					continue
				}
				off := toLin(bv).add(toLin(s.Sym), -1)
				if len(off.c) != 0 {
					continue
				}
				for _, c := range kd.St.lin {
					a := c.c[s.Sym]
					if a == 0 || perSlot[s] > 8 || headKeys[c.term(types.Typ[types.Int]).ID] {
						continue
					}
					c2 := lin{c: c.c, k: c.k - a*off.k}
					inv := true
					for t := range c2.c {
						if t != s.Sym && inst.variant(e, t) {
							inv = false
						}
					}
					if inv && addCand(s, c2) {
						grew = true
					}
				}
			}
		}
		if grew {
			continue
		}
		// drop candidates that an iteration does not preserve
		var keep []cand
		for _, c := range cands {
			ok := true
			for _, kd := range kinds {
				bv := kd.Next[c.slot]
				if bv == nil || !c.holds(kd.St, bv) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if len(keep) != len(cands) {
			cands = keep
			continue
		}
		break
	}
	for _, kd := range kinds {
		for _, s := range order {
			if s.mode == 1 {
				v := kd.Next[s]
				if v == nil {
					v = s.Init
				}
				if c := kd.St.rep(v); c.IsConst() {
					v = c
				}
				kd.NextPart += slotName(s) + "=" + v.String() + ";"
			}
		}
		kd.Events = eventsSince(kd.St.Log, kd.head)
		kd.Facts = map[*Term]bool{}
		for f, v := range kd.St.facts {
			if _, ok := st0.facts[f]; !ok {
				kd.Facts[f] = v
			}
		}
	}
	kinds, ends, last := e.peel(kinds, ends, endParts, l, reg, st0, free)
	inst.Kinds = kinds
	inst.Slots = order
	for _, sl := range order {
		if sl.Sym != nil && sl.Init != nil && sl.Init.Op == ONil && onlyGrows(sl, kinds) {
			growing[sl.Sym] = true
		}
	}
	headers := map[*State]bool{}
	for i, x := range ends {
		if i < len(ends)-last && !early[x.st] && x.kind == "out" && (x.from == l.header || firstTest(x.st, inst)) {
			headers[x.st] = true
		}
	}
	e.traversal(inst, ends, headers)
	for i := range ends {
		x := &ends[i]
		ex := &LoopExit{Header: headers[x.st], Kind: x.kind, St: x.st}
		for _, ev := range eventsSince(x.st.Log, st0.Log) {
			if ev.Kind == "loop" && ev.Loop == inst {
				ev2 := *ev
				ex.Part = ev2.Part
			}
		}
		// mark the exit in the log
		x.st.Emit(&Event{Kind: "loopexit", Loop: inst, Exit: ex, Part: ex.Part, Fn: fr0.fn, Pos: inst.Pos, Stack: fr0.stack})
		inst.Exits = append(inst.Exits, ex)
		if ex.Header {
			e.comprehend(inst, x)
		}
	}
	return ends
}

// growing holds the lists of loops that start as nil and are only appended to: they are nil exactly while they are empty.
var growing = map[*Term]bool{}

func onlyGrows(s *Slot, kinds []*IterKind) bool {
	if s.Sym.Typ == nil {
		return false
	}
	if _, ok := s.Sym.Typ.Underlying().(*types.Slice); !ok {
		return false
	}
	for _, k := range kinds {
		n := k.Next[s]
		for n != nil && n != s.Sym && n.Op == OAppend && len(n.Args) > 1 {
			n = n.Args[0]
		}
		if n != s.Sym {
			return false
		}
	}
	return true
}

// peel turns the iterations after which the loop always ends - they set the variable its condition looks at - into ways
// out of the loop, which keep what the iteration found out. It returns how many there are, at the end of ends.
func (e *Engine) peel(kinds []*IterKind, ends []end, parts []string, l *loop, reg *region, st0 *State, free bool) ([]*IterKind, []end, int) {
	goes := map[string]bool{}
	for _, k := range kinds {
		goes[k.Part] = true
	}
	var keep []*IterKind
	var out []end
	gone := map[string]bool{}
	for _, k := range kinds {
		if goes[k.NextPart] || k.NextPart == k.Part {
			keep = append(keep, k)
			continue
		}
		fr, st := k.back.fr.clone(), k.St.Clone()
		if free {
			st.interfere()
		}
		for _, x := range e.body(fr, k.back.from, l.header, st, reg) {
			if x.kind == "back" {
				return kinds, ends, 0
			}
			x.st.loops = st0.loops
			out = append(out, x)
		}
		gone[k.NextPart] = true
	}
	if len(gone) == 0 {
		return kinds, ends, 0
	}
	var rest []end
	for i, x := range ends {
		if !gone[parts[i]] {
			rest = append(rest, x)
		}
	}
	return keep, append(rest, out...), len(out)
}

// terminal is how the loop is left right after an iteration that sets what its condition looks at, if it always is.
func (e *Engine) terminal(x end, order []*Slot, l *loop, reg *region) []end {
	set := false
	for _, s := range order {
		if s.Phi == nil {
			continue
		}
		switch s.Phi.Type().Underlying().(type) {
		case *types.Signature, *types.Pointer, *types.Interface, *types.Chan:
			for i, q := range l.header.Preds {
				if q == x.from && e.val(x.fr, s.Phi.Edges[i]) != x.fr.env[s.Phi] {
					set = true
				}
			}
		}
	}
	if !set {
		return nil
	}
	r := *reg
	r.l = &loop{header: l.header, blocks: map[*ssa.BasicBlock]bool{l.header: true}}
	r.unroll = false
	out := e.body(x.fr.clone(), x.from, l.header, x.st.Clone(), &r)
	for _, y := range out {
		if y.kind == "back" || y.kind == "out" && l.blocks[y.to] {
			return nil
		}
	}
	return out
}

// firstTest reports whether the loop was left on the first thing an iteration looked at, without doing anything.
func firstTest(st *State, inst *LoopInst) bool {
	n, in := 0, false
	for _, ev := range st.Events() {
		switch {
		case ev.Kind == "loop" && ev.Loop == inst:
			n, in = 0, true
		case !in:
		case ev.Kind == "assume":
			n++
		case isEffect(ev):
			return false
		}
	}
	return n == 1
}

func slotName(s *Slot) string {
	if s.Phi != nil {
		return s.Phi.Comment
	}
	return s.Cell.String()
}

func boolConst(st *State, v *Term) *Term {
	if v.Typ != nil && isBoolType(v.Typ) && !v.IsConst() {
		switch st.Truth(v) {
		case 1:
			return Bool(true)
		case -1:
			return Bool(false)
		}
	}
	return v
}

// splitBool decides an undecided boolean loop variable at a back edge.
func splitBool(e *Engine, x end, order []*Slot, header *ssa.BasicBlock) ([2]end, bool) {
	kk := -1
	for i, q := range header.Preds {
		if q == x.from {
			kk = i
		}
	}
	for _, s := range order {
		if s.mode == 2 || s.Typ == nil || !isBoolType(s.Typ) || !s.Init.IsConst() {
			continue
		}
		var v *Term
		if s.Phi != nil {
			v = e.val(x.fr, s.Phi.Edges[kk])
		} else if c, ok := x.st.mem[s.Cell]; ok {
			v = c
		}
		if v == nil || v.IsConst() || x.st.Truth(v) != 0 {
			continue
		}
		var out [2]end
		for i, b := range []bool{true, false} {
			y := x
			y.fr, y.st = x.fr.clone(), x.st.Clone()
			if !y.st.Assume(v, b) {
				return out, false
			}
			out[i] = y
		}
		return out, true
	}
	return [2]end{}, false
}

func isConstable(s *Slot) bool {
	if s.Typ == nil {
		return false
	}
	b, ok := s.Typ.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&(types.IsBoolean|types.IsString) != 0 {
		return true
	}
	if b.Info()&types.IsInteger != 0 {
		if n, ok := s.Typ.(*types.Named); ok {
			return n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "time"
		}
	}
	return false
}

func substLin(c lin, sym, v *Term) lin {
	a := c.c[sym]
	r := lin{c: map[*Term]int64{}, k: c.k}
	for t, k := range c.c {
		if t != sym {
			r.c[t] = k
		}
	}
	return r.add(toLin(v), a)
}

// traversal recognises which elements the loop visits.
func (e *Engine) traversal(inst *LoopInst, ends []end, headers map[*State]bool) {
	for _, in := range inst.l.header.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok || n.IsString {
			continue
		}
		rng, ok := n.Iter.(*ssa.Range)
		if !ok || inst.l.blocks[rng.Block()] {
			continue
		}
		for _, kd := range inst.Kinds {
			for _, ev := range kd.Events {
				if ev.Kind == "mapnext" && ev.Pos == n.Pos() && ev.Fn == inst.Fn {
					inst.Trav = &Traversal{Kind: "map", Map: ev.Addr, Key: ev.Args[0]}
				}
			}
		}
		if inst.Trav == nil {
			for _, x := range ends {
				for _, ev := range eventsSince(x.st.Log, inst.Entry.Log) {
					if (ev.Kind == "mapnext" || ev.Kind == "mapend") && ev.Pos == n.Pos() && ev.Fn == inst.Fn {
						t := &Traversal{Kind: "map", Map: ev.Addr}
						if len(ev.Args) > 0 {
							t.Key = ev.Args[0]
						}
						if inst.Trav == nil || t.Key != nil {
							inst.Trav = t
						}
					}
				}
			}
		}
		return
	}
	for _, s := range inst.Slots {
		if s.mode != 2 || !isIntType(s.Typ) {
			continue
		}
		step := int64(0)
		ok := len(inst.Kinds) > 0
		for _, kd := range inst.Kinds {
			d := toLin(kd.Next[s]).add(toLin(s.Sym), -1)
			if len(d.c) != 0 || d.k != 1 && d.k != -1 || step != 0 && d.k != step {
				ok = false
				break
			}
			step = d.k
		}
		if !ok {
			continue
		}
		// the condition under which the header leaves the loop
		for _, x := range ends {
			if !headers[x.st] {
				continue
			}
			var cond *Event
			for _, ev := range eventsSince(x.st.Log, inst.Entry.Log) {
				if ev.Kind == "assume" && ev.Fn == inst.Fn {
					cond = ev
				}
			}
			if cond == nil {
				continue
			}
			c, tr := cond.Args[0], cond.Truth
			for c.Op == ONot {
				c, tr = c.Args[0], !tr
			}
			if c.Op == OEq {
				// i != n form: leaves when equal
				if !tr {
					continue
				}
				d := toLin(c.Args[0]).add(toLin(c.Args[1]), -1)
				a := d.c[s.Sym]
				if a == -1 {
					d = neg(d)
					a = 1
				}
				if a != 1 || step != 1 {
					continue
				}
				// idx = sym + c0 where init + c0 == 0; N = rest
				init, isC := s.Init.IntVal()
				if !isC {
					continue
				}
				idx := Sub(s.Sym, Int(init))
				rest := toLin(idx).add(d, -1) // idx - d = N
				if rest.c[s.Sym] != 0 {
					continue
				}
				inst.Trav = &Traversal{Kind: "index", Idx: idx, N: rest.term(types.Typ[types.Int])}
				return
			}
			if c.Op != OLt {
				continue
			}
			d := toLin(c.Args[0]) // d < 0 continues when tr is false on exit
			if tr {
				// leaves when d < 0: continue while d >= 0, i.e. -d-1 < 0
				d = neg(d)
				d.k--
			}
			a := d.c[s.Sym]
			if a == 1 && step == 1 {
				init, isC := s.Init.IntVal()
				if !isC {
					continue
				}
				// body runs with sym in [init', bound): the first tested value is the first visited
				// tested term: sym + t - N < 0; the value tested first equals init + t
				// the visited index is the tested one; try offsets so that the first is zero
				for _, off := range []int64{0, 1, -init} {
					if init+off != 0 || init > 8 || init < -1 {
						continue
					}
					idx := toLin(s.Sym)
					idx.k += off
					n := idx.add(d, -1)
					if n.c[s.Sym] != 0 {
						continue
					}
					N := n.term(types.Typ[types.Int])
					if inst.variant(e, N) {
						continue
					}
					inst.Trav = &Traversal{Kind: "index", Idx: idx.term(types.Typ[types.Int]), N: N}
					return
				}
			}
			if a == -1 && step == -1 {
				// continue while -sym + k < 0: sym > k; lowest visited is k+1 which must be zero index
				rest := d
				if len(rest.c) == 1 {
					// sym >= -k... visited index sym (k=-1) or sym-1 (k=0)
					var idx *Term
					switch rest.k {
					case -1:
						idx = s.Sym
					case 0:
						idx = Sub(s.Sym, Int(1))
					default:
						continue
					}
					N := Add(Sub(s.Init, Sub(s.Sym, idx)), Int(1))
					inst.Trav = &Traversal{Kind: "index", Idx: idx, N: N, Rev: true}
					return
				}
			}
		}
	}
}

// Bound is the index variable of closed forms.
var Bound = bound

var bound = NamedSym("§i", types.Typ[types.Int])

// Comp is the sequence body(0..n-1).
func Comp(n, body *Term, t types.Type) *Term {
	// identity over a sequence is a copy of it
	b := body
	if b.Op == OInit && b.Args[0].Op == OElem && b.Args[0].Args[1] == bound {
		seq := b.Args[0].Args[0]
		if !Has(seq, bound) {
			if n.Op == OLen && n.Args[0] == seq {
				return intern(&Term{Op: OCopy, Args: []*Term{seq}, Typ: t})
			}
		}
	}
	return intern(&Term{Op: OCall, Name: "comp", Args: []*Term{n, body}, Typ: t})
}

// comprehend replaces accumulated sequences by their closed form when the loop visited everything.
func (e *Engine) comprehend(inst *LoopInst, x *end) {
	tr := inst.Trav
	if tr == nil || tr.Rev || len(inst.Kinds) == 0 {
		return
	}
	closed := func(body *Term) (*Term, bool) {
		var b *Term
		if tr.Kind == "index" {
			b = body
			// express with the bound index
			if s := idxSym(tr.Idx); s != nil {
				off := toLin(tr.Idx).add(toLin(s), -1)
				b = Subst(b, s, Sub(bound, Int(off.k)))
			}
		} else {
			if tr.Key == nil {
				return nil, false
			}
			b = body
		}
		if tr.Kind == "map" {
			b = Subst(b, tr.Key, bound)
		}
		if inst.variant(e, b) {
			return nil, false
		}
		return b, true
	}
	n := tr.N
	if tr.Kind == "map" {
		n = Pure("maplen", types.Typ[types.Int], tr.Map)
	}
	for _, s := range inst.Slots {
		if s.mode != 2 || s.Typ == nil {
			continue
		}
		if _, ok := s.Typ.Underlying().(*types.Slice); !ok {
			continue
		}
		var body *Term
		ok, cat := true, false
		for _, kd := range inst.Kinds {
			v := kd.Next[s]
			if v == nil || v.Op != OAppend && v.Op != OCat || v.Args[0] != s.Sym || len(v.Args) != 2 {
				ok = false
				break
			}
			if body != nil && (body != v.Args[1] || cat != (v.Op == OCat)) {
				ok = false
				break
			}
			body = v.Args[1]
			cat = v.Op == OCat
		}
		if !ok || body == nil {
			continue
		}
		b, ok := closed(body)
		if !ok {
			continue
		}
		c := Comp(n, b, s.Typ)
		if cat {
			c = intern(&Term{Op: OCall, Name: "flat", Args: []*Term{n, b}, Typ: s.Typ})
		}
		if ln, ok := inst.Entry.LenOf(s.Init).IntVal(); !ok || ln != 0 {
			c = intern(&Term{Op: OCat, Args: []*Term{s.Init, c}, Typ: s.Typ})
		}
		if s.Phi != nil {
			x.fr.env[s.Phi] = c
		} else {
			x.st.mem[s.Cell] = c
		}
	}
	// out[i] = f(i) over a made slice
	type w struct {
		idx, val *Term
		n        int
	}
	ws := map[*Term]*w{}
	for _, kd := range inst.Kinds {
		for c, v := range kd.St.mem {
			if c.Op == OElem && c.Args[0].Op == OMake && !inst.local(c.Args[0]) && Has(c.Args[1], idxSym(tr.Idx)) {
				y := ws[c.Args[0]]
				if y == nil {
					ws[c.Args[0]] = &w{c.Args[1], v, 1}
				} else if y.idx == c.Args[1] && y.val == v {
					y.n++
				} else {
					y.n = -100
				}
			}
		}
	}
	for mk, y := range ws {
		if y.n != len(inst.Kinds) || tr.Kind != "index" || y.idx != tr.Idx {
			continue
		}
		if !x.st.Same(x.st.LenOf(mk), tr.N) && x.st.LenOf(mk) != tr.N {
			continue
		}
		if b, ok := closed(y.val); ok {
			x.st.mem[intern(&Term{Op: OUn, Name: "content", Args: []*Term{mk}})] = Comp(n, b, mk.Typ)
		}
	}
}

func idxSym(idx *Term) *Term {
	if idx == nil {
		return bound
	}
	if idx.Op == OLoop {
		return idx
	}
	if idx.Op == OLin {
		for _, a := range idx.Args {
			if a.Op == OLoop {
				return a
			}
		}
	}
	return nil
}
