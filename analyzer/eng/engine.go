package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets functions of one SSA program.
type Engine struct {
	Prog        *ssa.Program
	InModule    func(*ssa.Function) bool // functions with analysed bodies
	Opaque      func(*ssa.Function) bool // module functions that are deliberately not entered
	Bind        func(st *State, recv *Term, m *types.Func) *ssa.Function
	Interfere   bool                        // taking a lock forgets what other goroutines may have changed before
	Frame       func(name string) bool      // calls that change nothing their arguments refer to
	Known       func(st *State, t *Term)    // called with what is read from memory that was not written yet
	KnownCell   func(st *State, addr *Term) // called with the memory that iterations of a loop change, at the start of an iteration
	Stable      func(addr *Term) bool       // cells nothing changes once another goroutine can see them
	AllocOf     map[*Term]*ssa.Alloc
	Globals     map[*Term]*Term
	LoopVars    map[*Term]*LoopInst
	Errs        []string
	MaxStates   int
	NoMerge     bool // keep path classes that differ only in branch facts apart
	Steps       int
	Fns         map[*ssa.Function]bool // functions interpreted
	nonNegAtoms map[*Term]bool
	loops       map[*ssa.Function]*loopInfo
	dropped     int
	globalMaps  map[*Term][]mapUpd
	queries     map[queryKey][]*Term
}

// numbering is global: terms are shared by all engines of a run
var instN, allocN, verN, resN int

// New makes an engine.
func New(prog *ssa.Program, inModule func(*ssa.Function) bool) *Engine {
	return &Engine{Prog: prog, InModule: inModule, MaxStates: 60000, Globals: map[*Term]*Term{}, LoopVars: map[*Term]*LoopInst{}, AllocOf: map[*Term]*ssa.Alloc{},
		Fns: map[*ssa.Function]bool{}, nonNegAtoms: map[*Term]bool{}, loops: map[*ssa.Function]*loopInfo{}}
}

func (e *Engine) errf(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, x := range e.Errs {
		if x == m {
			return
		}
	}
	e.Errs = append(e.Errs, m)
}

// NewState returns an empty state.
func (e *Engine) NewState() *State {
	s := newState(e)
	for k, v := range e.Globals {
		s.mem[k] = v
	}
	for k, v := range e.globalMaps {
		s.maps[k] = v[:len(v):len(v)]
	}
	return s
}

// Outcome is one way a function ends.
type Outcome struct {
	St   *State
	Ret  []*Term
	Kind string // return panic exit
	Pos  token.Pos
	Why  string
}

type deferRec struct {
	call ssa.CallCommon
	fn   *Term
	args []*Term
	recv *Term
	pos  token.Pos
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	free   []*Term
	defers []deferRec
	stack  []*ssa.Function
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, free: f.free, stack: f.stack, env: make(map[ssa.Value]*Term, len(f.env)+8)}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return n
}

type region struct {
	l      *loop
	unroll bool
	outer  *region
}

type end struct {
	kind string // return panic exit back out
	fr   *frame
	st   *State
	ret  []*Term
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	pos  token.Pos
	why  string
}

// Run interprets fn.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return e.call(fn, args, nil, st, nil)
}

// RunFunc interprets a function value.
func (e *Engine) RunFunc(f *Term, args []*Term, st *State) []Outcome {
	return e.call(f.Fn, args, f.Args, st, nil)
}

func (e *Engine) call(fn *ssa.Function, args, free []*Term, st *State, stack []*ssa.Function) []Outcome {
	if fn.Blocks == nil {
		e.errf("no body for %s", fn)
		return []Outcome{{St: st, Kind: "return", Ret: e.opaqueResults(fn.String(), fn.Signature.Results())}}
	}
	e.Fns[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, free: free, stack: append(stack[:len(stack):len(stack)], fn)}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = Sym(p.Name(), p.Type())
		}
	}
	ends := e.block(fr, nil, fn.Blocks[0], st, nil)
	var out []Outcome
	for _, x := range ends {
		switch x.kind {
		case "return", "exit":
			out = append(out, Outcome{St: x.st, Ret: x.ret, Kind: x.kind, Pos: x.pos, Why: x.why})
		case "panic":
			out = append(out, e.unwind(x)...)
		default:
			e.errf("stray edge in %s", fn)
		}
	}
	return e.merge(out)
}

// unwind runs the deferred calls of a panicking frame.
func (e *Engine) unwind(x end) []Outcome {
	type item struct {
		fr *frame
		st *State
	}
	if len(x.fr.defers) == 0 {
		return []Outcome{{St: x.st, Kind: "panic", Pos: x.pos, Why: x.why}}
	}
	x.st.panicking++
	work := []item{{x.fr, x.st}}
	var out []Outcome
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(it.fr.defers) == 0 {
			if it.st.panicking > 0 {
				it.st.panicking--
				out = append(out, Outcome{St: it.st, Kind: "panic", Pos: x.pos, Why: x.why})
				continue
			}
			// recovered
			rb := x.fr.fn.Recover
			if rb == nil {
				var rs []*Term
				res := x.fr.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					rs = append(rs, Zero(res.At(i).Type()))
				}
				out = append(out, Outcome{St: it.st, Kind: "return", Ret: rs, Pos: x.pos})
				continue
			}
			for _, y := range e.block(it.fr, nil, rb, it.st, nil) {
				if y.kind == "return" {
					out = append(out, Outcome{St: y.st, Kind: "return", Ret: y.ret, Pos: y.pos})
				}
			}
			continue
		}
		d := it.fr.defers[len(it.fr.defers)-1]
		nf := it.fr.clone()
		nf.defers = nf.defers[:len(nf.defers)-1]
		for _, r := range e.runDeferred(nf, d, it.st) {
			switch r.Kind {
			case "return":
				work = append(work, item{nf.clone(), r.St})
			case "panic":
				r.St.panicking = 1
				work = append(work, item{nf.clone(), r.St})
			default:
				out = append(out, r)
			}
		}
	}
	return out
}

func (e *Engine) runDeferred(fr *frame, d deferRec, st *State) []Outcome {
	st.Emit(&Event{Kind: "rundefer", Fn: fr.fn, Pos: d.pos, Stack: fr.stack})
	return e.invoke(fr, &d.call, d.fn, d.recv, d.args, st, d.pos, nil)
}

// merge joins outcomes that differ only in branch facts.
func (e *Engine) merge(in []Outcome) []Outcome {
	if len(in) < 2 || e.NoMerge {
		return in
	}
	var out []Outcome
next:
	for _, o := range in {
		for i := range out {
			p := &out[i]
			if p.Kind != o.Kind || p.Kind == "panic" || len(p.Ret) != len(o.Ret) || !sameEffects(p.St, o.St) {
				continue
			}
			same := true
			for j := range o.Ret {
				if o.Ret[j] != p.Ret[j] {
					same = false
					break
				}
			}
			if !same {
				continue
			}
			p.St = joinFacts(p.St, o.St)
			continue next
		}
		out = append(out, o)
	}
	return out
}

func isEffect(ev *Event) bool {
	switch ev.Kind {
	case "assume", "load", "mapread", "enter", "leave", "oblig", "rundefer":
		return false
	}
	return true
}

func sameEffects(a, b *State) bool {
	// the logs may differ in assumption, load and obligation entries only when nothing else follows the fork
	x, y := a.Log, b.Log
	for x != y {
		nx, ny := 0, 0
		if x != nil {
			nx = x.N
		}
		if y != nil {
			ny = y.N
		}
		if nx >= ny {
			if x == nil || isEffect(x.Ev) || x.Ev.Kind == "oblig" && !x.Ev.Truth || x.Ev.Kind == "load" && len(x.Ev.Locks) > 0 {
				return false
			}
			x = x.Prev
		} else {
			if isEffect(y.Ev) || y.Ev.Kind == "oblig" && !y.Ev.Truth || y.Ev.Kind == "load" && len(y.Ev.Locks) > 0 {
				return false
			}
			y = y.Prev
		}
	}
	if len(a.mem) != len(b.mem) || len(a.maps) != len(b.maps) || len(a.ver) != len(b.ver) || len(a.locks) != len(b.locks) || a.panicking != b.panicking {
		return false
	}
	for i := range a.locks {
		if a.locks[i] != b.locks[i] {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.ver {
		if w, ok := b.ver[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.maps {
		w := b.maps[k]
		if len(v) != len(w) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func joinFacts(a, b *State) *State {
	n := a.Clone()
	if b.Log != nil && (a.Log == nil || b.Log.N > a.Log.N) {
		n.Log = b.Log
	}
	n.facts = map[*Term]bool{}
	for f, v := range a.facts {
		if t := b.Truth(f); t == 1 && v || t == -1 && !v {
			n.facts[f] = v
		}
	}
	for f, v := range b.facts {
		if t := a.Truth(f); t == 1 && v || t == -1 && !v {
			n.facts[f] = v
		}
	}
	n.eq = map[*Term]*Term{}
	for k, v := range a.eq {
		if b.rep(k) == b.rep(v) {
			n.eq[k] = v
		}
	}
	n.lin = nil
	for _, l := range a.lin {
		if b.entailLe(l, 0) {
			n.lin = append(n.lin, l)
		}
	}
	for _, l := range b.lin {
		if a.entailLe(l, 0) {
			n.lin = append(n.lin, l)
		}
	}
	return n
}

// ---- control flow

func (e *Engine) block(fr *frame, from, b *ssa.BasicBlock, st *State, rg *region) []end {
	// edges that leave or close the region
	if rg != nil {
		if b == rg.l.header && from != nil && rg.l.blocks[from] {
			return []end{{kind: "back", fr: fr, st: st, from: from, to: b}}
		}
		if !rg.l.blocks[b] {
			return []end{{kind: "out", fr: fr, st: st, from: from, to: b}}
		}
	}
	li := e.loopsOf(fr.fn)
	if l := li.byHeader[b]; l != nil && (from == nil || !l.blocks[from]) {
		var out []end
		for _, x := range e.doLoop(fr, from, l, st, rg) {
			if x.kind == "out" {
				out = append(out, e.block(x.fr, x.from, x.to, x.st, rg)...)
			} else {
				out = append(out, x)
			}
		}
		return out
	}
	return e.body(fr, from, b, st, rg)
}

// body runs the instructions of a block entered from from.
func (e *Engine) body(fr *frame, from, b *ssa.BasicBlock, st *State, rg *region) []end {
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		_ = phi
		n++
	}
	if n > 0 && from != nil {
		k := -1
		for i, p := range b.Preds {
			if p == from {
				k = i
			}
		}
		vals := make([]*Term, n)
		for i := 0; i < n; i++ {
			vals[i] = e.val(fr, b.Instrs[i].(*ssa.Phi).Edges[k])
		}
		for i := 0; i < n; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
		}
	}
	return e.instrs(fr, b, n, st, rg)
}

func (e *Engine) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Zero(x.Type())
		}
		return Const(x.Value, x.Type())
	case *ssa.Function:
		return intern(&Term{Op: OFunc, Fn: x, Typ: x.Type()})
	case *ssa.Global:
		return Global(x)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Mk(OSym, "builtin:"+x.Name(), nil)
	}
	if t, ok := fr.env[v]; ok && t != nil {
		return t
	}
	t := Sym(fr.fn.Name()+"."+v.Name(), v.Type())
	fr.env[v] = t
	return t
}

func (e *Engine) instrs(fr *frame, b *ssa.BasicBlock, i int, st *State, rg *region) []end {
	for ; i < len(b.Instrs); i++ {
		e.Steps++
		if e.Steps > 3000000 {
			e.errf("budget exhausted in %s", fr.fn)
			return nil
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Jump:
			return e.block(fr, b, b.Succs[0], st, rg)
		case *ssa.If:
			c := e.val(fr, x.Cond)
			switch st.Truth(c) {
			case 1:
				return e.block(fr, b, b.Succs[0], st, rg)
			case -1:
				return e.block(fr, b, b.Succs[1], st, rg)
			}
			var out []end
			s1, f1 := st.Clone(), fr.clone()
			s1.Emit(&Event{Kind: "assume", Args: []*Term{c}, Truth: true, Fn: fr.fn, Pos: x.Cond.Pos(), Stack: fr.stack})
			if s1.Assume(c, true) {
				out = append(out, e.block(f1, b, b.Succs[0], s1, rg)...)
			}
			st.Emit(&Event{Kind: "assume", Args: []*Term{c}, Truth: false, Fn: fr.fn, Pos: x.Cond.Pos(), Stack: fr.stack})
			if st.Assume(c, false) {
				out = append(out, e.block(fr, b, b.Succs[1], st, rg)...)
			}
			return out
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r))
			}
			return []end{{kind: "return", fr: fr, st: st, ret: rs, from: b, pos: x.Pos()}}
		case *ssa.Panic:
			st.Emit(&Event{Kind: "panic", Args: []*Term{e.val(fr, x.X)}, Fn: fr.fn, Pos: x.Pos(), Stack: fr.stack})
			return []end{{kind: "panic", fr: fr, st: st, from: b, pos: x.Pos(), why: "panic call"}}
		default:
			cs := e.instr(fr, b.Instrs[i], st)
			if len(cs) == 1 && cs[0].kind == "" {
				fr, st = cs[0].fr, cs[0].st
				continue
			}
			var out []end
			for _, c := range cs {
				if c.kind != "" {
					c.from = b
					out = append(out, c)
					continue
				}
				out = append(out, e.instrs(c.fr, b, i+1, c.st, rg)...)
			}
			return out
		}
	}
	return nil
}

func one(fr *frame, st *State) []end { return []end{{fr: fr, st: st}} }

func (e *Engine) ev(fr *frame, st *State, k string, pos token.Pos) *Event {
	return st.Emit(&Event{Kind: k, Fn: fr.fn, Pos: pos, Stack: fr.stack})
}

func (e *Engine) oblig(fr *frame, st *State, rule string, ok bool, pos token.Pos, args ...*Term) {
	st.Emit(&Event{Kind: "oblig", Name: rule, Truth: ok, Args: args, Fn: fr.fn, Pos: pos, Stack: fr.stack})
}

// deref records the obligation that an address is not nil; ok is false when it certainly is nil.
func (e *Engine) deref(fr *frame, st *State, a *Term, pos token.Pos) bool {
	if nonNilAddr(a) {
		return true
	}
	t := st.Truth(Eq(a, Nil(nil)))
	if t == 1 {
		e.oblig(fr, st, "nil", false, pos, a)
		return false
	}
	e.oblig(fr, st, "nil", t == -1, pos, a)
	if t == 0 {
		st.facts[Eq(a, Nil(nil))] = false
	}
	return true
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return types.Typ[types.Uint8]
}

func (e *Engine) alloc(fr *frame, name string, t types.Type) *Term {
	allocN++
	return intern(&Term{Op: OAlloc, Name: fmt.Sprintf("%s/%s#%d", fr.fn.Name(), name, allocN), N: allocN, Typ: t})
}

func (e *Engine) instr(fr *frame, in ssa.Instruction, st *State) []end {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		fr.env[x] = e.alloc(fr, name, x.Type())
		e.AllocOf[fr.env[x]] = x
	case *ssa.FieldAddr:
		base := e.val(fr, x.X)
		if base.Op != OAlloc && base.Op != OFld && base.Op != OGlobal && base.Op != OElem {
			if !e.deref(fr, st, base, x.Pos()) {
				return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "nil dereference"}}
			}
		}
		fr.env[x] = Fld(base, x.Field, x.X.Type())
		fr.env[x] = e.typed(fr.env[x], x.Type())
	case *ssa.Field:
		fr.env[x] = FieldOf(e.val(fr, x.X), x.Field, x.Type())
	case *ssa.IndexAddr:
		seq := e.val(fr, x.X)
		idx := e.val(fr, x.Index)
		e.indexOblig(fr, st, seq, idx, x.X.Type(), x.Pos())
		fr.env[x] = st.ElemAddr(seq, idx)
	case *ssa.Index:
		seq := e.val(fr, x.X)
		idx := e.val(fr, x.Index)
		if isStringType(x.X.Type()) {
			e.indexOblig(fr, st, seq, idx, x.X.Type(), x.Pos())
			fr.env[x] = Pure("byteat", x.Type(), seq, idx)
		} else {
			if _, ok := idx.IntVal(); !ok {
				e.indexOblig(fr, st, seq, idx, x.X.Type(), x.Pos())
			}
			fr.env[x] = ArrayAt(seq, idx, x.Type())
		}
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.BinOp:
		v, ok := e.binop(fr, st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Type(), x.Pos())
		if !ok {
			return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "division by zero"}}
		}
		fr.env[x] = v
	case *ssa.Store:
		a := e.val(fr, x.Addr)
		if !e.deref(fr, st, a, x.Pos()) {
			return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "nil dereference"}}
		}
		v := e.val(fr, x.Val)
		st.Store(a, v, x.Val.Type())
		ev := e.ev(fr, st, "store", x.Pos())
		ev.Addr, ev.Val = a, v
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = convert(e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = convert(e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		fr.env[x] = intern(&Term{Op: OIface, Typ: x.X.Type(), Args: []*Term{v}})
	case *ssa.MakeClosure:
		var fv []*Term
		for _, b := range x.Bindings {
			fv = append(fv, e.val(fr, b))
		}
		fr.env[x] = intern(&Term{Op: OFunc, Fn: x.Fn.(*ssa.Function), Args: fv, Typ: x.Type()})
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len)
		if v, ok := n.IntVal(); !ok || v < 0 {
			e.oblig(fr, st, "make", st.EntailLe(Int(0), n), x.Pos(), n)
			st.Log.Ev.Refuted = st.EntailLt(n, Int(0))
		}
		if room := e.val(fr, x.Cap); room != n {
			e.oblig(fr, st, "make", st.EntailLe(n, room), x.Pos(), room)
			st.Log.Ev.Refuted = st.EntailLt(room, n)
		}
		a := e.alloc(fr, "make", x.Type())
		fr.env[x] = intern(&Term{Op: OMake, Args: []*Term{a, n}, Typ: x.Type(), N: a.N})
	case *ssa.MakeMap:
		allocN++
		fr.env[x] = intern(&Term{Op: OMapA, Name: fmt.Sprintf("%s#%d", fr.fn.Name(), allocN), N: allocN, Typ: x.Type()})
	case *ssa.MakeChan:
		allocN++
		c := intern(&Term{Op: OChan, Name: fmt.Sprintf("%s#%d", fr.fn.Name(), allocN), N: allocN, Args: []*Term{e.val(fr, x.Size)}, Typ: x.Type()})
		fr.env[x] = c
		ev := e.ev(fr, st, "makechan", x.Pos())
		ev.Res = c
		ev.Args = []*Term{e.val(fr, x.Size)}
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.Lookup:
		return e.lookup(fr, x, st)
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
		if st.Truth(Eq(m, Nil(nil))) == 1 {
			e.oblig(fr, st, "nilmap", false, x.Pos(), m)
			return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "write to nil map"}}
		}
		if m.Op != OMapA {
			e.oblig(fr, st, "nilmap", st.Truth(Eq(m, Nil(nil))) == -1, x.Pos(), m)
		}
		m = st.mapRep(m)
		st.maps[m] = append(st.maps[m][:len(st.maps[m]):len(st.maps[m])], mapUpd{key: k, val: v})
		ev := e.ev(fr, st, "mapwrite", x.Pos())
		ev.Addr, ev.Args, ev.Val = m, []*Term{k}, v
	case *ssa.Range:
		m := e.val(fr, x.X)
		allocN++
		it := intern(&Term{Op: OIter, Name: fmt.Sprintf("it#%d", allocN), N: allocN, Args: []*Term{m}, Typ: x.X.Type()})
		st.mem[it] = Int(0)
		fr.env[x] = it
		ev := e.ev(fr, st, "mapread", x.Pos())
		ev.Addr = m
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		if t.Op == OTuple && x.Index < len(t.Args) {
			fr.env[x] = t.Args[x.Index]
		} else {
			fr.env[x] = intern(&Term{Op: OField, Args: []*Term{t}, N: x.Index, Typ: x.Type()})
		}
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Send:
		ev := e.ev(fr, st, "send", x.Pos())
		ev.Addr, ev.Val = e.val(fr, x.Chan), e.val(fr, x.X)
	case *ssa.Select:
		return e.sel(fr, x, st)
	case *ssa.Go:
		g := &GoInfo{Instr: x, Loops: st.loops}
		fv, recv, args := e.callee(fr, &x.Call)
		g.Callee, g.Iface, g.Args = fv, recv, args
		if x.Call.IsInvoke() {
			g.Method = x.Call.Method
		}
		ev := e.ev(fr, st, "go", x.Pos())
		ev.Go = g
		g.St = st.Clone()
	case *ssa.Defer:
		fv, recv, args := e.callee(fr, &x.Call)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{call: x.Call, fn: fv, recv: recv, args: args, pos: x.Pos()})
		ev := e.ev(fr, st, "defer", x.Pos())
		ev.Args, ev.Val = args, fv
	case *ssa.RunDefers:
		return e.runDefers(fr, st)
	case *ssa.Call:
		fv, recv, args := e.callee(fr, &x.Call)
		os := e.invoke(fr, &x.Call, fv, recv, args, st, x.Pos(), x)
		var out []end
		for i, o := range os {
			f := fr
			if i < len(os)-1 {
				f = fr.clone()
			}
			switch o.Kind {
			case "return":
				switch len(o.Ret) {
				case 0:
				case 1:
					f.env[x] = o.Ret[0]
				default:
					f.env[x] = Mk(OTuple, "", nil, o.Ret...)
				}
				out = append(out, end{fr: f, st: o.St})
			case "panic":
				out = append(out, end{kind: "panic", fr: f, st: o.St, pos: o.Pos, why: o.Why})
			default:
				out = append(out, end{kind: o.Kind, fr: f, st: o.St, pos: o.Pos, why: o.Why})
			}
		}
		return out
	case *ssa.SliceToArrayPointer:
		fr.env[x] = e.val(fr, x.X)
	default:
		e.errf("unhandled instruction %T in %s", in, fr.fn)
	}
	return one(fr, st)
}

// typed gives an address term its own pointer type for reports (terms are keyed without it).
func (e *Engine) typed(t *Term, typ types.Type) *Term { return t }

func (s *State) mapRep(m *Term) *Term { return m }

func (e *Engine) indexOblig(fr *frame, st *State, seq, idx *Term, t types.Type, pos token.Pos) {
	var n *Term
	if k := arrLen(t); k >= 0 {
		n = Int(k)
	} else {
		n = st.LenOf(seq)
	}
	lo := st.EntailLe(Int(0), idx)
	hi := st.EntailLt(idx, n)
	e.oblig(fr, st, "index", lo && hi, pos, seq, idx, n)
	if !(lo && hi) && (st.EntailLt(idx, Int(0)) || st.EntailLe(n, idx)) {
		st.Log.Ev.Refuted = true
	}
	if !lo {
		st.lin = append(st.lin, neg(toLin(idx)))
	}
	if !hi {
		l := toLin(Sub(idx, n))
		st.lin = append(st.lin, lin{l.c, l.k + 1})
	}
}

func (e *Engine) unop(fr *frame, x *ssa.UnOp, st *State) []end {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		if !e.deref(fr, st, v, x.Pos()) {
			return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "nil dereference"}}
		}
		r := st.Load(v, x.Type())
		fr.env[x] = r
		ev := e.ev(fr, st, "load", x.Pos())
		ev.Addr, ev.Val = v, r
	case token.NOT:
		fr.env[x] = Not(v)
	case token.SUB:
		switch {
		case v.Op == OConst:
			fr.env[x] = Const(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
		case isFloatType(x.Type()):
			fr.env[x] = FloatOp(token.MUL, FloatConst(-1), v, x.Type())
		case isIntType(x.Type()):
			fr.env[x] = neg(toLin(v)).term(x.Type())
		default:
			fr.env[x] = Mk(OUn, "-", x.Type(), v)
		}
	case token.XOR:
		fr.env[x] = Mk(OUn, "^", x.Type(), v)
	case token.ARROW:
		ev := e.ev(fr, st, "recv", x.Pos())
		ev.Addr = v
		val := e.res("recv", elemType(x.X.Type()))
		ev.Res = val
		if x.CommaOk {
			ok := e.res("recvok", types.Typ[types.Bool])
			ev.Val = ok
			fr.env[x] = Mk(OTuple, "", nil, val, ok)
		} else {
			fr.env[x] = val
		}
	}
	return one(fr, st)
}

func (e *Engine) res(name string, t types.Type) *Term {
	resN++
	return intern(&Term{Op: ORes, Name: name, N: resN, Typ: t})
}

func (e *Engine) binop(fr *frame, st *State, op token.Token, a, b *Term, ot, rt types.Type, pos token.Pos) (*Term, bool) {
	if a.Op == OConst && b.Op == OConst && a.C != nil && b.C != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Bool(constant.Compare(a.C, op, b.C)), true
		case token.SHL, token.SHR:
			if n, ok := b.IntVal(); ok {
				return Const(constant.Shift(constant.ToInt(a.C), op, uint(n)), rt), true
			}
		case token.QUO, token.REM:
			if n, ok := b.IntVal(); ok && n == 0 && isIntType(ot) {
				e.oblig(fr, st, "div", false, pos, b)
				return nil, false
			}
			o := op
			if op == token.QUO && isIntType(ot) {
				o = token.QUO_ASSIGN
			}
			if f, _ := constant.Float64Val(constant.ToFloat(b.C)); f != 0 {
				return Const(constant.BinaryOp(a.C, o, b.C), rt), true
			}
		case token.AND_NOT:
		default:
			return Const(constant.BinaryOp(a.C, op, b.C), rt), true
		}
	}
	switch op {
	case token.EQL:
		return Eq(a, b), true
	case token.NEQ:
		return Not(Eq(a, b)), true
	}
	switch {
	case isIntType(ot):
		switch op {
		case token.LSS:
			return Lt(a, b), true
		case token.GTR:
			return Lt(b, a), true
		case token.LEQ:
			return Not(Lt(b, a)), true
		case token.GEQ:
			return Not(Lt(a, b)), true
		case token.ADD:
			return toLin(a).add(toLin(b), 1).term(rt), true
		case token.SUB:
			return toLin(a).add(toLin(b), -1).term(rt), true
		case token.MUL:
			if n, ok := a.IntVal(); ok {
				return (lin{c: map[*Term]int64{}}).add(toLin(b), n).term(rt), true
			}
			if n, ok := b.IntVal(); ok {
				return (lin{c: map[*Term]int64{}}).add(toLin(a), n).term(rt), true
			}
			if a.ID > b.ID {
				a, b = b, a
			}
			return Mk(OBin, "*", rt, a, b), true
		case token.QUO, token.REM:
			if n, ok := b.IntVal(); !ok || n == 0 {
				e.oblig(fr, st, "div", st.Truth(Eq(b, Int(0))) == -1, pos, b)
			}
			return Mk(OBin, op.String(), rt, a, b), true
		}
		return Mk(OBin, op.String(), rt, a, b), true
	case isFloatType(ot):
		switch op {
		case token.LSS:
			return FLt(a, b), true
		case token.GTR:
			return FLt(b, a), true
		case token.LEQ:
			return Not(FLt(b, a)), true
		case token.GEQ:
			return Not(FLt(a, b)), true
		}
		return FloatOp(op, a, b, rt), true
	case isStringType(ot):
		switch op {
		case token.ADD:
			return Concat(a, b), true
		case token.LSS:
			return Mk(OSLt, "", types.Typ[types.Bool], a, b), true
		case token.GTR:
			return Mk(OSLt, "", types.Typ[types.Bool], b, a), true
		case token.LEQ:
			return Not(Mk(OSLt, "", types.Typ[types.Bool], b, a)), true
		case token.GEQ:
			return Not(Mk(OSLt, "", types.Typ[types.Bool], a, b)), true
		}
	case isBoolType(ot):
		switch op {
		case token.AND, token.LAND:
			return Mk(OBin, "&", rt, a, b), true
		}
	}
	return Mk(OBin, op.String(), rt, a, b), true
}

// Concat concatenates strings.
func Concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == OCall && t.Name == "concat" {
			parts = append(parts, t.Args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range parts {
		v, ok := p.StrVal()
		if ok && v == "" {
			continue
		}
		if ok && len(out) > 0 {
			if w, ok2 := out[len(out)-1].StrVal(); ok2 {
				out[len(out)-1] = Str(w + v)
				continue
			}
		}
		if ok {
			p = Str(v)
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return Pure("concat", types.Typ[types.String], out...)
}

func convert(v *Term, from, to types.Type) *Term {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if v.Op == OConst && tb != nil && v.C != nil {
		switch {
		case tb.Info()&types.IsFloat != 0 && fb != nil && fb.Info()&types.IsNumeric != 0:
			return Const(constant.ToFloat(v.C), to)
		case tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
			return Const(v.C, to)
		case tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsString != 0:
			return Const(v.C, to)
		}
	}
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		fs, ts := intSize(fb), intSize(tb)
		fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
		if ts >= fs && (fu == tu || fu && !tu && ts > fs) || ts == fs && fu && !tu {
			return v
		}
		if v.Op == OConv && intSizeT(v.Args[0].Typ) == ts && isIntType(v.Args[0].Typ) && types.Identical(v.Args[0].Typ.Underlying(), tb) && intSizeT(v.Typ) >= ts {
			return v.Args[0]
		}
		return intern(&Term{Op: OConv, Name: "int", Args: []*Term{v}, Typ: tb})
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 {
			return v
		}
		return intern(&Term{Op: OConv, Name: "float", Args: []*Term{v}, Typ: tb})
	case fb != nil && tb != nil && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
		if tb.Info()&types.IsInteger != 0 && v.Op == OCall && v.Name == "math.Mod" {
			// float modulus of converted integers
			un := func(t *Term) *Term {
				if t.Op == OConv && t.Name == "num" && isIntType(t.Args[0].Typ) {
					return t.Args[0]
				}
				if f, ok := smallFloat(t); ok && f == math.Trunc(f) && f != 0 {
					return Int(int64(f))
				}
				return nil
			}
			if a, b := un(v.Args[0]), un(v.Args[1]); a != nil && b != nil && (!a.IsConst() || !b.IsConst()) {
				return Mk(OBin, "%", to, a, b)
			}
		}
		return intern(&Term{Op: OConv, Name: "num", Args: []*Term{v}, Typ: tb})
	case tb != nil && tb.Info()&types.IsString != 0:
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if v.Op == OConv && v.Name == "bytes" {
			return v.Args[0]
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return intern(&Term{Op: OConv, Name: "rune", Args: []*Term{v}, Typ: types.Typ[types.String]})
		}
		return intern(&Term{Op: OConv, Name: "string", Args: []*Term{v}, Typ: types.Typ[types.String]})
	case fb != nil && fb.Info()&types.IsString != 0:
		if v.Op == OConv && v.Name == "string" {
			return intern(&Term{Op: OCopy, Args: []*Term{v.Args[0]}, Typ: to})
		}
		return intern(&Term{Op: OConv, Name: "bytes", Args: []*Term{v}, Typ: to})
	}
	return v
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
func intSizeT(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intSize(b)
	}
	return 0
}

func (e *Engine) slice(fr *frame, x *ssa.Slice, st *State) []end {
	base := e.val(fr, x.X)
	var n *Term
	if k := arrLen(x.X.Type()); k >= 0 {
		n = Int(k)
	} else {
		n = st.LenOf(base)
	}
	lo, hi := Int(0), n
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if x.Low == nil && x.High == nil && arrLen(x.X.Type()) < 0 {
		fr.env[x] = base
		return one(fr, st)
	}
	limit := n
	if x.High != nil && !isStringType(x.X.Type()) && arrLen(x.X.Type()) < 0 {
		limit = st.CapOf(base)
	}
	ok := st.EntailLe(Int(0), lo) && st.EntailLe(lo, hi) && st.EntailLe(hi, limit)
	e.oblig(fr, st, "slice", ok, x.Pos(), base, lo, hi)
	if !ok {
		st.Log.Ev.Refuted = st.EntailLt(lo, Int(0)) || st.EntailLt(hi, lo) || st.EntailLt(limit, hi)
		st.lin = append(st.lin, neg(toLin(lo)), toLin(Sub(lo, hi)), toLin(Sub(hi, limit)))
	}
	if isStringType(x.X.Type()) {
		fr.env[x] = st.substr(x.Type(), base, lo, hi)
		return one(fr, st)
	}
	if base.Op == OSlice {
		lo2 := Add(base.Args[1], lo)
		hi2 := Add(base.Args[1], hi)
		fr.env[x] = intern(&Term{Op: OSlice, Args: []*Term{base.Args[0], lo2, hi2}, Typ: x.Type()})
		return one(fr, st)
	}
	if l, ok := lo.IntVal(); ok && l == 0 && hi == n && arrLen(x.X.Type()) < 0 {
		fr.env[x] = base
		return one(fr, st)
	}
	if s, ok := subseq(st, base, lo, hi); ok {
		fr.env[x] = s
		return one(fr, st)
	}
	fr.env[x] = intern(&Term{Op: OSlice, Args: []*Term{base, lo, hi}, Typ: x.Type()})
	return one(fr, st)
}

// subseq drops a known prefix of an append term.
func subseq(st *State, base, lo, hi *Term) (*Term, bool) { return nil, false }

// CapOf is the capacity of a slice.
func (s *State) CapOf(x *Term) *Term {
	if x.Op == OSlice && arrLen(x.Args[0].Typ) >= 0 {
		return Sub(Int(arrLen(x.Args[0].Typ)), x.Args[1])
	}
	return intern(&Term{Op: OCap, Args: []*Term{x}, Typ: types.Typ[types.Int]})
}

func (e *Engine) lookup(fr *frame, x *ssa.Lookup, st *State) []end {
	m, k := e.val(fr, x.X), e.val(fr, x.Index)
	if isStringType(x.X.Type()) {
		e.indexOblig(fr, st, m, k, x.X.Type(), x.Pos())
		fr.env[x] = Pure("byteat", x.Type(), m, k)
		return one(fr, st)
	}
	vt := elemType(x.X.Type())
	ev := e.ev(fr, st, "mapread", x.Pos())
	ev.Addr, ev.Args = m, []*Term{k}
	cs := st.mapGet(m, k, vt)
	var out []end
	for i, c := range cs {
		f := fr
		if i < len(cs)-1 {
			f = fr.clone()
		}
		if x.CommaOk {
			f.env[x] = Mk(OTuple, "", nil, c.Val, c.Present)
		} else {
			f.env[x] = c.Val
		}
		out = append(out, end{fr: f, st: c.St})
	}
	return out
}

// known lists the live entries of a map whose content is completely known.
func (s *State) KnownMap(m *Term) (keys, vals []*Term, ok bool) { return s.knownMap(m) }

func (s *State) knownMap(m *Term) (keys, vals []*Term, ok bool) {
	if m.Op != OMapA && m.Op != ONil {
		return nil, nil, false
	}
	if _, h := s.verOf(m); h {
		return nil, nil, false
	}
	for _, u := range s.maps[m] {
		if u.gen {
			return nil, nil, false
		}
		found := false
		for i := range keys {
			switch s.Truth(Eq(keys[i], u.key)) {
			case 1:
				found = true
				if u.val == nil {
					keys = append(keys[:i:i], keys[i+1:]...)
					vals = append(vals[:i:i], vals[i+1:]...)
				} else {
					vals = append([]*Term{}, vals...)
					vals[i] = u.val
				}
			case 0:
				return nil, nil, false
			}
			if found {
				break
			}
		}
		if !found && u.val != nil {
			keys = append(keys, u.key)
			vals = append(vals, u.val)
		}
	}
	return keys, vals, true
}

func (e *Engine) next(fr *frame, x *ssa.Next, st *State) []end {
	it := e.val(fr, x.Iter)
	bt := types.Typ[types.Bool]
	m := it.Args[0]
	if x.IsString {
		ok := e.res("nextok", bt)
		fr.env[x] = Mk(OTuple, "", nil, ok, e.res("runeidx", types.Typ[types.Int]), e.res("rune", types.Typ[types.Rune]))
		return one(fr, st)
	}
	mt := it.Typ.Underlying().(*types.Map)
	if pos, c := st.mem[it].IntVal(); c {
		if ks, vs, ok := st.knownMap(m); ok {
			if int(pos) < len(ks) {
				fr.env[x] = Mk(OTuple, "", nil, Bool(true), ks[pos], vs[pos])
				st.mem[it] = Int(pos + 1)
			} else {
				fr.env[x] = Mk(OTuple, "", nil, Bool(false), Zero(mt.Key()), Zero(mt.Elem()))
			}
			return one(fr, st)
		}
	}
	resN++
	ok := intern(&Term{Op: OSym, Name: fmt.Sprintf("more#%d", resN), Typ: bt})
	key := intern(&Term{Op: OKey, N: resN, Args: []*Term{m}, Typ: mt.Key()})
	// a visited key is present
	st.mem[it] = intern(&Term{Op: OSym, Name: fmt.Sprintf("pos#%d", resN), Typ: types.Typ[types.Int]})
	var out []end
	done, fd := st.Clone(), fr.clone()
	fd.env[x] = Mk(OTuple, "", nil, Bool(false), Zero(mt.Key()), Zero(mt.Elem()))
	e.ev(fd, done, "mapend", x.Pos()).Addr = m
	out = append(out, end{fr: fd, st: done})
	_ = ok
	for _, c := range st.mapGet(m, key, mt.Elem()) {
		if c.Present.IsFalse() {
			continue
		}
		if !c.Present.IsTrue() && !c.St.Assume(c.Present, true) {
			continue
		}
		f := fr.clone()
		f.env[x] = Mk(OTuple, "", nil, Bool(true), key, c.Val)
		ev := e.ev(f, c.St, "mapnext", x.Pos())
		ev.Addr, ev.Args, ev.Val = m, []*Term{key}, c.Val
		out = append(out, end{fr: f, st: c.St})
	}
	return out
}

func (e *Engine) implements(t types.Type, to types.Type) bool {
	if types.IsInterface(to) {
		return types.Implements(t, to.Underlying().(*types.Interface))
	}
	return types.Identical(t, to)
}

func (e *Engine) typeAssert(fr *frame, x *ssa.TypeAssert, st *State) []end {
	v := st.rep(e.val(fr, x.X))
	to := x.AssertedType
	set := func(f *frame, val *Term, ok bool) {
		if x.CommaOk {
			f.env[x] = Mk(OTuple, "", nil, val, Bool(ok))
		} else {
			f.env[x] = val
		}
	}
	good := func() *Term {
		if v.Op == OIface {
			if types.IsInterface(to) {
				return v
			}
			return v.Args[0]
		}
		if types.IsInterface(to) {
			return v
		}
		return intern(&Term{Op: OAssert, Args: []*Term{v}, Typ: to})
	}
	decided := 0
	if v.Op == OIface {
		if e.implements(v.Typ, to) {
			decided = 1
		} else {
			decided = -1
		}
	} else if v.Op == ONil {
		decided = -1
	}
	is := intern(&Term{Op: OIs, Args: []*Term{v}, Typ: to})
	if decided == 0 {
		decided = st.Truth(is)
	}
	if decided == 0 && types.IsInterface(to) && types.AssignableTo(x.X.Type(), to) {
		// conversion to a wider interface succeeds unless nil
		is = Not(Eq(v, Nil(nil)))
		decided = st.Truth(is)
	}
	if !x.CommaOk {
		e.oblig(fr, st, "assert", decided == 1, x.Pos(), v)
		if decided == -1 {
			return []end{{kind: "panic", fr: fr, st: st, pos: x.Pos(), why: "failed type assertion"}}
		}
		st.Assume(is, true)
		set(fr, good(), true)
		return one(fr, st)
	}
	switch decided {
	case 1:
		set(fr, good(), true)
		return one(fr, st)
	case -1:
		set(fr, Zero(to), false)
		return one(fr, st)
	}
	var out []end
	a, fa := st.Clone(), fr.clone()
	a.Emit(&Event{Kind: "assume", Args: []*Term{is}, Truth: true, Fn: fr.fn, Pos: x.Pos(), Stack: fr.stack})
	if a.Assume(is, true) {
		set(fa, good(), true)
		out = append(out, end{fr: fa, st: a})
	}
	st.Emit(&Event{Kind: "assume", Args: []*Term{is}, Truth: false, Fn: fr.fn, Pos: x.Pos(), Stack: fr.stack})
	if st.Assume(is, false) {
		set(fr, Zero(to), false)
		out = append(out, end{fr: fr, st: st})
	}
	return out
}

func (e *Engine) sel(fr *frame, x *ssa.Select, st *State) []end {
	var out []end
	info := func(i int) *SelInfo {
		s := &SelInfo{Index: i, Blocking: x.Blocking}
		for _, c := range x.States {
			y := SelState{Send: c.Dir == types.SendOnly, Ch: e.val(fr, c.Chan)}
			if c.Send != nil {
				y.Val = e.val(fr, c.Send)
			}
			s.States = append(s.States, y)
		}
		return s
	}
	n := len(x.States)
	idx := []int{}
	for i := 0; i < n; i++ {
		// a nil channel is never ready
		if st.Truth(Eq(e.val(fr, x.States[i].Chan), Nil(nil))) == 1 {
			continue
		}
		idx = append(idx, i)
	}
	if !x.Blocking {
		idx = append(idx, -1)
	}
	for _, i := range idx {
		s, f := st.Clone(), fr.clone()
		ev := e.ev(f, s, "select", x.Pos())
		ev.Sel = info(i)
		ok := e.res("selok", types.Typ[types.Bool])
		tup := []*Term{Int(int64(i)), ok}
		for j, c := range x.States {
			if c.Dir == types.RecvOnly {
				v := Zero(elemType(c.Chan.Type()))
				if j == i {
					v = e.res("recv", elemType(c.Chan.Type()))
					ev.Res = v
					ev.Val = ok
				}
				tup = append(tup, v)
			}
		}
		f.env[x] = Mk(OTuple, "", nil, tup...)
		out = append(out, end{fr: f, st: s})
	}
	return out
}

func (e *Engine) runDefers(fr *frame, st *State) []end {
	type item struct {
		fr *frame
		st *State
	}
	work := []item{{fr, st}}
	var out []end
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if len(it.fr.defers) == 0 {
			out = append(out, end{fr: it.fr, st: it.st})
			continue
		}
		d := it.fr.defers[len(it.fr.defers)-1]
		nf := it.fr.clone()
		nf.defers = nf.defers[:len(nf.defers)-1]
		for _, r := range e.runDeferred(nf, d, it.st) {
			switch r.Kind {
			case "return":
				work = append(work, item{nf.clone(), r.St})
			default:
				out = append(out, end{kind: r.Kind, fr: nf, st: r.St, pos: r.Pos, why: r.Why})
			}
		}
	}
	return out
}

// ---- calls

func (e *Engine) callee(fr *frame, c *ssa.CallCommon) (fn, recv *Term, args []*Term) {
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if c.IsInvoke() {
		return nil, e.val(fr, c.Value), args
	}
	return e.val(fr, c.Value), nil, args
}

func (e *Engine) opaqueResults(name string, res *types.Tuple) []*Term {
	var out []*Term
	resN++
	n := resN
	for i := 0; i < res.Len(); i++ {
		nm := name
		if res.Len() > 1 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		out = append(out, intern(&Term{Op: ORes, Name: nm, N: n, Typ: res.At(i).Type()}))
	}
	return out
}

func (e *Engine) invoke(fr *frame, c *ssa.CallCommon, fv, recv *Term, args []*Term, st *State, pos token.Pos, site *ssa.Call) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return e.builtin(fr, b, c, args, st, pos)
	}
	if c.IsInvoke() {
		r := st.rep(recv)
		if r.Op == OIface {
			if m := e.method(r.Typ, c.Method); m != nil {
				return e.callFn(fr, m, nil, append([]*Term{r.Args[0]}, args...), st, pos)
			}
		}
		if r.Op == ONil {
			e.oblig(fr, st, "nil", false, pos, r)
			return []Outcome{{St: st, Kind: "panic", Pos: pos, Why: "method call on nil interface"}}
		}
		if e.Bind != nil {
			if m := e.Bind(st, r, c.Method); m != nil {
				return e.callFn(fr, m, nil, append([]*Term{r}, args...), st, pos)
			}
		}
		return e.opaqueInvoke(fr, c, r, args, st, pos)
	}
	f := st.rep(fv)
	if f.Op == OFunc {
		return e.callFn(fr, f.Fn, f.Args, args, st, pos)
	}
	if f.Op == ONil || st.Truth(Eq(f, Nil(nil))) == 1 {
		e.oblig(fr, st, "nil", false, pos, f)
		return []Outcome{{St: st, Kind: "panic", Pos: pos, Why: "call of nil function"}}
	}
	// unknown function value
	if !st.NonNil(f) {
		e.oblig(fr, st, "nilfunc", st.Truth(Eq(f, Nil(nil))) == -1, pos, f)
	}
	ev := e.ev(fr, st, "callfn", pos)
	ev.Val = f
	ev.Args = args
	ev.Var = st.snapshot(args)
	rs := e.opaqueResults("callfn", c.Signature().Results())
	if len(rs) > 0 {
		ev.Res = rs[0]
	}
	if e.Frame == nil || !e.Frame(ev.Name) {
		e.havocArgs(st, args)
	}
	return []Outcome{{St: st, Kind: "return", Ret: rs}}
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	ms := e.Prog.MethodSets.MethodSet(t)
	s := ms.Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	return e.Prog.MethodValue(s)
}

func (e *Engine) havocArgs(st *State, args []*Term) {
	for _, a := range args {
		e.havocVal(st, a, 0)
	}
}

func (e *Engine) havocVal(st *State, a *Term, d int) {
	if a == nil || d > 3 {
		return
	}
	switch a.Op {
	case OIface:
		if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
			e.havocVal(st, a.Args[0], d+1)
		} else if _, ok := a.Typ.Underlying().(*types.Map); ok {
			e.havocVal(st, a.Args[0], d+1)
		}
		return
	case OFunc:
		// cells the closure may write
		if a.Fn.Blocks != nil {
			for i, b := range a.Args {
				if i < len(a.Fn.FreeVars) && writesVar(a.Fn, a.Fn.FreeVars[i], 0) {
					e.havocVal(st, b, d+1)
				} else if i < len(a.Fn.FreeVars) && writesThrough(a.Fn, a.Fn.FreeVars[i], 0) {
					// the closure may change what the variable refers to
					var in []*Term
					for x, v := range st.mem {
						if (x == b || under(x, b)) && (v.Op == OAlloc || v.Op == OMake || v.Op == OSlice || v.Op == OInit || v.Op == OSym || v.Op == OFunc || v.Op == OMapA) {
							in = append(in, v)
						}
					}
					sort.Slice(in, func(i, j int) bool { return in[i].ID < in[j].ID })
					for _, v := range in {
						e.havocVal(st, v, d+1)
					}
				}
			}
		}
		return
	}
	if a.Typ == nil && a.Op != OFld {
		return
	}
	isPtr := a.Op == OFld || a.Op == OElem
	if a.Typ != nil {
		switch a.Typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
			isPtr = true
		}
	}
	if !isPtr {
		return
	}
	verN++
	if a.Op == OFld || a.Op == OElem {
		st.Havoc(a, verN)
		return
	}
	if a.Op == OSlice {
		a = a.Args[0]
	}
	switch a.Op {
	case OAlloc, OMapA, OMake, OInit, OSym, ORes:
		// what the memory refers to
		var in []*Term
		for x, v := range st.mem {
			if (Root(x) == a || under(x, a)) && (v.Op == OIface || v.Op == OAlloc || v.Op == OMake || v.Op == OSlice) {
				in = append(in, v)
			}
		}
		sort.Slice(in, func(i, j int) bool { return in[i].ID < in[j].ID })
		st.Havoc(a, verN)
		for _, v := range in {
			e.havocVal(st, v, d+1)
		}
	}
}

func writesVar(fn *ssa.Function, v ssa.Value, d int) bool {
	if d > 4 {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && writesVar(f, f.FreeVars[i], d+1) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writesVar(fn, x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesVar(fn, x, d+1) {
				return true
			}
		case *ssa.Call, *ssa.Go, *ssa.Defer:
			return true
		}
	}
	return false
}

// writesThrough reports whether a function may change the memory that a variable it captured refers to.
func writesThrough(fn *ssa.Function, v ssa.Value, d int) bool {
	if d > 6 {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && escapes(fn, x, d+1) {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(fn, x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(fn, x, d+1) {
				return true
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && writesThrough(f, f.FreeVars[i], d+1) {
					return true
				}
			}
		case *ssa.Call, *ssa.Go, *ssa.Defer:
			return true
		}
	}
	return false
}

// escapes reports whether memory that a value refers to may be changed or handed on.
func escapes(fn *ssa.Function, v ssa.Value, d int) bool {
	if d > 6 {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Basic:
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Send:
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return true
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.Lookup:
			if escapes(fn, x.(ssa.Value), d+1) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && escapes(fn, x, d+1) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) callFn(fr *frame, fn *ssa.Function, free, args []*Term, st *State, pos token.Pos) []Outcome {
	// a method value or expression is the method itself
	if m, ok := fn.Object().(*types.Func); ok && (strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(free) == 1 || strings.HasPrefix(fn.Synthetic, "thunk for")) {
		if g := e.Prog.FuncValue(m); g != nil {
			fn, args, free = g, append(append([]*Term{}, free...), args...), nil
		}
	}
	name := FuncName(fn)
	if out, ok := e.model(fr, fn, name, args, st, pos); ok {
		return out
	}
	inline := fn.Blocks != nil && e.InModule(fn) && (e.Opaque == nil || !e.Opaque(fn))
	for _, s := range fr.stack {
		if s == fn {
			inline = false
		}
	}
	if len(fr.stack) > 40 {
		inline = false
		e.errf("inlining depth at %s", fn)
	}
	if inline {
		st.Emit(&Event{Kind: "enter", Name: name, Fn: fr.fn, Pos: pos, Args: args, Stack: fr.stack})
		out := e.call(fn, args, free, st, fr.stack)
		for i := range out {
			ev := out[i].St.Emit(&Event{Kind: "leave", Name: name, Fn: fr.fn, Pos: pos, Args: args, Stack: fr.stack})
			if len(out[i].Ret) > 0 {
				ev.Res = out[i].Ret[0]
			}
		}
		if len(out) > e.MaxStates {
			e.errf("too many paths through %s", fn)
			out = out[:e.MaxStates]
		}
		return out
	}
	ev := e.ev(fr, st, "call", pos)
	ev.Name = name
	ev.Args = args
	ev.Var = st.snapshot(args)
	rs := e.opaqueResults(name, fn.Signature.Results())
	ev.Rs = rs
	if len(rs) > 0 {
		ev.Res = rs[len(rs)-1]
		ev.Val = rs[0]
	}
	if e.Frame == nil || !e.Frame(ev.Name) {
		e.havocArgs(st, args)
	}
	return []Outcome{{St: st, Kind: "return", Ret: rs}}
}

// FuncName is the qualified name of a function: pkgpath.Func or (*pkgpath.Type).Method without vendor noise.
func FuncName(fn *ssa.Function) string {
	s := fn.String()
	if fn.Origin() != nil {
		s = fn.Origin().String()
	}
	return s
}

func (e *Engine) opaqueInvoke(fr *frame, c *ssa.CallCommon, recv *Term, args []*Term, st *State, pos token.Pos) []Outcome {
	name := c.Method.Name()
	qn := types.TypeString(c.Value.Type(), nil) + "." + name
	if !st.NonNil(recv) {
		e.oblig(fr, st, "nil", st.Truth(Eq(recv, Nil(nil))) == -1, pos, recv)
	}
	res := c.Signature().Results()
	if pureInvoke[name] && res.Len() >= 1 {
		var rs []*Term
		for i := 0; i < res.Len(); i++ {
			nm := "." + name
			if i > 0 {
				nm = fmt.Sprintf(".%s/%d", name, i)
			}
			rs = append(rs, Pure(nm, res.At(i).Type(), append([]*Term{recv}, args...)...))
		}
		ev := e.ev(fr, st, "invoke", pos)
		ev.Name, ev.Addr, ev.Args, ev.Res = qn, recv, args, rs[0]
		return []Outcome{{St: st, Kind: "return", Ret: rs}}
	}
	var rs []*Term
	if queryInvoke[name] && len(args) == 0 {
		// a query answers the same as long as nothing with an effect happened in between
		k := queryKey{recv, qn, lastEffect(st.Log)}
		if e.queries == nil {
			e.queries = map[queryKey][]*Term{}
		}
		if rs = e.queries[k]; rs == nil {
			rs = e.opaqueResults(qn, res)
			e.queries[k] = rs
		}
	} else {
		rs = e.opaqueResults(qn, res)
	}
	ev := e.ev(fr, st, "invoke", pos)
	ev.Name = qn
	ev.Addr = recv
	ev.Args = args
	ev.Var = st.snapshot(args)
	ev.Rs = rs
	if len(rs) > 0 {
		ev.Res = rs[len(rs)-1]
		ev.Val = rs[0]
	}
	if e.Frame == nil || !e.Frame(ev.Name) {
		e.havocArgs(st, args)
	}
	return []Outcome{{St: st, Kind: "return", Ret: rs}}
}

type queryKey struct {
	recv *Term
	name string
	ev   *Event
}

var queryInvoke = map[string]bool{"Count": true, "Values": true, "State": true, "HasAlarmed": true, "Value": true, "Limit": true}

func lastEffect(l *LogNode) *Event {
	for ; l != nil; l = l.Prev {
		switch l.Ev.Kind {
		case "call", "callfn", "loop", "loopexit", "lock", "unlock", "recv", "send", "select", "go":
			return l.Ev
		case "invoke":
			n := l.Ev.Name[strings.LastIndex(l.Ev.Name, ".")+1:]
			if !queryInvoke[n] && !pureInvoke[n] {
				return l.Ev
			}
		}
	}
	return nil
}

var pureInvoke = map[string]bool{"Error": true, "String": true, "Done": true, "Deadline": true, "Mean": true, "Variance": true, "Transform": true, "K": true, "RuntimeError": true, "Name": true, "Size": true, "IsDir": true, "ModTime": true, "Mode": true, "Signal": true, "Capacity": true}

// ---- builtins

func (e *Engine) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, st *State, pos token.Pos) []Outcome {
	ret := func(ts ...*Term) []Outcome { return []Outcome{{St: st, Kind: "return", Ret: ts}} }
	switch b.Name() {
	case "len":
		if n := arrLen(c.Args[0].Type()); n >= 0 {
			return ret(Int(n))
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ev := e.ev(fr, st, "mapread", pos)
			ev.Addr = args[0]
			if ks, _, ok := st.knownMap(args[0]); ok {
				return ret(Int(int64(len(ks))))
			}
		}
		return ret(st.LenOf(args[0]))
	case "cap":
		if n := arrLen(c.Args[0].Type()); n >= 0 {
			return ret(Int(n))
		}
		return ret(st.CapOf(args[0]))
	case "append":
		t := c.Args[0].Type()
		if len(args) < 2 {
			return ret(args[0])
		}
		// appending to x[:n:n] always copies
		if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.Max != nil && sl.High != nil && e.val(fr, sl.Max) == e.val(fr, sl.High) {
			args = append([]*Term{st.Append(Nil(t), args[0], t, t)}, args[1:]...)
		}
		ev := e.ev(fr, st, "append", pos)
		ev.Args = args
		r := st.Append(args[0], args[1], t, c.Args[1].Type())
		ev.Res = r
		return ret(r)
	case "copy":
		dst, src := args[0], args[1]
		ev := e.ev(fr, st, "copy", pos)
		ev.Args = args
		n := e.res("copyn", types.Typ[types.Int])
		e.nonNegAtoms[n] = true
		ls, ld := st.LenOf(src), st.LenOf(dst)
		if st.EntailLe(ls, ld) && st.EntailLe(ld, ls) {
			n = ls
			// dst is overwritten entirely: model as copy-of content
			if dst.Op == OMake {
				st.setCopy(dst, src)
				return ret(n)
			}
		} else {
			if st.EntailLe(ls, ld) {
				n = ls
			} else {
				st.lin = append(st.lin, toLin(Sub(n, ls)), toLin(Sub(n, ld)))
			}
		}
		m := Root(dst)
		pre := st.prefix(m)
		e.havocVal(st, dst, 0)
		if n == ls && m.Op == OMake && !isStringType(src.Typ) {
			st.addCopy(m, dst, src, pre, ls)
		}
		return ret(n)
	case "delete":
		m := args[0]
		st.maps[m] = append(st.maps[m][:len(st.maps[m]):len(st.maps[m])], mapUpd{key: args[1]})
		ev := e.ev(fr, st, "mapwrite", pos)
		ev.Name = "delete"
		ev.Addr, ev.Args = m, []*Term{args[1]}
		return ret()
	case "close":
		ev := e.ev(fr, st, "close", pos)
		ev.Addr = args[0]
		return ret()
	case "recover":
		ev := e.ev(fr, st, "recover", pos)
		if st.panicking > 0 {
			st.panicking--
			v := e.res("recovered", types.NewInterfaceType(nil, nil))
			st.facts[Eq(v, Nil(nil))] = false
			ev.Res = v
			return ret(v)
		}
		return ret(Nil(types.NewInterfaceType(nil, nil)))
	case "panic":
		return []Outcome{{St: st, Kind: "panic", Pos: pos, Why: "panic call"}}
	case "print", "println":
		ev := e.ev(fr, st, "call", pos)
		ev.Name = "builtin." + b.Name()
		ev.Args = args
		return ret()
	case "min", "max":
		return ret(Pure(b.Name(), c.Args[0].Type(), args...))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			if ks, _, ok := st.knownMap(args[0]); ok {
				for _, k := range ks {
					st.maps[args[0]] = append(st.maps[args[0]], mapUpd{key: k})
				}
			} else {
				e.havocVal(st, args[0], 0)
			}
			ev := e.ev(fr, st, "mapwrite", pos)
			ev.Name = "clear"
			ev.Addr = args[0]
		}
		return ret()
	}
	e.errf("builtin %s", b.Name())
	return ret(e.res(b.Name(), c.Signature().Results()))
}

// setCopy records that the object dst holds a copy of the elements of src.
func (s *State) setCopy(dst, src *Term) {
	for a := range s.mem {
		if a.Op == OElem && a.Args[0] == dst {
			delete(s.mem, a)
		}
	}
	s.mem[intern(&Term{Op: OUn, Name: "content", Args: []*Term{dst}})] = src
}

func prefixKey(m *Term) *Term { return intern(&Term{Op: OUn, Name: "prefix", Args: []*Term{m}}) }

// prefix returns the sequence the beginning of a made slice holds, when known and not written since.
func (s *State) prefix(m *Term) *Term {
	p, ok := s.mem[prefixKey(m)]
	if !ok {
		return nil
	}
	evs := s.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i]
		if ev.Kind == "copy" && Root(ev.Args[0]) == m {
			if i == len(evs)-1 {
				continue
			}
			return p
		}
		switch ev.Kind {
		case "assume", "oblig", "load", "enter", "leave", "pure":
		default:
			return nil
		}
	}
	return nil
}

// addCopy records that a copy of src extends what is known of the beginning of a made slice.
func (s *State) addCopy(m, dst, src, pre, n *Term) {
	at := Int(0)
	if dst.Op == OSlice && dst.Args[1] != nil {
		at = dst.Args[1]
	}
	if dst.Op == OSlice && dst.Args[0] != m {
		return
	}
	whole := src
	if !s.Same(at, Int(0)) {
		if pre == nil || !s.Same(s.LenOf(pre), at) {
			return
		}
		whole = intern(&Term{Op: OCat, Args: []*Term{pre, src}, Typ: m.Typ})
	}
	if l := s.LenOf(whole); l == s.LenOf(m) || s.Same(l, s.LenOf(m)) {
		s.setCopy(m, whole)
		return
	}
	s.mem[prefixKey(m)] = whole
}

// content returns the sequence a made slice holds, when known.
func (s *State) content(dst *Term) *Term {
	if dst.Op != OMake {
		return nil
	}
	return s.mem[intern(&Term{Op: OUn, Name: "content", Args: []*Term{dst}})]
}

// Append models append(base, seq...).
func (s *State) Append(base, seq *Term, t, st types.Type) *Term {
	et := elemType(t)
	if isStringType(st) {
		return intern(&Term{Op: OCat, Args: []*Term{base, convert(seq, st, t)}, Typ: t})
	}
	if n, ok := s.LenOf(base).IntVal(); ok && n == 0 && base.Op != OSlice && base.Op != ONil {
		if base.Op == OMake || base.Op == OAppend {
			base = Nil(t)
		}
	}
	if base.Op == OSlice && Root(base).Op == OAlloc {
		if n, ok := s.LenOf(base).IntVal(); ok && n == 0 {
			base = Nil(t)
		}
	}
	if base.Op == OSym && s.EntailLe(s.LenOf(base), Int(0)) {
		base = Nil(t)
	}
	if c := s.content(base); c != nil { // the copy and its extension are nobody else's
		base = intern(&Term{Op: OCopy, Args: []*Term{c}, Typ: t})
	}
	es, ok := s.Elems(seq, et)
	if ok {
		if len(es) == 0 {
			return base
		}
		if b, ok := s.Elems(base, et); ok && base.Op != OAppend && base.Op != ONil {
			base = intern(&Term{Op: OAppend, Args: append([]*Term{Nil(t)}, b...), Typ: t})
		}
		args := []*Term{base}
		if base.Op == OAppend {
			args = append([]*Term{}, base.Args...)
		}
		return intern(&Term{Op: OAppend, Args: append(args, es...), Typ: t})
	}
	if base.Op == ONil {
		return intern(&Term{Op: OCopy, Args: []*Term{seq}, Typ: t})
	}
	return intern(&Term{Op: OCat, Args: []*Term{base, seq}, Typ: t})
}

// InitGlobals interprets the package initialisers and keeps the variables nothing else writes.
func (e *Engine) InitGlobals(pkgs []*ssa.Package, all []*ssa.Function) {
	st := newState(e)
	for _, p := range pkgs {
		in := p.Func("init")
		if in == nil || in.Blocks == nil {
			continue
		}
		outs := e.call(in, nil, nil, st.Clone(), nil)
		var best *State
		for _, o := range outs {
			if o.Kind == "return" && (best == nil || len(o.St.mem) > len(best.mem)) {
				best = o.St
			}
		}
		if best != nil {
			for k, v := range best.mem {
				st.mem[k] = v
			}
			for k, v := range best.maps {
				st.maps[k] = v
			}
		}
	}
	written := map[*Term]bool{}
	for _, f := range all {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						if fa, ok := in.(*ssa.FieldAddr); ok && onlyLoads(fa) {
							continue
						}
						if fa, ok := in.(*ssa.IndexAddr); ok && onlyLoads(fa) {
							continue
						}
						written[Global(g)] = true
					}
				}
			}
		}
	}
	e.Errs = nil
	errT := types.Universe.Lookup("error").Type()
	for k, v := range st.mem {
		r := Root(k)
		if r.Op == OGlobal && !written[r] && !strings.Contains(r.Name, "init$guard") {
			if p, ok := r.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), errT) {
				continue
			}
			e.Globals[k] = v
		}
		if r.Op == OAlloc {
			e.Globals[k] = v
		}
	}
	e.globalMaps = st.maps
	e.Steps = 0
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if f, ok := r.(*ssa.FieldAddr); ok && onlyLoads(f) {
			continue
		}
		return false
	}
	return true
}

// FnList lists the interpreted functions.
func (e *Engine) FnList() []string {
	var out []string
	for f := range e.Fns {
		out = append(out, FuncName(f))
	}
	sort.Strings(out)
	return out
}
