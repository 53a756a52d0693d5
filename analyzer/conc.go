package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

// ---- cells that do not change once they are shared

// immutables finds the struct fields no function stores to except while it builds a new object.
type immutables struct {
	mutated map[string]bool
}

func fieldKey(pt types.Type, i int) string {
	if p, ok := pt.Underlying().(*types.Pointer); ok {
		pt = p.Elem()
	}
	return fmt.Sprintf("%s#%d", types.TypeString(pt, nil), i)
}

func (p *Prog) immutables() *immutables {
	im := &immutables{mutated: map[string]bool{}}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return local(x.X)
		case *ssa.IndexAddr:
			return local(x.X)
		}
		return false
	}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			im.mutated[fieldKey(x.X.Type(), x.Field)] = true
			mark(x.X)
		}
	}
	for _, f := range p.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !local(x.Addr) {
						mark(x.Addr)
						if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								im.mutated[fieldKey(x.Addr.Type(), i)] = true
							}
						}
					}
				case *ssa.FieldAddr:
					if syncType(x.Type()) {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if y.Val == ssa.Value(x) {
								mark(x)
							}
						default:
							mark(x)
						}
					}
				}
			}
		}
	}
	return im
}

func syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := types.TypeString(t, nil)
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// stable reports whether a cell keeps its value once another goroutine can see it.
func (c *Ctx) stable() func(a *eng.Term) bool {
	im := c.P.immutables()
	cells := map[*ssa.Alloc]bool{}
	// settled reports whether a cell is only set by its own function, and only before something else can reach it.
	settled := func(al *ssa.Alloc) bool {
		var stores, shares []ssa.Instruction
		if al.Referrers() == nil {
			return false
		}
		var inner func(f *ssa.Function, v ssa.Value) bool
		inner = func(f *ssa.Function, v ssa.Value) bool {
			if v.Referrers() == nil {
				return false
			}
			for _, r := range *v.Referrers() {
				switch y := r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					g := y.Fn.(*ssa.Function)
					for i, b := range y.Bindings {
						if b == v && !inner(g, g.FreeVars[i]) {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != ssa.Value(al) {
					return false
				}
				stores = append(stores, y)
			case *ssa.MakeClosure:
				g := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == ssa.Value(al) && !inner(g, g.FreeVars[i]) {
						return false
					}
				}
				shares = append(shares, y)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		for _, m := range shares {
			seen := map[*ssa.BasicBlock]bool{}
			work := append([]*ssa.BasicBlock(nil), m.Block().Succs...)
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if !seen[b] {
					seen[b] = true
					work = append(work, b.Succs...)
				}
			}
			for _, s := range stores {
				after := seen[s.Block()]
				if s.Block() == m.Block() {
					for _, in := range m.Block().Instrs {
						if in == m {
							after = true
						}
						if in == s {
							break
						}
					}
				}
				if after {
					return false
				}
			}
		}
		return true
	}
	cell := func(al *ssa.Alloc) bool {
		if v, ok := cells[al]; ok {
			return v
		}
		n := 0
		var count func(v ssa.Value, d int)
		count = func(v ssa.Value, d int) {
			if d > 6 || v.Referrers() == nil {
				n += 2
				return
			}
			for _, r := range *v.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == v {
						n++
					} else {
						n += 2
					}
				case *ssa.MakeClosure:
					f := y.Fn.(*ssa.Function)
					for i, b := range y.Bindings {
						if b == v {
							count(f.FreeVars[i], d+1)
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
				default:
					n += 2
				}
			}
		}
		count(al, 0)
		cells[al] = n <= 1 || settled(al)
		return cells[al]
	}
	return func(a *eng.Term) bool {
		for {
			switch a.Op {
			case eng.OFld:
				if im.mutated[fieldKey(a.Typ, a.N)] {
					return false
				}
				a = a.Args[0]
				if a.Op != eng.OFld {
					return a.Op != eng.OElem
				}
			case eng.OAlloc:
				al := c.E.AllocOf[a]
				return al != nil && cell(al)
			default:
				return false
			}
		}
	}
}

// bindAll makes an invocation of an interface method of the repository enter its only implementation.
func (c *Ctx) bindAll() {
	memo := map[*types.Func]*ssa.Function{}
	var named []types.Type
	for _, p := range c.P.By {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, ok := t.Type().Underlying().(*types.Interface); !ok {
					named = append(named, t.Type(), types.NewPointer(t.Type()))
				}
			}
		}
	}
	c.E.Bind = func(st *eng.State, recv *eng.Term, m *types.Func) *ssa.Function {
		if f, ok := memo[m]; ok {
			return f
		}
		memo[m] = nil
		if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
			return nil
		}
		sig := m.Type().(*types.Signature)
		it, ok := sig.Recv().Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		found := map[*ssa.Function]bool{}
		for _, t := range named {
			if !types.Implements(t, it) {
				continue
			}
			if s := c.P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); s != nil {
				f := c.P.SSA.MethodValue(s)
				if f != nil && f.Synthetic == "" && f.Pkg != nil && f.Pkg.Pkg.Name() != "mocks" {
					found[f] = true
				}
			}
		}
		if len(found) == 1 {
			for f := range found {
				memo[m] = f
			}
		}
		return memo[m]
	}
}

// ---- threads

type aliasMap map[*eng.Term]string

func (m aliasMap) clone() aliasMap {
	n := aliasMap{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// loc names the memory location of an address; "" is private.
func (m aliasMap) loc(t *eng.Term) string {
	if t == nil {
		return ""
	}
	if s, ok := m[t]; ok {
		return s
	}
	sub := func(i int, suf string) string {
		if s := m.loc(t.Args[i]); s != "" {
			return s + suf
		}
		return ""
	}
	switch t.Op {
	case eng.OFld:
		return sub(0, "."+fieldNameOf(t.Typ, t.N))
	case eng.OElem:
		return sub(0, "[]")
	case eng.OInit:
		return sub(0, "*")
	case eng.OLookup:
		return sub(0, "{}")
	case eng.OField:
		return sub(0, fmt.Sprintf(".%d", t.N))
	case eng.OAssert, eng.OSlice, eng.OAppend, eng.OCat:
		return sub(0, "")
	case eng.OIface:
		return sub(0, "")
	case eng.OGlobal:
		return "var " + t.Name
	case eng.OAlloc, eng.OMake, eng.OMapA:
		return "new:" + t.String()
	}
	return ""
}

func fieldNameOf(t types.Type, i int) string {
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprint(i)
}

type access struct {
	ev    *eng.Event
	loc   string
	write bool
	whole bool // a whole struct
	locks map[string]bool
	th    *thread
}

type spawn struct {
	child *thread
	conc  map[*eng.Event]bool // events of the parent that can happen after the start
	cells map[*eng.Term]bool  // the copies it holds
}

type thread struct {
	name     string
	multi    bool
	ctor     bool
	later    bool // started by the goroutines the others start
	parent   *thread
	start    int // allocations up to this one happened before
	outs     []eng.Outcome
	accs     []*access
	accSeen  map[string]bool
	spawns   map[string]*spawn
	aliases  aliasMap
	excluded func(*eng.Event) bool
}

// conc analyses the goroutines that can run a set of entry points together.
type conc struct {
	c       *Ctx
	threads []*thread
	what    string
}

func (c *Ctx) newConc(what string) *conc {
	c.E.Stable = c.stable()
	return &conc{c: c, what: what}
}

// entry runs a function as a thread of its own.
func (k *conc) entry(name string, f *ssa.Function, multi bool, aliases aliasMap, st *eng.State, args ...*eng.Term) *thread {
	t := &thread{name: name, multi: multi, aliases: aliases, start: eng.AllocCount()}
	t.outs = k.c.Run(f, st, args...)
	k.add(t)
	return t
}

// ctor runs a constructor: what it returns is the shared object.
func (k *conc) ctor(name string, f *ssa.Function, res int, root string, st *eng.State, args ...*eng.Term) *thread {
	t := &thread{name: name, ctor: true, aliases: aliasMap{}, start: eng.AllocCount()}
	t.outs = k.c.Run(f, st, args...)
	for _, o := range t.outs {
		if o.Kind == "return" && len(o.Ret) > res {
			r := o.Ret[res]
			if r.Op == eng.OIface {
				r = r.Args[0]
			}
			if r.Op == eng.OAlloc {
				t.aliases[r] = root
			}
		}
	}
	k.add(t)
	return t
}

func (k *conc) add(t *thread) {
	t.accSeen = map[string]bool{}
	t.spawns = map[string]*spawn{}
	k.threads = append(k.threads, t)
	for _, o := range t.outs {
		k.walk(t, o)
	}
}

// posn is the place of an event in a path: its index at every level of loops, and the loops around it.
type posn struct {
	at    []int
	loops []*eng.LoopInst
	kinds []*eng.IterKind
}

// before reports whether e comes before the start of a goroutine at g on every object it can share with it.
func (e posn) before(g posn, ev *eng.Event) bool {
	n := 0
	root := eventRoot(ev)
	if root != nil {
		for i, l := range g.loops {
			if !l.Local(root) {
				continue
			}
			if i >= len(e.loops) || e.loops[i] != l {
				return true // the object of the iteration that leaves the loop
			}
			n = i + 1
		}
	}
	for i := 0; i < n; i++ {
		if e.kinds[i] != g.kinds[i] {
			return true // an iteration of its own, with an object of its own
		}
	}
	switch {
	case e.at[n] != g.at[n]:
		return e.at[n] < g.at[n]
	case len(e.loops) > n && len(g.loops) > n:
		return false // the next iteration may run beside the goroutine of this one
	}
	return true
}

func eventRoot(ev *eng.Event) *eng.Term {
	a := ev.Addr
	if a == nil && len(ev.Args) > 0 && (ev.Kind == "append" || ev.Kind == "copy") {
		a = ev.Args[0]
	}
	if a == nil {
		return nil
	}
	switch r := eng.Root(a); r.Op {
	case eng.OAlloc, eng.OMake, eng.OMapA:
		return r
	}
	return nil
}

func (k *conc) walk(t *thread, o eng.Outcome) {
	al := t.aliases.clone()
	type goAt struct {
		sp     *spawn
		at     posn
		others map[*eng.Term]bool
	}
	var gos []goAt
	type evAt struct {
		ev *eng.Event
		at posn
	}
	var all []evAt
	last := map[*eng.Term]*eng.Term{}
	seen := map[*eng.LoopInst]bool{}
	var rec func(evs []*eng.Event, p posn)
	rec = func(evs []*eng.Event, up posn) {
		for i, ev := range evs {
			p := posn{append(up.at[:len(up.at):len(up.at)], i), up.loops, up.kinds}
			all = append(all, evAt{ev, p})
			k.access(t, ev, al)
			k.publish(ev, al)
			detach(ev, al, last)
			if ev.Kind == "go" && ev.Go != nil {
				if sp, cells := k.spawn(t, ev, al, len(p.loops) > 0 || len(ev.Go.Loops) > 0); sp != nil {
					others := map[*eng.Term]bool{} // copies another goroutine of the same kind holds
					for a := range sp.cells {
						if !cells[a] {
							others[a] = true
						}
					}
					gos = append(gos, goAt{sp, p, others})
				}
			}
			if ev.Kind == "loop" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, kd := range ev.Loop.Kinds {
					rec(kd.Events, posn{p.at, append(p.loops[:len(p.loops):len(p.loops)], ev.Loop), append(p.kinds[:len(p.kinds):len(p.kinds)], kd)})
				}
				seen[ev.Loop] = false
			}
		}
	}
	rec(o.St.Events(), posn{})
	for _, g := range gos {
		for _, e := range all {
			if !e.at.before(g.at, e.ev) && !g.others[eventRoot(e.ev)] {
				g.sp.conc[e.ev] = true
			}
		}
	}
}

func (k *conc) access(t *thread, ev *eng.Event, al aliasMap) {
	add := func(a *eng.Term, suf string, write bool, whole bool) {
		l := al.loc(a)
		if l == "" || strings.HasSuffix(l+suf, "new:") {
			return
		}
		l += suf
		if strings.HasPrefix(l, detachedPrefix) {
			// the container itself belongs to this goroutine now, what it holds may not
			l = l[len(detachedPrefix):]
			i := strings.Index(l, "|")
			switch rest := l[i+1:]; rest {
			case "", "{}", "[]", "[]+":
				return
			default:
				l = l[:i] + rest
			}
		}
		key := fmt.Sprintf("%s|%v|%d|%s", l, write, ev.Pos, lockKey(al, ev.Locks))
		if t.accSeen[key] && !strings.HasPrefix(l, "new:") {
			// one representative per site is enough unless ordering matters
			if t.multi || t.parent == nil && !t.ctor {
				return
			}
		}
		t.accSeen[key] = true
		ac := &access{ev: ev, loc: l, write: write, whole: whole, th: t, locks: map[string]bool{}}
		for _, h := range ev.Locks {
			ll := al.loc(h.Addr)
			ac.locks[ll] = ac.locks[ll] || h.Write
		}
		t.accs = append(t.accs, ac)
	}
	isStruct := func(v *eng.Term) bool {
		if v == nil || v.Typ == nil {
			return v != nil && v.Op == eng.OStruct
		}
		_, ok := v.Typ.Underlying().(*types.Struct)
		return ok
	}
	switch ev.Kind {
	case "load":
		add(ev.Addr, "", false, isStruct(ev.Val))
	case "store":
		add(ev.Addr, "", true, isStruct(ev.Val))
	case "mapread", "mapnext", "mapend":
		add(ev.Addr, "{}", false, false)
	case "mapwrite":
		add(ev.Addr, "{}", true, false)
	case "append":
		// append may write behind the slice it extends
		if b := ev.Args[0]; b.Op != eng.ONil && b.Op != eng.OCopy {
			add(b, "[]+", true, false)
		}
	case "copy":
		add(ev.Args[0], "[]", true, false)
		add(ev.Args[1], "[]", false, false)
	case "call", "invoke":
		for _, a := range ev.Args {
			if a.Op == eng.OFld || a.Op == eng.OElem {
				if a.Op == eng.OFld && syncField(a) {
					continue
				}
				add(a, "", true, true)
			}
		}
	}
}

func syncField(a *eng.Term) bool {
	t := a.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && a.N < s.NumFields() && syncType(s.Field(a.N).Type())
}

func lockKey(al aliasMap, hs []eng.Held) string {
	var s []string
	for _, h := range hs {
		s = append(s, fmt.Sprintf("%s/%v", al.loc(h.Addr), h.Write))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

const detachedPrefix = "detached "

// detach recognises that a goroutine replaced a shared map or slice by a new one while it held a write lock: the one it
// had loaded from there is then its own.
func detach(ev *eng.Event, al aliasMap, last map[*eng.Term]*eng.Term) {
	switch ev.Kind {
	case "load":
		last[ev.Addr] = ev.Val
	case "store":
		old := last[ev.Addr]
		delete(last, ev.Addr)
		if old == nil || old.Op != eng.OInit {
			return
		}
		w := false
		for _, h := range ev.Locks {
			w = w || h.Write
		}
		switch ev.Val.Op {
		case eng.OMapA, eng.OMake, eng.ONil:
		default:
			return
		}
		if l := al.loc(ev.Addr); w && l != "" && !newAlloc(l) {
			al[old] = detachedPrefix + starred(l) + "|"
		}
	}
}

// publish records the shared location through which others can reach a new object.
func (k *conc) publish(ev *eng.Event, al aliasMap) {
	put := func(l string, v *eng.Term) {
		if l == "" || strings.HasPrefix(l, "new:") {
			return
		}
		var rec func(v *eng.Term, suf string)
		rec = func(v *eng.Term, suf string) {
			switch v.Op {
			case eng.OAlloc, eng.OMake, eng.OMapA:
				if _, ok := al[v]; !ok {
					al[v] = l + suf
				}
			case eng.OAppend:
				rec(v.Args[0], suf)
				for _, a := range v.Args[1:] {
					rec(a, suf+"[]*")
				}
			case eng.OIface, eng.OSlice:
				rec(v.Args[0], suf)
			}
		}
		rec(v, "")
	}
	switch ev.Kind {
	case "store":
		put(starred(al.loc(ev.Addr)), ev.Val)
	case "mapwrite":
		if ev.Val != nil {
			l := al.loc(ev.Addr)
			if l != "" {
				l += "{}"
			}
			put(l, ev.Val)
		}
	}
}

func starred(l string) string {
	if l == "" {
		return ""
	}
	return l + "*"
}

func (k *conc) spawn(t *thread, ev *eng.Event, al aliasMap, inLoop bool) (*spawn, map[*eng.Term]bool) {
	g := ev.Go
	if g.Callee == nil {
		if g.Iface != nil && k.c.E.Bind != nil {
			if m := k.c.E.Bind(g.St, g.Iface, g.Method); m != nil {
				return k.spawnFn(t, ev, al, inLoop, nil, m, append([]*eng.Term{g.Iface}, g.Args...))
			}
		}
		return nil, nil
	}
	if g.Callee.Op != eng.OFunc || g.Callee.Fn.Blocks == nil || !k.c.P.InModule(g.Callee.Fn) {
		return nil, nil
	}
	return k.spawnFn(t, ev, al, inLoop, g.Callee, g.Callee.Fn, g.Args)
}

func (k *conc) spawnFn(t *thread, ev *eng.Event, al aliasMap, inLoop bool, fv *eng.Term, fn *ssa.Function, args []*eng.Term) (*spawn, map[*eng.Term]bool) {
	// two goroutines started at one place on equal values do the same, whichever copies they hold
	key := fmt.Sprintf("%s@%p", fn, ev.Go.Instr)
	cells := map[*eng.Term]bool{}
	content := func(a *eng.Term) string {
		if al := k.c.E.AllocOf[a]; al != nil {
			if v := ev.Go.St.Mem()[a]; v != nil {
				cells[a] = true
				return fmt.Sprintf("%p=%s", al, v)
			}
		}
		return a.String()
	}
	for _, a := range args {
		key += "|" + content(a)
	}
	if fv != nil {
		for _, a := range fv.Args {
			key += "|" + content(a)
		}
	}
	if sp := t.spawns[key]; sp != nil {
		return sp, cells
	}
	for p := t; p != nil; p = p.parent {
		if strings.HasPrefix(p.name, "go "+fn.String()+" ") {
			return nil, nil
		}
	}
	ch := &thread{name: "go " + fn.String() + " ", parent: t, multi: t.multi || inLoop, aliases: al.clone(), start: eng.AllocCount()}
	sp := &spawn{child: ch, conc: map[*eng.Event]bool{}, cells: cells}
	t.spawns[key] = sp
	st := ev.Go.St.Fork()
	if fv != nil {
		ch.outs = k.c.RunVal(fv, st, args...)
	} else {
		ch.outs = k.c.Run(fn, st, args...)
	}
	k.add(ch)
	return sp, cells
}

// ---- conflicts

func overlap(a, b *access) bool {
	la, lb := a.loc, b.loc
	if la == lb {
		return true
	}
	if a.whole && strings.HasPrefix(lb, la+".") && !strings.ContainsAny(lb[len(la):], "*[{") {
		return true
	}
	if b.whole && strings.HasPrefix(la, lb+".") && !strings.ContainsAny(la[len(lb):], "*[{") {
		return true
	}
	return false
}

func anc(a, b *thread) *thread {
	for x := b; x != nil; x = x.parent {
		if x.parent == a {
			return x
		}
	}
	return nil
}

func newAlloc(l string) bool { return strings.HasPrefix(l, "new:") }

func concurrent(a, b *access) bool {
	A, B := a.th, b.th
	if A == B {
		if !A.multi {
			return false
		}
		return !newAlloc(a.loc) || allocBefore(a.loc, A.start)
	}
	for i := 0; i < 2; i++ {
		if ch := anc(A, B); ch != nil {
			for _, sp := range A.spawns {
				if sp.child == ch {
					if A.multi && !newAlloc(a.loc) {
						return true
					}
					return sp.conc[a.ev]
				}
			}
		}
		A, B, a, b = B, A, b, a
	}
	rootOf := func(t *thread) *thread {
		for t.parent != nil {
			t = t.parent
		}
		return t
	}
	if (A.ctor || B.ctor) && rootOf(A) != rootOf(B) {
		return false
	}
	for i := 0; i < 2; i++ {
		if rootOf(A).later && B.parent == nil && !B.later && !B.multi {
			for _, sp := range B.spawns {
				if sp.conc[b.ev] {
					return true
				}
			}
			return false
		}
		A, B, a, b = B, A, b, a
	}
	return true
}

func allocBefore(l string, n int) bool {
	i := strings.LastIndex(l, "#")
	if i < 0 {
		return true
	}
	v := 0
	for _, r := range l[i+1:] {
		if r < '0' || r > '9' {
			break
		}
		v = v*10 + int(r-'0')
	}
	return v <= n
}

func excludes(a, b *access) bool {
	for l, w := range a.locks {
		if l == "" {
			continue
		}
		w2, ok := b.locks[l]
		if ok && (!a.write || w) && (!b.write || w2) {
			return true
		}
	}
	return false
}

// races checks that conflicting accesses of different goroutines exclude each other; it returns the locations checked.
func (k *conc) races(rule string, filter func(loc string) bool) int {
	by := map[string][]*access{}
	for _, t := range k.threads {
		for _, a := range t.accs {
			by[a.loc] = append(by[a.loc], a)
		}
	}
	var locs []string
	for l := range by {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	n := 0
	for i, l := range locs {
		var group []*access
		group = append(group, by[l]...)
		for _, m := range locs[i+1:] {
			if strings.HasPrefix(m, l+".") {
				for _, b := range by[m] {
					group = append(group, b)
				}
			}
		}
		if filter != nil && !filter(l) {
			continue
		}
		shared := false
		var bad [2]*access
		for x, a := range group {
			for _, b := range group[x:] {
				if !a.write && !b.write || !overlap(a, b) {
					continue
				}
				if a == b && !a.write {
					continue
				}
				if !concurrent(a, b) {
					continue
				}
				shared = true
				if !excludes(a, b) && bad[0] == nil {
					bad = [2]*access{a, b}
				}
			}
		}
		if !shared {
			continue
		}
		n++
		name := l
		if newAlloc(l) {
			name = "local " + l[strings.LastIndex(l, "/")+1:]
			if j := strings.Index(name, "#"); j > 0 {
				name = name[:j]
			}
		}
		if bad[0] == nil {
			k.c.Obl(rule, name, true, token.NoPos, "")
			continue
		}
		a, b := bad[0], bad[1]
		if !a.write {
			a, b = b, a
		}
		k.c.Obl(rule, name, false, a.ev.Pos, "written by %s at %s without excluding the access by %s at %s (locks %s / %s)",
			strings.TrimSpace(a.th.name), k.c.P.Pos(a.ev.Pos), strings.TrimSpace(b.th.name), k.c.P.Pos(b.ev.Pos), lockList(a), lockList(b))
	}
	return n
}

func lockList(a *access) string {
	var s []string
	for l, w := range a.locks {
		if w {
			s = append(s, l)
		} else {
			s = append(s, l+" (read)")
		}
	}
	if len(s) == 0 {
		return "none"
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// locking checks that every path releases the locks it takes, never takes a lock it holds, and never waits while
// holding one. waits lists calls of other packages that wait.
func (k *conc) locking(rule string) {
	for _, t := range k.threads {
		name := strings.TrimSpace(t.name)
		for _, o := range t.outs {
			if o.Kind == "return" {
				held := o.St.HeldLocks()
				k.c.OblSt(rule+"-released", name, len(held) == 0, o.Pos, o.St, "%s returns while it holds a lock", name)
			}
			if o.Kind == "stuck" {
				k.c.OblSt(rule+"-released", name, false, o.Pos, o.St, "%s gets stuck: %s", name, o.Why)
			}
			eachEvent(o.St.Events(), func(ev *eng.Event) {
				switch ev.Kind {
				case "oblig":
					if (ev.Name == "relock" || ev.Name == "unlock") && !ev.Truth {
						k.c.OblSt(rule+"-paired", name, false, ev.Pos, o.St, "%s: %s of %v", name, ev.Name, ev.Args)
					}
				case "lock":
					k.c.Obl(rule+"-paired", name, true, ev.Pos, "")
				}
				if w := waits(ev); w != "" {
					k.c.OblSt(rule+"-no-wait", name, len(ev.Locks) == 0, ev.Pos, o.St, "%s %s while it holds a lock", name, w)
				}
			})
		}
	}
}

// waits describes an event that may wait for another goroutine or for time.
func waits(ev *eng.Event) string {
	switch ev.Kind {
	case "send":
		return "sends on a channel"
	case "recv":
		return "receives from a channel"
	case "select":
		if ev.Sel.Blocking {
			return "selects"
		}
	case "call":
		switch ev.Name {
		case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep":
			return "calls " + ev.Name
		}
	}
	return ""
}
