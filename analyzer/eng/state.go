package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Held is one lock in the lock set.
type Held struct {
	Addr  *Term
	Write bool
	Seq   int // acquisition number
}

// Event is one entry of the ordered effect log of a path.
type Event struct {
	Kind    string // call invoke callfn store load mapread mapwrite append lock unlock go send recv close select loop assume oblig defer recover panic enter leave makechan
	Name    string // resolved callee or detail
	Pos     token.Pos
	Fn      *ssa.Function
	Args    []*Term
	Rs      []*Term // all results of an opaque call
	Var     *Term   // the last argument, a list of values known at the time of a call, as it was then
	Res     *Term
	Addr    *Term
	Val     *Term
	Truth   bool // assume: atom holds; oblig: discharged; lock: write lock
	Refuted bool // oblig: certainly broken
	Locks   []Held
	Loop    *LoopInst
	Part    string
	Exit    *LoopExit
	Go      *GoInfo
	Sel     *SelInfo
	St      *State // snapshot for go and some calls
	Seq     int
	Stack   []*ssa.Function
}

// GoInfo describes a started goroutine.
type GoInfo struct {
	Callee *Term // function value, or nil for an interface method
	Iface  *Term
	Method *types.Func
	Args   []*Term
	St     *State
	Loops  []*LoopInst
	Instr  *ssa.Go
}

// SelInfo describes the chosen case of a select.
type SelInfo struct {
	Index    int // -1 default
	Blocking bool
	States   []SelState
}
type SelState struct {
	Send bool
	Ch   *Term
	Val  *Term
}

// LogNode is a persistent list of events.
type LogNode struct {
	Ev   *Event
	Prev *LogNode
	N    int
}

type mapUpd struct {
	key, val *Term // val nil means deleted
	gen      bool  // written by a generic iteration: may be any key
}

// State is the abstract state of one trace partition.
type State struct {
	e     *Engine
	mem   map[*Term]*Term
	maps  map[*Term][]mapUpd
	ver   map[*Term]int // version of the content reachable from a root
	facts map[*Term]bool
	eq    map[*Term]*Term
	lin   []lin // each <= 0
	locks []Held
	Log   *LogNode
	loops []*LoopInst

	panicking int

	epoch      int // set in a goroutine: version of memory other goroutines may have changed
	epochAlloc int // objects allocated up to this one existed when the goroutine started
}

// verOf is the version of the content of an object, if it is not the original one.
func (s *State) verOf(x *Term) (int, bool) {
	if v, ok := s.ver[x]; ok {
		return v, true
	}
	if s.epoch > 0 {
		switch x.Op {
		case OAlloc, OMapA, OMake:
			if x.N <= s.epochAlloc {
				return s.epoch, true
			}
		case OSym, OInit, OGlobal, OLookup, OField, OAssert, OLoop:
			return s.epoch, true
		}
	}
	return 0, false
}

// Fork is the state a goroutine started here begins with: it keeps what nothing else can change.
func (s *State) Fork() *State {
	n := s.Clone()
	n.Log, n.locks, n.loops, n.panicking = nil, nil, nil, 0
	verN++
	n.epoch, n.epochAlloc = verN, allocN
	for a := range n.mem {
		if a.Op == OUn && a.Name == "content" || a.Op == OElem && (Root(a).Op == OMake || Root(a).Op == OAlloc) {
			continue
		}
		if _, ok := s.e.Globals[a]; ok && Root(a).Op == OGlobal {
			continue
		}
		if s.e.Stable == nil || !s.e.Stable(a) {
			delete(n.mem, a)
		}
	}
	for m := range n.maps {
		if _, ok := s.e.globalMaps[m]; !ok {
			delete(n.maps, m)
		}
	}
	n.ver = map[*Term]int{}
	return n
}

func newState(e *Engine) *State {
	return &State{e: e, mem: map[*Term]*Term{}, maps: map[*Term][]mapUpd{}, ver: map[*Term]int{}, facts: map[*Term]bool{}, eq: map[*Term]*Term{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{e: s.e, mem: make(map[*Term]*Term, len(s.mem)+4), maps: make(map[*Term][]mapUpd, len(s.maps)), ver: make(map[*Term]int, len(s.ver)),
		facts: make(map[*Term]bool, len(s.facts)+4), eq: make(map[*Term]*Term, len(s.eq)), Log: s.Log}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v[:len(v):len(v)]
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.eq {
		n.eq[k] = v
	}
	n.lin = s.lin[:len(s.lin):len(s.lin)]
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.panicking = s.panicking
	n.epoch, n.epochAlloc = s.epoch, s.epochAlloc
	return n
}

// Emit appends an event to the log.
func (s *State) Emit(ev *Event) *Event {
	n := 0
	if s.Log != nil {
		n = s.Log.N
	}
	ev.Locks = s.locks[:len(s.locks):len(s.locks)]
	ev.Seq = n + 1
	s.Log = &LogNode{Ev: ev, Prev: s.Log, N: n + 1}
	return ev
}

// Events returns the log in order.
func (s *State) Events() []*Event { return eventsSince(s.Log, nil) }

func eventsSince(l, stop *LogNode) []*Event {
	var out []*Event
	for ; l != nil && l != stop; l = l.Prev {
		out = append(out, l.Ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Root walks an address to the object it lies in.
func Root(t *Term) *Term {
	for {
		switch t.Op {
		case OFld, OElem, OSlice:
			t = t.Args[0]
		default:
			return t
		}
	}
}

// Base of a chain of loads: Init(addr) -> root of addr.
func DeepRoot(t *Term) *Term {
	for {
		switch t.Op {
		case OFld, OElem, OSlice, OInit, OAppend, OCat, OLookup, OField, OAssert:
			t = t.Args[0]
		default:
			return t
		}
	}
}

// ---- memory

func (s *State) fresh(root *Term) bool {
	if _, ok := s.verOf(root); ok {
		return false
	}
	return root.Op == OAlloc || root.Op == OMake
}

// Load reads the value at addr of type t.
func (s *State) Load(addr *Term, t types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if st.NumFields() == 0 {
			return intern(&Term{Op: OStruct, Typ: t})
		}
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, s.Load(Fld(addr, i, ptrTo(t)), st.Field(i).Type()))
		}
		return mkStruct(t, fs)
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= maxArray {
		// an array whose elements were written on their own
		for a := range s.mem {
			if a.Op == OElem && a.Args[0] == addr {
				es := make([]*Term, at.Len())
				for i := range es {
					es[i] = s.Load(s.ElemAddr(addr, Int(int64(i))), at.Elem())
				}
				return intern(&Term{Op: OArr, Name: "of", Args: es, Typ: t})
			}
		}
	}
	if addr.Op == OElem {
		if v := s.elemLoad(addr, t); v != nil {
			return v
		}
	}
	if addr.Op == OFld && baseOf(addr).Op == OElem {
		// field of an element of a derived sequence
		if v := s.elemFieldLoad(addr, t); v != nil {
			return v
		}
	}
	root := Root(addr)
	if s.fresh(root) {
		return Zero(t)
	}
	n, _ := s.verOf(root)
	if n > 0 && s.e.Stable != nil && (n == s.epoch || root.Op == OSym || root.Op == OInit) && s.e.Stable(addr) {
		if root.Op == OAlloc {
			return Zero(t)
		}
		n = 0
	}
	for a := addr; a != root; a = a.Args[0] {
		if v, ok := s.ver[a]; ok && v > n {
			n = v
		}
	}
	v := intern(&Term{Op: OInit, Args: []*Term{addr}, N: n, Typ: t})
	if s.e.Known != nil {
		s.e.Known(s, v)
	}
	return v
}

// ReadWith is what memory that was not written yet holds at an address, when other memory of the same object holds v.
func ReadWith(addr *Term, t types.Type, v *Term) *Term {
	return intern(&Term{Op: OInit, Args: []*Term{addr}, N: v.N, Typ: t})
}

// baseOf is what a field, or a field of a field, belongs to.
func baseOf(a *Term) *Term {
	for a.Op == OFld {
		a = a.Args[0]
	}
	return a
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func mkStruct(t types.Type, fs []*Term) *Term {
	// eta: all fields projected from one value
	if len(fs) > 0 {
		var src *Term
		ok := true
		for i, f := range fs {
			var b *Term
			switch {
			case f.Op == OField && f.N == i:
				b = f.Args[0]
			case f.Op == OInit && f.Args[0].Op == OFld && f.Args[0].N == i:
				b = intern(&Term{Op: OInit, Args: []*Term{f.Args[0].Args[0]}, N: f.N, Typ: t})
			default:
				ok = false
			}
			if !ok || src != nil && b != src {
				ok = false
				break
			}
			src = b
		}
		if ok && src.Op != OStruct && (src.Typ == nil || types.Identical(src.Typ, t)) {
			return src
		}
	}
	return intern(&Term{Op: OStruct, Args: fs, Typ: t})
}

// FieldOf projects a field out of a struct value.
func FieldOf(v *Term, i int, ft types.Type) *Term {
	switch v.Op {
	case OStruct:
		if i < len(v.Args) {
			return v.Args[i]
		}
	case OInit:
		return intern(&Term{Op: OInit, Args: []*Term{Fld(v.Args[0], i, ptrTo(v.Typ))}, N: v.N, Typ: ft})
	}
	return intern(&Term{Op: OField, Args: []*Term{v}, N: i, Typ: ft})
}

// Store writes v at addr.
func (s *State) Store(addr, v *Term, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.Store(Fld(addr, i, ptrTo(t)), FieldOf(v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		for a := range s.mem {
			if a.Op == OElem && a.Args[0] == addr {
				delete(s.mem, a)
			}
		}
		if v.Op == OArr && (v.Name == "of" || at.Len() <= maxArray) {
			for i := 0; i < int(at.Len()); i++ {
				s.mem[s.ElemAddr(addr, Int(int64(i)))] = ArrayAt(v, Int(int64(i)), at.Elem())
			}
			return
		}
	}
	s.mem[addr] = v
}

const maxArray = 64

// ArrayAt is an element of an array value.
func ArrayAt(v, i *Term, t types.Type) *Term {
	switch v.Op {
	case OArr:
		if v.Name == "zero" {
			return Zero(t)
		}
		if n, ok := i.IntVal(); ok && n >= 0 && int(n) < len(v.Args) {
			return v.Args[n]
		}
	case OInit:
		return intern(&Term{Op: OInit, Args: []*Term{intern(&Term{Op: OElem, Args: []*Term{v.Args[0], i}})}, N: v.N, Typ: t})
	}
	return Pure("index", t, v, i)
}

// Havoc forgets everything reachable from root.
func (s *State) Havoc(root *Term, id int) {
	for a := range s.mem {
		if Root(a) == root || under(a, root) {
			delete(s.mem, a)
		}
	}
	delete(s.mem, intern(&Term{Op: OUn, Name: "content", Args: []*Term{root}}))
	delete(s.maps, root)
	s.ver[root] = id
}

func under(a, b *Term) bool {
	for {
		if a == b {
			return true
		}
		switch a.Op {
		case OFld, OElem, OSlice:
			a = a.Args[0]
		default:
			return false
		}
	}
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return Const(constant.MakeFloat64(0), t)
		}
		return Nil(t)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, Zero(u.Field(i).Type()))
		}
		return intern(&Term{Op: OStruct, Args: fs, Typ: t})
	case *types.Array:
		return intern(&Term{Op: OArr, Name: "zero", Typ: t})
	}
	return Nil(t)
}

// ---- sequences

// LenOf is the length of a sequence, string, map or channel value.
func (s *State) LenOf(x *Term) *Term {
	switch x.Op {
	case ONil:
		return Int(0)
	case OConst:
		if v, ok := x.StrVal(); ok {
			return Int(int64(len(v)))
		}
	case OMake:
		return x.Args[1]
	case OSlice:
		lo, hi := x.Args[1], x.Args[2]
		if hi == nil {
			hi = s.LenOf(x.Args[0])
		}
		return Sub(hi, lo)
	case OAppend:
		return Add(s.LenOf(x.Args[0]), Int(int64(len(x.Args)-1)))
	case OCat:
		return Add(s.LenOf(x.Args[0]), s.LenOf(x.Args[1]))
	case OCopy:
		return s.LenOf(x.Args[0])
	case OCall:
		switch x.Name {
		case "comp":
			return x.Args[0]
		case "sorted":
			return s.LenOf(x.Args[0])
		case "substr":
			return Sub(x.Args[2], x.Args[1])
		}
	case OAlloc, OArr, OGlobal, OFld:
		if n := arrLen(x.Typ); n >= 0 {
			return Int(n)
		}
	case OConv:
		if x.Name == "string" || x.Name == "bytes" {
			return s.LenOf(x.Args[0])
		}
	case OMapA:
		if len(s.maps[x]) == 0 {
			if _, ok := s.verOf(x); !ok {
				return Int(0)
			}
		}
	}
	if r := s.rep(x); r != x && (r.Op == ONil || r.Op == OConst) {
		return s.LenOf(r)
	}
	n, _ := s.verOf(x)
	if x.Op == OInit || x.Op == OSym {
		n = 0
	} else if x.Typ != nil {
		// the length of a slice or string is part of its value
		switch x.Typ.Underlying().(type) {
		case *types.Slice, *types.Basic:
			n = 0
		}
	}
	if _, ok := s.maps[x]; ok {
		n = 1 + len(s.maps[x])
	}
	return intern(&Term{Op: OLen, Args: []*Term{x}, N: n, Typ: types.Typ[types.Int]})
}

// lenTerm is the length of a sequence, without what is known of its value.
func (s *State) lenTerm(x *Term) *Term {
	eq := s.eq
	s.eq = nil
	l := s.LenOf(x)
	s.eq = eq
	return l
}

func arrLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// ElemAddr is the address of element idx of a sequence value (or array address).
func (s *State) ElemAddr(seq, idx *Term) *Term {
	for seq.Op == OSlice {
		idx = Add(seq.Args[1], idx)
		seq = seq.Args[0]
	}
	return intern(&Term{Op: OElem, Args: []*Term{seq, idx}})
}

// elemLoad resolves the content of an element address that was not written directly.
func (s *State) elemLoad(addr *Term, t types.Type) *Term {
	seq, idx := addr.Args[0], addr.Args[1]
	// other writes to the same sequence at an index that may be equal
	for a := range s.mem {
		if a.Op == OElem && a.Args[0] == seq && a != addr {
			if s.Truth(Eq(a.Args[1], idx)) == 1 {
				return s.mem[a]
			}
			if s.Truth(Eq(a.Args[1], idx)) == 0 {
				return intern(&Term{Op: OInit, Name: "maybe", Args: []*Term{addr}, N: s.ver[Root(addr)], Typ: t})
			}
		}
	}
	if v, ok := s.mem[seq]; ok && v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Array); ok {
			return ArrayAt(v, idx, t)
		}
	}
	if _, ok := s.ver[seq]; ok {
		return nil
	}
	switch seq.Op {
	case OMake:
		if c := s.content(seq); c != nil {
			return s.Load(s.ElemAddr(c, idx), t)
		}
	case OCall:
		if seq.Name == "comp" {
			return Subst(seq.Args[1], bound, idx)
		}
	case OSlice:
		return s.Load(s.ElemAddr(seq, idx), t)
	case OCopy:
		if s.epoch > 0 {
			o := *s
			o.epoch = 0
			return o.Load(o.ElemAddr(seq.Args[0], idx), t)
		}
		return s.Load(s.ElemAddr(seq.Args[0], idx), t)
	case OAppend:
		d := Sub(idx, s.LenOf(seq.Args[0]))
		if n, ok := d.IntVal(); ok && n >= 0 && int(n) < len(seq.Args)-1 {
			return seq.Args[1+n]
		}
		for n := 0; n < len(seq.Args)-1 && n < 4; n++ {
			if s.EntailLe(d, Int(int64(n))) && s.EntailLe(Int(int64(n)), d) {
				return seq.Args[1+n]
			}
		}
		if s.EntailLt(d, Int(0)) {
			return s.Load(s.ElemAddr(seq.Args[0], idx), t)
		}
	case OCat:
		n := s.LenOf(seq.Args[0])
		d := Sub(idx, n)
		if s.EntailLt(d, Int(0)) {
			return s.Load(s.ElemAddr(seq.Args[0], idx), t)
		}
		if s.EntailLt(Sub(Int(-1), d), Int(0)) {
			return s.Load(s.ElemAddr(seq.Args[1], d), t)
		}
	case OConv:
		return nil
	}
	return nil
}

func (s *State) elemFieldLoad(addr *Term, t types.Type) *Term {
	ea := addr.Args[0]
	if ea.Op == OFld {
		if addr.Typ == nil {
			return nil
		}
		pt, ok := addr.Typ.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		v := s.elemFieldLoad(ea, pt.Elem())
		if v == nil {
			return nil
		}
		return FieldOf(v, addr.N, t)
	}
	seq := ea.Args[0]
	switch seq.Op {
	case OSlice, OCopy, OAppend, OCat, OMake, OCall:
		if ea.Typ == nil {
			if addr.Typ == nil {
				return nil
			}
			pt, ok := addr.Typ.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			v := s.elemLoad(ea, pt.Elem())
			if v == nil {
				return nil
			}
			return FieldOf(v, addr.N, t)
		}
	}
	return nil
}

// Elems lists the elements of a sequence whose elements are all known; ok is false otherwise.
func (s *State) Elems(x *Term, elem types.Type) ([]*Term, bool) {
	switch x.Op {
	case ONil:
		return nil, true
	case OAppend:
		b, ok := s.Elems(x.Args[0], elem)
		if !ok {
			return nil, false
		}
		return append(append([]*Term{}, b...), x.Args[1:]...), true
	case OCat:
		b, ok := s.Elems(x.Args[0], elem)
		c, ok2 := s.Elems(x.Args[1], elem)
		if !ok || !ok2 {
			return nil, false
		}
		return append(append([]*Term{}, b...), c...), true
	case OCopy:
		return s.Elems(x.Args[0], elem)
	}
	n, ok := s.LenOf(x).IntVal()
	if !ok || n > 64 || n < 0 {
		return nil, false
	}
	r := Root(x)
	if !s.fresh(r) {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, s.Load(s.ElemAddr(x, Int(i)), elem))
	}
	return out, true
}

// snapshot is a list argument as it is before a call, when its elements are known.
func (s *State) snapshot(args []*Term) *Term {
	if len(args) == 0 {
		return nil
	}
	x := args[len(args)-1]
	if x == nil || x.Typ == nil {
		return nil
	}
	sl, ok := x.Typ.Underlying().(*types.Slice)
	if !ok || x.Op != OSlice {
		return nil
	}
	if es, ok := s.Elems(x, sl.Elem()); ok {
		return intern(&Term{Op: OAppend, Args: append([]*Term{Nil(x.Typ)}, es...), Typ: x.Typ})
	}
	return nil
}

// Seq rewrites a slice value into its canonical sequence form.
func (s *State) Seq(x *Term, elem types.Type) *Term {
	if n, ok := s.LenOf(x).IntVal(); ok && n == 0 && x.Op != ONil {
		return Nil(x.Typ)
	}
	if c := s.content(x); c != nil {
		if es, ok := s.Elems(c, elem); ok {
			return intern(&Term{Op: OAppend, Args: append([]*Term{Nil(x.Typ)}, es...), Typ: x.Typ})
		}
		return intern(&Term{Op: OCopy, Args: []*Term{c}, Typ: x.Typ})
	}
	switch x.Op {
	case OSlice, OMake:
		if es, ok := s.Elems(x, elem); ok {
			return intern(&Term{Op: OAppend, Args: append([]*Term{Nil(x.Typ)}, es...), Typ: x.Typ})
		}
	}
	return x
}

// ---- maps

// MapGet reads key k of map m. The result is a list of cases.
type MapCase struct {
	St      *State
	Val     *Term
	Present *Term // boolean
}

func (s *State) mapGet(m, k *Term, vt types.Type) []MapCase {
	ups := s.maps[m]
	cur := s
	var out []MapCase
	for i := len(ups) - 1; i >= 0; i-- {
		u := ups[i]
		if u.gen {
			// a generic iteration wrote some keys
			v := intern(&Term{Op: OLookup, Name: fmt.Sprintf("g%d", i), Args: []*Term{m, k}, Typ: vt})
			p := intern(&Term{Op: OHas, Name: fmt.Sprintf("g%d", i), Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
			return append(out, cur.presence(v, p, vt)...)
		}
		eq := Eq(u.key, k)
		tr := cur.Truth(eq)
		if tr == -1 {
			continue
		}
		hit := func(st *State) MapCase {
			if u.val == nil {
				return MapCase{st, Zero(vt), Bool(false)}
			}
			return MapCase{st, u.val, Bool(true)}
		}
		if tr == 1 {
			return append(out, hit(cur))
		}
		a := cur.Clone()
		if a.Assume(eq, true) {
			out = append(out, hit(a))
		}
		b := cur.Clone()
		if !b.Assume(eq, false) {
			return out
		}
		cur = b
	}
	if m.Op == ONil || m.Op == OMapA {
		if _, ok := s.verOf(m); !ok {
			return append(out, MapCase{cur, Zero(vt), Bool(false)})
		}
	}
	n, _ := s.verOf(m)
	v := intern(&Term{Op: OLookup, N: n, Args: []*Term{m, k}, Typ: vt})
	p := intern(&Term{Op: OHas, N: n, Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
	return append(out, cur.presence(v, p, vt)...)
}

func (s *State) presence(v, p *Term, vt types.Type) []MapCase {
	switch s.Truth(p) {
	case 1:
		return []MapCase{{s, v, Bool(true)}}
	case -1:
		return []MapCase{{s, Zero(vt), Bool(false)}}
	}
	a, b := s.Clone(), s.Clone()
	var out []MapCase
	if a.Assume(p, true) {
		out = append(out, MapCase{a, v, Bool(true)})
	}
	if b.Assume(p, false) {
		out = append(out, MapCase{b, Zero(vt), Bool(false)})
	}
	return out
}

// MapUpdates lists the recorded writes to a map.
func (s *State) MapUpdates(m *Term) (keys, vals []*Term, generic bool) {
	for _, u := range s.maps[m] {
		if u.gen {
			generic = true
			continue
		}
		keys = append(keys, u.key)
		vals = append(vals, u.val)
	}
	return
}

// ---- facts

func (s *State) rep(t *Term) *Term {
	for {
		n, ok := s.eq[t]
		if !ok {
			return t
		}
		t = n
	}
}

// Same reports whether two terms are equal in this state.
func (s *State) Same(a, b *Term) bool {
	if a == b {
		return true
	}
	return s.Truth(Eq(a, b)) == 1
}

func distinctConst(a, b *Term) bool {
	if a.Op == OConst && b.Op == OConst && a.C != nil && b.C != nil {
		return Eq(a, b).IsFalse()
	}
	if a.Op == ONil && (b.Op == OConst || nonNilAddr(b)) || b.Op == ONil && (a.Op == OConst || nonNilAddr(a)) {
		return true
	}
	return false
}

// Truth evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) Truth(t *Term) int {
	switch {
	case t.IsTrue():
		return 1
	case t.IsFalse():
		return -1
	case t.Op == ONot:
		return -s.Truth(t.Args[0])
	}
	if v, ok := s.facts[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	if r := s.rep(t); r != t {
		return s.Truth(r)
	}
	switch t.Op {
	case OEq:
		a, b := t.Args[0], t.Args[1]
		ra, rb := s.rep(a), s.rep(b)
		if ra == rb {
			return 1
		}
		if distinctConst(ra, rb) {
			return -1
		}
		if ra != a || rb != b {
			e := Eq(ra, rb)
			if e.IsTrue() {
				return 1
			}
			if e.IsFalse() {
				return -1
			}
			if v, ok := s.facts[e]; ok {
				if v {
					return 1
				}
				return -1
			}
		}
		if b.Op == ONil {
			if s.NonNil(ra) {
				return -1
			}
			if n, ok := s.LenOf(ra).IntVal(); ok && n > 0 {
				return -1
			}
		}
		if isIntType(a.Typ) || isIntType(b.Typ) || a.Op == OLin || b.Op == OLin {
			d := toLin(a).add(toLin(b), -1)
			if s.entailLe(d, -1) || s.entailLe(neg(d), -1) {
				return -1
			}
			if s.entailLe(d, 0) && s.entailLe(neg(d), 0) {
				return 1
			}
		}
		if w, ok := b.StrVal(); ok && w == "" && a.Op != OConst {
			return s.Truth(Eq(s.lenTerm(a), Int(0)))
		}
		if part(a, b) || part(b, a) {
			// a part of a text is the text only if it is all of it
			return s.Truth(Eq(s.lenTerm(a), s.lenTerm(b)))
		}
	case OLt:
		d := toLin(t.Args[0])
		if s.entailLe(d, -1) {
			return 1
		}
		if s.entailLe(neg(d), 0) {
			return -1
		}
	case OFLt:
		if v, ok := s.facts[FLt(t.Args[1], t.Args[0])]; ok && v {
			return -1
		}
		a, b := s.rep(t.Args[0]), s.rep(t.Args[1])
		if a == b {
			return -1
		}
		if a != t.Args[0] || b != t.Args[1] {
			return s.Truth(FLt(a, b))
		}
	case OIs:
		for f, v := range s.facts {
			if v && f.Op == OIs && f.Args[0] == t.Args[0] {
				if !types.Identical(f.Typ, t.Typ) && !types.IsInterface(f.Typ) && !types.IsInterface(t.Typ) {
					return -1
				}
			}
		}
		if s.rep(t.Args[0]).Op == ONil {
			return -1
		}
	}
	return 0
}

// substr is part of a text.
func (s *State) substr(t types.Type, x, lo, hi *Term) *Term {
	if x.Op == OCall && x.Name == "substr" {
		return s.substr(t, x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi))
	}
	if w, ok := x.StrVal(); ok {
		a, ok1 := s.rep(lo).IntVal()
		b, ok2 := s.rep(hi).IntVal()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(w)) {
			return Const(constant.MakeString(w[a:b]), t)
		}
	}
	if n, ok := lo.IntVal(); ok && n == 0 && s.LenOf(x) == hi {
		return x
	}
	return Pure("substr", t, x, lo, hi)
}

func part(a, b *Term) bool { return a.Op == OCall && a.Name == "substr" && a.Args[0] == b }

// NonNil recognises values that are never nil.
func (s *State) NonNil(t *Term) bool {
	if nonNilAddr(t) {
		return true
	}
	switch t.Op {
	case OCall:
		switch t.Name {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case OAppend:
		return len(t.Args) > 1
	case OCopy:
		return false
	case OInit:
		if a := t.Args[0]; a.Op == OGlobal && t.Typ != nil && types.Identical(t.Typ, types.Universe.Lookup("error").Type()) {
			return true
		}
	case OSym, OStruct:
		return s.facts[intern(&Term{Op: OUn, Name: "nonnil", Args: []*Term{t}, Typ: types.Typ[types.Bool]})]
	}
	return false
}

// MarkNonNil records that a value is not nil.
func (s *State) MarkNonNil(t *Term) {
	s.Assume(Eq(t, Nil(nil)), false)
}

// Assume adds a fact; false means the state became infeasible.
func (s *State) Assume(t *Term, v bool) bool {
	switch s.Truth(t) {
	case 1:
		return v
	case -1:
		return !v
	}
	if t.Op == ONot {
		return s.Assume(t.Args[0], !v)
	}
	s.facts[t] = v
	switch t.Op {
	case OEq:
		a, b := t.Args[0], t.Args[1]
		if v {
			ra, rb := s.rep(a), s.rep(b)
			if ra != rb {
				switch {
				case rb.IsConst():
					s.eq[ra] = rb
				case ra.IsConst():
					s.eq[rb] = ra
				case ra.ID < rb.ID:
					s.eq[rb] = ra
				default:
					s.eq[ra] = rb
				}
			}
			// consistency with recorded disequalities
			r := s.rep(a)
			for f, tv := range s.facts {
				if f.Op == OEq && !tv && s.rep(f.Args[0]) == s.rep(f.Args[1]) {
					return false
				}
				if f.Op == OEq && tv {
					x, y := s.rep(f.Args[0]), s.rep(f.Args[1])
					if distinctConst(x, y) {
						return false
					}
				}
			}
			_ = r
			if isIntType(a.Typ) || isIntType(b.Typ) {
				d := toLin(a).add(toLin(b), -1)
				s.lin = append(s.lin, d, neg(d))
				if s.infeasible(d) {
					return false
				}
			}
			if b.Op == ONil {
				// nil has length zero
				l := intern(&Term{Op: OLen, Args: []*Term{a}, Typ: types.Typ[types.Int]})
				s.lin = append(s.lin, toLin(l))
			}
		} else {
			if b.Op == ONil && growing[a] {
				l := neg(toLin(s.lenTerm(a)))
				l.k++
				s.lin = append(s.lin, l)
				if s.infeasible(l) {
					return false
				}
			}
			if isIntType(a.Typ) || isIntType(b.Typ) {
				d := toLin(a).add(toLin(b), -1)
				if s.entailLe(d, 0) {
					s.lin = append(s.lin, lin{d.c, d.k + 1})
				} else if s.entailLe(neg(d), 0) {
					n := neg(d)
					s.lin = append(s.lin, lin{n.c, n.k + 1})
				}
			}
		}
		if w, ok := b.StrVal(); ok && w == "" && !a.IsConst() {
			// an empty string has length zero
			l := toLin(s.lenTerm(a))
			if v {
				s.lin = append(s.lin, l)
			} else {
				l = neg(l)
				l.k++
				s.lin = append(s.lin, l)
			}
			if s.infeasible(l) {
				return false
			}
		}
	case OLt:
		d := toLin(t.Args[0])
		if v {
			s.lin = append(s.lin, lin{d.c, d.k + 1})
		} else {
			s.lin = append(s.lin, neg(d))
			// combine with known disequality of the same difference
		}
		if s.infeasible(d) {
			return false
		}
		s.tighten()
	case OIs:
		if v {
			s.facts[Eq(t.Args[0], Nil(nil))] = false
		}
	case OCall:
		switch t.Name {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			if v {
				// a text is as long as any part of it
				l := toLin(s.LenOf(t.Args[1])).add(toLin(s.LenOf(t.Args[0])), -1)
				s.lin = append(s.lin, l)
				if s.infeasible(l) {
					return false
				}
			}
		}
	}
	return true
}

// tighten turns a <= b and a != b into a < b.
func (s *State) tighten() {
	var eqs []*Term
	for f, v := range s.facts {
		if f.Op == OEq && !v && (isIntType(f.Args[0].Typ) || isIntType(f.Args[1].Typ)) {
			eqs = append(eqs, f)
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].ID < eqs[j].ID })
	for _, f := range eqs {
		d := toLin(f.Args[0]).add(toLin(f.Args[1]), -1)
		if s.entailLe(d, 0) && !s.entailLe(d, -1) {
			s.lin = append(s.lin, lin{d.c, d.k + 1})
		} else if n := neg(d); s.entailLe(n, 0) && !s.entailLe(n, -1) {
			s.lin = append(s.lin, lin{n.c, n.k + 1})
		}
	}
}

func neg(l lin) lin {
	r := lin{c: map[*Term]int64{}, k: -l.k}
	for a, c := range l.c {
		r.c[a] = -c
	}
	return r
}

// EntailLt decides a < b.
func (s *State) EntailLt(a, b *Term) bool { return s.entailLe(toLin(a).add(toLin(b), -1), -1) }

// EntailLe decides a <= b.
func (s *State) EntailLe(a, b *Term) bool { return s.entailLe(toLin(a).add(toLin(b), -1), 0) }

// entailLe decides l <= bound.
func (s *State) entailLe(l lin, bound int64) bool {
	if len(l.c) == 0 {
		return l.k <= bound
	}
	// negation: l >= bound+1  <=>  -l + bound+1 <= 0
	n := neg(l)
	n.k += bound + 1
	return s.fm(n)
}

func (s *State) infeasible(seed lin) bool {
	return s.fm(seed0(seed))
}

func seed0(l lin) lin {
	// a trivially true constraint over the same variables, used to select the connected component
	r := lin{c: map[*Term]int64{}, k: 0}
	for a := range l.c {
		r.c[a] = 0
	}
	return r
}

// fm eliminates variables of the constraints connected to extra and reports whether they are contradictory.
func (s *State) fm(extra lin) bool {
	vars := map[*Term]bool{}
	for a := range extra.c {
		vars[s.rep(a)] = true
		vars[a] = true
	}
	norm := func(l lin) lin {
		r := lin{c: map[*Term]int64{}, k: l.k}
		for a, c := range l.c {
			if c == 0 {
				continue
			}
			b := s.rep(a)
			if n, ok := b.IntVal(); ok {
				r.k += c * n
				continue
			}
			r.c[b] += c
			if r.c[b] == 0 {
				delete(r.c, b)
			}
		}
		return r
	}
	all := make([]lin, 0, len(s.lin))
	for _, l := range s.lin {
		all = append(all, norm(l))
	}
	cs := []lin{norm(extra)}
	used := make([]bool, len(all))
	implicit := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for i, l := range all {
			if used[i] {
				continue
			}
			for a := range l.c {
				if vars[a] {
					used[i] = true
					cs = append(cs, l)
					for b := range l.c {
						vars[b] = true
					}
					changed = true
					break
				}
			}
		}
		for a := range vars {
			if implicit[a] {
				continue
			}
			implicit[a] = true
			for _, l := range implicitFacts(s, a) {
				l = norm(l)
				cs = append(cs, l)
				for b := range l.c {
					if !vars[b] {
						vars[b] = true
						changed = true
					}
				}
			}
		}
		if len(cs) > 80 {
			break
		}
	}
	// eliminate
	order := make([]*Term, 0, len(vars))
	for a := range vars {
		order = append(order, a)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for len(order) > 0 {
		// choose the variable with the fewest products
		best, bi := -1, 0
		for i, v := range order {
			p, n := 0, 0
			for _, l := range cs {
				if l.c[v] > 0 {
					p++
				} else if l.c[v] < 0 {
					n++
				}
			}
			if best < 0 || p*n < best {
				best, bi = p*n, i
			}
		}
		v := order[bi]
		order = append(order[:bi:bi], order[bi+1:]...)
		var pos, negs, rest []lin
		for _, l := range cs {
			switch {
			case l.c[v] > 0:
				pos = append(pos, l)
			case l.c[v] < 0:
				negs = append(negs, l)
			default:
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, n := range negs {
				cp, cn := p.c[v], -n.c[v]
				r := lin{c: map[*Term]int64{}, k: cn*p.k + cp*n.k}
				for a, c := range p.c {
					r.c[a] += cn * c
				}
				for a, c := range n.c {
					r.c[a] += cp * c
				}
				for a, c := range r.c {
					if c == 0 {
						delete(r.c, a)
					}
				}
				if len(r.c) == 0 {
					if r.k > 0 {
						return true
					}
					continue
				}
				rest = append(rest, r)
			}
		}
		cs = rest
		if len(cs) > 600 {
			return false
		}
	}
	for _, l := range cs {
		if len(l.c) == 0 && l.k > 0 {
			return true
		}
	}
	return false
}

// implicitFacts lists constraints that always hold for an integer atom.
func implicitFacts(s *State, a *Term) []lin {
	one := func(t *Term, c int64, k int64) lin { return lin{map[*Term]int64{t: c}, k} }
	switch a.Op {
	case OLen, OCap:
		out := []lin{one(a, -1, 0)}
		if a.Op == OCap {
			d := toLin(s.LenOf(a.Args[0])).add(toLin(a), -1)
			out = append(out, d)
		} else if x := a.Args[0]; x.Op == OCall && len(x.Args) > 1 {
			switch n := strings.TrimPrefix(x.Name, "strings."); n {
			case "Split", "SplitAfter", "SplitN", "SplitAfterN":
				// there is at least one part if parts can not be empty, and no more than asked for
				max, limited := int64(0), false
				if len(x.Args) > 2 {
					max, limited = x.Args[2].IntVal()
					if !limited {
						break
					}
				}
				if sep, ok := x.Args[1].StrVal(); ok && sep != "" && (!limited || max != 0) {
					out = append(out, one(a, -1, 1))
				}
				if limited && max >= 0 {
					out = append(out, one(a, 1, -max))
				}
			}
		}
		return out
	case OCall:
		if len(a.Args) < 2 {
			break
		}
		switch strings.TrimPrefix(strings.TrimPrefix(a.Name, "strings."), "bytes.") {
		case "Count":
			return []lin{one(a, -1, 0)}
		case "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "LastIndexAny":
			// a place in the text, or -1
			out := []lin{one(a, -1, -1)}
			for _, pkg := range []string{"strings.", "bytes."} {
				x := Pure(pkg+"Contains", types.Typ[types.Bool], a.Args[:2]...)
				n, known := s.rep(Pure(pkg+"Count", types.Typ[types.Int], a.Args[:2]...)).IntVal()
				if s.facts[x] || known && n > 0 {
					out = append(out, one(a, -1, 0))
				}
			}
			if n, ok := s.LenOf(a.Args[1]).IntVal(); ok && n > 0 || a.Args[1].Typ == nil || isIntType(a.Args[1].Typ) {
				out = append(out, toLin(a).add(toLin(s.LenOf(a.Args[0])), -1).add(toLin(Int(1)), 1))
			}
			return out
		}
	case OBin:
		if a.Name == "%" {
			x, y := a.Args[0], a.Args[1]
			var out []lin
			n, ok := y.IntVal()
			if ok && n > 0 || y.Op == OLen || !ok && s.entailLe(neg(toLin(y)), -1) {
				// r < y holds whenever y > 0; y is a length and the division by zero case panics
				out = append(out, lin{c: toLin(a).add(toLin(y), -1).c, k: toLin(a).add(toLin(y), -1).k + 1})
				if nonNeg(s, x) {
					out = append(out, one(a, -1, 0))
				}
			}
			return out
		}
	case OConv:
		if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return []lin{one(a, -1, 0)}
		}
	}
	if a.Typ != nil {
		if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return []lin{one(a, -1, 0)}
		}
	}
	if s.e != nil && s.e.nonNegAtoms[a] {
		return []lin{one(a, -1, 0)}
	}
	return nil
}

func nonNeg(s *State, x *Term) bool {
	if n, ok := x.IntVal(); ok {
		return n >= 0
	}
	if s.e != nil && s.e.nonNegAtoms[x] {
		return true
	}
	if busyNonNeg[x] || len(busyNonNeg) > 3 {
		return false
	}
	busyNonNeg[x] = true
	defer delete(busyNonNeg, x)
	return s.entailLe(neg(toLin(x)), 0)
}

// busyNonNeg cuts the recursion between the facts about remainders and the procedure that uses them.
var busyNonNeg = map[*Term]bool{}

// HeldLocks returns the current lock set.
func (s *State) HeldLocks() []Held { return s.locks }

// Facts lists the facts in a stable order.
func (s *State) Facts() []string {
	var out []string
	for f, v := range s.facts {
		if v {
			out = append(out, f.String())
		} else {
			out = append(out, "!"+f.String())
		}
	}
	sort.Strings(out)
	return out
}

// FactTerms exposes the facts.
func (s *State) FactTerms() map[*Term]bool { return s.facts }

// Mem exposes the written cells.
func (s *State) Mem() map[*Term]*Term { return s.mem }

// IsFresh reports whether the object was allocated by the analysed code and not havocked.
func (s *State) IsFresh(root *Term) bool { return s.fresh(root) }

// AllocCount is the number of objects allocated so far.
func AllocCount() int { return allocN }

// interfere forgets what other goroutines may have changed.
func (s *State) interfere() {
	verN++
	s.epoch = verN
	for a := range s.mem {
		if s.private(a) || s.e.Stable != nil && s.e.Stable(a) {
			continue
		}
		if _, ok := s.e.Globals[a]; ok {
			continue
		}
		delete(s.mem, a)
	}
	for m := range s.maps {
		if _, ok := s.e.globalMaps[m]; !ok && !(m.Op == OMapA && m.N > s.epochAlloc) {
			delete(s.maps, m)
		}
	}
	for r := range s.ver {
		if !s.private(r) {
			delete(s.ver, r)
		}
	}
}

func (s *State) private(a *Term) bool {
	switch r := Root(a); r.Op {
	case OAlloc, OMapA, OMake:
		return r.N > s.epochAlloc
	case OUn, OIter:
		return r.Name == "content" || r.Op == OIter
	}
	return false
}

// Old is the state with everything the analysed code wrote to shared memory undone: loads give what it found there,
// after the last lock it took when interference is considered.
func (s *State) Old() *State {
	n := s.Clone()
	for a := range n.mem {
		r := Root(a)
		if s.epoch > 0 && s.e.Stable != nil && r.Op == OAlloc && s.e.Stable(a) {
			continue
		}
		if _, ok := s.e.Globals[a]; !ok && (r.Op != OAlloc && r.Op != OMake && r.Op != OUn || r.N <= s.epochAlloc && s.epoch > 0) {
			delete(n.mem, a)
		}
	}
	for m := range n.maps {
		if m.Op != OMapA {
			delete(n.maps, m)
		}
	}
	return n
}
