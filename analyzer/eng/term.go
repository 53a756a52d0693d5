// Package eng is a path-sensitive, interprocedural abstract interpreter over Go SSA.
//
// The abstract domain is value numbering (hash-consed terms) with a conjunctive set of branch facts, a linear
// constraint domain for integers, a lock set and an ordered effect log; control flow is trace partitioned, calls to
// functions of the analysed module are inlined (summaries are computed in context) and loops are solved to a
// fixpoint over the natural-loop nest.  Nothing is executed and no path is handed to a solver.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a term.
type Op string

const (
	OConst  Op = "const"  // compile time constant
	ONil    Op = "nil"    // nil of a type
	OSym    Op = "sym"    // unknown value
	OInit   Op = "init"   // content of an address before the analysed code wrote it; Args[0]=address
	OAlloc  Op = "alloc"  // fresh address
	OGlobal Op = "global" // address of a package variable
	OFld    Op = "fld"    // address of a struct field; Args[0]=base address, N=index
	OElem   Op = "elem"   // address of a slice or array element; Args[0]=sequence base, Args[1]=index
	OStruct Op = "struct" // struct value
	OField  Op = "field"  // field of an opaque struct value; N=index
	OArr    Op = "arr"    // array value
	OFunc   Op = "func"   // function value with bound free variables
	OBound  Op = "bound"  // bound method value of an interface
	OIface  Op = "iface"  // interface value; Typ=dynamic type, Args[0]=value
	OLin    Op = "lin"    // integer linear combination; Args are atoms, Coef their coefficients, K constant
	OPoly   Op = "poly"   // floating point polynomial over atoms
	OLen    Op = "len"
	OCap    Op = "cap"
	OSlice  Op = "slice"   // Args: base, lo, hi (hi may be nil)
	OMake   Op = "mkslice" // Args: alloc, len
	OAppend Op = "append"  // Args: base, elem...
	OCat    Op = "cat"     // Args: base, seq (append(base, seq...))
	OCopy   Op = "copyof"  // sequence that is a fresh copy of Args[0]
	OCall   Op = "call"    // deterministic function of its arguments
	ORes    Op = "res"     // result of one particular opaque call
	ONot    Op = "not"
	OEq     Op = "eq"
	OLt     Op = "lt"     // integer: Args[0] < 0 where Args[0] is linear... (normalised as Lin < 0)
	OFLt    Op = "flt"    // float: Args[0] < Args[1]
	OSLt    Op = "slt"    // string <
	OLookup Op = "lookup" // Args: map, key
	OHas    Op = "has"    // Args: map, key
	OBin    Op = "bin"
	OUn     Op = "un"
	OConv   Op = "conv"
	OAssert Op = "assert" // value of a type assertion to Typ
	OIs     Op = "is"     // dynamic type of Args[0] is Typ
	OTuple  Op = "tuple"
	OMapA   Op = "mkmap" // fresh map
	OChan   Op = "mkchan"
	OLoop   Op = "loopvar" // value of a variable at the head of a generic iteration / after the loop
	OIter   Op = "iter"    // map iterator
	OKey    Op = "key"     // generic key of an iteration
	OOffset Op = "byteat"
)

// Term is a hash-consed symbolic value.
type Term struct {
	ID   int
	Op   Op
	Name string
	Args []*Term
	N    int
	Typ  types.Type
	C    constant.Value
	Coef []int64
	K    int64
	Fn   *ssa.Function
	Poly []mono // OPoly
}

type mono struct {
	c  float64
	vs []*Term // sorted by ID
}

// Table interns terms.
type Table struct {
	m    map[string]*Term
	next int
}

func NewTable() *Table { return &Table{m: map[string]*Term{}} }

var tt = NewTable()

var typeKeys = map[string]int{}

func tkey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	id, ok := typeKeys[s]
	if !ok {
		id = len(typeKeys) + 1
		typeKeys[s] = id
	}
	return "T" + strconv.Itoa(id)
}

var fnKeys = map[*ssa.Function]int{}

func fkey(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	id, ok := fnKeys[f]
	if !ok {
		id = len(fnKeys) + 1
		fnKeys[f] = id
	}
	return "F" + strconv.Itoa(id)
}

func (t *Term) key() string {
	var b strings.Builder
	b.WriteString(string(t.Op))
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.N))
	b.WriteByte('|')
	switch t.Op {
	case OConst, ONil, OIface, OIs, OAssert, OConv, OStruct, OArr:
		b.WriteString(tkey(t.Typ))
	}
	if t.C != nil {
		b.WriteString("c:")
		b.WriteString(t.C.Kind().String())
		b.WriteString(t.C.ExactString())
	}
	b.WriteByte('|')
	b.WriteString(fkey(t.Fn))
	for i, a := range t.Args {
		b.WriteByte(',')
		if a == nil {
			b.WriteString("_")
		} else {
			b.WriteString(strconv.Itoa(a.ID))
		}
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.Coef[i], 10))
		}
	}
	if t.Op == OLin {
		b.WriteByte('+')
		b.WriteString(strconv.FormatInt(t.K, 10))
	}
	for _, m := range t.Poly {
		fmt.Fprintf(&b, "+%v", m.c)
		for _, v := range m.vs {
			fmt.Fprintf(&b, "*%d", v.ID)
		}
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := t.key()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.next++
	t.ID = tt.next
	tt.m[k] = t
	return t
}

// ---- constructors

func Const(c constant.Value, t types.Type) *Term { return intern(&Term{Op: OConst, C: c, Typ: t}) }
func Nil(t types.Type) *Term                     { return intern(&Term{Op: ONil, Typ: t}) }
func Int(n int64) *Term                          { return Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func Bool(b bool) *Term                          { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func Str(s string) *Term                         { return Const(constant.MakeString(s), types.Typ[types.String]) }

var symN int

// Sym returns a new unknown value.
func Sym(name string, t types.Type) *Term {
	symN++
	return intern(&Term{Op: OSym, Name: fmt.Sprintf("%s#%d", name, symN), Typ: t})
}

// NamedSym returns the unknown value of that name.
func NamedSym(name string, t types.Type) *Term {
	return intern(&Term{Op: OSym, Name: name, Typ: t})
}

func Global(g *ssa.Global) *Term {
	return intern(&Term{Op: OGlobal, Name: g.String(), Typ: g.Type()})
}

func Fld(base *Term, i int, t types.Type) *Term {
	return intern(&Term{Op: OFld, Args: []*Term{base}, N: i, Typ: t})
}

func typOf(t *Term) types.Type { return t.Typ }

// IsTrue and IsFalse recognise constant booleans.
func (t *Term) IsTrue() bool {
	return t.Op == OConst && t.C != nil && t.C.Kind() == constant.Bool && constant.BoolVal(t.C)
}
func (t *Term) IsFalse() bool {
	return t.Op == OConst && t.C != nil && t.C.Kind() == constant.Bool && !constant.BoolVal(t.C)
}
func (t *Term) IsConst() bool { return t.Op == OConst || t.Op == ONil }

// IntVal returns the value of an integer constant.
func (t *Term) IntVal() (int64, bool) {
	if t.Op == OConst && t.C != nil {
		if v := constant.ToInt(t.C); v.Kind() == constant.Int {
			n, ok := constant.Int64Val(v)
			return n, ok
		}
	}
	if t.Op == OLin && len(t.Args) == 0 {
		return t.K, true
	}
	return 0, false
}

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- integers: linear normal form

type lin struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	l := lin{c: map[*Term]int64{}}
	if n, ok := t.IntVal(); ok {
		l.k = n
		return l
	}
	if t.Op == OLin {
		for i, a := range t.Args {
			l.c[a] += t.Coef[i]
		}
		l.k = t.K
		return l
	}
	l.c[t] = 1
	return l
}

func (l lin) add(o lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k + f*o.k}
	for a, c := range l.c {
		r.c[a] += c
	}
	for a, c := range o.c {
		r.c[a] += f * c
	}
	for a, c := range r.c {
		if c == 0 {
			delete(r.c, a)
		}
	}
	return r
}

func (l lin) term(t types.Type) *Term {
	if len(l.c) == 0 {
		return Const(constant.MakeInt64(l.k), t)
	}
	if len(l.c) == 1 && l.k == 0 {
		for a, c := range l.c {
			if c == 1 {
				return a
			}
		}
	}
	var as []*Term
	for a := range l.c {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	x := &Term{Op: OLin, K: l.k, Args: as, Typ: t}
	for _, a := range as {
		x.Coef = append(x.Coef, l.c[a])
	}
	return intern(x)
}

// Add, Sub of integer terms.
func Add(a, b *Term) *Term { return toLin(a).add(toLin(b), 1).term(a.Typ) }
func Sub(a, b *Term) *Term { return toLin(a).add(toLin(b), -1).term(a.Typ) }

// ---- floats: polynomial normal form (real arithmetic; rounding and NaN are ignored)

func toPoly(t *Term) []mono {
	if t.Op == OPoly {
		return t.Poly
	}
	if t.Op == OConst && t.C != nil {
		f, _ := constant.Float64Val(constant.ToFloat(t.C))
		if f == 0 {
			return nil
		}
		return []mono{{c: f}}
	}
	return []mono{{c: 1, vs: []*Term{t}}}
}

func polyTerm(ms []mono, t types.Type) *Term {
	type acc struct {
		m mono
		k string
	}
	byKey := map[string]*acc{}
	for _, m := range ms {
		k := ""
		for _, v := range m.vs {
			k += fmt.Sprintf("%d,", v.ID)
		}
		if a, ok := byKey[k]; ok {
			a.m.c += m.c
		} else {
			byKey[k] = &acc{m: mono{m.c, m.vs}, k: k}
		}
	}
	var out []*acc
	for _, a := range byKey {
		if a.m.c != 0 {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
	if len(out) == 0 {
		return Const(constant.MakeFloat64(0), t)
	}
	if len(out) == 1 {
		m := out[0].m
		if len(m.vs) == 0 {
			return Const(constant.MakeFloat64(m.c), t)
		}
		if len(m.vs) == 1 && m.c == 1 {
			return m.vs[0]
		}
	}
	x := &Term{Op: OPoly, Typ: t}
	for _, a := range out {
		x.Poly = append(x.Poly, a.m)
	}
	return intern(x)
}

func polyAdd(a, b []mono, f float64) []mono {
	var out []mono
	out = append(out, a...)
	for _, m := range b {
		out = append(out, mono{m.c * f, m.vs})
	}
	return out
}

func polyMul(a, b []mono) []mono {
	var out []mono
	for _, x := range a {
		for _, y := range b {
			vs := append(append([]*Term{}, x.vs...), y.vs...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
			out = append(out, mono{x.c * y.c, vs})
		}
	}
	return out
}

// recip builds 1/t for a float term.
func recip(t *Term) *Term {
	if t.Op == OConst {
		f, _ := constant.Float64Val(constant.ToFloat(t.C))
		if f != 0 {
			return Const(constant.MakeFloat64(1/f), t.Typ)
		}
	}
	return intern(&Term{Op: OUn, Name: "recip", Args: []*Term{t}, Typ: t.Typ})
}

// FloatOp applies + - * / to float terms.
func FloatOp(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.ADD:
		return polyTerm(polyAdd(toPoly(a), toPoly(b), 1), t)
	case token.SUB:
		return polyTerm(polyAdd(toPoly(a), toPoly(b), -1), t)
	case token.MUL:
		return polyTerm(polyMul(toPoly(a), toPoly(b)), t)
	case token.QUO:
		return polyTerm(polyMul(toPoly(a), toPoly(recip(b))), t)
	}
	return intern(&Term{Op: OBin, Name: op.String(), Args: []*Term{a, b}, Typ: t})
}

// FloatConst is a float constant term.
func FloatConst(f float64) *Term { return Const(constant.MakeFloat64(f), types.Typ[types.Float64]) }

// ---- booleans

func Not(t *Term) *Term {
	switch {
	case t.IsTrue():
		return Bool(false)
	case t.IsFalse():
		return Bool(true)
	case t.Op == ONot:
		return t.Args[0]
	}
	return intern(&Term{Op: ONot, Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

func nonNilAddr(t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OFld, OElem, OFunc, OIface, OMapA, OChan, OMake, OBound:
		return true
	}
	return false
}

// Eq builds the equality atom.
func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if a.Op == OConst && b.Op == OConst {
		if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() || isNum(a) && isNum(b) {
			return Bool(constant.Compare(a.C, token.EQL, b.C))
		}
	}
	if a.Op == ONil && b.Op == ONil {
		return Bool(true)
	}
	if a.Op == ONil {
		a, b = b, a
	}
	if b.Op == ONil {
		if nonNilAddr(a) {
			return Bool(false)
		}
		if a.Op == OAppend && len(a.Args) > 1 {
			return Bool(false)
		}
		b = Nil(nil)
	}
	if freshAddr(a) && freshAddr(b) {
		return Bool(false)
	}
	for i := 0; i < 2; i++ {
		if x := ofInt(a); x != nil {
			if f, ok := smallFloat(b); ok {
				if f != math.Trunc(f) {
					return Bool(false)
				}
				return Eq(x, Int(int64(f)))
			}
		}
		a, b = b, a
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return Bool(false)
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if isIntType(a.Typ) && isIntType(b.Typ) || a.Op == OLin || b.Op == OLin {
		d := toLin(a).add(toLin(b), -1)
		if len(d.c) == 0 {
			return Bool(d.k == 0)
		}
		// constants of named integer types compare as plain integers
		if v, ok := a.IntVal(); ok {
			a = Int(v)
		}
		if v, ok := b.IntVal(); ok {
			b = Int(v)
		}
		// x + k == c is x == c - k
		if len(d.c) == 1 {
			for v, c := range d.c {
				if c == 1 {
					a, b = v, Int(-d.k)
				} else if c == -1 {
					a, b = v, Int(d.k)
				}
			}
		}
	}
	if a.Typ != nil && isBoolType(a.Typ) {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return Not(a)
		}
		if a.IsTrue() {
			return b
		}
		if a.IsFalse() {
			return Not(b)
		}
	}
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		all := true
		for i := range a.Args {
			e := Eq(a.Args[i], b.Args[i])
			if e.IsFalse() {
				return Bool(false)
			}
			if !e.IsTrue() {
				all = false
			}
		}
		if all {
			return Bool(true)
		}
	}
	if a.ID > b.ID && !(b.IsConst()) || a.IsConst() && !b.IsConst() {
		a, b = b, a
	}
	return intern(&Term{Op: OEq, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func isNum(t *Term) bool {
	return t.C != nil && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float)
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func freshAddr(t *Term) bool {
	switch t.Op {
	case OAlloc, OMapA, OChan:
		return true
	}
	return false
}

// Lt builds a < b over integers, normalised to (a-b) < 0.
func Lt(a, b *Term) *Term {
	d := toLin(a).add(toLin(b), -1)
	if len(d.c) == 0 {
		return Bool(d.k < 0)
	}
	return intern(&Term{Op: OLt, Args: []*Term{d.term(types.Typ[types.Int])}, Typ: types.Typ[types.Bool]})
}

// FLt builds a < b over floats.
func FLt(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return Bool(constant.Compare(constant.ToFloat(a.C), token.LSS, constant.ToFloat(b.C)))
	}
	if x := ofInt(a); x != nil {
		if f, ok := smallFloat(b); ok {
			return Lt(x, Int(int64(math.Ceil(f))))
		}
	}
	if x := ofInt(b); x != nil {
		if f, ok := smallFloat(a); ok {
			return Lt(Int(int64(math.Floor(f))), x)
		}
	}
	return intern(&Term{Op: OFLt, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

// ofInt is the integer a floating point number was made from.
func ofInt(t *Term) *Term {
	if t.Op == OConv && t.Name == "num" && isFloatType(t.Typ) && len(t.Args) == 1 && isIntType(t.Args[0].Typ) {
		return t.Args[0]
	}
	return nil
}

// smallFloat is a constant that is exact as an integer.
func smallFloat(t *Term) (float64, bool) {
	if t.Op != OConst || t.C == nil || !isNum(t) {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(t.C))
	return f, math.Abs(f) < 1<<50
}

// Pure builds a deterministic call.
func Pure(name string, t types.Type, args ...*Term) *Term {
	return intern(&Term{Op: OCall, Name: name, Args: args, Typ: t})
}

// Closure is a function with the variables it uses.
func Closure(f *ssa.Function, vars ...*Term) *Term {
	return intern(&Term{Op: OFunc, Fn: f, Args: vars, Typ: f.Signature})
}

func Mk(op Op, name string, t types.Type, args ...*Term) *Term {
	return intern(&Term{Op: op, Name: name, Args: args, Typ: t})
}
func MkN(op Op, n int, t types.Type, args ...*Term) *Term {
	return intern(&Term{Op: op, N: n, Args: args, Typ: t})
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 12 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		return t.C.ExactString()
	case ONil:
		return "nil"
	case OSym:
		return t.Name
	case OInit:
		return "*" + t.Args[0].str(d+1)
	case OGlobal:
		return "&" + t.Name
	case OAlloc:
		return "new:" + t.Name
	case OFld:
		return t.Args[0].str(d+1) + "." + fieldName(t.Args[0].Typ, t.N)
	case OField:
		return t.Args[0].str(d+1) + ".f" + strconv.Itoa(t.N)
	case OElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OFunc:
		return t.Fn.Name()
	case OLin:
		var s []string
		for i, a := range t.Args {
			c := t.Coef[i]
			switch c {
			case 1:
				s = append(s, a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d·%s", c, a.str(d+1)))
			}
		}
		if t.K != 0 || len(s) == 0 {
			s = append(s, fmt.Sprint(t.K))
		}
		return "(" + strings.Join(s, "+") + ")"
	case OPoly:
		var s []string
		for _, m := range t.Poly {
			x := fmt.Sprint(m.c)
			for _, v := range m.vs {
				x += "·" + v.str(d+1)
			}
			s = append(s, x)
		}
		return "(" + strings.Join(s, "+") + ")"
	case ONot:
		return "!" + t.Args[0].str(d+1)
	case OEq:
		return "(" + t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1) + ")"
	case OLt:
		return "(" + t.Args[0].str(d+1) + "<0)"
	case OFLt:
		return "(" + t.Args[0].str(d+1) + "<" + t.Args[1].str(d+1) + ")"
	case OLookup:
		return t.Args[0].str(d+1) + "{" + t.Args[1].str(d+1) + "}"
	case OIface:
		return types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() }) + "(" + t.Args[0].str(d+1) + ")"
	case OCall, ORes:
		return t.Name + "(" + args() + ")"
	case OLoop:
		return "loop:" + t.Name
	}
	return string(t.Op) + "(" + t.Name + args() + ")"
}

func fieldName(t types.Type, i int) string {
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return strconv.Itoa(i)
}

// MonoCoef is the coefficient of a single-monomial polynomial.
func MonoCoef(t *Term) float64 {
	if t.Op == OPoly && len(t.Poly) == 1 {
		return t.Poly[0].c
	}
	return 0
}

// NearPoly compares two polynomials up to a relative tolerance of their coefficients.
func NearPoly(a, b *Term, tol float64) bool {
	x, y := toPoly(a), toPoly(b)
	if len(x) != len(y) {
		return false
	}
	key := func(m mono) string {
		k := ""
		for _, v := range m.vs {
			k += fmt.Sprintf("%d,", v.ID)
		}
		return k
	}
	cs := map[string]float64{}
	for _, m := range x {
		cs[key(m)] = m.c
	}
	for _, m := range y {
		c, ok := cs[key(m)]
		d := c - m.c
		if d < 0 {
			d = -d
		}
		s := m.c
		if s < 0 {
			s = -s
		}
		if !ok || d > tol*s {
			return false
		}
	}
	return true
}

// Float converts an integer term.
func Float(t *Term) *Term { return convert(t, types.Typ[types.Int], types.Typ[types.Float64]) }

// Is is the condition that an interface value has a dynamic type.
func Is(v *Term, t types.Type) *Term { return intern(&Term{Op: OIs, Args: []*Term{v}, Typ: t}) }

// Assert is the value an interface value holds.
func Assert(v *Term, t types.Type) *Term { return intern(&Term{Op: OAssert, Args: []*Term{v}, Typ: t}) }
