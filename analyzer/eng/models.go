package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// functions of the standard library whose result depends on their arguments only and that have no effect
var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true, "math/bits": true}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true, "errors.New": true, "errors.Is": true, "errors.Unwrap": true,
	"bytes.Equal": true, "bytes.Contains": true, "bytes.TrimSpace": true, "bytes.HasPrefix": true, "bytes.IndexByte": true, "bytes.Join": true,
	"(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).After": true, "(time.Time).Before": true, "(time.Time).Equal": true,
	"(time.Time).UnixNano": true, "(time.Time).Unix": true, "(time.Time).UTC": true, "(time.Time).IsZero": true, "(time.Time).String": true, "(time.Time).Format": true,
	"(time.Duration).Seconds": true, "(time.Duration).String": true, "(time.Duration).Nanoseconds": true, "(time.Duration).Minutes": true, "(time.Duration).Hours": true, "(time.Duration).Milliseconds": true,
	"time.ParseDuration": true, "time.Unix": true,
	"net.JoinHostPort": true, "net.SplitHostPort": true, "path/filepath.Join": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Clean": true,
	"regexp.MatchString": true, "(*regexp.Regexp).Match": true, "(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).String": true, "(*regexp.Regexp).FindSubmatch": true, "(*regexp.Regexp).FindString": true,
	"regexp.Compile": true, "regexp.MustCompile": true, "regexp.QuoteMeta": true,
	"encoding/hex.EncodeToString": true, "encoding/base64.StdEncoding": true, "(*encoding/base64.Encoding).EncodeToString": true,
	"crypto/subtle.ConstantTimeCompare": true, "crypto/hmac.Equal": true, "reflect.DeepEqual": true, "reflect.TypeOf": true,
	"context.Background": true, "context.TODO": true,
	"google.golang.org/grpc.WithInsecure": true, "google.golang.org/grpc.WithTransportCredentials": true, "google.golang.org/grpc.WithBlock": true,
	"google.golang.org/grpc/credentials.NewTLS": true, "google.golang.org/grpc/credentials/insecure.NewCredentials": true, "google.golang.org/grpc/credentials.NewClientTLSFromCert": true,
	"(time.Month).String": true, "(*bytes.Buffer).Len": false,
}

func pureName(fn *ssa.Function, name string) bool {
	if v, ok := pureFns[name]; ok {
		return v
	}
	if fn.Pkg != nil && fn.Signature.Recv() == nil && purePkgs[fn.Pkg.Pkg.Path()] {
		switch name {
		case "strings.NewReader", "strings.NewReplacer", "strings.Map", "strings.FieldsFunc":
			return false
		}
		return true
	}
	return false
}

func (e *Engine) pure(fn *ssa.Function, name string, args []*Term, st *State) []*Term {
	sig := fn.Signature
	var as []*Term
	for i, a := range args {
		if i < len(fn.Params) {
			if sl, ok := fn.Params[i].Type().Underlying().(*types.Slice); ok {
				a = st.Seq(a, sl.Elem())
			}
		}
		as = append(as, a)
	}
	if name == "fmt.Sprintf" {
		if t := sprintf(st, args); t != nil {
			return []*Term{t}
		}
	}
	var rs []*Term
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		nm := name
		if i > 0 {
			nm = fmt.Sprintf("%s/%d", name, i)
		}
		rs = append(rs, Pure(nm, res.At(i).Type(), as...))
	}
	return rs
}

func (e *Engine) model(fr *frame, fn *ssa.Function, name string, args []*Term, st *State, pos token.Pos) ([]Outcome, bool) {
	ret := func(ts ...*Term) ([]Outcome, bool) { return []Outcome{{St: st, Kind: "return", Ret: ts}}, true }
	if e.InModule(fn) {
		return nil, false
	}
	// strip wrappers of promoted methods
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		w := !strings.HasSuffix(name, "RLock")
		for _, h := range st.locks {
			if h.Addr == args[0] {
				e.oblig(fr, st, "relock", false, pos, args[0])
			}
		}
		ev := e.ev(fr, st, "lock", pos)
		ev.Addr, ev.Truth, ev.Name = args[0], w, name
		st.locks = append(st.locks[:len(st.locks):len(st.locks)], Held{Addr: args[0], Write: w, Seq: ev.Seq})
		if e.Interfere {
			st.interfere()
		}
		return ret()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		a := st.Clone()
		ev := a.Emit(&Event{Kind: "lock", Fn: fr.fn, Pos: pos, Stack: fr.stack, Addr: args[0], Truth: name != "(*sync.RWMutex).TryRLock", Name: name})
		a.locks = append(a.locks[:len(a.locks):len(a.locks)], Held{Addr: args[0], Write: ev.Truth, Seq: ev.Seq})
		return []Outcome{{St: a, Kind: "return", Ret: []*Term{Bool(true)}}, {St: st, Kind: "return", Ret: []*Term{Bool(false)}}}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		w := !strings.HasSuffix(name, "RUnlock")
		ev := e.ev(fr, st, "unlock", pos)
		ev.Addr, ev.Truth = args[0], w
		for i := len(st.locks) - 1; i >= 0; i-- {
			if h := st.locks[i]; h.Addr == args[0] && h.Write == w {
				st.locks = append(append([]Held{}, st.locks[:i]...), st.locks[i+1:]...)
				return ret()
			}
		}
		e.oblig(fr, st, "unlock", false, pos, args[0])
		return ret()
	case "(*sync.Once).Do":
		done := intern(&Term{Op: OUn, Name: "once", Args: []*Term{args[0]}})
		v, ok := st.mem[done]
		if !ok {
			if st.fresh(Root(args[0])) {
				v = Bool(false)
			} else {
				v = intern(&Term{Op: OInit, Args: []*Term{done}, Typ: types.Typ[types.Bool]})
			}
		}
		var out []Outcome
		tr := st.Truth(v)
		if tr != -1 {
			a := st
			if tr == 0 {
				a = st.Clone()
			}
			ev := a.Emit(&Event{Kind: "once", Name: "skip", Addr: args[0], Fn: fr.fn, Pos: pos, Stack: fr.stack})
			_ = ev
			if a.Assume(v, true) {
				out = append(out, Outcome{St: a, Kind: "return"})
			}
		}
		if tr != 1 {
			if st.Assume(v, false) {
				st.Emit(&Event{Kind: "once", Name: "run", Addr: args[0], Fn: fr.fn, Pos: pos, Stack: fr.stack})
				st.mem[done] = Bool(true)
				f := st.rep(args[1])
				if f.Op == OFunc {
					out = append(out, e.callFn(fr, f.Fn, f.Args, nil, st, pos)...)
				} else {
					ev := e.ev(fr, st, "callfn", pos)
					ev.Val = f
					out = append(out, Outcome{St: st, Kind: "return"})
				}
			}
		}
		return out, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		ev := e.ev(fr, st, "exit", pos)
		ev.Name, ev.Args = name, args
		return []Outcome{{St: st, Kind: "exit", Pos: pos, Why: name}}, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		return []Outcome{{St: st, Kind: "panic", Pos: pos, Why: name}}, true
	case "time.AfterFunc":
		ev := e.ev(fr, st, "go", pos)
		ev.Name = name
		ev.Go = &GoInfo{Callee: args[1], St: st.Clone(), Loops: st.loops}
		return ret(e.opaqueResults(name, fn.Signature.Results())...)
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
		ev := e.ev(fr, st, "call", pos)
		ev.Name, ev.Args = name, args
		x := args[0]
		if x.Op == OIface {
			x = x.Args[0]
		}
		old := x
		// every cell holding this sequence now holds its sorted permutation
		srt := intern(&Term{Op: OCall, Name: "sorted", Args: []*Term{old}, Typ: old.Typ})
		n := 0
		for k, v := range fr.env {
			if v == old {
				fr.env[k] = srt
				n++
			}
		}
		for k, v := range st.mem {
			if v == old {
				st.mem[k] = srt
				n++
			}
		}
		verN++
		st.Havoc(Root(old), verN)
		return ret()
	case "strings.TrimSuffix", "strings.TrimPrefix":
		has := Pure("strings.Has"+strings.TrimPrefix(name, "strings.Trim"), types.Typ[types.Bool], args...)
		ev := e.ev(fr, st, "pure", pos)
		ev.Name, ev.Args, ev.Res = has.Name, args, has
		var out []Outcome
		if a := st.Clone(); a.Assume(has, true) {
			n, all := a.LenOf(args[1]), a.LenOf(args[0])
			lo, hi := n, all
			if name == "strings.TrimSuffix" {
				lo, hi = Int(0), Sub(all, n)
			}
			out = append(out, Outcome{St: a, Kind: "return", Ret: []*Term{a.substr(fn.Signature.Results().At(0).Type(), args[0], lo, hi)}})
		}
		if st.Assume(has, false) {
			out = append(out, Outcome{St: st, Kind: "return", Ret: []*Term{args[0]}})
		}
		return out, true
	case "(time.Time).Before":
		return ret(Lt(Nanos(args[0]), Nanos(args[1])))
	case "(time.Time).After":
		return ret(Lt(Nanos(args[1]), Nanos(args[0])))
	case "(time.Time).Equal":
		return ret(Eq(Nanos(args[0]), Nanos(args[1])))
	case "(time.Time).Sub":
		return ret(toLin(Nanos(args[0])).add(toLin(Nanos(args[1])), -1).term(fn.Signature.Results().At(0).Type()))
	case "(time.Time).Add":
		return ret(timeAt(toLin(Nanos(args[0])).add(toLin(args[1]), 1).term(types.Typ[types.Int64]), fn.Signature.Results().At(0).Type()))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return ret(args[0])
	case "time.Since", "time.Until":
		now := e.opaqueResults("time.Now", types.NewTuple(fn.Signature.Params().At(0)))[0]
		ev := e.ev(fr, st, "call", pos)
		ev.Name, ev.Val, ev.Res = "time.Now", now, now
		a, b := now, args[0]
		if name == "time.Until" {
			a, b = b, a
		}
		return ret(toLin(Nanos(a)).add(toLin(Nanos(b)), -1).term(fn.Signature.Results().At(0).Type()))
	case "errors.As":
		ev := e.ev(fr, st, "call", pos)
		ev.Name, ev.Args = name, args
		r := e.res("errors.As", types.Typ[types.Bool])
		e.havocArgs(st, args[1:])
		return ret(r)
	}
	if pureName(fn, name) {
		rs := e.pure(fn, name, args, st)
		if name == "net.JoinHostPort" {
			rs = []*Term{Concat(Concat(args[0], Str(":")), args[1])}
		}
		ev := e.ev(fr, st, "pure", pos)
		ev.Name, ev.Args = name, args
		if len(rs) > 0 {
			ev.Res = rs[0]
		}
		return []Outcome{{St: st, Kind: "return", Ret: rs}}, true
	}
	return nil, false
}

// Nanos is the position of a time on the time line.
func Nanos(t *Term) *Term {
	if t.Op == OCall && t.Name == "timeat" {
		return t.Args[0]
	}
	return Pure("nanos", types.Typ[types.Int64], t)
}

func timeAt(n *Term, t types.Type) *Term {
	if n.Op == OCall && n.Name == "nanos" {
		return n.Args[0]
	}
	return Pure("timeat", t, n)
}

// Convert converts a value between types.
func Convert(v *Term, from, to types.Type) *Term { return convert(v, from, to) }

// Format splits a format with its arguments into constant text and the values put between; ok is false when a verb is
// not one of %s, %v and %d or an argument is unknown.
func (s *State) Format(format, args *Term) (parts []*Term, ok bool) {
	f, ok := format.StrVal()
	if !ok {
		return nil, false
	}
	es, ok := s.Elems(args, types.NewInterfaceType(nil, nil))
	if !ok {
		return nil, false
	}
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, Str(f))
			break
		}
		if i > 0 {
			parts = append(parts, Str(f[:i]))
		}
		if i+1 >= len(f) {
			return nil, false
		}
		switch f[i+1] {
		case '%':
			parts = append(parts, Str("%"))
		case 's', 'v', 'd':
			if n >= len(es) {
				return nil, false
			}
			parts = append(parts, es[n])
			n++
		default:
			return nil, false
		}
		f = f[i+2:]
	}
	return parts, n == len(es)
}

func sprintf(st *State, args []*Term) *Term {
	parts, ok := st.Format(args[0], args[1])
	if !ok {
		return nil
	}
	out := Str("")
	for _, p := range parts {
		if p.Op == OIface {
			b, ok := p.Typ.(*types.Basic)
			if !ok || b.Info()&types.IsString == 0 {
				return nil
			}
			p = p.Args[0]
		} else if _, ok := p.StrVal(); !ok {
			return nil
		}
		out = Concat(out, p)
	}
	return out
}
