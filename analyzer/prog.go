package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"monnyverif/eng"
)

const modPath = "github.com/BTBurke/monny"

// Prog is the loaded repository.
type Prog struct {
	Dir  string
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	By   map[string]*ssa.Package // by path relative to the module
	Fns  []*ssa.Function
}

// Load type checks and builds SSA for every package of the repository.
func Load(dir string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module != nil && p.Module.Path == modPath || strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Fset: fset, Pkgs: pkgs, SSA: sp, By: map[string]*ssa.Package{}}
	for _, k := range pkgs {
		if s := sp.Package(k.Types); s != nil {
			s.Build()
			p.By[strings.TrimPrefix(strings.TrimPrefix(k.PkgPath, modPath), "/")] = s
		}
	}
	for f := range ssautil.AllFunctions(sp) {
		if p.InModule(f) && f.Blocks != nil {
			p.Fns = append(p.Fns, f)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		if p.Fns[i].String() != p.Fns[j].String() {
			return p.Fns[i].String() < p.Fns[j].String()
		}
		return p.Fns[i].Pos() < p.Fns[j].Pos()
	})
	return p, nil
}

// InModule reports whether a function belongs to the repository.
func (p *Prog) InModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Synthetic != "" {
		// wrappers and bound methods
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	return false
}

// Func finds "pkg.Func" or "pkg.Type.Method" (method of T or *T).
func (p *Prog) Func(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	if j < 0 {
		return nil
	}
	pk, rest := name[:i+1+j], name[i+1+j+1:]
	pkg := p.By[pk]
	if pkg == nil {
		return nil
	}
	parts := strings.Split(rest, ".")
	if len(parts) == 1 {
		return pkg.Func(rest)
	}
	t := pkg.Type(parts[0])
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if s := p.SSA.MethodSets.MethodSet(ty).Lookup(pkg.Pkg, parts[1]); s != nil {
			if f := p.SSA.MethodValue(s); f != nil && (f.Synthetic == "" || ty != t.Type()) {
				return f
			}
		}
	}
	return nil
}

// Type finds "pkg.Type".
func (p *Prog) Type(name string) *types.Named {
	i := strings.LastIndex(name, ".")
	pkg := p.By[name[:i]]
	if pkg == nil {
		return nil
	}
	t := pkg.Type(name[i+1:])
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/"), q.Line)
}

// Engine makes an interpreter with package variables initialised.
func (p *Prog) Engine() *eng.Engine {
	e := eng.New(p.SSA, p.InModule)
	var ps []*ssa.Package
	var names []string
	for n := range p.By {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "pkg/pb" || strings.HasPrefix(n, "cmd/") {
			continue
		}
		ps = append(ps, p.By[n])
	}
	e.InitGlobals(ps, p.Fns)
	return e
}

func dump(repo string, args []string) {
	p, err := Load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, a := range args {
		f := p.Func(a)
		if f == nil {
			fmt.Println("no function", a)
			continue
		}
		e := p.Engine()
		e.NoMerge = os.Getenv("GOS") != ""
		outs := e.Run(f, nil, e.NewState())
		fmt.Printf("== %s: %d outcomes, %d steps, errs %v\n", a, len(outs), e.Steps, e.Errs)
		for i, o := range outs {
			fmt.Printf("-- #%d %s ret=%v why=%s\n", i, o.Kind, o.Ret, o.Why)
			printEvents(p, o.St.Events(), "   ", map[*eng.LoopInst]bool{})
			if os.Getenv("GOS") != fmt.Sprint(i) {
				continue
			}
			for _, ev := range o.St.Events() {
				if ev.Kind != "go" || ev.Go.Callee == nil || ev.Go.Callee.Op != eng.OFunc {
					continue
				}
				for j, q := range e.RunFunc(ev.Go.Callee, ev.Go.Args, ev.Go.St.Fork()) {
					fmt.Printf("   == goroutine %v #%d %s why=%s\n", ev.Go.Callee, j, q.Kind, q.Why)
					printEvents(p, q.St.Events(), "      ", map[*eng.LoopInst]bool{})
				}
			}
		}
	}
}

func evString(p *Prog, ev *eng.Event) string {
	var lk []string
	for _, h := range ev.Locks {
		m := "R:"
		if h.Write {
			m = "W:"
		}
		lk = append(lk, m+h.Addr.String())
	}
	s := fmt.Sprintf("%-9s %s", ev.Kind, ev.Name)
	if ev.Addr != nil {
		s += " @" + ev.Addr.String()
	}
	if len(ev.Args) > 0 {
		s += fmt.Sprint(" ", ev.Args)
	}
	if ev.Val != nil {
		s += " val=" + ev.Val.String()
	}
	if ev.Res != nil {
		s += " res=" + ev.Res.String()
	}
	if ev.Kind == "assume" || ev.Kind == "oblig" {
		s += fmt.Sprint(" ", ev.Truth)
	}
	if ev.Sel != nil {
		s += fmt.Sprintf(" case %d of %d", ev.Sel.Index, len(ev.Sel.States))
		if i := ev.Sel.Index; i >= 0 {
			s += " " + ev.Sel.States[i].Ch.String()
		}
	}
	if ev.Go != nil {
		s += fmt.Sprint(" go ", ev.Go.Callee, ev.Go.Args)
	}
	return s + fmt.Sprintf("  {%s %s}", p.Pos(ev.Pos), strings.Join(lk, ","))
}

func printEvents(p *Prog, evs []*eng.Event, ind string, seen map[*eng.LoopInst]bool) {
	for _, ev := range evs {
		if ev.Kind == "load" && len(ev.Locks) == 0 {
			continue
		}
		fmt.Println(ind + evString(p, ev))
		if ev.Kind == "loop" && !seen[ev.Loop] {
			seen[ev.Loop] = true
			if t := ev.Loop.Trav; t != nil {
				fmt.Printf("%s  trav %s idx=%v n=%v map=%v key=%v rev=%v\n", ind, t.Kind, t.Idx, t.N, t.Map, t.Key, t.Rev)
			}
			for _, k := range ev.Loop.Kinds {
				fmt.Printf("%s  kind part=%s\n", ind, k.Part)
				for s, v := range k.Next {
					nm := ""
					if s.Phi != nil {
						nm = s.Phi.Comment
					} else {
						nm = s.Cell.String()
					}
					fmt.Printf("%s    %s: %v -> %v\n", ind, nm, s.Sym, v)
				}
				printEvents(p, k.Events, ind+"    ", seen)
			}
		}
	}
}
