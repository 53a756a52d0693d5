package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

// Check decides one property.
type Check struct {
	ID    string
	Rules []string // rules that must have at least one instance
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id string, rules []string, run func(c *Ctx)) {
	checks[id] = &Check{ID: id, Rules: rules, Run: run}
}

// Violation is one undischarged obligation.
type Violation struct {
	Rule, Construct, Pos, Msg string
	Path                      []string
}

// Ctx is the context of one check.
type Ctx struct {
	P       *Prog
	ID      string
	Viol    []Violation
	Rules   map[string]int
	Sites   map[string]bool
	Fns     map[string]bool
	Paths   int
	Steps   int
	Loops   int
	E       *eng.Engine
	seen    map[string]bool
	samples []string
}

// Obl records an obligation of a rule on a construct.
func (c *Ctx) Obl(rule, construct string, ok bool, pos token.Pos, msg string, a ...interface{}) bool {
	c.Rules[rule]++
	c.Sites[rule+"@"+construct] = true
	if len(c.samples) < 8 && c.Rules[rule] == 1 {
		c.samples = append(c.samples, fmt.Sprintf("%s on %s at %s: %v", rule, construct, c.P.Pos(pos), ok))
	}
	if !ok {
		c.Violate(rule, construct, pos, nil, msg, a...)
	}
	return ok
}

// OblSt is Obl with the path that breaks the rule.
func (c *Ctx) OblSt(rule, construct string, ok bool, pos token.Pos, st *eng.State, msg string, a ...interface{}) bool {
	c.Rules[rule]++
	c.Sites[rule+"@"+construct] = true
	if len(c.samples) < 8 && c.Rules[rule] == 1 {
		c.samples = append(c.samples, fmt.Sprintf("%s on %s at %s: %v", rule, construct, c.P.Pos(pos), ok))
	}
	if !ok {
		c.Violate(rule, construct, pos, st, msg, a...)
	}
	return ok
}

// Violate reports a violation.
func (c *Ctx) Violate(rule, construct string, pos token.Pos, st *eng.State, msg string, a ...interface{}) {
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	v := Violation{Rule: rule, Construct: construct, Pos: c.P.Pos(pos), Msg: fmt.Sprintf(msg, a...)}
	if st != nil {
		for _, ev := range st.Events() {
			switch ev.Kind {
			case "load", "enter", "leave":
				continue
			case "oblig":
				if ev.Truth {
					continue
				}
			}
			v.Path = append(v.Path, evString(c.P, ev))
		}
	}
	c.Viol = append(c.Viol, v)
}

type abort struct{ msg string }

// Fn resolves an anchor function.
func (c *Ctx) Fn(name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil || f.Blocks == nil {
		c.Violate("anchor", name, token.NoPos, nil, "the analysed function %s does not exist", name)
		panic(abort{"missing anchor " + name})
	}
	return f
}

// Type resolves an anchor type.
func (c *Ctx) Type(name string) *types.Named {
	t := c.P.Type(name)
	if t == nil {
		c.Violate("anchor", name, token.NoPos, nil, "the analysed type %s does not exist", name)
		panic(abort{"missing anchor " + name})
	}
	return t
}

// Run interprets a function and accounts for it.
func (c *Ctx) Run(f *ssa.Function, st *eng.State, args ...*eng.Term) []eng.Outcome {
	c.E.Steps = 0
	outs := c.E.Run(f, args, st)
	return c.account(f.String(), f.Pos(), outs)
}

// RunVal interprets a function value.
func (c *Ctx) RunVal(f *eng.Term, st *eng.State, args ...*eng.Term) []eng.Outcome {
	c.E.Steps = 0
	outs := c.E.RunFunc(f, args, st)
	return c.account(f.Fn.String(), f.Fn.Pos(), outs)
}

func (c *Ctx) account(name string, pos token.Pos, outs []eng.Outcome) []eng.Outcome {
	c.Paths += len(outs)
	c.Steps += c.E.Steps
	for f := range c.E.Fns {
		c.Fns[eng.FuncName(f)] = true
	}
	if len(c.E.Errs) > 0 {
		c.Violate("undecided", name, pos, nil, "analysis gave up: %s", strings.Join(c.E.Errs, "; "))
		c.E.Errs = nil
	}
	if len(outs) == 0 {
		c.Violate("undecided", name, pos, nil, "no feasible path through %s", name)
	}
	return outs
}

// Sym makes an arbitrary argument.
func (c *Ctx) Sym(name string, t types.Type) *eng.Term { return eng.NamedSym(c.ID+"."+name, t) }

// Recv makes an arbitrary non-nil pointer receiver of a type.
func (c *Ctx) Recv(st *eng.State, name string, t types.Type) *eng.Term {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	r := c.Sym(name, t)
	st.MarkNonNil(r)
	return r
}

// SplitNil forks outcomes so that result i is decided nil or not.
func SplitNil(outs []eng.Outcome, i int) []eng.Outcome {
	var out []eng.Outcome
	for _, o := range outs {
		if o.Kind != "return" {
			out = append(out, o)
			continue
		}
		q := eng.Eq(o.Ret[i], eng.Nil(nil))
		if o.St.Truth(q) != 0 {
			out = append(out, o)
			continue
		}
		for _, v := range []bool{true, false} {
			n := o
			n.St = o.St.Clone()
			if n.St.Assume(q, v) {
				out = append(out, n)
			}
		}
	}
	return out
}

// SplitBool forks outcomes so that boolean result i is decided.
func SplitBool(outs []eng.Outcome, i int) []eng.Outcome {
	var out []eng.Outcome
	for _, o := range outs {
		if o.Kind != "return" || o.St.Truth(o.Ret[i]) != 0 {
			out = append(out, o)
			continue
		}
		for _, v := range []bool{true, false} {
			n := o
			n.St = o.St.Clone()
			if n.St.Assume(o.Ret[i], v) {
				out = append(out, n)
			}
		}
	}
	return out
}

func isNil(st *eng.State, t *eng.Term) int { return st.Truth(eng.Eq(t, eng.Nil(nil))) }

// ---- running checks

type finding struct {
	Fixed   bool
	ID, Key string
	Text    string
}

func loadFindings(dir string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: ") {
			// finding: property=<id> key=<rule|construct> text
			f := finding{}
			rest := strings.TrimPrefix(l, "finding: ")
			for _, w := range []string{"property=", "key="} {
				if !strings.HasPrefix(rest, w) {
					rest = ""
					break
				}
				rest = rest[len(w):]
				i := strings.Index(rest, " ")
				if i < 0 {
					rest = ""
					break
				}
				if w == "property=" {
					f.ID = rest[:i]
				} else {
					f.Key = rest[:i]
				}
				rest = rest[i+1:]
			}
			f.Text = rest
			if f.ID != "" && f.Key != "" {
				out = append(out, f)
			}
		}
	}
	return out
}

var loaded *Prog

func loadOnce(repo string) (*Prog, error) {
	if loaded != nil {
		return loaded, nil
	}
	p, err := Load(repo)
	if err == nil {
		loaded = p
	}
	return p, err
}

func runCheck(id, repo, verif string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	c := &Ctx{ID: id, Rules: map[string]int{}, Sites: map[string]bool{}, Fns: map[string]bool{}, seen: map[string]bool{}}
	p, err := loadOnce(repo)
	if err != nil {
		c.P = &Prog{Fset: token.NewFileSet(), Dir: repo}
		c.Violate("load", "repository", token.NoPos, nil, "the repository does not type check: %v", err)
	} else {
		c.P = p
		c.E = p.Engine()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abort); ok {
						_ = a
						return
					}
					c.Violate("undecided", "analyzer", token.NoPos, nil, "the analysis failed: %v\n%s", r, debug.Stack())
				}
			}()
			ck.Run(c)
		}()
		if len(c.Viol) == 0 {
			for _, r := range ck.Rules {
				if c.Rules[r] == 0 {
					c.Violate("vacuous", r, token.NoPos, nil, "rule %s found no instance to check", r)
				}
			}
		}
	}
	known := loadFindings(verif)
	var viol []Violation
	reported := map[string]bool{}
	for _, v := range c.Viol {
		hit := false
		for _, k := range known {
			if k.ID == id && k.Key == v.Rule+"|"+v.Construct {
				hit = true
				if !reported[k.Key] {
					reported[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				}
			}
		}
		if !hit {
			viol = append(viol, v)
		}
	}
	total, rules := 0, []string{}
	for r, n := range c.Rules {
		total += n
		rules = append(rules, fmt.Sprintf("%s=%d", r, n))
	}
	sort.Strings(rules)
	var fns, sites []string
	for f := range c.Fns {
		fns = append(fns, strings.Replace(f, modPath+"/", "", -1))
	}
	for s := range c.Sites {
		sites = append(sites, s)
	}
	sort.Strings(fns)
	sort.Strings(sites)
	cov := map[string]interface{}{
		"explanation":           "static analysis of the type-checked SSA of the current tree; every path of the analysed functions was covered by the abstract domain, loops by their fixpoint; each obligation is one rule applied to one construct on one path class",
		"obligations":           total,
		"discharged":            total - len(c.Viol),
		"rule_instances":        rules,
		"constructs":            len(sites),
		"functions_analysed":    len(fns),
		"functions":             clip(fns, 80),
		"path_classes":          c.Paths,
		"abstract_steps":        c.Steps,
		"samples":               clip(c.samples, 8),
		"packages_type_checked": len(c.P.By),
	}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{"distinct symbolic references do not alias", "standard library and third-party calls behave as documented", "floating point is treated as real arithmetic"},
		"wall_s":      time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := filepath.Join(verif, "evidence", "replay", id+".txt")
	if len(viol) == 0 {
		os.Remove(rp)
		fmt.Printf("property=%s held: %d obligations in %d functions (%s)\n", id, total, len(fns), strings.Join(rules, " "))
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: rule %s on %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		for _, l := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, v := range viol {
		fmt.Printf("%s: rule %s on %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
