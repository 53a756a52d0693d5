package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("S01", []string{"smoothing", "alarm-upper", "alarm-lower", "alarm-persists", "has-alarmed", "no-spurious-alarm"}, checkS01)
	register("S02", []string{"baseline-start", "baseline-incomplete", "baseline-complete", "limit", "estimates", "k"}, checkS02)
	register("S03", []string{"refuses-invalid", "accepts-valid", "recorded-once"}, checkS03)
	register("S04", []string{"manual-accepted", "manual-refused", "reset-series", "restart", "initial"}, checkS04)
	register("S05", []string{"record-all", "any-alarm", "states", "done", "transition-all", "metric", "metric-name"}, checkS05)
}

var phases = []string{"Reset", "UCLInitial", "TestingUCL", "UCLTrip", "LCLInitial", "TestingLCL", "LCLTrip"}

// cycle is the documented cycle of a test statistic.
var cycle = map[string][]string{
	"Reset": {"UCLInitial", "LCLInitial"}, "UCLInitial": {"TestingUCL", "Reset"}, "TestingUCL": {"UCLTrip", "Reset"}, "UCLTrip": {"LCLInitial", "Reset"},
	"LCLInitial": {"TestingLCL", "Reset"}, "TestingLCL": {"LCLTrip", "Reset"}, "LCLTrip": {"Reset"},
}

// estimator is an arbitrary state of a test statistic.
type estimator struct {
	c           *Ctx
	st          *eng.State
	e           *eng.Term
	t           *types.Named
	mach        *eng.Term
	pdf, series *eng.Term
	lambda      *eng.Term
	cur, lim    *eng.Term
	curA, limA  *eng.Term
	stA         *eng.Term
	sT          types.Type
	val         map[string]*eng.Term // phase values
	name        map[string]string
	ctor        *eng.State
}

func (c *Ctx) estimator() *estimator {
	x := &estimator{c: c, t: c.Type("pkg/stat.TestStatistic"), sT: c.Type("pkg/fsm.State"), val: map[string]*eng.Term{}, name: map[string]string{}}
	for _, p := range phases {
		v := c.Const("pkg/stat", p)
		x.val[p] = eng.Const(v, x.sT)
		x.name[constant.StringVal(v)] = p
	}
	f := c.Fn("pkg/stat.NewEWMAStatistic")
	x.lambda = c.Sym("lambda", types.Typ[types.Float64])
	x.pdf = c.Sym("pdf", f.Params[2].Type())
	for _, o := range c.Run(f, c.E.NewState(), c.Sym("name", types.Typ[types.String]), x.lambda, x.pdf) {
		if o.Kind == "return" && isNil(o.St, o.Ret[1]) == 1 && isNil(o.St, o.Ret[0]) == -1 {
			x.st, x.e = o.St, o.Ret[0]
			break
		}
	}
	if x.st == nil {
		c.Violate("undecided", "NewEWMAStatistic", f.Pos(), nil, "no statistic can be made")
		panic(abort{"ctor"})
	}
	x.ctor = x.st.Clone()
	s := x.t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		a := eng.Fld(x.e, i, types.NewPointer(x.t))
		v := x.st.Load(a, s.Field(i).Type())
		switch {
		case strings.HasSuffix(s.Field(i).Type().String(), "fsm.Machine"):
			x.mach = v
		case strings.HasSuffix(s.Field(i).Type().String(), "metric.SeriesRecorder"):
			x.series = v
		}
	}
	x.curA, _ = c.Field(x.e, x.t, "current")
	x.limA, _ = c.Field(x.e, x.t, "limit")
	if x.mach == nil || x.series == nil {
		c.Violate("anchor", "TestStatistic", f.Pos(), nil, "the statistic has no state machine or no series")
		panic(abort{"fields"})
	}
	x.stA, _ = c.Field(x.mach, c.Type("pkg/fsm.Machine"), "current")
	x.st.Log = nil
	return x
}

// at is the arbitrary state of a statistic in a phase.
func (x *estimator) at(phase string) *eng.State {
	st := x.st.Clone()
	fl := types.Typ[types.Float64]
	x.cur, x.lim = x.c.Sym("current", fl), x.c.Sym("limit", fl)
	st.Store(x.stA, x.val[phase], x.sT)
	st.Store(x.curA, x.cur, fl)
	st.Store(x.limA, x.lim, fl)
	return st
}

func (x *estimator) phase(st *eng.State) string {
	if v, ok := st.Load(x.stA, x.sT).StrVal(); ok {
		return x.name[v]
	}
	return "?"
}
func (x *estimator) current(st *eng.State) *eng.Term {
	return st.Load(x.curA, types.Typ[types.Float64])
}
func (x *estimator) limit(st *eng.State) *eng.Term { return st.Load(x.limA, types.Typ[types.Float64]) }

// Const is the value of a package constant.
func (c *Ctx) Const(pkg, name string) constant.Value {
	if p := c.P.By[pkg]; p != nil {
		if o, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return o.Val()
		}
	}
	c.Violate("anchor", pkg+"."+name, 0, nil, "the constant %s.%s does not exist", pkg, name)
	panic(abort{"const"})
}

func invoked(ev *eng.Event, recv *eng.Term, method string) bool {
	return ev.Kind == "invoke" && ev.Addr == recv && strings.HasSuffix(ev.Name, "."+method)
}

// observation is the transformed observation of a path.
func (x *estimator) observation(st *eng.State, o *eng.Term) *eng.Term {
	for _, ev := range st.Events() {
		if invoked(ev, x.pdf, "Transform") && len(ev.Args) == 1 && ev.Args[0] == o {
			return ev.Res
		}
	}
	return nil
}

// finite decides whether the path established that v is (1) or is not (-1) a finite number.
func finite(st *eng.State, v *eng.Term) int {
	if v == nil {
		return 0
	}
	tr := func(n string, a ...*eng.Term) int {
		return st.Truth(eng.Pure(n, types.Typ[types.Bool], append([]*eng.Term{v}, a...)...))
	}
	nan := tr("math.IsNaN")
	inf, pos, neg := tr("math.IsInf", eng.Int(0)), tr("math.IsInf", eng.Int(1)), tr("math.IsInf", eng.Int(-1))
	switch {
	case nan == 1 || inf == 1 || pos == 1 || neg == 1:
		return -1
	case nan == -1 && (inf == -1 || pos == -1 && neg == -1):
		return 1
	}
	return 0
}

// record runs Record on an arbitrary statistic in a phase.
func (x *estimator) record(phase string) (outs []eng.Outcome, o *eng.Term) {
	o = x.c.Sym("observation", types.Typ[types.Float64])
	f := x.c.Fn("pkg/stat.TestStatistic.Record")
	return SplitNil(x.c.Run(f, x.at(phase), x.e, o), 0), o
}

func checkS01(c *Ctx) {
	c.E.NoMerge = true
	x := c.estimator()
	for _, ph := range phases {
		outs, o := x.record(ph)
		trips := 0
		for _, q := range outs {
			if q.Kind != "return" || isNil(q.St, q.Ret[0]) != 1 {
				continue // refused observations are the subject of another property
			}
			v := x.observation(q.St, o)
			now, lim, to := x.current(q.St), x.limit(q.St), x.phase(q.St)
			switch ph {
			case "TestingUCL", "TestingLCL":
				if v == nil {
					c.OblSt("smoothing", ph, false, q.Pos, q.St, "the observation is not transformed")
					continue
				}
				want := eng.FloatOp(tADD, eng.FloatOp(tMUL, x.lambda, v, v.Typ), eng.FloatOp(tMUL, eng.FloatOp(tSUB, eng.FloatConst(1), x.lambda, v.Typ), x.cur, v.Typ), v.Typ)
				c.OblSt("smoothing", ph, now == want, q.Pos, q.St, "the smoothed value becomes %v instead of %v", now, want)
				c.OblSt("smoothing", ph, lim == x.lim, q.Pos, q.St, "testing changes the limit")
				rule, trip, crossed := "alarm-upper", "UCLTrip", -q.St.Truth(eng.FLt(want, x.lim))
				if ph == "TestingLCL" {
					rule, trip, crossed = "alarm-lower", "LCLTrip", -q.St.Truth(eng.FLt(x.lim, want))
				}
				if to == trip {
					trips++
				}
				c.OblSt(rule, ph, crossed == 1 && to == trip || crossed == -1 && to == ph, q.Pos, q.St, "goes to %s on a path where the limit is %s", to, map[int]string{1: "crossed", -1: "not crossed", 0: "not compared with the new smoothed value"}[crossed])
			case "UCLTrip", "LCLTrip":
				c.OblSt("alarm-persists", ph, to == ph, q.Pos, q.St, "an observation ends the alarm (%s)", to)
				c.OblSt("alarm-persists", ph, now == x.cur && lim == x.lim, q.Pos, q.St, "an observation changes the value or limit of a statistic in alarm")
			default:
				c.OblSt("no-spurious-alarm", ph, !strings.HasSuffix(to, "Trip") && to != "?", q.Pos, q.St, "alarms without testing (%s)", to)
			}
		}
		if strings.HasPrefix(ph, "Testing") {
			c.Obl("no-spurious-alarm", ph, trips > 0, c.Fn("pkg/stat.TestStatistic.Record").Pos(), "no observation can raise an alarm")
		}
		for _, q := range SplitBool(c.Run(c.Fn("pkg/stat.TestStatistic.HasAlarmed"), x.at(ph), x.e), 0) {
			want := map[bool]int{true: 1, false: -1}[strings.HasSuffix(ph, "Trip")]
			c.OblSt("has-alarmed", ph, q.Kind == "return" && q.St.Truth(q.Ret[0]) == want, q.Pos, q.St, "reports the wrong alarm condition in phase %s", ph)
		}
		for _, q := range c.Run(c.Fn("pkg/stat.TestStatistic.State"), x.at(ph), x.e) {
			c.OblSt("has-alarmed", ph, q.Kind == "return" && q.Ret[0] == x.val[ph], q.Pos, q.St, "does not report the phase")
		}
		for _, r := range []struct {
			m string
			v *eng.Term
		}{{"Value", x.cur}, {"Limit", x.lim}} {
			for _, q := range c.Run(c.Fn("pkg/stat.TestStatistic."+r.m), x.at(ph), x.e) {
				c.OblSt("has-alarmed", ph, q.Kind == "return" && q.Ret[0] == r.v, q.Pos, q.St, "%s does not report the value or limit compared", r.m)
			}
		}
	}
}

// window finds the sizes compared on a path: the number of recorded observations and the capacity.
func (x *estimator) window(st *eng.State) (count, capacity *eng.Term) {
	for _, ev := range st.Events() {
		if invoked(ev, x.series, "Count") {
			count = ev.Res
		}
		if invoked(ev, x.series, "Capacity") {
			capacity = ev.Res
		}
	}
	return
}

func checkS02(c *Ctx) {
	c.E.NoMerge = true
	x := c.estimator()
	c.Obl("baseline-start", "NewEWMAStatistic", x.phase(x.ctor) == "UCLInitial", c.Fn("pkg/stat.NewEWMAStatistic").Pos(), "a new statistic starts in phase %s", x.phase(x.ctor))
	for _, ph := range []string{"UCLInitial", "LCLInitial", "Reset"} {
		test := map[string]string{"UCLInitial": "TestingUCL", "LCLInitial": "TestingLCL", "Reset": "TestingUCL"}[ph]
		base := map[string]string{"UCLInitial": "UCLInitial", "LCLInitial": "LCLInitial", "Reset": "UCLInitial"}[ph]
		done := 0
		outs, o := x.record(ph)
		for _, q := range outs {
			if q.Kind != "return" {
				c.OblSt("baseline-complete", ph, false, q.Pos, q.St, "ends in %s", q.Kind)
				continue
			}
			v := x.observation(q.St, o)
			if isNil(q.St, q.Ret[0]) != 1 {
				continue
			}
			to := x.phase(q.St)
			count, capacity := x.window(q.St)
			full := 0
			if count != nil && capacity != nil {
				if q.St.EntailLe(capacity, count) {
					full = 1
				} else if q.St.EntailLt(count, capacity) {
					full = -1
				}
			}
			// the last look at the window comes after the observation was recorded
			rec, look := 0, 0
			var values, mean, variance *eng.Term
			for i, ev := range q.St.Events() {
				switch {
				case invoked(ev, x.series, "Record") && len(ev.Args) == 1 && ev.Args[0] == v:
					rec = i + 1
				case invoked(ev, x.series, "Count"):
					look = i + 1
				case invoked(ev, x.series, "Values"):
					if rec > 0 {
						values = ev.Res
					}
				case invoked(ev, x.pdf, "Mean") && ev.Args[0] == values:
					mean = ev.Res
				case invoked(ev, x.pdf, "Variance") && ev.Args[0] == values && ev.Args[1] == mean:
					variance = ev.Res
				}
			}
			vpos := 0
			if variance != nil {
				vpos = q.St.Truth(eng.FLt(eng.FloatConst(0), variance))
			}
			switch {
			case to == test:
				done++
				c.OblSt("baseline-complete", ph, full == 1 && rec > 0 && look > rec, q.Pos, q.St, "starts testing on a path that does not establish that the window, including this observation, is full")
				c.OblSt("baseline-complete", ph, vpos == 1, q.Pos, q.St, "starts testing on a path that does not establish a positive variance of the window")
				c.OblSt("baseline-complete", ph, mean != nil && x.current(q.St) == mean, q.Pos, q.St, "the smoothed value starts at %v instead of the baseline mean", x.current(q.St))
				if mean != nil && variance != nil {
					c.OblSt("limit", ph, x.isLimit(q.St, x.limit(q.St), mean, variance, test == "TestingUCL"), q.Pos, q.St, "the limit becomes %v", x.limit(q.St))
				}
			case to == base:
				rule := "baseline-incomplete"
				c.OblSt(rule, ph, full == -1 || vpos == -1, q.Pos, q.St, "keeps collecting on a path where the window may be full and vary")
				c.OblSt(rule, ph, x.current(q.St) == x.cur && x.limit(q.St) == x.lim, q.Pos, q.St, "changes the value or limit before the baseline is complete")
			default:
				c.OblSt("baseline-complete", ph, false, q.Pos, q.St, "goes to phase %s", to)
			}
		}
		c.Obl("baseline-complete", ph, done > 0, c.Fn("pkg/stat.TestStatistic.Record").Pos(), "the baseline can not be completed")
	}
	c.estimates()
}

// isLimit recognises mean ± k·sqrt(λ/(2-λ)·variance).
func (x *estimator) isLimit(st *eng.State, lim, mean, variance *eng.Term, upper bool) bool {
	fl := types.Typ[types.Float64]
	var k *eng.Term
	for _, ev := range st.Events() {
		if invoked(ev, x.pdf, "K") {
			k = ev.Res
			e := eng.Pure(strings.Replace(ev.Res.Name, ".K", ".K/1", 1), types.Universe.Lookup("error").Type(), ev.Addr)
			if isNil(st, e) == -1 {
				k = nil
			}
		}
	}
	ratio := eng.FloatOp(tQUO, x.lambda, eng.FloatOp(tSUB, eng.FloatConst(2), x.lambda, fl), fl)
	sd := eng.Pure("math.Sqrt", fl, eng.FloatOp(tMUL, ratio, variance, fl))
	d := eng.FloatOp(tSUB, lim, mean, fl)
	if !upper {
		d = eng.FloatOp(tSUB, mean, lim, fl)
	}
	alt := eng.FloatOp(tMUL, eng.Pure("math.Sqrt", fl, ratio), eng.Pure("math.Sqrt", fl, variance), fl)
	for _, s := range []*eng.Term{sd, alt} {
		if k != nil {
			if d == eng.FloatOp(tMUL, k, s, fl) {
				return true
			}
			continue
		}
		// k could not be derived: any positive default
		if f, ok := scale(d, s); ok && f > 0 {
			return true
		}
	}
	return false
}

// scale finds the constant f with d = f·s.
func scale(d, s *eng.Term) (float64, bool) {
	if d == s {
		return 1, true
	}
	if d.Op == eng.OPoly && len(d.Poly) == 1 {
		f := eng.MonoCoef(d)
		if f != 0 && eng.FloatOp(tMUL, eng.FloatConst(f), s, s.Typ) == d {
			return f, true
		}
	}
	return 0, false
}

// estimates checks the estimators of the two distributions and the calibration.
func (c *Ctx) estimates() {
	fl := types.Typ[types.Float64]
	for _, d := range []struct{ t, a, b string }{{"LogNormal", "LogNormalA", "LogNormalB"}, {"Poisson", "PoissonA", "PoissonB"}} {
		T := c.Type("pkg/stat." + d.t)
		f := c.Fn("pkg/stat." + d.t + ".Mean")
		obs, mean := c.Sym("obs", f.Params[1].Type()), c.Sym("mean", fl)
		st := c.E.NewState()
		p := c.Recv(st, "p", T)
		n := st.LenOf(obs)
		for _, o := range c.Run(f, st.Clone(), p, obs) {
			if o.Kind == "return" && o.St.Same(n, eng.Int(0)) {
				continue
			}
			sum, ok := c.sumOver(o.St, o.Ret[0], obs, func(el *eng.Term) *eng.Term { return el })
			c.OblSt("estimates", d.t+".Mean", ok && o.Ret[0] == eng.FloatOp(tQUO, sum, eng.Float(n), fl), o.Pos, o.St, "is not the mean of the observations (%v)", o.Ret[0])
		}
		g := c.Fn("pkg/stat." + d.t + ".Variance")
		for _, o := range c.Run(g, st.Clone(), p, obs, mean) {
			if d.t == "Poisson" {
				c.OblSt("estimates", d.t+".Variance", o.Kind == "return" && o.Ret[0] == mean, o.Pos, o.St, "is not the mean")
				continue
			}
			if o.St.EntailLe(n, eng.Int(1)) {
				continue
			}
			sum, ok := c.sumOver(o.St, o.Ret[0], obs, func(el *eng.Term) *eng.Term {
				return eng.Pure("math.Pow", fl, eng.FloatOp(tSUB, el, mean, fl), eng.Const(constant.MakeFloat64(2), fl))
			})
			if !ok {
				sum, ok = c.sumOver(o.St, o.Ret[0], obs, func(el *eng.Term) *eng.Term {
					d := eng.FloatOp(tSUB, el, mean, fl)
					return eng.FloatOp(tMUL, d, d, fl)
				})
			}
			m := eng.Float(eng.Sub(n, eng.Int(1)))
			m2 := eng.FloatOp(tSUB, eng.Float(n), eng.FloatConst(1), fl)
			c.OblSt("estimates", d.t+".Variance", ok && (o.Ret[0] == eng.FloatOp(tQUO, sum, m, fl) || o.Ret[0] == eng.FloatOp(tQUO, sum, m2, fl)), o.Pos, o.St, "is not the unbiased variance of the observations (%v)", o.Ret[0])
		}
		// k from the desired error rate
		rate := c.Sym("rate", c.Type("pkg/stat.KErrorRate"))
		lam := c.Const("pkg/stat", d.a)
		a, b := eng.Const(lam, fl), eng.Const(c.Const("pkg/stat", d.b), fl)
		want := eng.FloatOp(tQUO, eng.FloatOp(tSUB, eng.Pure("math.Log", fl, rate), a, fl), b, fl)
		h := c.Fn("pkg/stat.KErrorRate." + map[string]string{"LogNormal": "CalculateLN", "Poisson": "CalculateP"}[d.t])
		for _, o := range SplitNil(c.Run(h, c.E.NewState(), rate), 1) {
			if o.Kind == "return" && isNil(o.St, o.Ret[1]) == 1 {
				c.OblSt("k", d.t, near(o.Ret[0], want), o.Pos, o.St, "k is %v instead of %v", o.Ret[0], want)
			} else {
				bad := false
				for _, v := range candidates(o.St) {
					if finite(o.St, v) == -1 {
						bad = true
					}
				}
				c.OblSt("k", d.t, bad, o.Pos, o.St, "refuses an error rate whose k is finite")
			}
		}
		// the distribution asks for its own calibration
		kf := c.Fn("pkg/stat." + d.t + ".K")
		for _, o := range c.Run(kf, st.Clone(), p) {
			want := map[string]string{"LogNormal": "CalculateLN", "Poisson": "CalculateP"}[d.t]
			hit := false
			for _, ev := range o.St.Events() {
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "."+want) && ev.Val == o.Ret[0] {
					hit = true
				}
			}
			c.OblSt("k", d.t+".K", hit, o.Pos, o.St, "does not use the calibration of its distribution")
		}
	}
}

// candidates lists the values tested for being numbers on a path.
func candidates(st *eng.State) []*eng.Term {
	var out []*eng.Term
	for f := range st.FactTerms() {
		if f.Op == eng.OCall && (f.Name == "math.IsNaN" || f.Name == "math.IsInf") {
			out = append(out, f.Args[0])
		}
	}
	return out
}

// near compares two polynomials up to rounding of their constants.
func near(a, b *eng.Term) bool { return a == b || eng.NearPoly(a, b, 1e-9) }

// sumOver finds, in the loops of a path, the sum of term(el) over all elements of seq that v is built from.
func (c *Ctx) sumOver(st *eng.State, v, seq *eng.Term, term func(el *eng.Term) *eng.Term) (*eng.Term, bool) {
	for _, ev := range st.Events() {
		if ev.Kind != "loop" || ev.Loop.Trav == nil || len(ev.Loop.Kinds) == 0 {
			continue
		}
		inst := ev.Loop
		for _, s := range inst.Slots {
			if s.Sym == nil || !eng.Has(v, s.Sym) || s.Init == nil {
				continue
			}
			if f, ok := floatVal(s.Init); !ok || f != 0 {
				continue
			}
			good := inst.Trav.Idx != nil && full(st, inst, seq, inst.Trav.Idx)
			for _, k := range inst.Kinds {
				el := k.St.Load(k.St.ElemAddr(seq, inst.Trav.Idx), types.Typ[types.Float64])
				if k.Next[s] != eng.FloatOp(tADD, s.Sym, term(el), s.Typ) {
					good = false
				}
			}
			if good && complete(st.Events(), inst) {
				return s.Sym, true
			}
		}
	}
	return nil, false
}

func floatVal(t *eng.Term) (float64, bool) {
	if t.Op != eng.OConst || t.C == nil {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(t.C))
	return f, !math.IsNaN(f)
}

func checkS03(c *Ctx) {
	c.E.NoMerge = true
	x := c.estimator()
	for _, ph := range phases {
		outs, o := x.record(ph)
		okPaths := 0
		for _, q := range outs {
			if q.Kind != "return" {
				c.OblSt("accepts-valid", ph, false, q.Pos, q.St, "ends in %s (%s)", q.Kind, q.Why)
				continue
			}
			v := x.observation(q.St, o)
			fin := finite(q.St, v)
			touched := anyEvent(q.St.Events(), func(ev *eng.Event) bool { return invoked(ev, x.series, "Record") || invoked(ev, x.series, "Reset") })
			if isNil(q.St, q.Ret[0]) == 1 {
				okPaths++
				c.OblSt("refuses-invalid", ph, fin == 1, q.Pos, q.St, "accepts an observation without establishing that its transformed value is a finite number")
				// after the last reset exactly one recording, of the transformed observation
				n, other := 0, false
				for _, ev := range q.St.Events() {
					if invoked(ev, x.series, "Reset") {
						n = 0
					}
					if invoked(ev, x.series, "Record") {
						n++
						other = other || ev.Args[0] != v
					}
				}
				c.OblSt("recorded-once", ph, n == 1 && !other, q.Pos, q.St, "the accepted observation is recorded %d times in the window", n)
			} else {
				c.OblSt("accepts-valid", ph, fin == -1, q.Pos, q.St, "refuses an observation whose transformed value may be a finite number")
				c.OblSt("refuses-invalid", ph, !touched && x.current(q.St) == x.cur && x.limit(q.St) == x.lim && x.phase(q.St) == ph, q.Pos, q.St, "a refused observation has an effect")
			}
		}
		c.Obl("accepts-valid", ph, okPaths > 0, c.Fn("pkg/stat.TestStatistic.Record").Pos(), "no observation is accepted")
	}
	// the transformation of each distribution
	fl := types.Typ[types.Float64]
	for _, d := range []string{"LogNormal", "Poisson"} {
		f := c.Fn("pkg/stat." + d + ".Transform")
		st := c.E.NewState()
		p, o := c.Recv(st, "p", c.Type("pkg/stat."+d)), c.Sym("raw", fl)
		want := o
		if d == "LogNormal" {
			want = eng.Pure("math.Log", fl, o)
		}
		for _, q := range c.Run(f, st, p, o) {
			c.OblSt("accepts-valid", d+".Transform", q.Kind == "return" && q.Ret[0] == want, q.Pos, q.St, "transforms to %v", q.Ret[0])
		}
	}
}

func checkS04(c *Ctx) {
	c.E.NoMerge = true
	x := c.estimator()
	c.Obl("initial", "NewEWMAStatistic", x.phase(x.ctor) == "UCLInitial", c.Fn("pkg/stat.NewEWMAStatistic").Pos(), "a new statistic starts in phase %s", x.phase(x.ctor))
	f := c.Fn("pkg/stat.TestStatistic.Transition")
	reset := c.Sym("reset", types.Typ[types.Bool])
	for _, ph := range phases {
		allowed := map[string]bool{}
		for _, t := range cycle[ph] {
			allowed[t] = true
		}
		targets := append([]string{"other"}, phases...)
		for _, to := range targets {
			tv := x.val[to]
			if tv == nil {
				tv = eng.Const(constant.MakeString("\x00no such phase"), x.sT)
			}
			rule := "manual-refused"
			if allowed[to] {
				rule = "manual-accepted"
			}
			for _, q := range SplitNil(SplitBoolVal(c.Run(f, x.at(ph), x.e, tv, reset), reset), 0) {
				if q.Kind != "return" {
					c.OblSt(rule, ph, false, q.Pos, q.St, "ends in %s", q.Kind)
					continue
				}
				cleared := anyEvent(q.St.Events(), func(ev *eng.Event) bool { return invoked(ev, x.series, "Reset") })
				recorded := anyEvent(q.St.Events(), func(ev *eng.Event) bool { return invoked(ev, x.series, "Record") })
				same := x.current(q.St) == x.cur && x.limit(q.St) == x.lim
				if allowed[to] {
					c.OblSt(rule, ph, isNil(q.St, q.Ret[0]) == 1 && x.phase(q.St) == to, q.Pos, q.St, "a manual transition from %s to %s is refused or leads to %s", ph, to, x.phase(q.St))
					c.OblSt("reset-series", ph, cleared == (q.St.Truth(reset) == 1) && !recorded, q.Pos, q.St, "the collected observations are %s although clearing was %s", map[bool]string{true: "cleared", false: "kept"}[cleared], map[int]string{1: "requested", -1: "not requested", 0: "not looked at"}[q.St.Truth(reset)])
				} else {
					c.OblSt(rule, ph, isNil(q.St, q.Ret[0]) == -1 && x.phase(q.St) == ph && !cleared && !recorded && same, q.Pos, q.St, "a manual transition from %s to %s is not refused without effect", ph, to)
				}
			}
		}
	}
	// the first observation after a reset starts the baseline over
	outs, o := x.record("Reset")
	for _, q := range outs {
		if q.Kind != "return" || isNil(q.St, q.Ret[0]) != 1 {
			continue
		}
		v := x.observation(q.St, o)
		evs := q.St.Events()
		last, n := -1, 0
		empty := false
		for i, ev := range evs {
			if invoked(ev, x.series, "Reset") {
				last, n = i, 0
			}
			if invoked(ev, x.series, "Record") {
				n++
			}
			if invoked(ev, x.series, "Count") && n == 0 && q.St.EntailLe(ev.Res, eng.Int(0)) {
				empty = true
			}
			// the observation is already recorded: nothing can be left over when the count says so
			if invoked(ev, x.series, "Count") && q.St.EntailLe(ev.Res, eng.Int(0)) {
				empty = true
			}
		}
		c.OblSt("restart", "TestStatistic.Record", v != nil && n == 1 && (last >= 0 || empty), q.Pos, q.St, "an observation after a reset keeps earlier observations in the window")
		c.OblSt("restart", "TestStatistic.Record", x.phase(q.St) == "UCLInitial" || x.phase(q.St) == "TestingUCL", q.Pos, q.St, "an observation after a reset leads to phase %s", x.phase(q.St))
	}
}

// SplitBoolVal forks outcomes so that a boolean term is decided.
func SplitBoolVal(outs []eng.Outcome, b *eng.Term) []eng.Outcome {
	var out []eng.Outcome
	for _, o := range outs {
		if o.St.Truth(b) != 0 {
			out = append(out, o)
			continue
		}
		for _, v := range []bool{true, false} {
			n := o
			n.St = o.St.Clone()
			if n.St.Assume(b, v) {
				out = append(out, n)
			}
		}
	}
	return out
}

// opaque makes the named functions primitive calls of the analysis.
func (c *Ctx) opaque(names ...string) {
	set := map[*ssa.Function]bool{}
	for _, n := range names {
		set[c.Fn(n)] = true
	}
	c.E.Opaque = func(f *ssa.Function) bool { return set[f] }
}

// callTo reports whether the event calls the named function.
func (c *Ctx) callTo(ev *eng.Event, name string) bool {
	return ev.Kind == "call" && ev.Name == eng.FuncName(c.Fn(name))
}

func checkS05(c *Ctx) {
	const ts = "pkg/stat.TestStatistic."
	c.opaque(ts+"Record", ts+"Transition", ts+"HasAlarmed", ts+"Done", "pkg/metric.Name.String")
	T := c.Type("pkg/stat.Test")
	fl := types.Typ[types.Float64]
	entry := func() (*eng.State, *eng.Term, *eng.Term) {
		st := c.E.NewState()
		t := c.Recv(st, "t", T)
		sub := c.Get(st, t, T, "sub")
		return st, t, sub
	}
	// each visits every part with a call
	each := func(st *eng.State, sub *eng.Term, callee string, args ...*eng.Term) bool {
		if st.Same(st.LenOf(sub), eng.Int(0)) {
			return true
		}
		return covers(st.Events(), nil, func(ev *eng.Event, sc []*eng.LoopInst) bool {
			if !c.callTo(ev, ts+callee) || len(sc) == 0 || len(ev.Args) != 1+len(args) {
				return false
			}
			for i, a := range args {
				if ev.Args[1+i] != a {
					return false
				}
			}
			s, i, ok := elemOf(ev.Args[0])
			return ok && s == sub && full(st, sc[len(sc)-1], s, i)
		})
	}
	// once visits no part twice
	var once func(evs []*eng.Event, callee string) bool
	once = func(evs []*eng.Event, callee string) bool {
		seen, loops := map[*eng.Term]bool{}, 0
		for _, ev := range evs {
			switch {
			case c.callTo(ev, ts+callee):
				if seen[ev.Args[0]] {
					return false
				}
				seen[ev.Args[0]] = true
			case ev.Kind == "loop":
				here := 0
				for _, k := range ev.Loop.Kinds {
					if !once(k.Events, callee) {
						return false
					}
					if anyEvent(k.Events, func(ev *eng.Event) bool { return c.callTo(ev, ts+callee) }) {
						here = 1
					}
				}
				loops += here
			}
		}
		return loops < 2
	}
	from := func(st *eng.State, e *eng.Term, callee string) bool {
		return anyEvent(st.Events(), func(ev *eng.Event) bool { return c.callTo(ev, ts+callee) && ev.Res == e })
	}
	st, t, sub := entry()
	obs := c.Sym("observation", fl)
	for _, r := range []struct {
		rule, fn string
		args     []*eng.Term
	}{{"record-all", "Record", []*eng.Term{obs}}, {"transition-all", "Transition", []*eng.Term{c.Sym("state", c.Type("pkg/fsm.State")), c.Sym("reset", types.Typ[types.Bool])}}} {
		f := c.Fn("pkg/stat.Test." + r.fn)
		ok := 0
		for _, o := range SplitNil(c.Run(f, st.Clone(), append([]*eng.Term{t}, r.args...)...), 0) {
			if o.Kind == "return" && isNil(o.St, o.Ret[0]) == 1 {
				ok++
				c.OblSt(r.rule, "Test."+r.fn, each(o.St, sub, r.fn, r.args...) && once(o.St.Events(), r.fn), o.Pos, o.St, "succeeds without passing it to every statistic once")
				// a failure of a statistic is not lost
				c.OblSt(r.rule, "Test."+r.fn, !anyLost(o.St, func(ev *eng.Event) bool { return c.callTo(ev, ts+r.fn) }), o.Pos, o.St, "hides that a statistic refused it")
			} else {
				c.OblSt(r.rule, "Test."+r.fn, o.Kind == "return" && c.comesFrom(o.Ret[0], func(e *eng.Term) bool {
					return wraps(o.St, e, func(e *eng.Term) bool { return from(o.St, e, r.fn) })
				}), o.Pos, o.St, "reports an error that is no statistic's")
			}
		}
		c.Obl(r.rule, "Test."+r.fn, ok > 0, f.Pos(), "never succeeds")
	}
	for _, o := range c.Run(c.Fn("pkg/stat.Test.Done"), st.Clone(), t) {
		c.OblSt("done", "Test.Done", o.Kind == "return" && each(o.St, sub, "Done") && once(o.St.Events(), "Done"), o.Pos, o.St, "does not release every statistic once")
	}
	for _, o := range SplitBool(c.Run(c.Fn("pkg/stat.Test.HasAlarmed"), st.Clone(), t), 0) {
		if o.Kind != "return" {
			c.OblSt("any-alarm", "Test.HasAlarmed", false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		isAlarm := func(st *eng.State, ev *eng.Event, want int) bool {
			if !c.callTo(ev, ts+"HasAlarmed") {
				return false
			}
			s, _, ok := elemOf(ev.Args[0])
			return ok && s == sub && st.Truth(ev.Val) == want
		}
		if o.St.Truth(o.Ret[0]) == 1 {
			c.OblSt("any-alarm", "Test.HasAlarmed", exists(o.St, o.St.Events(), func(st *eng.State, ev *eng.Event) bool { return isAlarm(st, ev, 1) }), o.Pos, o.St, "reports an alarm without a statistic in alarm")
		} else {
			c.OblSt("any-alarm", "Test.HasAlarmed", o.St.Same(o.St.LenOf(sub), eng.Int(0)) || forall(o, sub, func(k *eng.IterKind, idx *eng.Term) bool {
				for _, ev := range k.Events {
					if isAlarm(k.St, ev, -1) {
						_, i, _ := elemOf(ev.Args[0])
						return i == idx
					}
				}
				return false
			}), o.Pos, o.St, "reports no alarm on a path that may have a statistic in alarm")
		}
	}
	for _, o := range c.Run(c.Fn("pkg/stat.Test.State"), st.Clone(), t) {
		ok := o.Kind == "return" && c.elementwise(o.St, o.Ret[0], sub, c.Type("pkg/fsm.State"), sub.Typ.Underlying().(*types.Slice).Elem(), func(st *eng.State, el *eng.Term) *eng.Term {
			for _, q := range c.Run(c.Fn(ts+"State"), st.Clone(), el) {
				return q.Ret[0]
			}
			return nil
		})
		c.OblSt("states", "Test.State", ok, o.Pos, o.St, "does not list the phase of every statistic in order (%v)", o.Ret)
	}
	c.testMetric(st, t, sub)
}

// anyLost reports whether the path, or an iteration that continues, holds an event whose error is known to be set.
func anyLost(st *eng.State, match func(ev *eng.Event) bool) bool {
	lost := false
	var rec func(st *eng.State, evs []*eng.Event, kept func(*eng.Term) bool)
	rec = func(st *eng.State, evs []*eng.Event, kept func(*eng.Term) bool) {
		for _, ev := range evs {
			if match(ev) && (ev.Res == nil || isNil(st, ev.Res) != 1 && !kept(ev.Res)) {
				lost = true
			}
			if ev.Kind == "loop" {
				inst := ev.Loop
				for _, k := range inst.Kinds {
					rec(k.St, k.Events, func(e *eng.Term) bool {
						for _, s := range inst.Slots {
							if s.Sym == nil || k.Next[s] != e {
								continue
							}
							// the variable is looked at before it is overwritten, and when the loop ends
							ok := isNil(st, s.Sym) == 1
							for _, k2 := range inst.Kinds {
								ok = ok && (k2.Next[s] == s.Sym || isNil(k2.St, s.Sym) == 1)
							}
							if ok {
								return true
							}
						}
						return false
					})
				}
			}
		}
	}
	rec(st, st.Events(), func(*eng.Term) bool { return false })
	return lost
}

// wraps reports whether an error was built from one accepted by f.
func wraps(st *eng.State, e *eng.Term, f func(*eng.Term) bool) bool {
	if f(e) {
		return true
	}
	for _, a := range e.Args {
		if wraps(st, a, f) {
			return true
		}
	}
	return false
}

// exists reports whether some event of the path or of an iteration satisfies match in its state.
func exists(st *eng.State, evs []*eng.Event, match func(st *eng.State, ev *eng.Event) bool) bool {
	for _, ev := range evs {
		if match(st, ev) {
			return true
		}
		if ev.Kind == "loop" {
			for _, k := range ev.Loop.Kinds {
				if exists(k.St, k.Events, match) {
					return true
				}
			}
		}
	}
	return false
}

// forall reports whether a loop of the path visits every element of seq with iterations that all satisfy p; iterations
// that cannot belong to a run ending in this path are ignored.
func forall(o eng.Outcome, seq *eng.Term, p func(k *eng.IterKind, idx *eng.Term) bool) bool {
	evs := o.St.Events()
	for i, ev := range evs {
		if ev.Kind != "loop" || ev.Loop.Trav == nil || len(ev.Loop.Kinds) == 0 || !complete(evs[i:], ev.Loop) {
			continue
		}
		inst := ev.Loop
		if !full(o.St, inst, seq, inst.Trav.Idx) {
			continue
		}
		end := ""
		for _, x := range evs[i:] {
			if x.Kind == "loopexit" && x.Loop == inst {
				end = x.Exit.Part
			}
		}
		// partitions from which the final one can be reached
		reach := map[string]bool{end: true}
		for changed := true; changed; {
			changed = false
			for _, k := range inst.Kinds {
				if reach[k.NextPart] && !reach[k.Part] {
					reach[k.Part] = true
					changed = true
				}
			}
		}
		ok := true
		for _, k := range inst.Kinds {
			if reach[k.Part] && reach[k.NextPart] && !p(k, inst.Trav.Idx) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Ctx) testMetric(st *eng.State, t, sub *eng.Term) {
	T := c.Type("pkg/stat.Test")
	f := c.Fn("pkg/stat.Test.Metric")
	nT := c.Type("pkg/metric.Name")
	nameF := func(st *eng.State, v *eng.Term, n string) *eng.Term {
		s := nT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return eng.FieldOf(v, i, s.Field(i).Type())
			}
		}
		return nil
	}
	own := c.Get(st, t, T, "name")
	ownMD := nameF(st, own, "md")
	for _, o := range c.Run(f, st.Clone(), t) {
		if o.Kind != "return" {
			c.OblSt("metric", "Test.Metric", false, o.Pos, o.St, "ends in %s", o.Kind)
			continue
		}
		c.OblSt("metric-name", "Test.Metric", !anyEvent(o.St.Events(), func(ev *eng.Event) bool { return ev.Kind == "mapwrite" && ev.Addr == ownMD }), o.Pos, o.St, "writes its labels into the metadata of the test's own name")
		for _, value := range []string{"current", "limit"} {
			ok := o.St.Same(o.St.LenOf(sub), eng.Int(0)) || forall(o, sub, func(k *eng.IterKind, idx *eng.Term) bool {
				el := k.St.Load(k.St.ElemAddr(sub, idx), sub.Typ.Underlying().(*types.Slice).Elem())
				est := c.Type("pkg/stat.TestStatistic")
				want := c.Get(k.St, el, est, value)
				label := c.Get(k.St, el, est, "name")
				for i, ev := range k.Events {
					if ev.Kind != "mapwrite" || ev.Addr != o.Ret[0] || ev.Val != want {
						continue
					}
					for j, call := range k.Events[:i] {
						if !c.callTo(call, "pkg/metric.Name.String") || call.Val != ev.Args[0] {
							continue
						}
						md := nameF(k.St, call.Args[0], "md")
						got := map[string]*eng.Term{}
						copied := false
						for _, w := range k.Events[:j] {
							if w.Kind == "mapwrite" && w.Addr == md && len(w.Args) == 1 {
								if s, ok := w.Args[0].StrVal(); ok {
									got[s] = w.Val
								}
							}
							if w.Kind == "loop" && w.Loop.Trav != nil && w.Loop.Trav.Map == ownMD {
								all := true
								for _, kk := range w.Loop.Kinds {
									hit := false
									for _, w2 := range kk.Events {
										if w2.Kind == "mapwrite" && w2.Addr == md && w2.Args[0] == w.Loop.Trav.Key {
											hit = true
										}
									}
									all = all && hit
								}
								copied = copied || all
							}
						}
						is := func(k, v string) bool {
							s, ok := "", got[k] != nil
							if ok {
								s, ok = got[k].StrVal()
							}
							return ok && s == v
						}
						if is("value", value) && is("type", "estimator") && got["strategy"] == label && copied && nameF(k.St, call.Args[0], "name") == nameF(k.St, own, "name") {
							return true
						}
					}
				}
				return false
			})
			c.OblSt("metric", "Test.Metric", ok, o.Pos, o.St, "does not report the %s of every statistic under its labelled name", value)
		}
	}
}
