package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"monnyverif/eng"
)

func init() {
	register("S06", []string{"given", "refused", "default", "watch", "made", "window", "release"}, checkS06)
}

// distribution is one of the two kinds of observations a test can be made for.
type distribution struct {
	name       string // of the type, and in the names of its constructors
	ctor       string // makes the series of the observations
	args       []string
	calc       string // the k of this distribution
	a, b       string // its calibration
	windowed   bool
	newTest    string
	def        []string // its default statistics
	constructs string
}

var distributions = []distribution{
	{name: "LogNormal", ctor: "pkg/metric.NewSeries", calc: "CalculateLN", a: "LogNormalA", b: "LogNormalB", newTest: "NewLogNormalTest", def: []string{"DefaultLogNormalEWMA", "DefaultLogNormalShewart"}, constructs: "NewLogNormal"},
	{name: "Poisson", ctor: "pkg/metric.NewSampledSeries", calc: "CalculateP", a: "PoissonA", b: "PoissonB", windowed: true, newTest: "NewPoissonTest", def: []string{"DefaultPoissonEWMA", "DefaultPoissonShewart"}, constructs: "NewPoisson"},
}

// number is the constant a term is.
func number(t *eng.Term) (float64, bool) {
	t = unconv(t)
	if t == nil || t.Op != eng.OConst || t.C == nil {
		return 0, false
	}
	v := constant.ToFloat(t.C)
	if v.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(v)
	return f, true
}

func isNumber(t *eng.Term, want float64) bool {
	f, ok := number(t)
	return ok && math.Abs(f-want) <= 1e-12*math.Abs(want)
}

// seriesOf is what the distribution p makes of a request for a series.
func (c *Ctx) seriesOf(d distribution, st *eng.State, p *eng.Term) []eng.Outcome {
	c.opaque(d.ctor)
	outs := SplitNil(c.Run(c.Fn("pkg/stat."+d.name+".NewSeries"), st, p), 1)
	c.E.Opaque = nil
	return outs
}

// asked is the call that made a series on a path.
func (c *Ctx) asked(d distribution, st *eng.State, from int) *eng.Event {
	var call *eng.Event
	n := 0
	eachEvent(st.Events()[from:], func(ev *eng.Event) {
		if c.callTo(ev, d.ctor) {
			call = ev
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return call
}

// kOf is the k of a distribution made of a state.
func (c *Ctx) kOf(d distribution, st *eng.State, p *eng.Term) []eng.Outcome {
	return SplitNil(c.Run(c.Fn("pkg/stat."+d.name+".K"), st.Clone(), p), 1)
}

// standard reports what is wrong with a default statistic; "" if nothing.
func (c *Ctx) standard(d distribution, i int, st *eng.State, s *eng.Term) string {
	t := c.Type("pkg/stat.TestStatistic")
	if isNil(st, s) != -1 || s.Op != eng.OAlloc {
		return "is not a statistic of its own"
	}
	for _, o := range c.Run(c.Fn("pkg/stat.TestStatistic.Name"), st.Clone(), s) {
		if o.Kind != "return" || !isStr(o.Ret[0], []string{"ewma", "shewart"}[i]) {
			return "has another name"
		}
	}
	lambda := c.role(t, "lambda", typeIs("float64"))
	if !isNumber(c.Get(st, s, t, lambda), []float64{0.25, 1}[i]) {
		return "has another smoothing factor"
	}
	pdf := c.Get(st, s, t, c.role(t, "pdf", typeIs("stat.PDF")))
	series := c.Get(st, s, t, c.role(t, "series", typeIs("metric.SeriesRecorder")))
	if pdf.Op != eng.OIface || !types.Identical(pdf.Typ, types.NewPointer(c.Type("pkg/stat."+d.name))) {
		return "is for another distribution"
	}
	if series.Op != eng.OIface {
		return "has no window"
	}
	for _, o := range c.Run(c.Method(deref(series.Typ), "Capacity"), st.Clone(), series.Args[0]) {
		if o.Kind != "return" || !isNumber(o.Ret[0], 50) {
			return "has a baseline of another length"
		}
	}
	p := pdf.Args[0]
	from := len(st.Events())
	for _, o := range c.seriesOf(d, st.Clone(), p) {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		call := c.asked(d, o.St, from)
		if call == nil || !isNumber(call.Args[0], 50) {
			return "has a baseline of another length"
		}
		if d.windowed && (!isNumber(call.Args[1], 15e9) || call.Args[2].Op != eng.OFunc || call.Args[2].Fn != c.Fn("pkg/metric.SampleSum")) {
			return "does not sum the observations of 15 s"
		}
	}
	fl := types.Typ[types.Float64]
	rate := eng.FloatConst(math.Log(0.05))
	want := eng.FloatOp(tQUO, eng.FloatOp(tSUB, rate, eng.Const(c.Const("pkg/stat", d.a), fl), fl), eng.Const(c.Const("pkg/stat", d.b), fl), fl)
	w, _ := number(want)
	for _, o := range c.kOf(d, st, p) {
		if o.Kind != "return" || isNil(o.St, o.Ret[1]) != 1 {
			continue
		}
		k := o.Ret[0]
		if f, ok := number(k); ok && math.Abs(f-w) < 1e-9 {
			continue
		}
		// the logarithm of the rate is not computed by the analysis
		lg := eng.Pure("math.Log", fl, c.rate(d, st, p))
		sym := eng.FloatOp(tQUO, eng.FloatOp(tSUB, lg, eng.Const(c.Const("pkg/stat", d.a), fl), fl), eng.Const(c.Const("pkg/stat", d.b), fl), fl)
		if !near(k, sym) || !isNumber(c.rate(d, st, p), 0.05) {
			return "has another error rate"
		}
	}
	return ""
}

// rate is the error rate a distribution is made with.
func (c *Ctx) rate(d distribution, st *eng.State, p *eng.Term) *eng.Term {
	t := c.Type("pkg/stat." + d.name)
	k := c.Get(st, p, t, c.role(t, "k", typeIs("stat.K")))
	if k.Op == eng.OIface {
		return k.Args[0]
	}
	return k
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkS06(c *Ctx) {
	c.E.NoMerge = true
	T, S := c.Type("pkg/stat.Test"), c.Type("pkg/stat.TestStatistic")
	subF, nameF := c.role(T, "sub", typeIs("[]*stat.TestStatistic")), c.role(T, "name", typeIs("metric.Name"))
	for _, d := range distributions {
		for i, name := range d.def {
			f := c.Fn("pkg/stat." + name)
			for _, o := range c.Run(f, c.E.NewState()) {
				what := o.Why
				if o.Kind == "return" {
					what = c.standard(d, i, o.St, o.Ret[0])
				}
				c.OblSt("default", name, o.Kind == "return" && what == "", f.Pos(), o.St, "the default statistic %s", what)
			}
		}
		c.tests06(d, T, subF, nameF)
		c.distribution06(d)
	}
	// the option that gives a statistic
	f := c.Fn("pkg/stat.WithStatistic")
	st := c.E.NewState()
	e, t := c.Sym("statistic", f.Params[0].Type()), c.Recv(st, "t", T)
	sub := c.Get(st, t, T, subF)
	for _, q := range c.Run(f, st, e) {
		if q.Kind != "return" {
			c.OblSt("watch", "WithStatistic", false, f.Pos(), q.St, "%s", q.Why)
			continue
		}
		for _, o := range c.RunVal(q.Ret[0], q.St, t) {
			ok := o.Kind == "return" && isNil(o.St, o.Ret[0]) == 1
			if ok {
				now := c.Get(o.St, t, T, subF)
				ok = now.Op == eng.OAppend && len(now.Args) == 2 && now.Args[0] == sub && now.Args[1] == e
				for _, ev := range changes(o.St) {
					a, _ := c.Field(t, T, subF)
					ok = ok && (ev.Addr == a || eng.Root(ev.Addr) != t)
				}
			}
			c.OblSt("watch", "WithStatistic", ok, f.Pos(), o.St, "the test does not have the statistics it had and the one given")
		}
	}
	// a statistic
	f = c.Fn("pkg/stat.NewEWMAStatistic")
	name, lambda, pdf := c.Sym("name", types.Typ[types.String]), c.Sym("lambda", types.Typ[types.Float64]), c.Sym("pdf", f.Params[2].Type())
	made := 0
	for _, o := range SplitNil(c.Run(f, c.E.NewState(), name, lambda, pdf), 1) {
		var call *eng.Event
		n := 0
		for _, ev := range o.St.Events() {
			if invoked(ev, pdf, "NewSeries") {
				call = ev
				n++
			}
		}
		if o.Kind != "return" || n != 1 {
			c.OblSt("made", "NewEWMAStatistic", false, f.Pos(), o.St, "asks %d times for a window %s", n, o.Why)
			continue
		}
		if isNil(o.St, call.Res) != 1 {
			c.OblSt("refused", "NewEWMAStatistic", isNil(o.St, call.Res) == -1 && isNil(o.St, o.Ret[0]) == 1 && isNil(o.St, o.Ret[1]) == -1, f.Pos(), o.St, "a window that can not be made returns %v", o.Ret)
			continue
		}
		if isNil(o.St, o.Ret[1]) != 1 {
			c.OblSt("made", "NewEWMAStatistic", false, f.Pos(), o.St, "is refused though the window was made: %v", o.Ret)
			continue
		}
		made++
		s := o.Ret[0]
		ok := s.Op == eng.OAlloc && c.Get(o.St, s, S, c.role(S, "lambda", typeIs("float64"))) == lambda && c.Get(o.St, s, S, c.role(S, "pdf", typeIs("stat.PDF"))) == pdf && c.Get(o.St, s, S, c.role(S, "series", typeIs("metric.SeriesRecorder"))) == call.Val
		for _, q := range c.Run(c.Fn("pkg/stat.TestStatistic.Name"), o.St.Clone(), s) {
			ok = ok && q.Kind == "return" && q.Ret[0] == name
		}
		c.OblSt("made", "NewEWMAStatistic", ok, f.Pos(), o.St, "is not made of name, smoothing factor, distribution and its window")
		before := len(o.St.Events())
		for _, q := range c.Run(c.Fn("pkg/stat.TestStatistic.Done"), o.St.Clone(), s) {
			n := 0
			for _, ev := range q.St.Events()[before:] {
				if invoked(ev, pdf, "Done") {
					n++
				}
			}
			c.OblSt("release", "TestStatistic.Done", q.Kind == "return" && n == 1, f.Pos(), q.St, "releases its distribution %d times", n)
		}
	}
	c.Obl("made", "NewEWMAStatistic", made > 0, f.Pos(), "no statistic can be made")
}

// tests06 decides what the constructor of a test makes of its options.
func (c *Ctx) tests06(d distribution, T *types.Named, subF, nameF string) {
	f := c.Fn("pkg/stat." + d.newTest)
	name, opts := c.Sym("name", f.Params[0].Type()), c.Sym("opts", f.Params[1].Type())
	optT := opts.Typ.Underlying().(*types.Slice).Elem()
	given, standard := 0, 0
	for _, o := range SplitNil(c.Run(f, c.E.NewState(), name, opts), 1) {
		if o.Kind != "return" {
			c.OblSt("given", d.newTest, false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		evs := o.St.Events()
		var failed *eng.Event
		for _, ev := range evs {
			if ev.Kind == "callfn" && isNil(o.St, ev.Res) == -1 {
				failed = ev
			}
		}
		if isNil(o.St, o.Ret[1]) == -1 {
			ok := isNil(o.St, o.Ret[0]) == 1 && (failed != nil || c.comesFrom(o.Ret[1], func(t *eng.Term) bool {
				return exists(o.St, evs, func(_ *eng.State, ev *eng.Event) bool { return ev.Kind == "callfn" && ev.Res == t })
			}))
			c.OblSt("refused", d.newTest, ok, o.Pos, o.St, "fails with %v", o.Ret)
			continue
		}
		p := o.Ret[0]
		lost := failed != nil || anyLost(o.St, func(ev *eng.Event) bool { return ev.Kind == "callfn" })
		if !c.OblSt("refused", d.newTest, !lost, o.Pos, o.St, "an option that failed is no error") {
			continue
		}
		// every option is applied once, in order, to the test returned
		applied := o.St.Same(o.St.LenOf(opts), eng.Int(0)) || forall(o, opts, func(k *eng.IterKind, idx *eng.Term) bool {
			n := 0
			ok := true
			for _, ev := range k.Events {
				if ev.Kind == "callfn" {
					n++
					ok = ok && ev.Val == k.St.Load(k.St.ElemAddr(opts, idx), optT) && len(ev.Args) == 1 && ev.Args[0] == p
				}
			}
			return n == 1 && ok
		})
		for i, ev := range evs {
			if ev.Kind == "loop" && ev.Loop.Trav != nil && ev.Loop.Trav.Rev && exists(o.St, evs[i:i+1], func(_ *eng.State, ev *eng.Event) bool { return ev.Kind == "callfn" }) {
				applied = false
			}
		}
		if !c.OblSt("given", d.newTest, applied && p.Op == eng.OAlloc, o.Pos, o.St, "not every option is applied once, in order, to the test returned") {
			continue
		}
		// what the options left is kept, or the default statistics if that is nothing
		subA, subT := c.Field(p, T, subF)
		last := -1
		for i, ev := range evs {
			if ev.Kind == "loopexit" || ev.Kind == "callfn" {
				last = i
			}
		}
		none := false
		for t := range o.St.FactTerms() {
			sub := map[*eng.Term]bool{}
			subterms(t, sub)
			for x := range sub {
				if x.Op == eng.OLen && eng.Has(x.Args[0], subA) && o.St.Same(x, eng.Int(0)) ||
					x.Typ != nil && types.Identical(x.Typ, subT) && eng.Has(x, subA) && isNil(o.St, x) == 1 {
					none = true
				}
			}
		}
		stored := 0
		for _, ev := range evs[last+1:] {
			if ev.Kind == "store" && ev.Addr == subA {
				stored++
			}
		}
		now := o.St.Load(subA, subT)
		n := o.St.LenOf(now)
		if stored == 0 {
			given++
			c.OblSt("default", d.newTest, o.St.EntailLt(eng.Int(0), n), o.Pos, o.St, "a test without statistics is possible")
		} else {
			standard++
			ok := none && o.St.Same(n, eng.Int(2))
			c.OblSt("given", d.newTest, none, o.Pos, o.St, "the statistics given are changed")
			for i := 0; ok && i < 2; i++ {
				s := o.St.Load(o.St.ElemAddr(now, eng.Int(int64(i))), subT.Underlying().(*types.Slice).Elem())
				what := c.standard(d, i, o.St, s)
				c.OblSt("default", d.newTest, what == "", o.Pos, o.St, "default statistic %d %s", i, what)
			}
			c.OblSt("default", d.newTest, ok, o.Pos, o.St, "the default statistics are not two")
		}
		c.OblSt("made", d.newTest, c.nameKept(o.St, p, T, nameF, name, evs), o.Pos, o.St, "the test does not have the name given")
	}
	c.Obl("given", d.newTest, given > 0, f.Pos(), "no statistics can be given")
	c.Obl("default", d.newTest, standard > 0, f.Pos(), "there are no default statistics")
}

// nameKept reports whether the test had its name when the options were applied, or has it now.
func (c *Ctx) nameKept(st *eng.State, p *eng.Term, T *types.Named, nameF string, name *eng.Term, evs []*eng.Event) bool {
	if c.Get(st, p, T, nameF) == name {
		return true
	}
	a, _ := c.Field(p, T, nameF)
	n := 0
	ok := false
	for _, ev := range evs {
		if ev.Kind == "store" && (ev.Addr == a || eng.Root(ev.Addr) == p && strings.HasPrefix(ev.Addr.String(), a.String())) {
			n++
			ok = ev.Addr == a && ev.Val == name
		}
	}
	return n == 1 && ok
}

// distribution06 decides what a distribution makes of its parameters.
func (c *Ctx) distribution06(d distribution) {
	f := c.Fn("pkg/stat." + d.constructs)
	args := c.params(f, 0)
	var series []*eng.Term
	var k *eng.Term
	for i, p := range f.Params {
		if typeIs("stat.K")(p.Type()) {
			k = args[i]
		} else {
			series = append(series, args[i])
		}
	}
	for _, o := range c.Run(f, c.E.NewState(), args...) {
		if o.Kind != "return" || o.Ret[0].Op != eng.OAlloc {
			c.OblSt("window", d.constructs, false, f.Pos(), o.St, "makes no distribution %s", o.Why)
			continue
		}
		p := o.Ret[0]
		from := len(o.St.Events())
		made := 0
		for _, q := range c.seriesOf(d, o.St.Clone(), p) {
			call := c.asked(d, q.St, from)
			ok := q.Kind == "return" && call != nil
			for i, a := range series {
				ok = ok && call.Args[i] == a
			}
			if !c.OblSt("window", d.name+".NewSeries", ok, q.Pos, q.St, "the window is not made with the parameters of the distribution") {
				continue
			}
			if isNil(q.St, q.Ret[1]) != 1 {
				c.OblSt("refused", d.name+".NewSeries", isNil(q.St, call.Res) == -1, q.Pos, q.St, "fails though the window was made, or hides why")
				continue
			}
			made++
			c.OblSt("window", d.name+".NewSeries", isNil(q.St, call.Res) == 1 && q.Ret[0].Op == eng.OIface && q.Ret[0].Args[0] == call.Val, q.Pos, q.St, "the window returned is not the one made")
			if !d.windowed {
				continue
			}
			c.released(d, q.St, p, call)
		}
		c.Obl("window", d.name+".NewSeries", made > 0, f.Pos(), "never succeeds")
		if d.windowed {
			// the same for a distribution that was used before
			st := c.E.NewState()
			p := c.Recv(st, "used", c.Type("pkg/stat."+d.name))
			for _, q := range c.seriesOf(d, st, p) {
				if call := c.asked(d, q.St, 0); call != nil && q.Kind == "return" && isNil(q.St, q.Ret[1]) == 1 {
					c.released(d, q.St, p, call)
				}
			}
		}
		for _, q := range c.Run(c.Fn("pkg/stat."+d.name+".K"), o.St.Clone(), p) {
			n := 0
			for _, ev := range q.St.Events()[from:] {
				if invoked(ev, k, d.calc) {
					n++
				}
			}
			c.OblSt("made", d.constructs, q.Kind == "return" && n == 1, q.Pos, q.St, "does not use the k given")
		}
		obs := c.Sym("obs", types.Typ[types.Float64])
		for _, q := range c.Run(c.Fn("pkg/stat."+d.name+".Transform"), o.St.Clone(), p, obs) {
			want := obs
			if d.name == "LogNormal" {
				want = eng.Pure("math.Log", types.Typ[types.Float64], obs)
			}
			c.OblSt("made", d.name+".Transform", q.Kind == "return" && q.Ret[0] == want, q.Pos, q.St, "transforms an observation to %v", q.Ret)
		}
	}
}

// released decides what the release of a distribution does after it made a window.
func (c *Ctx) released(d distribution, st *eng.State, p *eng.Term, call *eng.Event) {
	before := len(st.Events())
	for _, r := range c.Run(c.Fn("pkg/stat."+d.name+".Done"), st.Clone(), p) {
		n := 0
		other := false
		for _, ev := range r.St.Events()[before:] {
			if ev.Kind == "callfn" {
				if len(call.Rs) == 3 && ev.Val == call.Rs[1] {
					n++
				} else {
					other = true
				}
			}
		}
		c.OblSt("release", d.name+".Done", r.Kind == "return" && n == 1 && !other, r.Pos, r.St, "stops the window %d times", n)
	}
}

var _ *ssa.Function
