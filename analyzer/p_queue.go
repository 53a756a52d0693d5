package main

import (
	"go/types"

	"monnyverif/eng"
)

func init() {
	register("Q01", []string{"add", "full", "zero", "copy", "copy-own", "clear", "new", "excluded", "lock-released", "lock-paired"}, checkQ01)
}

// part is a stretch of a sequence: n elements given by their position in it.
type part struct {
	n  *eng.Term
	at func(s *eng.State, i *eng.Term) *eng.Term
}

// pointwise reports whether a sequence holds exactly the given stretches, one after the other.
func (c *Ctx) pointwise(st *eng.State, v *eng.Term, et types.Type, parts ...part) bool {
	total := eng.Int(0)
	for _, p := range parts {
		total = eng.Add(total, p.n)
	}
	if !st.Same(st.LenOf(v), total) {
		return false
	}
	off := eng.Int(0)
	for _, p := range parts {
		i := c.Sym("at", types.Typ[types.Int])
		s := st.Clone()
		if n, ok := p.n.IntVal(); ok && n == 1 {
			i = eng.Int(0)
		}
		if s.Assume(eng.Lt(i, p.n), true) && s.Assume(eng.Lt(i, eng.Int(0)), false) {
			got := s.Load(s.ElemAddr(v, eng.Add(off, i)), et)
			want := p.at(s, i)
			if !sameItem(s, got, want) {
				return false
			}
		}
		off = eng.Add(off, p.n)
	}
	return true
}

// sameItem compares items read from sequences, at places that are equal on this path.
func sameItem(s *eng.State, a, b *eng.Term) bool {
	if a == b || sameElem(a, b) || s.Same(a, b) {
		return true
	}
	if a.Op != eng.OInit || b.Op != eng.OInit || a.Name != b.Name {
		return false
	}
	p, q := a.Args[0], b.Args[0]
	return p.Op == eng.OElem && q.Op == eng.OElem && p.Args[0] == q.Args[0] && s.Same(p.Args[1], q.Args[1])
}

// from is a stretch of another sequence.
func from(seq, lo, n *eng.Term, et types.Type) part {
	return part{n, func(s *eng.State, i *eng.Term) *eng.Term { return s.Load(s.ElemAddr(seq, eng.Add(lo, i)), et) }}
}

func one(v *eng.Term) part {
	return part{eng.Int(1), func(*eng.State, *eng.Term) *eng.Term { return v }}
}

func checkQ01(c *Ctx) {
	t := c.Type("pkg/monny/proc.Queue")
	str := types.Typ[types.String]
	items := c.role(t, "q", typeIs("[]string"))
	limit := c.role(t, "capacity", intType)
	k := c.newConc("Queue")
	st := c.E.NewState()
	recv := c.Recv(st, "queue", t)
	k.entries(t, "queue", recv, st)
	k.races("excluded", nil)
	k.locking("lock")

	c.E.NoMerge = true
	c.E.Interfere = true
	get := func(s *eng.State, f string) *eng.Term { return c.Get(s, recv, t, f) }
	zero, one1 := eng.Int(0), eng.Int(1)
	// what every queue has: not more items than its capacity, which is not negative
	bounded := func(s *eng.State, old *eng.State) bool {
		n, lim := s.LenOf(get(old, items)), get(old, limit)
		return s.Assume(eng.Lt(lim, n), false) && s.Assume(eng.Lt(lim, zero), false)
	}
	f := c.Method(t, "Add")
	x := c.Sym("x", str)
	outs := c.Run(f, st.Clone(), recv, x)
	c.oneStep("add", "Queue.Add one step", f, outs)
	for _, o := range outs {
		for _, kind := range []string{"zero", "add", "full"} {
			q := o.St.Clone()
			old := q.Old()
			was, lim := get(old, items), get(old, limit)
			n := q.LenOf(was)
			if !bounded(q, old) {
				continue
			}
			ok := true
			switch kind {
			case "zero":
				ok = q.Assume(eng.Eq(lim, zero), true)
			case "add":
				ok = q.Assume(eng.Lt(n, lim), true)
			case "full":
				ok = q.Assume(eng.Lt(zero, lim), true) && q.Assume(eng.Eq(n, lim), true)
			}
			if !ok {
				continue
			}
			if o.Kind != "return" {
				c.OblSt(kind, "Queue.Add", false, o.Pos, q, "%s", o.Why)
				continue
			}
			now := get(q, items)
			switch kind {
			case "zero":
				ok = q.Same(q.LenOf(now), zero)
			case "add":
				ok = c.pointwise(q, now, str, from(was, zero, n, str), one(x))
			case "full":
				ok = c.pointwise(q, now, str, from(was, one1, eng.Sub(n, one1), str), one(x))
			}
			ok = ok && q.Same(get(q, limit), lim)
			msg := map[string]string{"zero": "a queue without capacity keeps an item", "add": "an item added to a queue that has room is not its last, or the others change",
				"full": "an item added to a full queue does not replace the oldest"}[kind]
			c.OblSt(kind, "Queue.Add", ok, f.Pos(), q, "%s", msg)
		}
	}
	f = c.Method(t, "Copy")
	for _, o := range c.Run(f, st.Clone(), recv) {
		if o.Kind != "return" {
			c.OblSt("copy", "Queue.Copy", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		q := o.St.Clone()
		old := q.Old()
		was := get(old, items)
		if !bounded(q, old) {
			continue
		}
		ok := c.pointwise(q, o.Ret[0], str, from(was, zero, q.LenOf(was), str)) && q.Same(get(q, items), was) && q.Same(get(q, limit), get(old, limit))
		c.OblSt("copy", "Queue.Copy", ok, f.Pos(), q, "a copy does not hold the items of the queue in order, or changes the queue")
		c.OblSt("copy-own", "Queue.Copy", !sharesMemory(o.Ret[0], was), f.Pos(), q, "a copy shares memory with the queue")
	}
	f = c.Method(t, "Clear")
	for _, o := range c.Run(f, st.Clone(), recv) {
		if o.Kind != "return" {
			c.OblSt("clear", "Queue.Clear", false, o.Pos, o.St, "%s", o.Why)
			continue
		}
		ok := o.St.Same(o.St.LenOf(get(o.St, items)), zero) && o.St.Same(get(o.St, limit), get(o.St.Old(), limit))
		c.OblSt("clear", "Queue.Clear", ok, f.Pos(), o.St, "a cleared queue is not empty, or has another capacity")
	}
	c.E.Interfere = false
	f = c.Fn("pkg/monny/proc.NewQueue")
	n := c.Sym("n", types.Typ[types.Int])
	for _, o := range c.Run(f, c.E.NewState(), n) {
		for _, neg := range []bool{true, false} {
			q := o.St.Clone()
			if !q.Assume(eng.Lt(n, zero), neg) {
				continue
			}
			if o.Kind != "return" {
				c.OblSt("new", "NewQueue", false, o.Pos, q, "%s", o.Why)
				continue
			}
			want := n
			if neg {
				want = zero
			}
			r := o.Ret[0]
			ok := q.Same(q.LenOf(c.Get(q, r, t, items)), zero) && q.Same(c.Get(q, r, t, limit), want)
			c.OblSt("new", "NewQueue", ok, f.Pos(), q, "a new queue is not empty with the capacity asked for (none for a negative one)")
		}
	}
}
