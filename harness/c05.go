package main

import (
	"math"
	"sort"

	"github.com/jakecoffman/cp/v2"
)

const kinds = "bpos"

// handlerModel is what was registered.
type handlerModel struct {
	id     int
	h      *cp.CollisionHandler
	a, b   cp.CollisionType
	wild   bool
	custom [4]bool // the callback is the monitor's own, not the default
	calls  [4]bool // a pair handler that asks for the wildcards itself
	data   *int
}

type dcall struct {
	h    *handlerModel
	kind int
	k    pairKey
	x, y int // order of the shapes
	ret  bool
}

type dispatch struct {
	t     *T
	w     *World
	r     *Rand
	pairs map[[2]cp.CollisionType]*handlerModel
	wilds map[cp.CollisionType]*handlerModel
	vals  []cp.CollisionType
	log   []dcall
	depth int
	pNo   float64
	eps   map[pairKey]*depisode
}

type depisode struct {
	active, unknown, ignored bool
	sep                      []int
	last                     int
}

func (d *dispatch) pair(a, b cp.CollisionType) *handlerModel {
	if h := d.pairs[[2]cp.CollisionType{a, b}]; h != nil {
		return h
	}
	return d.pairs[[2]cp.CollisionType{b, a}]
}

// expected lists the ids of the handlers whose own callbacks should run, sorted; twice in it means called twice.
func (d *dispatch) expected(kind int, a, b cp.CollisionType) []int {
	var l []int
	wild := func() {
		for _, t := range []cp.CollisionType{a, b} {
			if h := d.wilds[t]; h != nil && h.custom[kind] {
				l = append(l, h.id)
			}
		}
	}
	if h := d.pair(a, b); h != nil && h.custom[kind] {
		l = append(l, h.id)
		if h.calls[kind] {
			wild()
		}
	} else {
		wild()
	}
	sort.Ints(l)
	return l
}

func (d *dispatch) install(m *handlerModel) {
	h := m.h
	h.UserData = m.data
	for k := 0; k < 4; k++ {
		k := k
		if !m.custom[k] {
			continue
		}
		switch k {
		case 0:
			h.BeginFunc = func(arb *cp.Arbiter, sp *cp.Space, data interface{}) bool { return d.called(m, k, arb, sp, data) }
		case 1:
			h.PreSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, data interface{}) bool { return d.called(m, k, arb, sp, data) }
		case 2:
			h.PostSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, data interface{}) { d.called(m, k, arb, sp, data) }
		case 3:
			h.SeparateFunc = func(arb *cp.Arbiter, sp *cp.Space, data interface{}) { d.called(m, k, arb, sp, data) }
		}
	}
}

func (d *dispatch) register() {
	t, r, sp := d.t, d.r, d.w.Sp
	a, b := d.vals[r.Intn(len(d.vals))], d.vals[r.Intn(len(d.vals))]
	m := &handlerModel{a: a, b: b, wild: r.P(0.35), data: new(int)}
	for k := range m.custom {
		m.custom[k] = r.P(0.8)
		m.calls[k] = !m.wild && r.P(0.3)
	}
	if m.wild {
		m.h = sp.NewWildcardCollisionHandler(a)
		t.Check(m.h.TypeA == a && m.h.TypeB == cp.WILDCARD_COLLISION_TYPE, "handler-types", "wildcard handler of %d has types %d %d", a, m.h.TypeA, m.h.TypeB)
		if old := d.wilds[a]; old != nil {
			t.Check(m.h == old.h, "handler-not-same", "second wildcard handler of %d is another one", a)
			t.Ev("registered_again")
			return
		}
		m.id = 1000 + d.w.id()
		d.wilds[a] = m
	} else {
		m.h = sp.NewCollisionHandler(a, b)
		if old := d.pair(a, b); old != nil {
			t.Check(m.h == old.h, "handler-not-same", "second handler of %d %d is another one", a, b)
			t.Check(m.h.TypeA == old.a && m.h.TypeB == old.b, "handler-types", "handler of %d %d has types %d %d", old.a, old.b, m.h.TypeA, m.h.TypeB)
			t.Ev("registered_again")
			return
		}
		t.Check(m.h.TypeA == a && m.h.TypeB == b, "handler-types", "handler of %d %d has types %d %d", a, b, m.h.TypeA, m.h.TypeB)
		for _, o := range d.pairs {
			t.Check(o.h != m.h, "handler-shared", "the handlers of %d %d and %d %d are one", o.a, o.b, a, b)
		}
		m.id = 1000 + d.w.id()
		d.pairs[[2]cp.CollisionType{a, b}] = m
	}
	t.Check(m.h.UserData == nil && m.h.BeginFunc != nil && m.h.PreSolveFunc != nil && m.h.PostSolveFunc != nil && m.h.SeparateFunc != nil,
		"handler-defaults", "a new handler of %d %d does not have its defaults", a, b)
	t.Ev("registered")
	d.w.logf("handler h%d types %d %d wildcard %v custom %v calls wildcards %v", m.id, a, b, m.wild, m.custom, m.calls)
	d.install(m)
}

func (d *dispatch) called(m *handlerModel, kind int, arb *cp.Arbiter, sp *cp.Space, data interface{}) bool {
	t := d.t
	sa, sb := arb.Shapes()
	a, b := sa.UserData.(*WShape), sb.UserData.(*WShape)
	name := kinds[kind : kind+1]
	d.w.logf("  %s h%d s%d-s%d", name, m.id, a.ID, b.ID)
	t.Check(sp == d.w.Sp, "space", "%s of h%d with another space", name, m.id)
	t.Check(data == interface{}(m.data), "handler-data", "%s of h%d gets %T %v instead of its user data", name, m.id, data, data)
	if m.wild {
		t.Check(a.Ctype == m.a, "order", "%s of the wildcard handler of %d sees a shape of type %d first", name, m.a, a.Ctype)
	} else {
		t.Check(a.Ctype == m.a && b.Ctype == m.b, "order", "%s of the handler of %d %d sees types %d %d", name, m.a, m.b, a.Ctype, b.Ctype)
	}
	x, y := arb.Bodies()
	t.Check(x == a.B.B && y == b.B.B, "bodies-order", "%s of h%d: bodies in another order than shapes", name, m.id)
	if kind != 3 {
		set := arb.ContactPointSet()
		t.Check(set.Count > 0 && arb.Normal() == set.Normal, "normal", "%s of h%d: Normal %s, contact set %+v", name, m.id, fv(arb.Normal()), set)
		ra, rb := rsOf(a.S), rsOf(b.S)
		there, back := -sepAlong(ra, rb, set.Normal), -sepAlong(ra, rb, vmul(set.Normal, -1))
		// a circle centred on a segment is pushed either way
		on := false
		if len(ra.P)*len(rb.P) == 2 {
			gap := coreShapeDist(ra, rb)
			on = math.Abs(gap) <= 1e-6*(1+ra.scale()+rb.scale())
		}
		t.Check(on || there <= 3*back+1e-6*(1+ra.scale()+rb.scale()), "normal-order", "%s of h%d s%d-s%d: the normal %s points the wrong way (depth %g this way, %g the other)", name, m.id, a.ID, b.ID, fv(set.Normal), there, back)
		for i := 0; i < set.Count; i++ {
			p := set.Points[i]
			tol := 1e-6 * (1 + ra.scale() + rb.scale())
			d := vdot(vsub(p.PointB, p.PointA), set.Normal)
			t.Check(math.Abs(d-p.Distance) <= tol && p.Distance <= tol, "normal-order", "%s of h%d s%d-s%d: normal %s, points %+v", name, m.id, a.ID, b.ID, fv(set.Normal), p)
		}
	}
	ret := true
	if kind < 2 && d.r.P(d.pNo) {
		ret = false
		t.Ev("refusals")
	}
	d.log = append(d.log, dcall{m, kind, key(a.ID, b.ID), a.ID, b.ID, ret})
	t.Ev("callbacks")
	if d.r.P(0.05) {
		d.lookAt([]*cp.Body{x, y}[d.r.Intn(2)])
		sc, sd := arb.Shapes()
		t.Check(sc == sa && sd == sb, "order", "%s of h%d: visiting the arbiters of a body changed the order of the shapes", name, m.id)
	}
	if m.wild {
		t.Ev("wildcard_callbacks")
	} else if m.calls[kind] {
		t.Ev("explicit_wildcards")
		wa, wb := true, true
		switch kind {
		case 0:
			wa, wb = arb.CallWildcardBeginA(sp), arb.CallWildcardBeginB(sp)
		case 1:
			wa, wb = arb.CallWildcardPreSolveA(sp), arb.CallWildcardPreSolveB(sp)
		case 2:
			arb.CallWildcardPostSolveA(sp)
			arb.CallWildcardPostSolveB(sp)
		case 3:
			arb.CallWildcardSeparateA(sp)
			arb.CallWildcardSeparateB(sp)
		}
		// what the wildcards said must be what comes back
		okA, okB := true, true
		for _, c := range d.log {
			if c.h.wild && c.kind == kind && c.k == key(a.ID, b.ID) && !c.ret {
				if c.x == a.ID {
					okA = false
				} else {
					okB = false
				}
			}
		}
		if kind < 2 {
			t.Check(wa == okA && wb == okB, "wildcard-result", "%s of h%d: the wildcards answered %v %v, the helpers returned %v %v", name, m.id, okA, okB, wa, wb)
		}
		sc, sd := arb.Shapes()
		t.Check(sc == sa && sd == sb, "order", "%s of h%d: calling the wildcards changed the order of the shapes", name, m.id)
		ret = ret && wa && wb
	}
	return ret
}

// lookAt visits the arbiters of a body, which shows them from the body's side and then has to leave them as they were.
func (d *dispatch) lookAt(b *cp.Body) {
	b.EachArbiter(func(arb *cp.Arbiter) {
		x, y := arb.Bodies()
		d.t.Check(x == b && y != b, "each-arbiter-order", "EachArbiter of a body shows an arbiter that has it second")
		sx, sy := arb.Shapes()
		d.t.Check(sx.Body() == b && sy.Body() == y, "each-arbiter-order", "EachArbiter of a body shows an arbiter with its shapes in another order")
		d.t.Ev("arbiters_visited")
	})
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judge compares the calls of a step, or of calls between steps, with what the model expects.
func (d *dispatch) judge(step bool, removed *WShape) {
	t, w := d.t, d.w
	type pk struct {
		k    pairKey
		kind int
	}
	got := map[pk][]int{}
	no := map[pk]bool{}
	orders := map[[4]int]int{}
	for _, c := range d.log {
		q := pk{c.k, c.kind}
		got[q] = append(got[q], c.h.id)
		no[q] = no[q] || !c.ret
		o := [4]int{c.h.id, c.kind, c.x, c.y}
		orders[o]++
		t.Check(orders[o] == 1, "called-twice", "h%d got %c of s%d-s%d twice in the same order", c.h.id, kinds[c.kind], c.x, c.y)
	}
	byID := map[int]*WShape{}
	for _, s := range d.w.Shapes {
		byID[s.ID] = s
	}
	for q, l := range got {
		sort.Ints(l)
		a, b := byID[q.k.a], byID[q.k.b]
		t.Check(a != nil && b != nil && (step || q.kind == 3), "removed-shape", "%c of s%d-s%d between steps or after one was removed", kinds[q.kind], q.k.a, q.k.b)
		want := d.expected(q.kind, a.Ctype, b.Ctype)
		if q.kind == 3 {
			e := d.eps[q.k]
			t.Check(same(l, want) || (e != nil && same(l, e.sep)), "dispatch", "separate of s%d(type %d)-s%d(type %d) went to handlers %v, expected %v", a.ID, a.Ctype, b.ID, b.Ctype, l, want)
		} else {
			t.Check(same(l, want), "dispatch", "%c of s%d(type %d)-s%d(type %d) went to handlers %v, expected %v", kinds[q.kind], a.ID, a.Ctype, b.ID, b.Ctype, l, want)
		}
		t.Ev("dispatches")
	}
	if !step {
		for _, o := range w.Shapes {
			k := key(o.ID, removed.ID)
			if e := d.eps[k]; e != nil && e.active && !e.unknown {
				t.Check(len(e.sep) == 0 || len(got[pk{k, 3}]) > 0, "missing", "s%d was removed: no handler was told that s%d-s%d ended, expected %v", removed.ID, k.a, k.b, e.sep)
				t.Ev("removed_in_contact")
				delete(d.eps, k)
			}
		}
		return
	}
	for i, a := range w.Shapes {
		for _, b := range w.Shapes[i+1:] {
			if a.B == b.B || (a.B.Typ == cp.BODY_STATIC && b.B.Typ == cp.BODY_STATIC) {
				continue
			}
			k := key(a.ID, b.ID)
			e := d.eps[k]
			if e == nil {
				e = &depisode{}
				d.eps[k] = e
			}
			truth := 1
			if mayCollide(a, b) {
				truth = pairTruth(rsOf(a.S), rsOf(b.S))
			}
			g := func(kind int) []int { return got[pk{k, kind}] }
			want := func(kind int) []int { return d.expected(kind, a.Ctype, b.Ctype) }
			if truth == 0 {
				if len(g(0))+len(g(1)) > 0 {
					truth = -1
				} else if len(g(3)) > 0 {
					truth = 1
				}
			}
			switch truth {
			case 1:
				if e.active && !e.unknown {
					t.Check(len(want(3)) == 0 || len(g(3)) > 0 || len(e.sep) == 0, "missing", "s%d-s%d separated, expected handlers %v", a.ID, b.ID, want(3))
				}
				*e = depisode{}
			case 0:
				e.unknown = true
			case -1:
				if e.unknown {
					e.active, e.unknown, e.ignored = true, false, no[pk{k, 0}]
					if len(g(0)) == 0 && len(g(1)) == 0 && len(want(1)) > 0 {
						e.unknown = true
						continue
					}
				} else if !e.active {
					t.Check(same(g(0), want(0)), "missing", "s%d(type %d)-s%d(type %d) began to touch: begin ran for %v, expected %v", a.ID, a.Ctype, b.ID, b.Ctype, g(0), want(0))
					e.active, e.ignored = true, no[pk{k, 0}]
				} else {
					t.Check(len(g(0)) == 0, "begin-again", "s%d-s%d: begin during contact", a.ID, b.ID)
				}
				e.sep = want(3)
				if e.ignored {
					t.Ev("ignored_steps")
					t.Check(len(g(1))+len(g(2)) == 0, "not-ignored", "s%d-s%d: a begin callback said no, yet pre-solve or post-solve ran", a.ID, b.ID)
					continue
				}
				t.Check(same(g(1), want(1)), "missing", "s%d(type %d)-s%d(type %d) touch: pre-solve ran for %v, expected %v", a.ID, a.Ctype, b.ID, b.Ctype, g(1), want(1))
				solved := !no[pk{k, 1}] && !a.Sensor && !b.Sensor && (a.B.Typ == cp.BODY_DYNAMIC || b.B.Typ == cp.BODY_DYNAMIC)
				if solved {
					t.Check(same(g(2), want(2)), "missing", "s%d(type %d)-s%d(type %d) solved: post-solve ran for %v, expected %v", a.ID, a.Ctype, b.ID, b.Ctype, g(2), want(2))
				} else {
					t.Check(len(g(2)) == 0, "not-refused", "s%d-s%d: a pre-solve callback said no or the contact has no response, yet post-solve ran for %v", a.ID, b.ID, g(2))
				}
				t.Ev("touching_judged")
			}
		}
	}
}

func c05(t *T) {
	r := t.R
	c := genConf(r)
	c.Sleep, c.Handlers, c.NoCtypeChange, c.Types, c.Reshape = false, false, true, false, false
	c.Size, c.Arena = r.Range(1, 3), r.Range(4, 14)
	c.Ctypes = 1 + r.Intn(5)
	for _, v := range r.Perm(10)[:c.Ctypes] {
		c.CtypeVals = append(c.CtypeVals, []cp.CollisionType{0, 1, 2, 3, 7, 100, 1 << 20, 1 << 31, 1<<40 + 1, cp.WILDCARD_COLLISION_TYPE - 1}[v])
	}
	many := 0
	if r.P(0.03) { // so many that the table of handlers grows several times
		have := map[cp.CollisionType]bool{}
		for _, v := range c.CtypeVals {
			have[v] = true
		}
		for len(c.CtypeVals) < 30 {
			v := cp.CollisionType(r.Intn(1 << 10))
			if r.P(0.3) {
				v = cp.CollisionType(r.U64())
			}
			if !have[v] && v != cp.WILDCARD_COLLISION_TYPE {
				have[v] = true
				c.CtypeVals = append(c.CtypeVals, v)
			}
		}
		c.Ctypes, many = len(c.CtypeVals), 100+r.Intn(600)
		t.Ev("many_handlers")
	}
	d := &dispatch{t: t, r: newRand(t.Case, "dispatch"), pairs: map[[2]cp.CollisionType]*handlerModel{}, wilds: map[cp.CollisionType]*handlerModel{}, eps: map[pairKey]*depisode{}}
	d.vals = append([]cp.CollisionType{5, 9, 1 << 50}, c.CtypeVals...)
	d.vals = append(d.vals, c.CtypeVals...)
	d.pNo = r.Pick(0, 0.05, 0.3)
	w := newWorld(t, r, c)
	d.w = w
	var gone *WShape
	w.OnRemove = func(s *WShape) {
		if s != nil {
			gone = s
			d.log = d.log[:0]
			return
		}
		d.judge(false, gone)
		d.log = d.log[:0]
	}
	for n := many + r.Intn(12); n > 0; n-- {
		d.register()
	}
	n := 25 + r.Intn(20)
	for i := 0; i < n; i++ {
		if r.P(0.1) {
			for k := r.Intn(8); k > 0; k-- {
				d.register()
			}
		}
		if d.r.P(0.5) {
			for _, b := range w.Bodies {
				if d.r.P(0.5) {
					d.lookAt(b.B)
				}
			}
		}
		w.ops()
		d.log = d.log[:0]
		w.step(w.dt())
		d.judge(true, nil)
	}
	if t.ev["callbacks"] > 0 {
		t.NonTrivial(t.Case, t.ev["callbacks"])
	}
	t.Sample("%d pair handlers, %d wildcard handlers, %d callbacks", len(d.pairs), len(d.wilds), t.ev["callbacks"])
}

func init() {
	register(&Prop{
		ID:        "C05",
		Technique: "runtime monitoring: recorded handler calls against a model of what was registered, with independent geometry deciding which pairs must be reported",
		Rule:      "a case counts when at least one handler was called",
		Assumptions: []string{"a wildcard handler of a type is called once per order for two shapes of that type",
			"a separate may go to the handlers that were registered when the shapes last touched"},
		Loads: []Load{
			{"histories", 10000, 40000, c05},
		},
		Need: map[string]int64{"callbacks": 100000, "wildcard_callbacks": 30000, "explicit_wildcards": 10000, "registered_again": 2000,
			"refusals": 2000, "ignored_steps": 2000, "touching_judged": 50000, "arbiters_visited": 50000},
	})
}
