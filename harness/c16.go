package main

import (
	"fmt"

	"github.com/jakecoffman/cp/v2"
)

// postEntry is one accepted post-step callback.
type postEntry struct {
	id    int
	key   interface{}
	data  *int
	ran   int
	depth int
	isNil bool
}

// postMonitor models the queue of post-step callbacks of one space.
type postMonitor struct {
	t     *T
	w     *World
	r     *Rand
	queue []*postEntry // accepted since the last flush ended
	done  int          // of queue
	keys  map[interface{}]bool
	n     int
	pAdd  float64
	outer int // nesting of steps and queries made by the monitor
	flush bool
	step  bool // inside Sp.Step, before its callbacks
	ops   bool // inside a call between steps
	added int
}

type postKey struct{ a, b int }

func (m *postMonitor) key() interface{} {
	r := m.r
	switch r.Intn(7) {
	case 6: // equal to none of the others, however they print
		switch k := r.Intn(4); r.Intn(5) {
		case 0:
			return int64(k)
		case 1:
			return float64(k)
		case 2:
			return fmt.Sprint(k)
		case 3:
			return fmt.Sprint(postKey{k / 2, k % 2})
		default:
			return V{X: float64(k)}
		}
	case 0:
		return nil
	case 1:
		return r.Intn(4)
	case 2:
		return fmt.Sprint("key", r.Intn(4))
	case 3:
		return postKey{r.Intn(2), r.Intn(2)}
	case 4:
		if len(m.w.Bodies) > 0 {
			return m.w.Bodies[r.Intn(len(m.w.Bodies))].B
		}
	}
	if len(m.w.Shapes) > 0 {
		return m.w.Shapes[r.Intn(len(m.w.Shapes))].S
	}
	return nil
}

// add registers callbacks from wherever the program is.
func (m *postMonitor) add(where string, depth int) {
	for k := 1 + m.r.Intn(2); k > 0; k-- {
		m.addOne(where, depth)
	}
}

func (m *postMonitor) addOne(where string, depth int) {
	t, sp := m.t, m.w.Sp
	m.n++
	e := &postEntry{id: m.n, key: m.key(), data: new(int), depth: depth, isNil: m.r.P(0.05)}
	var f cp.PostStepCallbackFunc
	if !e.isNil {
		f = func(s *cp.Space, key, data interface{}) { m.run(e, s, key, data) }
	}
	want := e.key == nil || !m.keys[e.key]
	if e.key != nil {
		t.Check((sp.PostStepCallback(e.key) == nil) == want, "lookup", "PostStepCallback(%v) says %v", e.key, sp.PostStepCallback(e.key) != nil)
	}
	got := sp.AddPostStepCallback(f, e.key, e.data)
	t.Check(got == want, "refusal", "AddPostStepCallback with key %v from %s answers %v (callback %d)", e.key, where, got, e.id)
	if m.w.Trace {
		t.Logf("    add %d from %s key %v: %v", e.id, where, e.key, got)
	}
	if !got {
		t.Ev("refused")
		return
	}
	t.Ev("added_from_" + where)
	m.added++
	m.queue = append(m.queue, e)
	if e.key != nil {
		m.keys[e.key] = true
	}
}

// sim notes that something of the simulation is running.
func (m *postMonitor) sim(what string) {
	if m.step {
		m.t.Check(!m.flush, "early", "%s is called after post-step callbacks of the same step began", what)
	}
	if m.r.P(m.pAdd) && m.added < 200 {
		m.add(what, 0)
	}
}

func (m *postMonitor) run(e *postEntry, s *cp.Space, key, data interface{}) {
	t, w := m.t, m.w
	t.Ev("ran")
	t.Logf("    run %d", e.id)
	t.Check(s == w.Sp && key == e.key && data == interface{}(e.data), "arguments", "callback %d gets other arguments than were given", e.id)
	e.ran++
	t.Check(e.ran == 1, "twice", "callback %d runs a second time", e.id)
	for m.done < len(m.queue) && m.queue[m.done].isNil {
		m.done++
	}
	t.Check(m.done < len(m.queue) && m.queue[m.done] == e, "order", "callback %d runs before earlier ones, or was not accepted", e.id)
	m.done++
	if m.outer > 1 && m.step {
		t.Failf("locked", "callback %d runs inside a query made during a step", e.id)
	}
	t.Check(m.outer <= 1, "locked", "callback %d runs before the outermost step or query has ended", e.id)
	m.flush = true
	if e.depth < 4 && m.r.P(0.25) {
		m.add("callback", e.depth+1)
	}
	if e.depth < 4 && m.r.P(0.15) {
		t.Ev("query_from_callback")
		// not the outermost: what it asks for has to wait
		queue := m.done
		m.query(true)
		t.Check(m.done == queue, "locked", "a query made by a post-step callback runs other callbacks")
	}
	if !m.ops && m.r.P(0.7) {
		// Everything may be changed now.
		n := 1 + m.r.Intn(2)
		for i := 0; i < n; i++ {
			if name := w.op(); name != "" {
				t.Ev("mutations_in_callback")
			}
		}
		if m.r.P(0.3) {
			contents(t, w, "inside a post-step callback", nil)
		}
	}
}

// ended checks that nothing is left once the outermost step or query has returned.
func (m *postMonitor) ended(what string) {
	t := m.t
	for m.done < len(m.queue) && m.queue[m.done].isNil {
		m.done++
	}
	if m.done < len(m.queue) {
		e := m.queue[m.done]
		t.Failf("lost", "callback %d (added by callbacks nested %d deep) has not run when %s returned", e.id, e.depth, what)
	}
	if m.flush {
		t.Ev("flushes")
		if m.done > 1 {
			t.Ev("flushes_of_several")
		}
	}
	for k := range m.keys {
		t.Check(m.w.Sp.PostStepCallback(k) == nil, "stale-key", "key %v is still taken after %s", k, what)
	}
	m.queue, m.done, m.keys, m.flush = m.queue[:0], 0, map[interface{}]bool{}, false
}

// query makes a query or an iteration whose callbacks register post-step callbacks. Nested ones have to leave the
// queue alone.
func (m *postMonitor) query(nested bool) {
	sp, r, t := m.w.Sp, m.r, m.t
	m.outer++
	a, b := m.w.spot(r), m.w.spot(r)
	calls := 0
	in := func(what string) {
		calls++
		if m.r.P(0.4) && m.added < 200 {
			m.add(what, 4)
		}
	}
	name := ""
	switch r.Intn(6) {
	case 0:
		name = "bb-query"
		sp.BBQuery(cp.NewBBForCircle(a, m.w.C.Arena), cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { in(name) }, nil)
	case 1:
		name = "segment-query"
		sp.SegmentQuery(a, b, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, V, V, float64, interface{}) { in(name) }, nil)
	case 2:
		name = "each-body"
		sp.EachBody(func(*cp.Body) { in(name) })
	case 3:
		name = "each-shape"
		sp.EachShape(func(*cp.Shape) { in(name) })
	case 4:
		name = "each-constraint"
		sp.EachConstraint(func(*cp.Constraint) { in(name) })
	case 5:
		name = "shape-query"
		body := cp.NewKinematicBody()
		body.SetPosition(a)
		s := cp.NewCircle(body, m.w.C.Arena/2, V{})
		s.CacheBB()
		sp.ShapeQuery(s, func(*cp.Shape, *cp.ContactPointSet) { in(name) })
	}
	m.outer--
	if !nested && m.outer == 0 {
		t.Ev("outermost_queries")
		m.ended(name)
	}
}

func (m *postMonitor) doStep(dt float64) {
	m.step = true
	m.outer++
	m.w.step(dt)
	m.outer--
	m.step = false
	m.ended("Step")
}

func c16(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Degenerate = false
	w := newWorld(t, r, conf)
	m := &postMonitor{t: t, w: w, r: newRand(t.Seed, "c16", t.Case), keys: map[interface{}]bool{}, pAdd: r.Pick(0.005, 0.03, 0.1)}
	rq := newRand(t.Seed, "c16q", t.Case)
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		if m.step {
			if !m.flush { // removing things in a post-step callback separates them
				m.sim("collision-" + string(kind))
				if rq.P(0.01) {
					t.Ev("query_from_collision")
					m.query(true)
				}
			} else {
				t.Check(kind == 's', "early", "collision callback %c after post-step callbacks of the same step began", kind)
				if rq.P(0.1) {
					m.add("separate-in-callback", 4)
				}
			}
		} else {
			m.sim("removal")
		}
		return true
	}
	w.OnRemove = func(s *WShape) {
		// Removing a shape counts as an outermost operation when it is done between steps.
		if s == nil && m.outer == 0 {
			m.ended("RemoveShape")
		}
	}
	custom := map[*cp.Body]bool{}
	attach := func() {
		for _, b := range w.Bodies {
			if !custom[b.B] {
				custom[b.B] = true
				if r.P(0.3) {
					b.B.SetVelocityUpdateFunc(func(b *cp.Body, g V, d, dt float64) {
						m.sim("velocity-function")
						cp.BodyUpdateVelocity(b, g, d, dt)
					})
				}
				if r.P(0.3) {
					b.B.SetPositionUpdateFunc(func(b *cp.Body, dt float64) {
						m.sim("position-function")
						cp.BodyUpdatePosition(b, dt)
					})
				}
			}
		}
		for _, c := range w.Cons {
			if c.C.PreSolve == nil {
				c.C.PreSolve = func(*cp.Constraint, *cp.Space) { m.sim("constraint-pre-solve") }
				c.C.PostSolve = func(*cp.Constraint, *cp.Space) { m.sim("constraint-post-solve") }
			}
		}
	}
	steps := 10 + r.Intn(40)
	for i := 0; i < steps; i++ {
		m.ops = true
		w.ops()
		m.ops = false
		attach()
		if r.P(0.2) {
			m.add("outside", 0)
		}
		if r.P(0.3) {
			m.outerQuery()
		}
		m.doStep(w.dt())
		if r.P(0.1) {
			contents(t, w, "after a step with post-step callbacks", nil)
		}
		m.added = 0
	}
	if t.ev["ran"] > 5 {
		t.NonTrivial(m.n, w.Steps)
	}
	t.Sample("%s, %d callbacks", w.describe(), m.n)
}

// c16many: hundreds of callbacks, and chains of callbacks that add one another.
func c16many(t *T) {
	r := t.R
	sp := cp.NewSpace()
	a, b := sp.AddBody(cp.NewBody(1, 1)), sp.AddBody(cp.NewBody(1, 1))
	sp.AddShape(cp.NewCircle(a, 1, V{}))
	sp.AddShape(cp.NewCircle(b, 1, V{}))
	b.SetPosition(V{X: 0.5})
	var want, got []int
	taken := map[interface{}]bool{}
	keys, n := 1+r.Intn(1500), 0
	limit := 100 + r.Intn(2000)
	pChain := r.Pick(0, 0.5, 0.99)
	var add func()
	add = func() {
		if n++; n > 3*limit {
			return
		}
		id := n
		var key interface{}
		if r.P(0.7) {
			key = r.Intn(keys)
			if r.P(0.2) {
				key = postKey{r.Intn(40), r.Intn(40)}
			}
		}
		free := key == nil || !taken[key]
		if key != nil {
			t.Check((sp.PostStepCallback(key) == nil) == free, "lookup", "with %d callbacks waiting PostStepCallback(%v) says %v", len(want)-len(got), key, !free)
		}
		ok := sp.AddPostStepCallback(func(s *cp.Space, k, data interface{}) {
			t.Check(s == sp && k == key && data == interface{}(id), "arguments", "callback %d gets other arguments", id)
			got = append(got, id)
			if r.P(pChain) {
				add()
			}
		}, key, id)
		t.Check(ok == free, "refusal", "with %d callbacks waiting AddPostStepCallback with key %v answers %v", len(want)-len(got), key, ok)
		if ok {
			want = append(want, id)
			if key != nil {
				taken[key] = true
			}
		} else {
			t.Ev("refused")
		}
	}
	for round := 0; round < 2; round++ {
		n, want, got, taken = 0, nil, nil, map[interface{}]bool{}
		h := sp.NewCollisionHandler(0, 0)
		early := 0
		h.PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool {
			for early = 0; early < limit/2; early++ {
				add()
			}
			return true
		}
		h.PostSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) {
			t.Check(len(got) == 0, "early", "a callback ran before the step was over")
			for n < limit {
				add()
			}
		}
		b.SetPosition(vadd(a.Position(), V{X: 0.5}))
		sp.Step(1.0 / 60)
		t.Check(len(got) == len(want), "lost", "%d of %d callbacks have run when the step returned", len(got), len(want))
		for i := range want {
			t.Check(got[i] == want[i], "order", "callback %d runs as number %d, expected %d", got[i], i, want[i])
		}
		for k := range taken {
			t.Check(sp.PostStepCallback(k) == nil, "stale-key", "key %v is still taken after the step", k)
		}
		t.EvN("ran_of_many", len(got))
	}
	t.NonTrivial(limit, len(want))
}

func (m *postMonitor) outerQuery() { m.query(false) }

func init() {
	register(&Prop{ID: "C16", Technique: "runtime monitoring: queue model of post-step callbacks registered from every kind of callback, with space mutations inside",
		Rule:  "at least 6 post-step callbacks ran in the history",
		Loads: []Load{{"histories", 16000, 60000, c16}, {"many", 200, 3000, c16many}},
		Need: map[string]int64{"ran": 5000, "refused": 500, "added_from_callback": 500, "added_from_removal": 20, "added_from_outside": 200,
			"query_from_collision": 50, "query_from_callback": 200, "mutations_in_callback": 2000, "outermost_queries": 200},
	})
}
