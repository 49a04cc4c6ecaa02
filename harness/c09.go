package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

type restState struct {
	p, v, cog V
	a, w      float64
	bbs       []cp.BB
}

func restOf(b *WBody) restState {
	s := restState{p: b.B.Position(), v: b.B.Velocity(), cog: b.B.CenterOfGravity(), a: b.B.Angle(), w: b.B.AngularVelocity()}
	for _, x := range b.Shapes {
		s.bbs = append(s.bbs, x.S.BB())
	}
	return s
}

func (s restState) equal(o restState) bool {
	if s.p != o.p || s.v != o.v || s.cog != o.cog || s.a != o.a || s.w != o.w || len(s.bbs) != len(o.bbs) {
		return false
	}
	for i := range s.bbs {
		if s.bbs[i] != o.bbs[i] {
			return false
		}
	}
	return true
}

// sleepMonitor judges when bodies fall asleep and wake.
type sleepMonitor struct {
	t       *T
	w       *World
	idle    map[*WBody]float64 // never less than the library counts: time below the threshold, since the body was last known to be disturbed
	low     map[*WBody]float64 // the same, never more than the library counts
	quiet   float64            // time since anything happened that could have reset an idle time
	island  map[*WBody][]*WBody
	asleep  map[*WBody]bool
	contact map[pairKey][2]*WShape // contacts accepted in this step
}

func newSleepMonitor(t *T, w *World) *sleepMonitor {
	m := &sleepMonitor{t: t, w: w, idle: map[*WBody]float64{}, low: map[*WBody]float64{}, island: map[*WBody][]*WBody{}, asleep: map[*WBody]bool{}}
	w.OnEv = func(kind byte, arb *cp.Arbiter, _ *cp.CollisionHandler) bool {
		x, y := arb.Shapes()
		a, b := x.UserData.(*WShape), y.UserData.(*WShape)
		if kind == 'p' && !a.Sensor && !b.Sensor {
			m.contact[key(a.ID, b.ID)] = [2]*WShape{a, b}
		}
		return true
	}
	return m
}

func (m *sleepMonitor) disturbed() { m.quiet = 0 }

// wakes checks that islands wake as a whole; it runs after every call and every step.
func (m *sleepMonitor) wakes(when string) {
	t := m.t
	for b, was := range m.asleep {
		if !was {
			continue
		}
		if !b.In || b.Typ != cp.BODY_DYNAMIC || !b.B.IsSleeping() {
			m.disturbed()
			t.Ev("woken")
			for _, o := range m.island[b] {
				if o.In {
					t.Check(!o.B.IsSleeping(), "island-split", "after %s: b%d woke but b%d of its island still sleeps", when, b.ID, o.ID)
					m.asleep[o] = false
					m.idle[o], m.low[o] = 0, 0
				}
			}
			m.asleep[b] = false
			m.idle[b], m.low[b] = 0, 0
		}
	}
	if when == "a step" {
		return
	}
	for _, b := range m.w.Bodies {
		t.Check(!b.B.IsSleeping() || m.asleep[b], "asleep-between-steps", "after %s: b%d fell asleep outside a step", when, b.ID)
	}
}

func (m *sleepMonitor) step(dt float64) {
	t, w := m.t, m.w
	type kin struct{ ke, m float64 }
	pre := map[*WBody]kin{}
	rest := map[*WBody]restState{}
	for _, b := range w.Bodies {
		v, o := b.B.Velocity(), b.B.AngularVelocity()
		ke := b.B.Mass() * vdot(v, v)
		if o*o != 0 {
			ke += b.B.Moment() * o * o
		}
		pre[b] = kin{ke, b.B.Mass()}
		if b.B.IsSleeping() {
			rest[b] = restOf(b)
		}
	}
	m.contact = map[pairKey][2]*WShape{}
	w.step(dt)
	th, dv := w.Sp.SleepTimeThreshold, w.Sp.IdleSpeedThreshold
	lim := dv * dv
	if dv == 0 {
		g := w.Sp.Gravity()
		lim = vdot(g, g) * dt * dt
	}
	// contact graph of this step
	adj := map[*WBody][]*WBody{}
	link := func(a, b *WBody) {
		adj[a] = append(adj[a], b)
		adj[b] = append(adj[b], a)
	}
	for _, c := range m.contact {
		link(c[0].B, c[1].B)
	}
	for _, c := range w.Cons {
		link(c.A, c.B)
	}
	woke := false
	for _, b := range w.Bodies {
		if m.asleep[b] {
			if b.B.IsSleeping() {
				t.Check(rest[b].equal(restOf(b)), "sleeper-moved", "b%d changed while asleep: %+v to %+v", b.ID, rest[b], restOf(b))
				t.Ev("sleeping_steps")
				for _, o := range adj[b] { // what touches it now was not there when it fell asleep, or is asleep too
					t.Check(o.Typ == cp.BODY_STATIC || o.B.IsSleeping(), "asleep-touched", "b%d sleeps although b%d (type %d), awake, touches or is joined to it", b.ID, o.ID, o.Typ)
				}
				continue
			}
			woke = true
		}
		if b.Typ != cp.BODY_DYNAMIC {
			continue
		}
		k := pre[b]
		if k.ke > k.m*lim*(1+1e-9) {
			m.idle[b] = 0
		} else {
			m.idle[b] += dt
		}
		if k.ke > k.m*lim*(1-1e-9) && k.ke > 0 {
			m.low[b] = 0
		} else {
			m.low[b] += dt
		}
	}
	m.wakes("a step")
	m.quiet += dt
	if woke {
		m.quiet = 0
	}
	// islands of awake and newly sleeping bodies
	seen := map[*WBody]bool{}
	for _, root := range w.Bodies {
		if root.Typ != cp.BODY_DYNAMIC || seen[root] || m.asleep[root] {
			continue
		}
		var comp []*WBody
		kinematic := false
		stack := []*WBody{root}
		seen[root] = true
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			comp = append(comp, b)
			for _, o := range adj[b] {
				kinematic = kinematic || o.Typ == cp.BODY_KINEMATIC
				if o.Typ == cp.BODY_DYNAMIC && !seen[o] {
					seen[o] = true
					stack = append(stack, o)
				}
			}
		}
		t.Ev("islands")
		idle, low, n := math.Inf(1), math.Inf(1), 0
		for _, b := range comp {
			idle, low = math.Min(idle, m.idle[b]), math.Min(low, m.low[b])
			if b.B.IsSleeping() {
				n++
			}
		}
		if len(comp) > 1 {
			t.Ev("islands_of_several")
		}
		t.Check(n == 0 || n == len(comp), "island-split", "%d of %d bodies of an island fell asleep (b%d ...)", n, len(comp), root.ID)
		if n > 0 {
			t.Check(idle >= th-1e-9, "asleep-too-early", "the island of b%d fell asleep although it was idle for %g only, threshold %g", root.ID, idle, th)
			t.Check(!kinematic, "asleep-on-kinematic", "the island of b%d fell asleep although it touches or is joined to a kinematic body", root.ID)
			t.Ev("fell_asleep")
			if len(comp) > 1 {
				t.Ev("fell_asleep_together")
			}
			for _, b := range comp {
				m.asleep[b] = true
				m.island[b] = comp
			}
		} else {
			if kinematic {
				for _, b := range comp {
					m.low[b] = 0
				}
				t.Ev("held_awake_by_kinematic")
			} else if low >= th+2*dt && m.quiet >= th+3*dt {
				t.Failf("insomnia", "the island of b%d (%d bodies) has been idle for %g, threshold %g, and nothing happened for %g, yet it does not sleep", root.ID, len(comp), low, th, m.quiet)
			}
		}
	}
}

func c09(t *T) {
	r := t.R
	c := genConf(r)
	c.Sleep, c.QuietBias = true, r.Pick(0.4, 0.8)
	c.PSensor, c.PKin = r.Pick(0, 0.1), r.Pick(0, 0, 0.1)
	if r.P(0.5) {
		c.Speed = r.LogRange(0.1, 5)
	}
	c.Elasticity = 0
	w := newWorld(t, r, c)
	m := newSleepMonitor(t, w)
	n := 60 + r.Intn(60)
	for i := 0; i < n; i++ {
		q := w.quiet > 0
		w.hook = func(op string) { m.disturbed(); m.wakes(op) }
		w.ops()
		if !q || w.quiet == 0 {
			m.disturbed()
			m.wakes("calls between steps")
		}
		// brought-back bodies are a disturbance too
		if w.broughtBack {
			w.broughtBack = false
			m.disturbed()
			m.wakes("SetPosition")
		}
		m.step(w.dt())
	}
	if t.ev["fell_asleep"] > 0 {
		t.NonTrivial(t.Case, t.ev["fell_asleep"])
	}
	t.Sample("%s: %d islands fell asleep, %d bodies woken", w.describe(), t.ev["fell_asleep"], t.ev["woken"])
}

// nap is a scene of several separate islands at rest: stacks on static ground, chains of joints, lone floating bodies.
type nap struct {
	t       *T
	r       *Rand
	sp      *cp.Space
	bodies  [][]*cp.Body
	shapes  [][]*cp.Shape
	cons    [][]*cp.Constraint
	ground  []*cp.Shape
	gbody   []*cp.Body
	gravity bool
}

func newNap(t *T) *nap {
	r := t.R
	n := &nap{t: t, r: r, sp: cp.NewSpace(), gravity: r.P(0.5)}
	sp := n.sp
	if r.P(0.4) {
		sp.UseSpatialHash(r.LogRange(1, 5), 10+r.Intn(200))
	}
	if n.gravity {
		sp.SetGravity(V{Y: -r.Range(5, 50)})
	}
	sp.Iterations = 20
	sp.SleepTimeThreshold = r.Pick(0.1, 0.3)
	sp.IdleSpeedThreshold = r.Pick(1, 3)
	k := 2 + r.Intn(3)
	for i := 0; i < k; i++ {
		x0 := float64(i) * 40
		var gb *cp.Body
		at := V{X: x0}
		if r.P(0.5) {
			gb = cp.NewStaticBody()
			gb.SetPosition(at)
			sp.AddBody(gb)
			at = V{}
		} else {
			gb = sp.StaticBody
		}
		switch r.Intn(3) {
		case 0:
			n.ground = append(n.ground, sp.AddShape(cp.NewBox2(gb, cp.BB{L: at.X - 15, B: -1, R: at.X + 15, T: 1}, 0)))
		default:
			n.ground = append(n.ground, sp.AddShape(cp.NewSegment(gb, vadd(at, V{X: -15}), vadd(at, V{X: 15}), 1)))
		}
		n.ground[i].SetFriction(0.7)
		n.gbody = append(n.gbody, gb)
		m := 1 + r.Intn(4)
		var bs []*cp.Body
		var ss []*cp.Shape
		var cs []*cp.Constraint
		y := 1.0
		for j := 0; j < m; j++ {
			h := r.Range(0.5, 1)
			b := cp.NewBody(r.Range(0.5, 3), r.Range(1, 4))
			y += h - 0.02
			b.SetPosition(V{X: x0 + r.Range(-0.05, 0.05), Y: y})
			y += h
			sp.AddBody(b)
			var s *cp.Shape
			switch {
			case m == 1 && r.P(0.5):
				s = sp.AddShape(cp.NewCircle(b, h, V{}))
			case m == 1 && r.P(0.5):
				s = sp.AddShape(cp.NewSegment(b, V{X: -1}, V{X: 1}, h))
			default:
				s = sp.AddShape(cp.NewBox(b, 2, 2*h, 0))
			}
			s.SetFriction(0.7)
			if r.P(0.3) {
				s.SetMass(b.Mass())
			}
			bs, ss = append(bs, b), append(ss, s)
		}
		for j := 1; j < m; j++ {
			if r.P(0.5) {
				kind := allJoints[r.Intn(len(allJoints)-1)]
				if kind == "ratchet" || kind == "gear" {
					kind = "limit"
				}
				c := makeJoint(r, kind, bs[j-1], bs[j], 0.3)
				sp.AddConstraint(c)
				cs = append(cs, c)
			}
		}
		if r.P(0.3) {
			c := cp.NewRotaryLimitJoint(sp.StaticBody, bs[0], -1, 1)
			if r.P(0.5) {
				c = cp.NewRotaryLimitJoint(bs[0], gb, -1, 1)
			}
			sp.AddConstraint(c)
			cs = append(cs, c)
		}
		n.bodies, n.shapes, n.cons = append(n.bodies, bs), append(n.shapes, ss), append(n.cons, cs)
	}
	return n
}

// rest steps until everything sleeps.
func (n *nap) rest() bool {
	for i := 0; i < 400; i++ {
		all := true
		for _, bs := range n.bodies {
			for _, b := range bs {
				if b.GetType() == cp.BODY_DYNAMIC && !b.IsSleeping() {
					all = false
				}
			}
		}
		if all {
			return true
		}
		n.sp.Step(1.0 / 60)
	}
	return false
}

func (n *nap) awake(i int) (awake, asleep int) {
	for _, b := range n.bodies[i] {
		if b.IsSleeping() {
			asleep++
		} else {
			awake++
		}
	}
	return
}

var wakers = []struct {
	name string
	f    func(n *nap, i int) bool // false: not applicable
}{
	{"SetPosition", func(n *nap, i int) bool { b := n.body(i); b.SetPosition(b.Position()); return true }},
	{"SetAngle", func(n *nap, i int) bool { b := n.body(i); b.SetAngle(b.Angle()); return true }},
	{"SetVelocity", func(n *nap, i int) bool { n.body(i).SetVelocity(0, n.r.Pick(0, 0.1)); return true }},
	{"SetVelocityVector", func(n *nap, i int) bool { n.body(i).SetVelocityVector(V{}); return true }},
	{"SetAngularVelocity", func(n *nap, i int) bool { n.body(i).SetAngularVelocity(0); return true }},
	{"SetForce", func(n *nap, i int) bool { n.body(i).SetForce(V{X: n.r.Pick(0, 1)}); return true }},
	{"SetTorque", func(n *nap, i int) bool { n.body(i).SetTorque(n.r.Pick(0, 1)); return true }},
	{"SetMass", func(n *nap, i int) bool { b := n.body(i); b.SetMass(n.r.Pick(b.Mass(), 2)); return true }},
	{"SetMoment", func(n *nap, i int) bool { b := n.body(i); b.SetMoment(n.r.Pick(b.Moment(), 2)); return true }},
	{"ApplyForceAtWorldPoint", func(n *nap, i int) bool { b := n.body(i); b.ApplyForceAtWorldPoint(V{X: n.r.Pick(0, 1)}, b.Position()); return true }},
	{"ApplyForceAtLocalPoint", func(n *nap, i int) bool { n.body(i).ApplyForceAtLocalPoint(V{X: n.r.Pick(0, 1)}, V{X: 1}); return true }},
	{"ApplyImpulseAtWorldPoint", func(n *nap, i int) bool {
		b := n.body(i)
		b.ApplyImpulseAtWorldPoint(V{X: n.r.Pick(0, 0.1)}, b.Position())
		return true
	}},
	{"ApplyImpulseAtLocalPoint", func(n *nap, i int) bool { n.body(i).ApplyImpulseAtLocalPoint(V{X: n.r.Pick(0, 0.1)}, V{}); return true }},
	{"Activate", func(n *nap, i int) bool { n.body(i).Activate(); return true }},
	{"SetType kinematic", func(n *nap, i int) bool { n.body(i).SetType(cp.BODY_KINEMATIC); return true }},
	{"SetType static", func(n *nap, i int) bool { n.body(i).SetType(cp.BODY_STATIC); return true }},
	{"AddShape", func(n *nap, i int) bool { n.sp.AddShape(cp.NewCircle(n.body(i), 0.2, V{})); return true }},
	{"RemoveShape", func(n *nap, i int) bool {
		j := n.r.Intn(len(n.shapes[i]))
		n.sp.RemoveShape(n.shapes[i][j])
		return true
	}},
	{"RemoveBody", func(n *nap, i int) bool {
		if len(n.cons[i]) > 0 {
			return false
		}
		j := n.r.Intn(len(n.shapes[i]))
		n.sp.RemoveShape(n.shapes[i][j])
		n.sp.RemoveBody(n.bodies[i][j])
		return true
	}},
	{"SetFriction", func(n *nap, i int) bool { n.shape(i).SetFriction(n.r.Pick(0, 0.1, 0.7)); return true }},
	{"SetElasticity", func(n *nap, i int) bool { n.shape(i).SetElasticity(n.r.Pick(0, 0.1)); return true }},
	{"SetSurfaceV", func(n *nap, i int) bool { n.shape(i).SetSurfaceV(V{X: n.r.Pick(0, 1)}); return true }},
	{"SetSensor", func(n *nap, i int) bool { n.shape(i).SetSensor(n.r.P(0.5)); return true }},
	{"SetFilter", func(n *nap, i int) bool {
		s := n.shape(i)
		f := s.Filter
		switch n.r.Intn(5) {
		case 0:
			f = cp.SHAPE_FILTER_NONE
		case 1:
			f.Group = 7
		case 2:
			f.Mask = 5
		case 3:
			f.Categories = 5
		}
		s.SetFilter(f)
		return true
	}},
	{"SetCollisionType", func(n *nap, i int) bool { n.shape(i).SetCollisionType(cp.CollisionType(3 * n.r.Intn(2))); return true }},
	{"SetMass of a shape", func(n *nap, i int) bool {
		s := n.shape(i)
		m := 2.0
		if s.Mass() > 0 && n.r.P(0.5) {
			m = s.Mass()
		}
		s.SetMass(m)
		return true
	}},
	{"SetDensity of a shape", func(n *nap, i int) bool {
		s := n.shape(i)
		d := 2.0
		if s.Mass() > 0 && n.r.P(0.5) {
			d = s.Density()
		}
		s.SetDensity(d)
		return true
	}},
	{"SetMaxForce", func(n *nap, i int) bool { c := n.con(i); return c != nil && ok(func() { c.SetMaxForce(n.r.Pick(0, 1e6, c.MaxForce())) }) }},
	{"SetMaxBias", func(n *nap, i int) bool { c := n.con(i); return c != nil && ok(func() { c.SetMaxBias(n.r.Pick(0, 1e6, c.MaxBias())) }) }},
	{"SetErrorBias", func(n *nap, i int) bool { c := n.con(i); return c != nil && ok(func() { c.SetErrorBias(n.r.Pick(0, 0.1, c.ErrorBias())) }) }},
	{"SetCollideBodies", func(n *nap, i int) bool { c := n.con(i); return c != nil && ok(func() { c.SetCollideBodies(n.r.P(0.5)) }) }},
	{"RemoveConstraint", func(n *nap, i int) bool { c := n.con(i); return c != nil && ok(func() { n.sp.RemoveConstraint(c) }) }},
	{"AddConstraint to static", func(n *nap, i int) bool {
		b := n.body(i)
		if n.r.P(0.5) {
			n.sp.AddConstraint(cp.NewPivotJoint(n.sp.StaticBody, b, b.Position()))
		} else {
			n.sp.AddConstraint(cp.NewPivotJoint(b, n.sp.StaticBody, b.Position()))
		}
		return true
	}},
	{"RemoveShape of the support", func(n *nap, i int) bool {
		if !n.gravity {
			return false
		}
		n.sp.RemoveShape(n.ground[i])
		return true
	}},
	{"ActivateStatic of the support", func(n *nap, i int) bool {
		if !n.gravity {
			return false
		}
		n.gbody[i].ActivateStatic([]*cp.Shape{nil, n.ground[i]}[n.r.Intn(2)])
		return n.gbody[i] != n.sp.StaticBody
	}},
	{"SetType of the support", func(n *nap, i int) bool {
		if !n.gravity || n.gbody[i] == n.sp.StaticBody {
			return false
		}
		n.gbody[i].SetType(cp.BODY_KINEMATIC)
		return true
	}},
	{"collision", func(n *nap, i int) bool {
		j := n.r.Intn(len(n.shapes[i]))
		b := cp.NewBody(1, 1)
		if n.r.P(0.3) {
			b = cp.NewKinematicBody()
		}
		b.SetPosition(vadd(n.bodies[i][j].Position(), V{X: n.r.Range(-1, 1)}))
		n.sp.AddBody(b)
		n.sp.AddShape(cp.NewCircle(b, 0.5, V{}))
		n.sp.Step(1.0 / 60)
		return true
	}},
	{"joint to an awake body", func(n *nap, i int) bool {
		b, o := cp.NewBody(1, 1), n.body(i)
		n.sp.AddBody(b)
		b.SetPosition(V{X: -300})
		if n.r.P(0.5) {
			b, o = o, b
		}
		n.sp.AddConstraint(cp.NewSlideJoint(b, o, V{}, V{}, 0, 1e6))
		return true
	}},
}

func ok(f func()) bool { f(); return true }

func (n *nap) body(i int) *cp.Body   { return n.bodies[i][n.r.Intn(len(n.bodies[i]))] }
func (n *nap) shape(i int) *cp.Shape { return n.shapes[i][n.r.Intn(len(n.shapes[i]))] }
func (n *nap) con(i int) *cp.Constraint {
	if len(n.cons[i]) == 0 {
		return nil
	}
	return n.cons[i][n.r.Intn(len(n.cons[i]))]
}

// whole reports whether the bodies of island i are connected, so that waking one has to wake all.
func (n *nap) whole(i int) bool {
	idx := map[*cp.Body]int{}
	for j, b := range n.bodies[i] {
		idx[b] = j
	}
	g := make([]int, len(n.bodies[i]))
	for j := range g {
		g[j] = j
	}
	var find func(x int) int
	find = func(x int) int {
		if g[x] != x {
			g[x] = find(g[x])
		}
		return g[x]
	}
	for j, b := range n.bodies[i] {
		b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Bodies()
			if k, in := idx[x]; in {
				g[find(k)] = find(j)
			}
			if k, in := idx[y]; in {
				g[find(k)] = find(j)
			}
		})
		b.EachConstraint(func(c *cp.Constraint) {
			for k, o := range n.bodies[i] {
				linked := false
				o.EachConstraint(func(d *cp.Constraint) { linked = linked || c == d })
				if linked {
					g[find(k)] = find(j)
				}
			}
		})
	}
	for j := range g {
		if find(j) != find(0) {
			return false
		}
	}
	return true
}

func c09wake(t *T) {
	for round := 0; round < 3; round++ {
		n := newNap(t)
		if !n.rest() {
			t.Ev("restless")
			continue
		}
		i := t.R.Intn(len(n.bodies))
		if !n.whole(i) {
			t.Ev("not_one_island")
			continue
		}
		if t.R.P(0.12) {
			g := n.sp.Gravity()
			switch {
			case t.R.P(0.5):
				g = V{X: t.R.Range(-1, 1), Y: -3}
			case g == V{}:
				g = V{Y: 1e-3}
			default: // as strong as before
				g = []V{{X: g.Y}, {Y: -g.Y}, {X: -g.Y}}[t.R.Intn(3)]
			}
			n.sp.SetGravity(g)
			for k := range n.bodies {
				_, as := n.awake(k)
				t.Check(as == 0, "gravity", "SetGravity left %d of %d bodies of island %d of %d asleep", as, len(n.bodies[k]), k, len(n.bodies))
			}
			t.Ev("wake_SetGravity")
			t.NonTrivial(t.Case, round, "gravity")
			continue
		}
		w := wakers[(t.Case*3+round)%len(wakers)]
		if !w.f(n, i) {
			t.Ev("not_applicable")
			continue
		}
		_, as := n.awake(i)
		t.Check(as == 0, "still-asleep", "%s left %d of %d bodies of the island asleep", w.name, as, len(n.bodies[i]))
		for k := range n.bodies {
			if k != i {
				aw, _ := n.awake(k)
				t.Check(aw == 0, "woke-others", "%s on island %d woke %d bodies of island %d", w.name, i, aw, k)
			}
		}
		t.Ev("wake_" + w.name)
		t.NonTrivial(t.Case, round, w.name)
		for k := 0; k < 20; k++ {
			n.sp.Step(1.0 / 60)
		}
	}
}

// disturbers act on one awake body each, given as its number in the island.
var disturbers = []struct {
	name string
	f    func(n *nap, i, j int)
}{
	{"RemoveShape", func(n *nap, i, j int) { n.sp.RemoveShape(n.shapes[i][j]) }},
	{"RemoveBody", func(n *nap, i, j int) {
		var cs []*cp.Constraint
		n.bodies[i][j].EachConstraint(func(c *cp.Constraint) { cs = append(cs, c) })
		for _, c := range cs {
			n.sp.RemoveConstraint(c)
		}
		n.sp.RemoveShape(n.shapes[i][j])
		n.sp.RemoveBody(n.bodies[i][j])
	}},
	{"SetPosition", func(n *nap, i, j int) { n.bodies[i][j].SetPosition(V{X: -500}) }},
	{"SetAngle", func(n *nap, i, j int) { n.bodies[i][j].SetAngle(0.1) }},
	{"SetVelocity", func(n *nap, i, j int) { n.bodies[i][j].SetVelocity(0, 0.01) }},
	{"ApplyImpulse", func(n *nap, i, j int) { n.bodies[i][j].ApplyImpulseAtLocalPoint(V{X: 0.01}, V{}) }},
	{"ApplyForce", func(n *nap, i, j int) { n.bodies[i][j].ApplyForceAtLocalPoint(V{X: 0.01}, V{}) }},
	{"SetMass", func(n *nap, i, j int) { n.bodies[i][j].SetMass(2) }},
	{"Activate", func(n *nap, i, j int) { n.bodies[i][j].Activate() }},
	{"SetSensor", func(n *nap, i, j int) { n.shapes[i][j].SetSensor(true) }},
	{"SetFilter", func(n *nap, i, j int) { n.shapes[i][j].SetFilter(cp.SHAPE_FILTER_NONE) }},
	{"SetFriction", func(n *nap, i, j int) { n.shapes[i][j].SetFriction(0.01) }},
	{"SetType static", func(n *nap, i, j int) { n.bodies[i][j].SetType(cp.BODY_STATIC) }},
	{"SetTorque", func(n *nap, i, j int) { n.bodies[i][j].SetTorque(0.01) }},
	{"AddConstraint", func(n *nap, i, j int) {
		b := n.bodies[i][j]
		if n.r.P(0.5) {
			n.sp.AddConstraint(cp.NewPivotJoint(n.sp.StaticBody, b, b.Position()))
		} else {
			n.sp.AddConstraint(cp.NewPivotJoint(b, n.sp.StaticBody, b.Position()))
		}
	}},
}

// lockable disturbers may be called from callbacks.
var lockable = map[string]bool{"SetPosition": true, "SetAngle": true, "SetVelocity": true, "ApplyImpulse": true, "ApplyForce": true, "SetMass": true, "Activate": true, "SetFriction": true, "SetTorque": true}

// conDisturbers act on a joint.
var conDisturbers = []struct {
	name string
	f    func(n *nap, c *cp.Constraint)
}{
	{"RemoveConstraint", func(n *nap, c *cp.Constraint) { n.sp.RemoveConstraint(c) }},
	{"SetMaxForce", func(n *nap, c *cp.Constraint) { c.SetMaxForce(0) }},
	{"SetMaxBias", func(n *nap, c *cp.Constraint) { c.SetMaxBias(0) }},
	{"SetErrorBias", func(n *nap, c *cp.Constraint) { c.SetErrorBias(0.1) }},
	{"SetCollideBodies", func(n *nap, c *cp.Constraint) { c.SetCollideBodies(false) }},
}

// c09disturb: just before an island would fall asleep one of its bodies, or what it stands on, is disturbed.
// Everything that touches it has to be idle for the whole time again, so that nothing is left hanging in the air.
func c09disturb(t *T) {
	saved := *t.R
	n := newNap(t)
	i := t.R.Intn(len(n.bodies))
	steps := 0
	asleep := func(n *nap) bool { _, as := n.awake(i); return as > 0 }
	for ; steps < 400 && !asleep(n); steps++ {
		n.sp.Step(1.0 / 60)
	}
	if steps == 400 {
		t.Ev("restless")
		return
	}
	*t.R = saved
	n = newNap(t)
	i = t.R.Intn(len(n.bodies))
	back := 1 + t.R.Intn(4)
	for k := 0; k < steps-back; k++ {
		n.sp.Step(1.0 / 60)
	}
	if asleep(n) {
		t.Failf("irreproducible", "an island fell asleep after %d steps, but earlier when the same scene was built again", steps)
	}
	d := disturbers[t.Case%len(disturbers)]
	j := t.R.Intn(len(n.bodies[i]))
	was := map[*cp.Body]bool{n.bodies[i][j]: true}
	name := d.name
	ground := n.gravity && t.R.P(0.15)
	touching := func(b *cp.Body) {
		b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Bodies()
			was[x], was[y] = true, true
		})
	}
	joint := n.con(i)
	if joint != nil && !ground && t.R.P(0.5) {
		was = map[*cp.Body]bool{}
		for _, b := range n.bodies[i] {
			b.EachConstraint(func(c *cp.Constraint) {
				if c == joint {
					was[b] = true
				}
			})
		}
		var direct []*cp.Body
		for _, b := range n.bodies[i] {
			if was[b] {
				direct = append(direct, b)
			}
		}
		for _, b := range direct {
			touching(b)
		}
		cd := conDisturbers[t.R.Intn(len(conDisturbers))]
		name = cd.name
		cd.f(n, joint)
		t.Ev("disturb_joint_" + name)
	} else if ground {
		was = map[*cp.Body]bool{}
		var direct []*cp.Body
		for _, b := range n.bodies[i] {
			b.EachArbiter(func(arb *cp.Arbiter) {
				x, y := arb.Shapes()
				if x == n.ground[i] || y == n.ground[i] {
					was[b] = true
				}
			})
		}
		for _, b := range n.bodies[i] {
			if was[b] {
				direct = append(direct, b)
			}
		}
		for _, b := range direct {
			touching(b)
		}
		if t.R.P(0.5) {
			name = "RemoveShape of the support"
			n.sp.RemoveShape(n.ground[i])
		} else {
			name = "ActivateStatic of the support"
			n.gbody[i].ActivateStatic(n.ground[i])
		}
	} else {
		touching(n.bodies[i][j])
		if lockable[name] && t.R.P(0.4) {
			done := false
			once := func() {
				if !done {
					done = true
					d.f(n, i, j)
				}
			}
			switch t.R.Intn(3) {
			case 0:
				n.sp.EachShape(func(*cp.Shape) { once() })
			case 1:
				n.sp.EachBody(func(*cp.Body) { once() })
			case 2:
				n.sp.BBQuery(n.shapes[i][j].BB(), cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { once() }, nil)
			}
			t.Ev("disturbed_in_callback")
		} else {
			d.f(n, i, j)
		}
	}
	th := n.sp.SleepTimeThreshold
	for k := 1; float64(k)/60 < th-1e-9; k++ {
		n.sp.Step(1.0 / 60)
		for b := range was {
			t.Check(!b.IsSleeping(), "asleep-too-early", "a body that touched what %s disturbed (its velocity is %s now) fell asleep %g after, threshold %g", name, fv(b.Velocity()), float64(k)/60, th)
		}
		t.Ev("disturbed_steps")
	}
	if len(was) > 1 {
		t.Ev("disturbed_neighbours")
	}
	t.Ev("disturb_" + d.name)
	t.NonTrivial(t.Case, name)
	t.Sample("%s %d steps before the island of %d would have slept", name, back, len(n.bodies[i]))
}

// c09linked: bodies that float apart, connected by joints alone. A joint that is added, changed or removed just before
// they would fall asleep restarts the idle time of both its bodies.
func c09linked(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.SleepTimeThreshold = r.Pick(0.1, 0.3, 0.5)
	sp.IdleSpeedThreshold = r.Pick(0.5, 2)
	dt := 1.0 / r.Pick(60, 30, 100)
	n := 2 + r.Intn(4)
	var bs []*cp.Body
	for i := 0; i < n; i++ {
		b := sp.AddBody(cp.NewBody(r.Range(0.5, 3), r.Range(0.5, 3)))
		b.SetPosition(V{X: float64(i) * 8})
		sp.AddShape(genShape(r, shapeGen{size: 2, sharp: true, maxVerts: 6}).build(b))
		bs = append(bs, b)
	}
	link := func(i, j int) *cp.Constraint {
		a, b := bs[i], bs[j]
		if r.P(0.5) {
			a, b = b, a
		}
		mid := bs[i].Position().Lerp(bs[j].Position(), r.Range(0, 1))
		switch r.Intn(5) {
		case 0:
			return cp.NewPivotJoint(a, b, mid)
		case 1:
			return cp.NewPinJoint(a, b, V{}, V{})
		case 2:
			return cp.NewSlideJoint(a, b, V{}, V{}, 0.1, 1e3)
		case 3:
			return cp.NewGearJoint(a, b, 0, 1)
		}
		return cp.NewRotaryLimitJoint(a, b, -1, 1)
	}
	var cons []*cp.Constraint
	for i := 1; i < n; i++ {
		if r.P(0.8) {
			cons = append(cons, sp.AddConstraint(link(i-1, i)))
		}
	}
	// the step after which a body at rest that has been idle since step 0 falls asleep
	full := 0
	for x := 0.0; x < sp.SleepTimeThreshold; full++ {
		x += dt
	}
	back := 1 + r.Intn(3)
	for k := 0; k < full-back; k++ {
		sp.Step(dt)
	}
	for _, b := range bs {
		t.Check(!b.IsSleeping(), "asleep-too-early", "a body floating at rest fell asleep within %d steps of %g, threshold %g", full-back, dt, sp.SleepTimeThreshold)
	}
	was := map[*cp.Body]bool{}
	name := ""
	act := func() {}
	if len(cons) == 0 || t.Case%6 == 0 {
		i := r.Intn(n - 1)
		c := link(i, i+1)
		name = "AddConstraint"
		act = func() { sp.AddConstraint(c) }
		was[bs[i]], was[bs[i+1]] = true, true
	} else {
		k := r.Intn(len(cons))
		c := cons[k]
		for _, b := range bs {
			b.EachConstraint(func(x *cp.Constraint) {
				if x == c {
					was[b] = true
				}
			})
		}
		d := conDisturbers[(t.Case/6)%len(conDisturbers)]
		name = d.name
		act = func() { d.f(&nap{sp: sp}, c) }
		if name == "RemoveConstraint" {
			cons = append(cons[:k:k], cons[k+1:]...)
		}
	}
	act()
	if len(was) != 2 {
		t.Failf("joint-bodies", "%d bodies list the joint", len(was))
	}
	for k := 1; k <= full+2; k++ {
		sp.Step(dt)
		if k < full-1 {
			for b := range was {
				t.Check(!b.IsSleeping(), "asleep-too-early", "a body whose joint was changed by %s fell asleep %d steps later, %d needed", name, k, full)
			}
			t.Ev("linked_steps")
		}
	}
	for i, b := range bs {
		t.Check(b.IsSleeping(), "still-awake", "body %d of %d, floating at rest, is awake %d steps after %s, %d needed", i, n, full+2, name, full)
	}
	t.Ev("linked_" + name)
	t.NonTrivial(t.Case, name)
}

// c09support: several islands sleep against, or jointed to, one static body. Whatever may set them moving wakes all of
// those it concerns, and nothing else.
func c09support(t *T) {
	r := t.R
	sp := cp.NewSpace()
	if r.P(0.4) {
		sp.UseSpatialHash(r.LogRange(1, 5), 10+r.Intn(200))
	}
	sp.SleepTimeThreshold = 0.1
	sp.IdleSpeedThreshold = 2
	sp.Iterations = 20
	g := r.Pick(0, 10)
	sp.SetGravity(V{Y: -g})
	base := cp.NewStaticBody()
	sp.AddBody(base)
	type guest struct {
		b      *cp.Body
		s      *cp.Shape
		joints []*cp.Constraint
	}
	var guests []*guest
	n := 2 + r.Intn(5)
	late := r.P(0.5)
	var plates []*cp.Shape
	plate := func(x float64) *cp.Shape {
		var s *cp.Shape
		switch r.Intn(3) {
		case 0:
			s = cp.NewCircle(base, 1.5, V{X: x})
		case 1:
			s = cp.NewBox2(base, cp.BB{L: x - 2, B: -0.5, R: x + 2, T: 1.5}, 0)
		default:
			s = cp.NewSegment(base, V{X: x - 2, Y: 1}, V{X: x + 2, Y: 1}, 0.5)
		}
		return sp.AddShape(s)
	}
	for i := 0; i < n; i++ {
		x := float64(i) * 10
		if !late {
			plates = append(plates, plate(x))
		}
		q := &guest{b: sp.AddBody(cp.NewBody(r.Range(0.5, 3), r.Range(1, 4)))}
		switch r.Intn(3) {
		case 0:
			q.s = cp.NewCircle(q.b, 1, V{})
		case 1:
			q.s = cp.NewBox(q.b, 2, 2, 0)
		default:
			q.s = cp.NewSegment(q.b, V{X: -1}, V{X: 1}, 1)
		}
		sp.AddShape(q.s)
		q.s.SetFriction(1)
		q.b.SetPosition(V{X: x, Y: 2.49})
		guests = append(guests, q)
		if late {
			plates = append(plates, plate(x))
		}
	}
	jointed := 0
	for i, q := range guests {
		plates[i].SetFriction(1)
		hangs := r.P(0.5) // on its joints alone
		for r.P(0.5) && len(q.joints) < 3 {
			anchor := base.WorldToLocal(q.b.Position())
			var c *cp.Constraint
			if r.P(0.5) {
				c = cp.NewPivotJoint2(base, q.b, anchor, V{})
			} else {
				c = cp.NewPivotJoint2(q.b, base, V{}, anchor)
			}
			c.SetCollideBodies(!hangs)
			sp.AddConstraint(c)
			q.joints = append(q.joints, c)
			jointed++
		}
	}
	asleep := func(q *guest) bool { return q.b.IsSleeping() }
	for i := 0; i < 200; i++ {
		sp.Step(1.0 / 60)
	}
	rest := 0
	touches := map[*guest]bool{}
	for i, q := range guests {
		if asleep(q) {
			rest++
		}
		q.b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			if x == plates[i] || y == plates[i] {
				touches[q] = true
			}
		})
	}
	if rest < 2 {
		t.Ev("restless")
		return
	}
	before := map[*guest]bool{}
	for _, q := range guests {
		before[q] = asleep(q)
	}
	k := r.Intn(n)
	q := guests[k]
	name, concerned := "", func(o *guest) bool { return o == q }
	switch op := t.Case % 8; op {
	case 0, 1, 2:
		typ := []int{cp.BODY_KINEMATIC, cp.BODY_DYNAMIC, cp.BODY_DYNAMIC}[op]
		name = "SetType of the support"
		base.SetType(typ)
		if typ == cp.BODY_DYNAMIC {
			base.SetMass(1)
			base.SetMoment(1)
		}
		concerned = func(o *guest) bool { return touches[o] || len(o.joints) > 0 }
	case 3:
		name = "RemoveShape of the support"
		if !touches[q] {
			return
		}
		sp.RemoveShape(plates[k])
	case 4:
		name = "ActivateStatic"
		base.ActivateStatic(nil)
		concerned = func(o *guest) bool { return touches[o] }
	case 5:
		name = "ActivateStatic of one shape"
		base.ActivateStatic(plates[k])
		concerned = func(o *guest) bool { return o == q && touches[o] }
	case 6:
		if len(q.joints) == 0 {
			return
		}
		name = "RemoveConstraint"
		sp.RemoveConstraint(q.joints[r.Intn(len(q.joints))])
	case 7:
		name = "AddConstraint"
		sp.AddConstraint(cp.NewRotaryLimitJoint(q.b, base, -1, 1))
	}
	for i, o := range guests {
		if concerned(o) {
			t.Check(!asleep(o), "still-asleep", "%s left body %d of %d asleep (touching it %v, %d joints to it)", name, i, n, touches[o], len(o.joints))
			if before[o] {
				t.Ev("support_woken")
				if !touches[o] {
					t.Ev("support_woken_by_joint")
				}
			}
		} else if before[o] {
			t.Check(asleep(o), "woke-others", "%s, which concerns body %d, woke body %d", name, k, i)
			t.Ev("support_left_alone")
		}
	}
	t.Ev("support_" + name)
	if jointed > 1 {
		t.Ev("support_jointed")
	}
	t.NonTrivial(t.Case, name)
}

// c09many: islands of up to 120 bodies, held together by joints or contacts, which a single turning body keeps awake for
// a long time. They fall asleep and wake up as one.
func c09many(t *T) {
	r := t.R
	sp := cp.NewSpace()
	if r.P(0.4) {
		sp.UseSpatialHash(r.LogRange(1, 5), 10+r.Intn(500))
	}
	sp.SleepTimeThreshold = r.Pick(0.2, 0.5, 2)
	sp.IdleSpeedThreshold = r.Pick(0.5, 2)
	sp.SetCollisionSlop(0.2)
	dt := 1.0 / r.Pick(60, 30, 10)
	type member struct {
		b     *cp.Body
		calls int
	}
	type island struct {
		ms    []*member
		joint []*cp.Constraint
		calls []int
		kind  string
		spin  *cp.Body
	}
	follow := func(is *island, b *cp.Body) *member {
		m := &member{b: b}
		b.SetVelocityUpdateFunc(func(body *cp.Body, g V, damping, dt float64) {
			m.calls++
			cp.BodyUpdateVelocity(body, g, damping, dt)
		})
		is.ms = append(is.ms, m)
		return m
	}
	link := func(is *island, a, b *cp.Body) {
		var c *cp.Constraint
		switch r.Intn(3) {
		case 0:
			c = cp.NewPivotJoint(a, b, b.Position())
		case 1:
			c = cp.NewPinJoint(a, b, V{}, V{})
		default:
			c = cp.NewSlideJoint(a, b, V{}, V{}, 0, 1e4)
		}
		k := len(is.calls)
		is.calls = append(is.calls, 0)
		c.PreSolve = func(*cp.Constraint, *cp.Space) { is.calls[k]++ }
		is.joint = append(is.joint, sp.AddConstraint(c))
	}
	var islands []*island
	nis := 1 + r.Intn(3)
	for q := 0; q < nis; q++ {
		is := &island{kind: []string{"tree", "path", "star", "grid"}[r.Intn(4)]}
		n := 2 + r.Intn(40)
		if r.P(0.3) {
			n = 40 + r.Intn(80)
		}
		cols := 1 + r.Intn(12)
		for i := 0; i < n; i++ {
			b := cp.NewBody(r.Range(0.5, 3), r.Range(0.5, 3))
			at := V{X: float64(q)*1000 + float64(i%12)*4, Y: float64(i/12) * 4}
			if is.kind == "grid" {
				at = V{X: float64(q)*1000 + float64(i%cols)*0.95, Y: float64(i/cols) * 0.95}
			}
			b.SetPosition(at)
			sp.AddBody(b)
			var s *cp.Shape
			if r.P(0.5) || is.kind == "grid" {
				s = cp.NewBox(b, 1, 1, 0)
			} else {
				s = cp.NewCircle(b, 0.5, V{})
			}
			sp.AddShape(s)
			follow(is, b)
			if i == 0 {
				continue
			}
			switch is.kind {
			case "tree":
				link(is, is.ms[r.Intn(i)].b, b)
			case "path":
				link(is, is.ms[i-1].b, b)
			case "star":
				if r.P(0.5) {
					link(is, is.ms[0].b, b)
				} else {
					link(is, b, is.ms[0].b)
				}
			}
		}
		if r.P(0.6) { // turns about its own centre, on an axle on one of the others
			b := sp.AddBody(cp.NewBody(1, 50))
			at := is.ms[r.Intn(len(is.ms))].b
			b.SetPosition(at.Position())
			b.SetAngularVelocity(5)
			c := cp.NewPivotJoint(at, b, at.Position())
			if r.P(0.5) {
				c = cp.NewPivotJoint(b, at, at.Position())
			}
			is.joint = append(is.joint, sp.AddConstraint(c))
			k := len(is.calls)
			is.calls = append(is.calls, 0)
			c.PreSolve = func(*cp.Constraint, *cp.Space) { is.calls[k]++ }
			follow(is, b)
			is.spin = b
		}
		islands = append(islands, is)
	}
	// two more bodies that are always awake, and whose joint can do things during the step
	x, y := sp.AddBody(cp.NewBody(1, 1)), sp.AddBody(cp.NewBody(1, 1))
	x.SetPosition(V{Y: -500})
	y.SetPosition(V{Y: -500})
	y.SetAngularVelocity(30)
	busy := sp.AddConstraint(cp.NewPivotJoint(x, y, V{Y: -500}))
	var during func()
	busy.PreSolve = func(*cp.Constraint, *cp.Space) {
		if during != nil {
			during()
			during = nil
		}
	}
	full := 0
	for z := 0.0; z < sp.SleepTimeThreshold; full++ {
		z += dt
	}
	ofAll := func(is *island, asleep bool, when string) {
		for i, m := range is.ms {
			t.Check(m.b.IsSleeping() == asleep, map[bool]string{true: "still-awake", false: "not-awake"}[asleep],
				"%s of %d bodies (turning body: %v), body %d: sleeping %v %s (threshold %g, steps of %g)", is.kind, len(is.ms), is.spin != nil, i, m.b.IsSleeping(), when, sp.SleepTimeThreshold, dt)
		}
		t.Ev("many_judged")
	}
	// step makes one step and looks at which bodies and joints took part in it.
	step := func(when string, awake map[*island]bool) {
		for _, is := range islands {
			for _, m := range is.ms {
				m.calls = 0
			}
			for i := range is.calls {
				is.calls[i] = 0
			}
		}
		sp.Step(dt)
		for _, is := range islands {
			want, known := awake[is]
			if !known {
				continue
			}
			n := 0
			if want {
				n = 1
			}
			for i, m := range is.ms {
				t.Check(m.calls == n, "took-part", "%s of %d: the velocity of body %d was updated %d times %s, want %d", is.kind, len(is.ms), i, m.calls, when, n)
			}
			for i, c := range is.calls {
				t.Check(c == n, "took-part", "%s of %d: joint %d was solved %d times %s, want %d", is.kind, len(is.ms), i, c, when, n)
			}
		}
	}
	for i := 0; i < full-1; i++ {
		sp.Step(dt)
		for _, is := range islands {
			for _, m := range is.ms {
				t.Check(!m.b.IsSleeping(), "asleep-too-early", "%s: asleep after %d of %d steps", is.kind, i+1, full)
			}
		}
	}
	for i := 0; i < 3; i++ {
		sp.Step(dt)
	}
	for i := r.Intn(300); i > 0; i-- {
		sp.Step(dt)
	}
	awake := map[*island]bool{}
	for _, is := range islands {
		ofAll(is, is.spin == nil, "long after the start")
		awake[is] = is.spin != nil
	}
	step("long after the start", awake)
	for _, is := range islands {
		if is.spin != nil {
			is.spin.SetAngularVelocity(0)
			t.Ev("many_held_awake")
		}
	}
	for i := 0; i < full-1; i++ {
		sp.Step(dt)
		for _, is := range islands {
			if is.spin != nil {
				ofAll(is, false, "right after its last movement")
			}
		}
	}
	for i := 0; i < 3; i++ {
		sp.Step(dt)
	}
	for _, is := range islands {
		ofAll(is, true, "after everything came to rest")
		awake[is] = false
	}
	step("asleep", awake)
	is := islands[r.Intn(len(islands))]
	m := is.ms[r.Intn(len(is.ms))].b
	wake := func() { m.Activate() }
	how := "Activate"
	switch r.Intn(3) {
	case 0:
		wake, how = func() { m.SetVelocity(0, 0) }, "SetVelocity"
	case 1:
		wake, how = func() { m.ApplyImpulseAtLocalPoint(V{}, V{}) }, "ApplyImpulse"
	}
	switch r.Intn(4) {
	case 0:
		wake()
	case 1:
		how += " in a query"
		sp.BBQuery(cp.NewBBForCircle(V{}, 1e6), cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { wake() }, nil)
	case 2:
		how += " in an iteration"
		sp.EachBody(func(*cp.Body) { wake() })
	default:
		how += " in a step"
		during = wake
		sp.Step(dt)
	}
	for _, o := range islands {
		ofAll(o, o != is, "after "+how)
		awake[o] = o == is
	}
	step("after "+how, awake)
	seen := map[*cp.Body]int{}
	sp.EachBody(func(b *cp.Body) { seen[b]++ })
	for _, o := range islands {
		for _, m := range o.ms {
			t.Check(seen[m.b] == 1, "listed", "after %s the space lists a body of an island of %d %d times", how, len(o.ms), seen[m.b])
		}
	}
	for i := 0; i < full+2; i++ {
		sp.Step(dt)
	}
	for _, o := range islands {
		ofAll(o, true, "long after "+how)
	}
	t.EvN("many_bodies", len(is.ms))
	t.Ev("many_" + is.kind)
	t.NonTrivial(t.Case, how, is.kind, len(is.ms))
}

func init() {
	need := map[string]int64{"fell_asleep": 5000, "fell_asleep_together": 1000, "woken": 2000, "held_awake_by_kinematic": 500, "sleeping_steps": 50000, "wake_SetGravity": 50}
	for _, w := range wakers {
		need["wake_"+w.name] = 10
	}
	for _, d := range disturbers {
		need["disturb_"+d.name] = 10
	}
	for _, d := range conDisturbers {
		need["disturb_joint_"+d.name] = 10
	}
	for _, d := range conDisturbers {
		need["linked_"+d.name] = 30
	}
	need["linked_AddConstraint"] = 50
	need["disturbed_neighbours"], need["disturbed_in_callback"] = 300, 100
	for _, k := range []string{"SetType of the support", "RemoveShape of the support", "ActivateStatic", "ActivateStatic of one shape", "RemoveConstraint", "AddConstraint"} {
		need["support_"+k] = 30
	}
	need["support_woken"], need["support_left_alone"] = 1000, 1000
	need["support_woken_by_joint"] = 100
	need["many_judged"], need["many_held_awake"], need["many_grid"], need["many_star"] = 3000, 100, 20, 20
	register(&Prop{
		ID:          "C09",
		Technique:   "runtime monitoring: an online checker that rebuilds islands and idle times from recorded contacts and joints, and directed wake-up experiments with every mutating call",
		Rule:        "a case counts when a body fell asleep, or was woken by a named call",
		Assumptions: []string{"a static support that is moved or whose shapes' properties change has to be activated by the caller, as documented"},
		Loads: []Load{
			{"histories", 6000, 25000, c09},
			{"wakers", 4800, 12000, c09wake},
			{"disturb", 6000, 15000, c09disturb},
			{"support", 4800, 12000, c09support},
			{"linked", 3200, 8000, c09linked},
			{"many", 240, 4000, c09many},
		},
		Need: need,
	})
}
