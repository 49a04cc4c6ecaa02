package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// contactImpulse is what an arbiter reported in post-solve.
type contactImpulse struct {
	x, y   *cp.Body // J acts on x, the opposite on y
	J      V
	set    cp.ContactPointSet
	sx, sy *cp.Shape
}

// impulseLog collects what the arbiters report, once for each pair of shapes.
type impulseLog struct{ list []contactImpulse }

func (l *impulseLog) add(t *T, arb *cp.Arbiter) {
	sx, sy := arb.Shapes()
	x, y := arb.Bodies()
	c := contactImpulse{x, y, arb.TotalImpulse(), arb.ContactPointSet(), sx, sy}
	for _, o := range l.list {
		if o.sx == sx && o.sy == sy {
			t.Check(vdist(o.J, c.J) <= 1e-12*vlen(c.J), "unstable-report", "an arbiter reports impulse %s, then %s", fv(o.J), fv(c.J))
			return
		}
		if o.sx == sy && o.sy == sx {
			t.Check(vdist(o.J, vmul(c.J, -1)) <= 1e-12*vlen(c.J), "unstable-report", "an arbiter reports impulse %s, swapped %s", fv(o.J), fv(c.J))
			return
		}
	}
	l.list = append(l.list, c)
}

// ledger records the velocities of bodies right after the velocity update, before the solver.
type ledger struct {
	v    map[*cp.Body]V
	w    map[*cp.Body]float64
	seen map[*cp.Body]bool
}

func newLedger() *ledger {
	return &ledger{seen: map[*cp.Body]bool{}}
}

func (l *ledger) reset() { l.v, l.w = map[*cp.Body]V{}, map[*cp.Body]float64{} }

func (l *ledger) watch(b *cp.Body) {
	if l.seen[b] {
		return
	}
	l.seen[b] = true
	b.SetVelocityUpdateFunc(func(body *cp.Body, g V, damp, dt float64) {
		cp.BodyUpdateVelocity(body, g, damp, dt)
		l.v[body], l.w[body] = body.Velocity(), body.AngularVelocity()
	})
}

// checkContactLedger: what each body gained in the solver is what its arbiters report.
func checkContactLedger(t *T, l *ledger, log *impulseLog, when string) {
	type sum struct {
		J      V
		mag    float64
		L      float64
		exact  bool
		lscale float64
		n      int
	}
	sums := map[*cp.Body]*sum{}
	get := func(b *cp.Body) *sum {
		if sums[b] == nil {
			sums[b] = &sum{exact: true}
		}
		return sums[b]
	}
	for _, c := range log.list {
		x, y := get(c.x), get(c.y)
		x.J, y.J = vadd(x.J, c.J), vsub(y.J, c.J)
		x.mag += vlen(c.J)
		y.mag += vlen(c.J)
		x.n++
		y.n++
		if c.set.Count == 1 {
			px, py := c.set.Points[0].PointA, c.set.Points[0].PointB
			x.L += vcross(vsub(px, worldCog(c.x)), c.J)
			y.L -= vcross(vsub(py, worldCog(c.y)), c.J)
		} else {
			x.exact, y.exact = false, false
		}
		for _, s := range []*sum{x, y} {
			s.lscale += vlen(c.J) * (1 + vlen(c.set.Points[0].PointA) + vlen(c.set.Points[0].PointB))
		}
	}
	// Large impulses may cancel on the way.
	speed, reach := 1.0, 1.0
	for b, v := range l.v {
		speed = math.Max(speed, math.Max(vlen(v), vlen(b.Velocity()))+math.Abs(l.w[b]))
		reach = math.Max(reach, vlen(b.Position()))
	}
	for b, v := range l.v {
		if b.GetType() != cp.BODY_DYNAMIC || b.Mass() > 1e300 {
			continue
		}
		s := get(b)
		m := motionOf(b, v, l.w[b])
		tol := 1e-9*(m.m*m.sv+s.mag) + 1e-12*m.m*speed
		t.Check(vdist(vmul(m.dv, m.m), s.J) <= tol, "momentum", "%s: body of mass %g went from %s to %s in the solver, a momentum of %s, but its %d arbiters report %s", when, m.m, fv(v), fv(b.Velocity()), fv(vmul(m.dv, m.m)), s.n, fv(s.J))
		if s.exact && m.i > 0 {
			t.Check(near(m.dw*m.i, s.L, 1e-9*(m.i*m.sw+s.lscale)+1e-12*(m.i+m.m*reach)*speed), "angular-momentum", "%s: body of moment %g went from %.17g to %.17g in the solver, but its %d one-point arbiters report %.17g", when, m.i, l.w[b], b.AngularVelocity(), s.n, s.L)
			if s.n > 0 {
				t.Ev("levers_checked")
			}
		}
		if s.n > 0 && !b.IsSleeping() {
			var J V
			b.EachArbiter(func(arb *cp.Arbiter) { J = vadd(J, arb.TotalImpulse()) })
			t.Check(vdist(J, s.J) <= 1e-9*s.mag+1e-12*m.m*speed, "each-arbiter-impulse", "%s: the arbiters of the body report %s to EachArbiter, %s to post-solve", when, fv(J), fv(s.J))
		}
		t.Ev("bodies_checked")
		if s.n > 0 && s.mag > 0 {
			t.Ev("bodies_hit_checked")
		}
		if s.n > 1 {
			t.Ev("bodies_multi_hit_checked")
		}
	}
}

// c12contacts: full scenes without joints.
func c12contacts(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints, conf.Handlers = false, true
	conf.Friction, conf.Elasticity = r.Pick(0, 0.5, 2), r.Pick(0, 0.5, 1)
	conf.Arena *= r.Pick(0.5, 1)
	w := newWorld(t, r, conf)
	log, led := &impulseLog{}, newLedger()
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		if kind == 'o' {
			log.add(t, arb)
			t.Ev("post_solves")
		}
		return true
	}
	for i, n := 0, 20+r.Intn(60); i < n; i++ {
		w.ops()
		if r.P(0.2) && len(w.Shapes) > 0 {
			w.Shapes[r.Intn(len(w.Shapes))].S.SetSurfaceV(w.vel())
		}
		for _, b := range w.Bodies {
			led.watch(b.B)
		}
		log.list = nil
		led.reset()
		w.step(w.dt())
		checkContactLedger(t, led, log, fmt.Sprintf("step %d", i))
	}
	t.NonTrivial(len(t.trace), len(w.Bodies))
	t.Sample("%s", w.describe())
}

// newtons is the momentum of bodies: linear and, about the origin, angular.
func newtons(bs []*cp.Body) (p V, l, mass float64, center V, scale float64) {
	for _, b := range bs {
		m := b.Mass()
		c := worldCog(b)
		p = vadd(p, vmul(b.Velocity(), m))
		l += vcross(c, vmul(b.Velocity(), m)) + b.Moment()*b.AngularVelocity()
		center = vadd(center, vmul(c, m))
		mass += m
		scale += m * vlen(b.Velocity())
	}
	return p, l, mass, vmul(center, 1/mass), scale
}

// c12pair: two bodies collide with nothing else around.
func c12pair(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(1 + r.Intn(20))
	size := r.LogRange(0.5, 20)
	e, u := r.Pick(0, 0.5, 1), r.Pick(0, 0, 0.5, 2)
	log, led := &impulseLog{}, newLedger()
	h := sp.NewWildcardCollisionHandler(0)
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { log.add(t, arb) }
	var bs []*cp.Body
	friction := 1.0
	for i := 0; i < 2; i++ {
		m := r.LogRange(0.1, 100)
		b := cp.NewBody(m, m*size*size*r.LogRange(0.05, 2))
		sp.AddBody(b)
		s := sp.AddShape(genShape(r, shapeGen{size: size, offset: r.Pick(0, 2), sharp: true, maxVerts: 7}).build(b))
		s.SetElasticity(e)
		s.SetFriction(u)
		friction *= u
		if r.P(0.3) {
			s.SetMass(m) // mass, moment and centre of gravity of the shape
			if b.Moment() < 1e-9*m*size*size {
				b.SetMoment(m * size * size)
			}
		}
		b.SetAngle(genAngle(r))
		b.SetPosition(V{X: (float64(i) - 0.5) * size * r.Range(0.5, 2.5), Y: r.Range(-0.3, 0.3) * size})
		b.SetVelocity((0.5-float64(i))*r.Range(0, 3)*size, r.Range(-1, 1)*size)
		b.SetAngularVelocity(r.Range(-2, 2))
		bs = append(bs, b)
		led.watch(b)
	}
	hits := 0
	for i := 0; i < 40; i++ {
		p0, l0, mass, c0, sc0 := newtons(bs)
		// the solver works at the positions of the end of the step
		log.list = nil
		led.reset()
		dt := r.Pick(1.0/60, 1.0/60, r.LogRange(0.003, 0.05))
		sp.Step(dt)
		checkContactLedger(t, led, log, "pair")
		p1, l1, _, c1, sc1 := newtons(bs)
		tol := 1e-9 * (sc0 + sc1)
		t.Check(vdist(p0, p1) <= tol, "total-momentum", "the momentum of two colliding bodies changes from %s to %s", fv(p0), fv(p1))
		want := vadd(c0, vmul(p0, dt/mass))
		t.Check(vdist(c1, want) <= 1e-9*(1+vlen(c0)+size+vlen(p0)*dt/mass), "center", "the common centre of two colliding bodies goes from %s to %s, want %s", fv(c0), fv(c1), fv(want))
		// angular momentum: l0 must be taken at the positions the solver saw
		if len(log.list) == 1 {
			hits++
			c := log.list[0]
			lb := 0.0
			for _, b := range bs {
				lb += vcross(worldCog(b), vmul(led.v[b], b.Mass())) + b.Moment()*led.w[b]
			}
			depth := 0.0
			for k := 0; k < c.set.Count; k++ {
				depth = math.Max(depth, math.Abs(c.set.Points[k].Distance))
			}
			// the two surface points of a contact are apart by its depth, along the normal
			n := c.set.Normal
			slack := depth * friction * math.Abs(vdot(c.J, n))
			scale := 0.0
			for _, b := range bs {
				scale += b.Mass()*(vlen(led.v[b])+vlen(b.Velocity()))*(1+vlen(worldCog(b))+size) + b.Moment()*(math.Abs(led.w[b])+math.Abs(b.AngularVelocity()))
			}
			t.Check(math.Abs(l1-lb) <= 1e-9*scale+slack*(1+1e-9), "total-angular-momentum", "the angular momentum of two colliding bodies changes from %.17g to %.17g (%d contacts, depth %g, friction %g, impulse %s)", lb, l1, c.set.Count, depth, friction, fv(c.J))
			if slack <= 1e-9*scale {
				t.Ev("angular_exact")
			}
			t.Ev("angular_checked")
		}
		_ = l0
		t.Ev("pair_steps")
	}
	t.NonTrivial(hits, u, e)
}

// c12joints: two bodies and one joint.
func c12joints(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(1 + r.Intn(20))
	size := r.LogRange(0.5, 10)
	mk := func() *cp.Body {
		switch {
		case r.P(0.1):
			b := cp.NewKinematicBody()
			sp.AddBody(b)
			return b
		case r.P(0.1):
			return sp.StaticBody
		}
		return loneBody(sp, r, size)
	}
	a, b := mk(), mk()
	for b.GetType() != cp.BODY_DYNAMIC && a.GetType() != cp.BODY_DYNAMIC {
		a, b = mk(), mk()
	}
	place := func(x *cp.Body) {
		x.SetPosition(V{X: r.Range(-2, 2) * size, Y: r.Range(-2, 2) * size})
		x.SetAngle(r.Range(-4, 4))
		if x.GetType() != cp.BODY_STATIC {
			x.SetVelocity(r.Range(-3, 3)*size, r.Range(-3, 3)*size)
			x.SetAngularVelocity(r.Range(-3, 3))
		}
	}
	place(a)
	place(b)
	kind := append(linearJoints, angularJoints...)[r.Intn(10)]
	j := genJSpec(r, kind, a, b, size)
	if r.P(0.4) {
		j.MaxF = r.LogRange(1, 1e4)
	}
	if r.P(0.3) {
		j.MaxB = r.LogRange(0.1, 10)
	}
	c := j.build(a, b)
	sp.AddConstraint(c)
	total := 0.0
	for i := 0; i < 25; i++ {
		if r.P(0.15) {
			place(a)
			place(b)
		}
		va, wa, vb, wb := a.Velocity(), a.AngularVelocity(), b.Velocity(), b.AngularVelocity()
		sp.Step(r.Pick(1.0/60, 1.0/60, 1.0/60, r.LogRange(0.003, 0.05)))
		J, jw := jointLedger(t, j, a, b, motionOf(a, va, wa), motionOf(b, vb, wb), c.Class.GetImpulse(), fmt.Sprintf("step %d", i))
		total += vlen(J) + math.Abs(jw)
		t.Ev("joint_steps")
	}
	if total > 0 {
		t.Ev("joints_that_acted")
	}
	t.NonTrivial(kind, total > 0)
	t.Sample("%s", j)
}

// c12group: a closed group with joints and contacts keeps its momentum, and its centre goes straight on.
func c12group(t *T) {
	r := t.R
	conf := genConf(r)
	conf.PStatic, conf.PKin, conf.Gravity, conf.Joints, conf.Types, conf.Sleep = 0, 0, false, true, false, false
	conf.N, conf.Arena = 3+r.Intn(8), conf.Size*r.Range(1, 4)
	conf.Friction, conf.Elasticity = r.Pick(0, 0.5, 2), r.Pick(0, 0.5, 1)
	w := newWorld(t, r, conf)
	w.Sp.SetDamping(1)
	for i := r.Intn(6); i > 0; i-- {
		w.addJoint()
	}
	for _, c := range append([]*WCon(nil), w.Cons...) {
		if c.A == w.Static || c.B == w.Static {
			w.removeCon(c)
		}
	}
	var bs []*cp.Body
	for _, b := range w.Bodies {
		bs = append(bs, b.B)
	}
	touching := 0
	for i := 0; i < 40; i++ {
		p0, _, mass, c0, sc0 := newtons(bs)
		dt := w.dt()
		imp := 0.0
		w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
			if kind == 'o' {
				imp += vlen(arb.TotalImpulse())
				touching++
			}
			return true
		}
		w.step(dt)
		p1, _, _, c1, sc1 := newtons(bs)
		for _, c := range w.Cons {
			imp += math.Abs(c.C.Class.GetImpulse())
		}
		if !finite(sc1, imp) || sc1 > 1e9 {
			break // torn apart by joints that contradict each other
		}
		tol := 1e-9 * (sc0 + sc1 + imp)
		t.Check(vdist(p0, p1) <= tol, "total-momentum", "the momentum of a closed group of %d bodies changes from %s to %s (impulses %g)", len(bs), fv(p0), fv(p1), imp)
		want := vadd(c0, vmul(p0, dt/mass))
		sc := 1 + vlen(c0) + vlen(p0)*dt/mass + tol/mass
		for _, b := range bs {
			sc = math.Max(sc, vlen(b.Position())+vlen(b.Velocity())*dt+vlen(b.CenterOfGravity())*(1+math.Abs(b.Angle())))
		}
		t.Check(vdist(c1, want) <= 1e-9*sc, "center", "the centre of a closed group of %d bodies goes from %s to %s, want %s", len(bs), fv(c0), fv(c1), fv(want))
		t.Ev("group_steps")
	}
	t.EvN("group_contacts", touching)
	t.NonTrivial(len(bs), len(w.Cons), touching > 0)
}

// c12rest: overlapping bodies at rest are pushed apart without gaining velocity.
func c12rest(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(1 + r.Intn(20))
	size := r.LogRange(0.5, 10)
	n := 2 + r.Intn(5)
	var bs []*cp.Body
	for i := 0; i < n; i++ {
		b := sp.StaticBody
		if i > 0 {
			m := r.LogRange(0.1, 100)
			b = cp.NewBody(m, m*size*size)
			sp.AddBody(b)
			b.SetPosition(V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size})
			b.SetAngle(genAngle(r))
			bs = append(bs, b)
		} else if r.P(0.5) {
			continue
		}
		s := sp.AddShape(genShape(r, shapeGen{size: size, sharp: true, maxVerts: 7}).build(b))
		s.SetElasticity(r.Pick(0, 1))
		s.SetFriction(r.Pick(0, 1))
	}
	moved, touching := 0.0, 0
	for i := 0; i < 20; i++ {
		was := map[*cp.Body]V{}
		for _, b := range bs {
			was[b] = b.Position()
		}
		sp.Step(r.Pick(1.0/60, r.LogRange(0.003, 0.05)))
		for _, b := range bs {
			t.Check(vlen(b.Velocity()) <= 1e-12*size && math.Abs(b.AngularVelocity()) <= 1e-12, "correction-became-velocity", "step %d: an overlapping body at rest moves at %s, turns at %g", i, fv(b.Velocity()), b.AngularVelocity())
			moved += vdist(was[b], b.Position())
			b.EachArbiter(func(*cp.Arbiter) { touching++ })
		}
	}
	if moved > 0 {
		t.Ev("pushed_apart_at_rest")
	}
	t.NonTrivial(n, touching > 0)
	t.Ev("rest_cases")
}

// c12crowd: more contacts in a step than one buffer holds.
func c12crowd(t *T) {
	r := t.R
	s := newTowers(t, 200+r.Intn(150), 4)
	led := newLedger()
	for _, w := range s.ts {
		for _, b := range w.bodies {
			led.watch(b)
			b.SetVelocityVector(s.at(V{X: r.Range(-1, 1) * s.size, Y: r.Range(-2, 0) * s.size}))
		}
		if r.P(0.5) {
			w.floor.SetElasticity(0.5)
			w.shapes[0].SetElasticity(1)
		}
	}
	for i := 0; i < 6; i++ {
		led.reset()
		s.step(r.LogRange(0.005, 0.02))
		log, contacts := &impulseLog{}, 0
		for _, h := range s.hits {
			log.list = append(log.list, contactImpulse{h.x, h.y, h.J, h.set, h.sx, h.sy})
			contacts += h.set.Count
		}
		checkContactLedger(t, led, log, fmt.Sprintf("step %d of %d columns", i, len(s.ts)))
		if contacts > 1024 {
			t.Ev("beyond_one_buffer")
		}
	}
	t.NonTrivial(len(s.ts))
}

func init() {
	need := map[string]int64{"bodies_hit_checked": 50000, "bodies_multi_hit_checked": 10000, "levers_checked": 20000, "post_solves": 50000, "pair_steps": 50000, "angular_checked": 5000, "angular_exact": 2000,
		"joint_steps": 50000, "joints_that_acted": 2000, "group_steps": 20000, "group_contacts": 5000, "pushed_apart_at_rest": 500, "beyond_one_buffer": 8}
	for _, k := range append(linearJoints, angularJoints...) {
		need["ledger_"+k] = 2000
	}
	register(&Prop{ID: "C12",
		Technique: "runtime monitor: a momentum ledger compares what every body gained inside the solver with the impulses its arbiters and joints report, and totals over closed groups",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"contacts", 8000, 200000, c12contacts}, {"pair", 12000, 400000, c12pair}, {"joints", 20000, 800000, c12joints}, {"group", 4000, 120000, c12group}, {"rest", 6000, 200000, c12rest}, {"crowd", 8, 300, c12crowd}},
		Need:      need,
	})
}
