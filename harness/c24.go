package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// allFinite checks every number of the space.
func allFinite(t *T, w *World, when string) {
	for _, b := range w.Bodies {
		c := b.B
		t.Check(vfinite(c.Position(), c.Velocity(), c.Force(), c.Rotation(), c.CenterOfGravity()) && finite(c.Angle(), c.AngularVelocity(), c.Torque()),
			"not-finite", "%s: body b%d (mass %g moment %g) at %s angle %g velocity %s %g force %s %g", when, b.ID, c.Mass(), c.Moment(), fv(c.Position()), c.Angle(), fv(c.Velocity()), c.AngularVelocity(), fv(c.Force()), c.Torque())
		if b.movable() || b.Typ != cp.BODY_DYNAMIC {
			t.Check(!math.IsNaN(c.KineticEnergy()), "not-finite", "%s: energy of b%d is NaN", when, b.ID)
		}
		n := 0
		c.EachArbiter(func(arb *cp.Arbiter) {
			n++
			t.Check(n < 10000, "endless", "%s: the contacts of b%d never end", when, b.ID)
			finiteArbiter(t, arb, when)
		})
		n = 0
		c.EachConstraint(func(*cp.Constraint) {
			n++
			t.Check(n <= len(b.Cons), "endless", "%s: the joints of b%d never end", when, b.ID)
		})
	}
	for _, s := range w.Shapes {
		bb := s.S.BB()
		t.Check(finite(bb.L, bb.B, bb.R, bb.T), "not-finite", "%s: box of s%d is %v", when, s.ID, bb)
	}
	for _, c := range w.Cons {
		t.Check(finite(c.C.Class.GetImpulse()), "not-finite", "%s: impulse of joint c%d (%s) is %g", when, c.ID, c.Kind, c.C.Class.GetImpulse())
	}
	t.Ev("states_checked")
}

func finiteArbiter(t *T, arb *cp.Arbiter, when string) {
	set := arb.ContactPointSet()
	t.Check(vfinite(arb.Normal(), set.Normal, arb.TotalImpulse()), "not-finite", "%s: contact normal %s impulse %s between %s", when, fv(set.Normal), fv(arb.TotalImpulse()), pairInfo(arb))
	for i := 0; i < set.Count; i++ {
		p := set.Points[i]
		t.Check(vfinite(p.PointA, p.PointB) && finite(p.Distance), "not-finite", "%s: contact point %s %s %g", when, fv(p.PointA), fv(p.PointB), p.Distance)
	}
	t.Ev("arbiters_checked")
}

func pairInfo(arb *cp.Arbiter) string {
	a, b := arb.Bodies()
	x, y := arb.Shapes()
	out := fmt.Sprintf("e=%g u=%g", x.Elasticity()*y.Elasticity(), x.Friction()*y.Friction())
	for i, c := range []*cp.Body{a, b} {
		s := []*cp.Shape{x, y}[i]
		out += fmt.Sprintf(" [%T bb %v body type %d mass %g moment %g at %s v %s w %g]", s.Class, s.BB(), c.GetType(), c.Mass(), c.Moment(), fv(c.Position()), fv(c.Velocity()), c.AngularVelocity())
	}
	set := arb.ContactPointSet()
	for i := 0; i < set.Count; i++ {
		out += fmt.Sprintf(" contact %s %s depth %g", fv(set.Points[i].PointA), fv(set.Points[i].PointB), set.Points[i].Distance)
	}
	return out
}

// meddler makes valid calls from callbacks.
type meddler struct {
	t     *T
	w     *World
	r     *Rand
	p     float64
	posts int
	depth int

	looking bool
}

func (m *meddler) body() *WBody {
	if len(m.w.Bodies) == 0 {
		return nil
	}
	// prefer sleeping ones
	b := m.w.Bodies[m.r.Intn(len(m.w.Bodies))]
	for i := 0; i < 4 && !b.B.IsSleeping(); i++ {
		b = m.w.Bodies[m.r.Intn(len(m.w.Bodies))]
	}
	return b
}

// meddle changes something that may be changed while the space is locked.
func (m *meddler) meddle(arb *cp.Arbiter, where string) {
	r, w, t := m.r, m.w, m.t
	if !r.P(m.p) {
		return
	}
	b := m.body()
	if b == nil {
		return
	}
	what := ""
	switch k := r.Intn(20); k {
	case 0, 1:
		if b.B.IsSleeping() {
			t.Ev("woken_in_callback")
		}
		if b.Typ == cp.BODY_STATIC {
			b.B.ActivateStatic(nil)
		} else {
			b.B.Activate()
		}
		what = "activate"
	case 2:
		if b.Typ == cp.BODY_STATIC {
			return
		}
		if b.B.IsSleeping() {
			t.Ev("woken_in_callback")
		}
		b.B.SetVelocityVector(w.vel())
		what = "velocity"
	case 3:
		if b.Typ != cp.BODY_DYNAMIC {
			return
		}
		b.B.ApplyImpulseAtWorldPoint(V{X: r.Range(-1, 1)}, b.B.Position())
		b.B.ApplyForceAtLocalPoint(V{Y: r.Range(-1, 1)}, V{X: 1})
		what = "impulse"
	case 4:
		b.B.SetPosition(vadd(b.B.Position(), V{X: r.Range(-1, 1), Y: r.Range(-1, 1)}))
		w.moved(b)
		what = "position"
	case 5:
		b.B.SetAngle(genAngle(r))
		w.moved(b)
		what = "angle"
	case 6, 7:
		if len(b.Shapes) == 0 {
			return
		}
		s := b.Shapes[r.Intn(len(b.Shapes))]
		switch r.Intn(4) {
		case 0:
			s.S.SetFriction(r.Pick(0, 0.5, 1))
			s.S.SetElasticity(r.Pick(0, 1))
		case 1:
			s.Sensor = !s.Sensor
			s.S.SetSensor(s.Sensor)
		case 2:
			s.Filter = w.genFilter()
			s.S.SetFilter(s.Filter)
		case 3:
			s.S.SetSurfaceV(w.vel())
		}
		what = "shape"
	case 8:
		if len(w.Cons) == 0 {
			return
		}
		c := w.Cons[r.Intn(len(w.Cons))]
		switch r.Intn(3) {
		case 0:
			c.C.SetMaxForce(r.LogRange(1, 1e6))
		case 1:
			c.Collide = !c.Collide
			c.C.SetCollideBodies(c.Collide)
		case 2:
			c.C.ActivateBodies()
		}
		what = "joint"
	case 9:
		w.Sp.SetGravity(V{X: r.Range(-10, 10), Y: r.Range(-100, 20)})
		what = "gravity"
	case 10:
		if arb == nil {
			return
		}
		arb.Ignore()
		what = "ignore"
	case 11:
		if arb == nil || arb.Count() == 0 {
			return
		}
		arb.SetContactPointSet(ptr(arb.ContactPointSet()))
		what = "contact-set"
	case 12, 13, 14:
		if m.depth > 2 {
			return
		}
		m.depth++
		m.look()
		m.depth--
		what = "look"
	case 15:
		if b.Typ != cp.BODY_DYNAMIC || b.massShapes {
			return
		}
		w.genMass(b)
		if !b.movable() {
			b.Mass, b.Mom = 1, w.C.Size
		}
		b.B.SetMass(b.Mass)
		b.B.SetMoment(b.Mom)
		what = "mass"
	default:
		if m.posts >= 8 {
			return
		}
		m.posts++
		w.Sp.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) {
			if !w.inStep && !m.looking {
				return // in the middle of a call the model has not finished
			}
			for n := 1 + r.Intn(2); n > 0; n-- {
				if w.op() != "" {
					t.Ev("ops_in_post_step")
				}
			}
		}, r.Intn(6), nil)
		what = "post-step"
	}
	if w.Trace {
		t.Logf("    %s: %s (b%d)", where, what, b.ID)
	}
	t.Ev("meddled_" + what)
}

func vclamp(v V, l float64) V {
	if n := vlen(v); n > l {
		return vmul(v, l/n)
	}
	return v
}

func ptr[X any](x X) *X { return &x }

// look makes a query whose callbacks meddle too.
func (m *meddler) look() {
	w, r := m.w, m.r
	sp := w.Sp
	p, q := w.spot(r), w.spot(r)
	if r.P(0.1) {
		p = V{X: r.Sign() * r.LogRange(1, 1e12), Y: r.Sign() * r.LogRange(1, 1e12)}
	}
	if r.P(0.1) {
		q = p
	}
	rad := r.Pick(0, 1e-9, 1, 1e3)
	if rad == 0 && w.OnHash { // follows the ray cell by cell
		p, q = vclamp(p, 1e4*w.CellDim), vclamp(q, 1e4*w.CellDim)
	}
	filter := genQueryFilter(r)
	in := func() { m.meddle(nil, "query") }
	switch r.Intn(8) {
	case 0:
		info := sp.PointQueryNearest(p, r.Pick(0, 1, 1e9, cp.INFINITY), filter)
		m.t.Check(vfinite(info.Point, info.Gradient) || info.Shape == nil, "not-finite", "nearest to %s: %s gradient %s", fv(p), fv(info.Point), fv(info.Gradient))
	case 1:
		bb := cp.NewBBForCircle(p, r.Pick(0, 1, 1e9))
		if r.P(0.2) {
			bb = cp.NewBB(-cp.INFINITY, -cp.INFINITY, cp.INFINITY, cp.INFINITY)
		}
		sp.BBQuery(bb, filter, func(*cp.Shape, interface{}) { in() }, nil)
	case 2:
		sp.SegmentQuery(p, q, rad, filter, func(s *cp.Shape, point, n V, alpha float64, _ interface{}) {
			m.t.Check(vfinite(point, n) && finite(alpha), "not-finite", "segment query %s %s radius %g: %s %s %g", fv(p), fv(q), rad, fv(point), fv(n), alpha)
			in()
		}, nil)
	case 3:
		info := sp.SegmentQueryFirst(p, q, rad, filter)
		m.t.Check(vfinite(info.Point, info.Normal) && finite(info.Alpha), "not-finite", "first hit %s %s radius %g: %s %s %g", fv(p), fv(q), rad, fv(info.Point), fv(info.Normal), info.Alpha)
	case 4:
		sp.EachBody(func(*cp.Body) { in() })
	case 5:
		sp.EachShape(func(*cp.Shape) { in() })
	case 6:
		sp.EachConstraint(func(*cp.Constraint) { in() })
	case 7:
		body := cp.NewKinematicBody()
		body.SetPosition(p)
		l := hostileShape(r, w.C.Size)
		sp.ShapeQuery(l.build(body), func(s *cp.Shape, set *cp.ContactPointSet) {
			m.t.Check(vfinite(set.Normal), "not-finite", "shape query: normal %s", fv(set.Normal))
			in()
		})
	}
	m.t.Ev("queries")
}

// diverged: something moves, or pushes, so much that the next steps can only make it more.
func (w *World) diverged() bool {
	for _, b := range w.Bodies {
		if vlen(b.B.Velocity()) > 1e30 || math.Abs(b.B.AngularVelocity()) > 1e30 {
			return true
		}
	}
	for _, c := range w.Cons {
		if c.C.Class.GetImpulse() > 1e30 {
			return true
		}
	}
	return false
}

// robustScene runs a scene with callbacks that do whatever they may.
func robustScene(t *T, conf SConf, steps int, dt func() float64) {
	r := t.R
	w := newWorld(t, r, conf)
	if conf.Hostile {
		// Where masses are that different and friction strong, the solver does not converge: what it overshoots by
		// grows from one iteration to the next. That is no overflow yet, if it does not go on for long.
		w.Sp.Iterations = min(w.Sp.Iterations, 5)
	}
	m := &meddler{t: t, w: w, r: r, p: r.Pick(0, 0.02, 0.2)}
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		t.Ev("callbacks")
		finiteArbiter(t, arb, "in callback "+string(kind))
		m.meddle(arb, "callback "+string(kind))
		return !r.P(0.05)
	}
	if r.P(0.5) {
		w.Sp.UseWildcardDefaultHandler()
	}
	hooked := map[int]bool{}
	for i := 0; i < steps; i++ {
		// before the operations too: the anchors of a new joint are taken from where the bodies are
		w.together()
		w.ops()
		w.together()
		if conf.Hostile {
			w.ease()
		}
		for _, c := range w.Cons {
			if !hooked[c.ID] {
				hooked[c.ID] = true
				if r.P(0.3) {
					c.C.PreSolve = func(*cp.Constraint, *cp.Space) { m.meddle(nil, "joint pre-solve") }
					c.C.PostSolve = func(*cp.Constraint, *cp.Space) { m.meddle(nil, "joint post-solve") }
				}
			}
		}
		if r.P(0.3) {
			m.posts = 0
			m.looking = true
			m.look()
			m.looking = false
		}
		if w.sleeping() > 0 {
			t.Ev("sleeping_seen")
		}
		m.posts = 0
		w.step(dt())
		allFinite(t, w, "after the step")
		if conf.Hostile && w.diverged() {
			t.Ev("diverged_scenes")
			break
		}
	}
	if r.P(0.3) {
		cp.DrawSpace(w.Sp, &finiteDrawer{t: t})
		cp.DebugInfo(w.Sp)
	}
	tearDown(w)
	w.step(1.0 / 60)
	t.NonTrivial(len(t.trace))
	t.Sample("%s", w.describe())
}

// finiteDrawer checks what it is asked to draw.
type finiteDrawer struct {
	nullDrawer
	t *T
}

func (d *finiteDrawer) see(ok bool, what string) {
	d.t.Check(ok, "not-finite", "drawing a %s somewhere that is not a number", what)
	d.t.Ev("drawn")
}
func (d *finiteDrawer) DrawCircle(p V, a, r float64, _, _ cp.FColor, _ interface{}) {
	d.see(vfinite(p) && finite(a, r), "circle")
}
func (d *finiteDrawer) DrawSegment(a, b V, _ cp.FColor, _ interface{}) {
	d.see(vfinite(a, b), "segment")
}
func (d *finiteDrawer) DrawFatSegment(a, b V, r float64, _, _ cp.FColor, _ interface{}) {
	d.see(vfinite(a, b) && finite(r), "fat segment")
}
func (d *finiteDrawer) DrawPolygon(n int, vs []V, r float64, _, _ cp.FColor, _ interface{}) {
	d.see(vfinite(vs[:n]...) && finite(r), "polygon")
}
func (d *finiteDrawer) DrawDot(s float64, p V, _ cp.FColor, _ interface{}) {
	d.see(vfinite(p) && finite(s), "dot")
}

func c24(t *T) {
	conf := genConf(t.R)
	robustScene(t, conf, 20+t.R.Intn(80), func() float64 { return 1.0 / 60 })
}

// c24hostile: legal but extreme shapes, masses, places and steps.
func c24hostile(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Hostile = true
	conf.Degenerate = true
	conf.Far = r.Pick(1e3, 1e6, 1e9)
	conf.JointKinds = []string{"pin", "slide", "pivot", "pivot2", "groove", "limit", "ratchet", "gear", "motor"}
	conf.Elasticity, conf.Friction = r.Pick(0, 1), r.Pick(0, 1)
	// Impulses are carried over in proportion to the step, so its size may not vary wildly.
	dt := r.Pick(1.0/60, 1.0/60, 1.0/240, 1e-3, 1e-6, 0.1, 0.5)
	robustScene(t, conf, 10+r.Intn(50), func() float64 { return dt * r.Pick(1, 1, 1, 0.5, 0) })
}

// c24pile: very many shapes in the same place, so that every buffer has to grow.
func c24pile(t *T) {
	r := t.R
	conf := genConf(r)
	conf.N, conf.Arena, conf.Size = 60+r.Intn(120), r.Range(2, 6), r.Range(0.5, 2)
	conf.Hostile = r.P(0.3)
	conf.JointKinds = []string{"pin", "slide", "pivot", "groove", "limit", "gear", "motor"}
	conf.PKin, conf.PStatic = 0.05, 0.1
	robustScene(t, conf, 6+r.Intn(10), func() float64 { return 1.0 / 60 })
}

// c24sleep: everything is idle soon, and whatever wakes a body does so from a callback.
func c24sleep(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Sleep, conf.QuietBias, conf.Gravity = true, 0.95, r.P(0.8)
	conf.Hostile = r.P(0.2)
	conf.JointKinds = []string{"pin", "slide", "pivot", "groove", "limit", "gear", "motor"}
	conf.Size, conf.Arena = r.Range(1, 4), r.Range(4, 12)
	robustScene(t, conf, 60+r.Intn(100), func() float64 { return 1.0 / 60 })
}

// c24tight: everything in the same place, or exactly as far apart as it is big; joints whose anchors coincide.
func c24tight(t *T) {
	r := t.R
	size := r.Pick(1, 1, r.LogRange(1e-2, 1e2))
	space := cp.NewSpace()
	if r.P(0.5) {
		space.SetGravity(V{Y: -10 * size})
	}
	if r.P(0.3) {
		space.SleepTimeThreshold = 0.2
	}
	if r.P(0.3) {
		space.UseSpatialHash(size, 100)
	}
	type tight struct {
		b *cp.Body
		s []*cp.Shape
		l []LShape
	}
	at := V{X: math.Round(r.Range(-3, 3)) * size, Y: math.Round(r.Range(-3, 3)) * size}
	spots := []V{at, at, at, vadd(at, V{X: size}), vadd(at, V{Y: size}), vadd(at, V{X: 2 * size}), vadd(at, V{X: 1e-12 * size}), {}}
	ang := r.Pick(0, 0, math.Pi/2, 0.3)
	shape := func() LShape {
		off := V{}
		if r.P(0.2) {
			off = V{X: size}
		}
		rad := size * r.Pick(0, 0.5, 1, 1)
		switch r.Intn(6) {
		case 0:
			return LShape{'c', []V{off}, rad}
		case 1, 2:
			return LShape{'s', []V{off, off}, rad}
		case 3:
			return LShape{'s', []V{vsub(off, V{X: size}), vadd(off, V{X: size})}, rad}
		case 4:
			return LShape{'p', []V{vadd(off, V{X: -size, Y: -size}), vadd(off, V{X: size, Y: -size}), vadd(off, V{X: size, Y: size}), vadd(off, V{X: -size, Y: size})}, rad}
		}
		return LShape{'p', []V{off, vadd(off, V{X: size}), vadd(off, V{Y: size})}, rad}
	}
	var bs []*tight
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		m := r.Pick(1, 1, 10)
		b := cp.NewBody(m, m*size*size)
		switch r.Intn(8) {
		case 0:
			b = cp.NewStaticBody()
		case 1:
			b = cp.NewKinematicBody()
		}
		b.SetPosition(spots[r.Intn(len(spots))])
		b.SetAngle(ang)
		space.AddBody(b)
		x := &tight{b: b}
		for k := 1 + r.Intn(2); k > 0; k-- {
			l := shape()
			s := space.AddShape(l.build(b))
			s.SetElasticity(r.Pick(0, 0.5))
			s.SetFriction(r.Pick(0, 0.7))
			x.s, x.l = append(x.s, s), append(x.l, l)
		}
		bs = append(bs, x)
		t.Logf("body %d type %d mass %g at %s angle %g shapes %+v", i, b.GetType(), m, fv(b.Position()), b.Angle(), x.l)
	}

	// A segment without length is a disc, whoever asks.
	for _, x := range bs {
		for i, s := range x.s {
			s.CacheBB()
			l := x.l[i]
			pts := append([]V{at, {}, vadd(at, V{X: size}), vadd(at, V{X: 3 * size, Y: size})}, l.at(x.b.Position(), x.b.Angle()).P...)
			var disc *cp.Shape
			if l.Kind == 's' && l.P[0] == l.P[1] {
				db := cp.NewKinematicBody()
				db.SetPosition(x.b.Position())
				db.SetAngle(x.b.Angle())
				disc = cp.NewCircle(db, l.R, l.P[0])
				disc.CacheBB()
			}
			ref := l.at(x.b.Position(), x.b.Angle())
			tol := 1e-9 * (ref.scale() + size)
			for _, p := range pts {
				info := s.PointQuery(p)
				t.Check(vfinite(info.Point, info.Gradient) && finite(info.Distance), "not-finite", "point %s to %+v at %s: %s %g %s", fv(p), l, fv(x.b.Position()), fv(info.Point), info.Distance, fv(info.Gradient))
				if d := ref.sd(p); l.Kind != 'p' || d > 0 {
					t.Check(math.Abs(info.Distance-d) <= tol, "degenerate", "point %s to %+v at %s is %g away, not %g", fv(p), l, fv(x.b.Position()), d, info.Distance)
				}
				t.Ev("points_asked")
				for _, q := range append(pts, vadd(p, V{X: -5 * size, Y: 0.5 * size})) {
					rad := size * r.Pick(0, 0, 1)
					var si cp.SegmentQueryInfo
					hit := s.SegmentQuery(p, q, rad, &si)
					t.Check(vfinite(si.Point, si.Normal) && finite(si.Alpha), "not-finite", "ray %s %s radius %g to %+v: %s %s %g", fv(p), fv(q), rad, l, fv(si.Point), fv(si.Normal), si.Alpha)
					if disc != nil && p != q && (l.R > 0 || rad == 0) { // a point blocks nothing, like a segment without radius seen from its end
						var di cp.SegmentQueryInfo
						dh := disc.SegmentQuery(p, q, rad, &di)
						near := ref.coreSegGap(p, q) - l.R - rad
						start := ref.sd(p) - rad
						if math.Abs(near) > 1e-6*size && math.Abs(start) > 1e-6*size {
							t.Check(hit == dh && (!hit || math.Abs(si.Alpha-di.Alpha) <= 1e-6), "degenerate", "ray %s %s radius %g to %+v at %s: %v %g, but %v %g to a disc", fv(p), fv(q), rad, l, fv(x.b.Position()), hit, si.Alpha, dh, di.Alpha)
						}
					}
					t.Ev("rays_asked")
				}
			}
			for _, y := range bs {
				for k, z := range y.s {
					if z == s {
						continue
					}
					z.CacheBB()
					for _, set := range []cp.ContactPointSet{cp.ShapesCollide(s, z), cp.ShapesCollide(z, s)} {
						t.Check(set.Count >= 0 && set.Count <= 2 && vfinite(set.Normal), "not-finite", "contact of %+v and %+v: %+v", l, y.l[k], set)
						for n := 0; n < set.Count; n++ {
							t.Check(vfinite(set.Points[n].PointA, set.Points[n].PointB) && finite(set.Points[n].Distance), "not-finite", "contact of %+v at %s and %+v at %s: %+v", l, fv(x.b.Position()), y.l[k], fv(y.b.Position()), set)
						}
						d := shapeDist(ref, y.l[k].at(y.b.Position(), y.b.Angle()))
						if core := coreShapeDist(ref, y.l[k].at(y.b.Position(), y.b.Angle())); core > 1e-6*size && math.Abs(d) > 1e-6*size {
							t.Check((set.Count > 0) == (d < 0), "degenerate", "%+v at %s and %+v at %s are %g apart, but there are %d contacts", l, fv(x.b.Position()), y.l[k], fv(y.b.Position()), d, set.Count)
						}
						t.Ev("collisions_asked")
					}
				}
			}
		}
	}

	// Joints whose anchors coincide.
	var cons []*cp.Constraint
	kinds := append(append([]string{}, linearJoints...), angularJoints...)
	for i := 0; i < 1+r.Intn(3); i++ {
		a, b := bs[r.Intn(len(bs))].b, bs[r.Intn(len(bs))].b
		if a == b || a.GetType() != cp.BODY_DYNAMIC && b.GetType() != cp.BODY_DYNAMIC {
			continue
		}
		kind := kinds[r.Intn(len(kinds))]
		j := genJSpec(r, kind, a, b, size)
		if r.P(0.8) {
			p := a.LocalToWorld(V{X: size * r.Pick(0, 0, 1)})
			j.A, j.B = a.WorldToLocal(p), b.WorldToLocal(p)
			if a.Position() == b.Position() {
				j.B = j.A
			}
			j.Dist, j.Min, j.Max = 0, 0, r.Pick(0, 1)*size
			if kind == "groove" {
				j.GA, j.GB = j.A, vadd(j.A, V{X: size})
			}
			if kind == "spring" {
				j.Rest, j.Stiff, j.Damp = r.Pick(0, 1)*size, 10, r.Pick(0, 1)
			}
			if worldAnchor(a, j.A) == worldAnchor(b, j.B) {
				t.Ev("anchors_coincide")
			}
		}
		c := space.AddConstraint(j.build(a, b))
		c.SetCollideBodies(r.P(0.3))
		cons = append(cons, c)
		t.Logf("joint %s", j)
	}
	dt := 1.0 / 60
	for i := 0; i < 20; i++ {
		space.Step(dt)
		for k, x := range bs {
			b := x.b
			t.Check(vfinite(b.Position(), b.Velocity(), b.Rotation()) && finite(b.Angle(), b.AngularVelocity()), "not-finite", "step %d: body %d at %s angle %g velocity %s %g", i, k, fv(b.Position()), b.Angle(), fv(b.Velocity()), b.AngularVelocity())
			b.EachArbiter(func(arb *cp.Arbiter) { finiteArbiter(t, arb, "after the step") })
		}
		for _, c := range cons {
			t.Check(finite(c.Class.GetImpulse()), "not-finite", "step %d: impulse of a %T is %g", i, c.Class, c.Class.GetImpulse())
		}
		t.Ev("tight_steps")
	}
	kinds = nil
	for _, x := range bs {
		kinds = append(kinds, fmt.Sprint(x.b.GetType(), x.l))
	}
	t.NonTrivial(len(cons), at, kinds)
	t.Sample("%d bodies around %s, %d joints", len(bs), fv(at), len(cons))
}

func init() {
	register(&Prop{ID: "C24",
		Technique: "runtime monitors for panics, assertion failures (debug build), endless loops (CPU watchdog), runaway memory and non-finite numbers over hostile random histories whose callbacks make every call they may",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"histories", 1600, 24000, c24}, {"hostile", 2400, 40000, c24hostile}, {"pile", 60, 800, c24pile}, {"sleep", 500, 8000, c24sleep}, {"tight", 3000, 60000, c24tight}},
		Need:      map[string]int64{"states_checked": 50000, "arbiters_checked": 100000, "callbacks": 100000, "woken_in_callback": 300, "ops_in_post_step": 1000, "queries": 10000, "sleeping_seen": 2000, "drawn": 2000, "points_asked": 20000, "collisions_asked": 20000, "anchors_coincide": 1000},
	})
}
