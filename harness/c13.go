package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// a hit is what one arbiter reported in post-solve, seen from its first shape.
type hit struct {
	x, y   *cp.Body
	sx, sy *cp.Shape
	set    cp.ContactPointSet
	J      V // on x
}

func takeHit(arb *cp.Arbiter) hit {
	sx, sy := arb.Shapes()
	x, y := arb.Bodies()
	return hit{x, y, sx, sy, arb.ContactPointSet(), arb.TotalImpulse()}
}

// the push on y along the normal and across it.
func (h hit) split() (jn, jt float64) {
	n := h.set.Normal
	return -vdot(h.J, n), -vdot(h.J, V{X: -n.Y, Y: n.X})
}

// cone checks what holds of every impulse however few iterations there were: contacts only push, and friction is limited.
func (h hit) cone(t *T, when string) {
	jn, jt := h.split()
	u := h.sx.Friction() * h.sy.Friction()
	tol := 1e-9*vlen(h.J) + 1e-200
	t.Check(math.Abs(vlen(h.set.Normal)-1) < 1e-6, "normal", "%s: a contact normal of length %g", when, vlen(h.set.Normal))
	t.Check(jn >= -tol, "pull", "%s: a contact pulls with %.17g (friction %g)", when, jn, jt)
	t.Check(math.Abs(jt) <= u*jn+tol, "friction-limit", "%s: a contact with a normal impulse of %.17g has %.17g of friction, at most %.17g is allowed (frictions %g, %g)", when, jn, jt, u*jn, h.sx.Friction(), h.sy.Friction())
	t.Ev("cones")
	if jn > tol && u > 0 && math.Abs(jt) > u*jn*(1-1e-6) {
		t.Ev("sliding")
	} else if jn > tol && math.Abs(jt) > tol {
		t.Ev("sticking")
	}
	if u == 0 {
		t.Check(math.Abs(jt) <= tol, "frictionless", "%s: a contact without friction has a tangential impulse %g", when, jt)
	}
}

// moves is the motion of a body over a step.
type moves struct {
	m, i       float64 // inverse
	v0, v1, v2 V       // before the step, before the solver, after
	w0, w1, w2 float64
	c          V // centre of gravity at the contact
}

// pairScene: two bodies and what happens between them.
type pairScene struct {
	t      *T
	r      *Rand
	sp     *cp.Space
	b      [2]*cp.Body
	s      [2]*cp.Shape
	size   float64
	slop   float64
	mv     [2]moves
	v      map[*cp.Body]V
	w      map[*cp.Body]float64
	hits   []hit
	met    bool // the shapes touched in this step
	biasV  [2]V // by which the next step will move the bodies on top
	biasW  [2]float64
	tamper bool
	surf   map[*cp.Shape]V
}

func newPairScene(t *T, plane bool) *pairScene {
	r := t.R
	p := &pairScene{t: t, r: r, sp: cp.NewSpace(), size: r.LogRange(0.5, 20), v: map[*cp.Body]V{}, w: map[*cp.Body]float64{}, surf: map[*cp.Shape]V{}}
	p.sp.Iterations = 400
	p.slop = p.size * r.Pick(0, 0.002, 0.02)
	pInf := r.Pick(0.02, 0.02, 0.02, 0.7)
	p.sp.SetCollisionSlop(p.slop)
	for i := 0; i < 2; i++ {
		var b *cp.Body
		m := r.LogRange(0.1, 100)
		switch k := r.F(); {
		case i == 0 && (plane || k < 0.1):
			b = p.sp.StaticBody
		case i == 0 && k < 0.2:
			b = p.sp.AddBody(cp.NewKinematicBody())
		default:
			mom := m * p.size * p.size * r.LogRange(0.1, 2)
			if r.P(pInf) {
				mom = cp.INFINITY
			}
			b = p.sp.AddBody(cp.NewBody(m, mom))
		}
		g := shapeGen{size: p.size, offset: r.Pick(0, p.size*0.3), sharp: true, maxVerts: 6}
		var s LShape
		if i == 0 && plane {
			s = LShape{'s', []V{{X: -1000 * p.size}, {X: 1000 * p.size}}, r.Pick(0, 0.1*p.size)}
		} else {
			s = genShape(r, g)
		}
		p.s[i] = p.sp.AddShape(s.build(b))
		if b.GetType() == cp.BODY_DYNAMIC && b.Moment() < 1e300 && r.P(0.3) {
			p.s[i].SetMass(m)
			if b.Moment() < 0.05*m*p.size*p.size {
				p.s[i].SetMass(0)
				b.SetMass(m)
				b.SetMoment(m * p.size * p.size)
			}
		}
		p.b[i] = b
		if b.GetType() != cp.BODY_STATIC {
			b.SetVelocityUpdateFunc(func(x *cp.Body, g V, d, dt float64) {
				cp.BodyUpdateVelocity(x, g, d, dt)
				p.v[x], p.w[x] = x.Velocity(), x.AngularVelocity()
			})
		}
	}
	h := p.sp.NewWildcardCollisionHandler(0)
	h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
		p.met = true
		if p.tamper { // the user's own contacts
			set := arb.ContactPointSet()
			set.Normal = vrot(set.Normal, r.Range(-0.3, 0.3))
			for i := 0; i < set.Count; i++ {
				d := V{X: r.Range(-0.05, 0.05) * p.size, Y: r.Range(-0.05, 0.05) * p.size}
				set.Points[i].PointA = vadd(set.Points[i].PointA, d)
				set.Points[i].PointB = vadd(set.Points[i].PointB, d)
			}
			arb.SetContactPointSet(&set)
			got := arb.ContactPointSet()
			t.Check(got.Count == set.Count && vnear(got.Normal, set.Normal, 1e-12), "set-contacts", "set contacts %+v, but they are %+v now", set, got)
			for i := 0; i < set.Count; i++ {
				a, b := set.Points[i], got.Points[i]
				tol := 1e-9 * (p.size + vlen(a.PointA) + vlen(a.PointB))
				t.Check(vnear(a.PointA, b.PointA, tol) && vnear(a.PointB, b.PointB, tol), "set-contacts", "set contact %d to %+v, but it is %+v now", i, a, b)
				t.Check(math.Abs(b.Distance-vdot(vsub(b.PointB, b.PointA), got.Normal)) <= tol, "set-contacts", "contact %d: %+v along %s", i, b, fv(got.Normal))
			}
			t.Ev("user_contacts")
		}
		return true
	}
	// the handler runs once for each of the two shapes
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) {
		x := takeHit(arb)
		if len(p.hits) == 1 {
			if p.hits[0].sx == x.sx || p.hits[0].sx != x.sy {
				t.Failf("wildcard", "a wildcard handler of both shapes sees the same order twice")
			}
			return
		}
		p.hits = append(p.hits, x)
	}
	return p
}

func (p *pairScene) surfaces() {
	for _, s := range p.s {
		s.SetElasticity(p.r.Pick(0, 0.3, 1, p.r.Range(0, 1)))
		if p.r.P(0.06) {
			s.SetElasticity(p.r.Range(1, 2)) // gains speed
		}
		s.SetFriction(p.r.Pick(0, 0.5, 1, p.r.Range(0, 2)))
		p.surf[s] = V{}
		if p.r.P(0.2) {
			p.surf[s] = V{X: p.r.Range(-1, 1) * p.size, Y: p.r.Range(-1, 1) * p.size}
		}
		s.SetSurfaceV(p.surf[s])
	}
}

func (p *pairScene) place() {
	r := p.r
	for i, b := range p.b {
		if b == p.sp.StaticBody {
			continue
		}
		// bodies that cannot be moved stay where they are
		b.SetAngle(genAngle(r))
		if p.b[0] == p.sp.StaticBody && len(p.s) > 0 && r.P(0.5) {
			b.SetPosition(V{X: r.Range(-1, 1) * p.size, Y: r.Range(0, 1.2) * p.size})
		} else {
			b.SetPosition(V{X: (float64(i) - 0.5) * p.size * r.Range(0.5, 2.5), Y: r.Range(-0.5, 0.5) * p.size})
		}
		b.SetVelocity((0.5-float64(i))*r.Range(-0.5, 3)*p.size, r.Range(-1.5, 1)*p.size)
		b.SetAngularVelocity(r.Range(-2, 2))
	}
}

func inverses(b *cp.Body) (m, i float64) {
	if b.GetType() != cp.BODY_DYNAMIC {
		return 0, 0
	}
	m = 1 / b.Mass()
	if b.Moment() < 1e300 {
		i = 1 / b.Moment()
	}
	return
}

func (p *pairScene) energy() float64 {
	e := 0.0
	for _, b := range p.b {
		if b.GetType() == cp.BODY_DYNAMIC {
			e += b.Mass() * vdot(b.Velocity(), b.Velocity()) / 2
			if b.Moment() < 1e300 {
				e += b.Moment() * b.AngularVelocity() * b.AngularVelocity() / 2
			}
		}
	}
	return e
}

func im(b *cp.Body) float64 { m, _ := inverses(b); return m }
func ii(b *cp.Body) float64 { _, i := inverses(b); return i }

// solvable: an iterative solver can be expected to come to an end. Contacts that hardly differ take it too long, and with
// enough friction on a long lever there may be no solution at all (Painleve), with two contacts even more so.
func (p *pairScene) solvable(h hit, u float64, x, y moves) bool {
	n := h.set.Normal
	q := V{X: -n.Y, Y: n.X}
	k := func(i, j int, d, e V) float64 {
		rx, ry := vsub(h.set.Points[i].PointA, x.c), vsub(h.set.Points[i].PointB, y.c)
		sx, sy := vsub(h.set.Points[j].PointA, x.c), vsub(h.set.Points[j].PointB, y.c)
		return (x.m+y.m)*vdot(d, e) + x.i*vcross(rx, d)*vcross(sx, e) + y.i*vcross(ry, d)*vcross(sy, e)
	}
	if h.set.Count == 1 {
		nn, nt, tt := k(0, 0, n, n), k(0, 0, n, q), k(0, 0, q, q)
		return u == 0 || nt*nt <= 0.9*nn*tt && u*math.Abs(nt) <= 0.7*nn
	}
	n12 := k(0, 1, n, n)
	return u == 0 && n12*n12 <= 0.95*k(0, 0, n, n)*k(1, 1, n, n)
}

// spinners: a turning body with infinite moment is a source of energy.
func (p *pairScene) spinners() bool {
	for _, b := range p.b {
		if b.GetType() == cp.BODY_DYNAMIC && b.Moment() > 1e300 && b.AngularVelocity() != 0 {
			return true
		}
	}
	return false
}

// step runs one step and checks the response.
func (p *pairScene) step(dt float64, when string) {
	t := p.t
	p.hits, p.met = p.hits[:0], false
	for i, b := range p.b {
		p.mv[i].v0, p.mv[i].w0 = b.Velocity(), b.AngularVelocity()
		p.v[b], p.w[b] = b.Velocity(), b.AngularVelocity()
	}
	e0 := p.energy()
	p.sp.Step(dt)
	if len(p.hits) == 0 {
		t.Check(!p.met || im(p.b[0])+im(p.b[1]) == 0, "no-response", "%s: the shapes touch, but nothing comes of it (moments %g, %g, elasticities %g, %g, frictions %g, %g)", when,
			p.b[0].Moment(), p.b[1].Moment(), p.s[0].Elasticity(), p.s[1].Elasticity(), p.s[0].Friction(), p.s[1].Friction())
		return
	}
	h := p.hits[0]
	h.cone(t, when)
	if h.set.Count == 0 {
		t.Failf("no-contacts", "%s: post-solve without contacts", when)
	}
	for i, b := range p.b {
		m := &p.mv[i]
		m.m, m.i = inverses(b)
		m.v1, m.w1, m.v2, m.w2, m.c = p.v[b], p.w[b], b.Velocity(), b.AngularVelocity(), worldCog(b)
	}
	k := 0
	if h.x != p.b[0] {
		k = 1
	}
	x, y := p.mv[k], p.mv[1-k]
	n := h.set.Normal
	q := V{X: -n.Y, Y: n.X}
	e := h.sx.Elasticity() * h.sy.Elasticity()
	u := h.sx.Friction() * h.sy.Friction()
	sv := vsub(p.surf[h.sy], p.surf[h.sx])
	sv = vmul(q, vdot(sv, q))
	speed := p.size * 1e-3
	for _, m := range p.mv {
		speed = math.Max(speed, vlen(m.v0)+vlen(m.v1)+vlen(m.v2)+(math.Abs(m.w0)+math.Abs(m.w1)+math.Abs(m.w2))*p.size)
	}
	rel := func(px, py V, vx, vy V, wx, wy float64) V {
		rx, ry := vsub(px, x.c), vsub(py, y.c)
		return vsub(V{X: vy.X - wy*ry.Y, Y: vy.Y + wy*ry.X}, V{X: vx.X - wx*rx.Y, Y: vx.Y + wx*rx.X})
	}
	jn, jt := h.split()
	tol := 1e-6 * speed
	close := !p.solvable(h, u, x, y)
	type cn struct{ vn, vt, target float64 }
	var cs []cn
	for i := 0; i < h.set.Count; i++ {
		px, py := h.set.Points[i].PointA, h.set.Points[i].PointB
		before := rel(px, py, x.v0, y.v0, x.w0, y.w0)
		after := rel(px, py, x.v2, y.v2, x.w2, y.w2)
		cs = append(cs, cn{vdot(after, n), vdot(vadd(after, sv), q), -e * vdot(before, n)})
	}
	if !close {
		for i, c := range cs {
			t.Check(c.vn >= c.target-tol, "restitution", "%s: contact %d of %d leaves at %.17g along the normal, want at least %.17g (elasticity %g, speed %g, normal impulse %g)", when, i, len(cs), c.vn, c.target, e, speed, jn)
			t.Ev("restitutions")
		}
	}
	// needed: the impulse is of any consequence
	acts := jn*(x.m+y.m) > tol
	if len(cs) == 1 && !close {
		c := cs[0]
		if acts {
			t.Check(c.vn <= c.target+tol, "bounce-too-far", "%s: the contact leaves at %.17g along the normal, want %.17g (elasticity %g, speed %g)", when, c.vn, c.target, e, speed)
			t.Ev("bounces")
			if e > 0 && c.target > tol {
				t.Ev("elastic_bounces")
			}
		}
		slip := tol
		if math.Abs(jt) < u*jn*(1-1e-6)-1e-12*jn && acts {
			t.Check(math.Abs(c.vt) <= slip, "slips-while-sticking", "%s: friction %.17g is below its limit %.17g, but the surfaces slide at %.17g (speed %g)", when, jt, u*jn, c.vt, speed)
			t.Ev("stuck")
		}
		t.Check(jt*c.vt <= slip*math.Abs(jt) || math.Abs(jt) <= 1e-9*vlen(h.J), "friction-drives", "%s: friction %.17g on the second body drives sliding at %.17g", when, jt, c.vt)
		t.Ev("friction_opposes")
		if vlen(sv) > 0 {
			t.Ev("surface_velocity")
		}
	} else if !close {
		// if nothing needs to be pushed, nothing is
		all := true
		for _, c := range cs {
			if c.vn <= c.target+tol {
				all = false
			}
		}
		t.Check(!(all && acts), "bounce-too-far", "%s: both contacts leave faster than they have to (%.17g, %.17g for %.17g, %.17g), pushed by %g", when, cs[0].vn, cs[1].vn, cs[0].target, cs[1].target, jn)
		t.Ev("double_contacts")
		if u == 0 {
			// the two pushes follow from sum and torque
			d := vdot(vsub(h.set.Points[1].PointB, h.set.Points[0].PointB), q)
			if y.i > 0 && math.Abs(d) > 0.05*p.size {
				L := (y.w2 - y.w1) / y.i // = sum of cross(ry, n)*jn
				c0 := vcross(vsub(h.set.Points[0].PointB, y.c), n)
				c1 := vcross(vsub(h.set.Points[1].PointB, y.c), n)
				j1 := (L - c0*jn) / (c1 - c0)
				j0 := jn - j1
				for i, j := range []float64{j0, j1} {
					t.Check(j*(x.m+y.m) >= -tol, "pull", "%s: contact %d of 2 pulls with %g", when, i, j)
					if j*(x.m+y.m) > tol {
						t.Check(cs[i].vn <= cs[i].target+tol, "bounce-too-far", "%s: contact %d of 2 leaves at %.17g along the normal, want %.17g (elasticity %g, speed %g)", when, i, cs[i].vn, cs[i].target, e, speed)
						t.Ev("double_bounces")
					}
				}
			}
		}
	}
	if e > 1 {
		t.Ev("super_elastic")
	}
	if vlen(sv) == 0 && (e == 0 || u == 0 && e <= 1) && p.sp.Gravity() == (V{}) && p.b[0].GetType() != cp.BODY_KINEMATIC && !close && !p.spinners() {
		e1 := p.energy()
		t.Check(e1 <= e0*(1+1e-6)+1e-20, "energy", "%s: kinetic energy goes from %.17g to %.17g (elasticity %g, friction %g)", when, e0, e1, e, u)
		t.Ev("energies")
		if e == 1 && u == 0 && len(cs) == 1 {
			t.Check(near(e1, e0, 1e-6*e0), "energy-lost", "%s: a perfectly elastic impact without friction takes kinetic energy from %.17g to %.17g", when, e0, e1)
			t.Ev("energies_kept")
		}
	}
}

// correct checks the position correction that a step of dt2 adds for the contacts of the step of dt1 before it.
func (p *pairScene) correct(h hit, dt1, dt2 float64, when string) {
	t := p.t
	type st struct {
		c V
		a float64
	}
	var was [2]st
	var mv [2]moves
	for i, b := range p.b {
		was[i] = st{worldCog(b), b.Angle()}
		mv[i].v0, mv[i].w0 = b.Velocity(), b.AngularVelocity()
	}
	p.step(dt2, when)
	k := 0
	if h.x != p.b[0] {
		k = 1
	}
	var bv [2]V
	var bw [2]float64
	moved := 0.0
	for i, b := range p.b {
		bv[i] = vmul(vsub(vsub(worldCog(b), was[i].c), vmul(mv[i].v0, dt2)), 1/dt2)
		bw[i] = (b.Angle() - was[i].a - mv[i].w0*dt2) / dt2
		moved = math.Max(moved, (vlen(bv[i])+math.Abs(bw[i])*p.size)*dt2)
		if b.GetType() != cp.BODY_DYNAMIC {
			t.Check(vlen(bv[i])*dt2 <= 1e-9*(p.size+vlen(was[i].c)) && math.Abs(bw[i])*dt2 < 1e-9, "correction-moves-fixed", "%s: position correction moves a body that cannot be moved by %g", when, vlen(bv[i])*dt2)
		}
	}
	n := h.set.Normal
	coef := 1 - math.Pow(math.Pow(0.9, 60), dt1)
	tol := 1e-7*p.size/dt2 + 1e-9*(vlen(was[0].c)+vlen(was[1].c)+vlen(mv[0].v0)+vlen(mv[1].v0))/dt2
	close := !p.solvable(h, 0, moves{c: was[k].c, m: im(h.x), i: ii(h.x)}, moves{c: was[1-k].c, m: im(h.y), i: ii(h.y)})
	need := false
	over := true
	// the pushes of two contacts, from what they did to a body that can be moved and turned
	if h.set.Count == 2 && !close {
		for e, b := range []*cp.Body{h.x, h.y} {
			m, in := inverses(b)
			if m == 0 || in == 0 {
				continue
			}
			q, sg := k, -1.0
			if e == 1 {
				q, sg = 1-k, 1
			}
			var x [2]float64
			for i := range x {
				pt := h.set.Points[i].PointA
				if e == 1 {
					pt = h.set.Points[i].PointB
				}
				x[i] = vcross(vsub(pt, was[q].c), n)
			}
			sum, mom := sg*vdot(bv[q], n)/m, sg*bw[q]/in
			if l := math.Abs(x[1] - x[0]); l > 0.05*p.size {
				j1 := (mom - x[0]*sum) / (x[1] - x[0])
				lim := tol / m * (1 + (math.Abs(x[0])+math.Abs(x[1])+p.size*m/in)/l)
				t.Check(j1 >= -lim && sum-j1 >= -lim, "correction-pulls", "%s: position correction works with %.17g at one contact, %.17g at the other (to within %g)", when, sum-j1, j1, lim)
				t.Ev("correction_pushes")
			}
		}
	}
	for i := 0; i < h.set.Count; i++ {
		pt := h.set.Points[i]
		d := vdot(vsub(pt.PointB, pt.PointA), n)
		want := coef * math.Max(0, -(d+p.slop)) / dt1
		rx, ry := vsub(pt.PointA, was[k].c), vsub(pt.PointB, was[1-k].c)
		got := vdot(vsub(V{X: bv[1-k].X - bw[1-k]*ry.Y, Y: bv[1-k].Y + bw[1-k]*ry.X}, V{X: bv[k].X - bw[k]*rx.Y, Y: bv[k].Y + bw[k]*rx.X}), n)
		if want > tol {
			need = true
		}
		if !close {
			t.Check(got >= want-tol, "correction-too-small", "%s: contact %d of %d is %g deep with a slop of %g; correction parts it at %.17g, want %.17g", when, i, h.set.Count, -d, p.slop, got, want)
			if h.set.Count == 1 {
				t.Check(got <= want+tol, "correction-too-large", "%s: the contact is %g deep with a slop of %g; correction parts it at %.17g, want %.17g", when, -d, p.slop, got, want)
			}
			t.Ev("corrections")
		}
		if got <= want+tol {
			over = false
		}
	}
	if !close {
		t.Check(!over || moved <= tol*dt2, "correction-too-large", "%s: all %d contacts are parted faster than they have to be", when, h.set.Count)
	}
	if need {
		t.Ev("corrections_needed")
		if p.slop > 0 {
			t.Ev("corrections_with_slop")
		}
	} else {
		t.Check(moved <= tol*dt2, "corrected-within-slop", "%s: contacts within the slop of %g move the bodies by %g", when, p.slop, moved)
		t.Ev("within_slop")
	}
}

// c13pair: two bodies, many configurations, solved to convergence.
func c13pair(t *T) {
	r := t.R
	p := newPairScene(t, r.P(0.3))
	hits := 0
	if r.P(0.3) {
		p.sp.SetGravity(V{X: r.Range(-5, 5) * p.size, Y: r.Range(-10, 0) * p.size})
	}
	for n := 0; n < 6; n++ {
		p.surfaces()
		p.place()
		p.tamper = r.P(0.15)
		dt1 := r.Pick(1.0/60, r.LogRange(0.003, 0.05), r.LogRange(0.003, 0.5))
		for i := 0; i < 4; i++ {
			p.step(dt1, fmt.Sprintf("round %d step %d", n, i))
			if len(p.hits) == 0 {
				continue
			}
			hits++
			h := p.hits[0]
			dt2 := r.Pick(dt1, r.LogRange(0.003, 0.05))
			p.tamper = false
			p.correct(h, dt1, dt2, fmt.Sprintf("round %d correction %d", n, i))
			dt1 = dt2
		}
	}
	t.NonTrivial(p.size, hits)
}

// c13scene: every arbiter of full scenes stays in its cone, few iterations or many.
func c13scene(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Handlers = true
	conf.Friction, conf.Elasticity = r.Pick(0, 0.5, 2), r.Pick(0, 0.5, 1)
	conf.Arena *= r.Pick(0.5, 1)
	w := newWorld(t, r, conf)
	w.Sp.Iterations = uint(1 + r.Intn(15))
	n := 0
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		if kind == 'o' {
			takeHit(arb).cone(t, fmt.Sprintf("step %d", w.Steps))
			n++
		}
		return true
	}
	for i, k := 0, 20+r.Intn(60); i < k; i++ {
		w.ops()
		if len(w.Shapes) > 0 && r.P(0.3) {
			s := w.Shapes[r.Intn(len(w.Shapes))].S
			if s.Body().GetType() == cp.BODY_STATIC {
				s.Body().ActivateStatic(nil) // what sleeps on it would be woken with its contacts as they were
			}
			switch r.Intn(3) {
			case 0:
				s.SetFriction(r.Pick(0, 0.5, 3))
			case 1:
				s.SetElasticity(r.Pick(0, 0.5, 1))
			case 2:
				s.SetSurfaceV(w.vel())
			}
		}
		w.step(w.dt())
	}
	t.EvN("scene_hits", n)
	t.NonTrivial(len(t.trace), n)
}

// c13sink: overlapping bodies part at the bias rate, never further than the slop allows, and never fly apart.
func c13sink(t *T) {
	r := t.R
	p := newPairScene(t, r.P(0.3))
	p.slop = p.size * r.Pick(0.002, 0.02)
	p.sp.SetCollisionSlop(p.slop)
	for _, s := range p.s {
		s.SetElasticity(r.Pick(0, 1))
		s.SetFriction(r.Pick(0, 1))
	}
	p.place()
	for _, b := range p.b {
		b.SetVelocity(0, 0)
		b.SetAngularVelocity(0)
	}
	dt := r.Pick(1.0/60, r.LogRange(0.003, 0.03))
	first, last, touching := 0.0, 0.0, false
	for i := 0; i < int(3/dt); i++ {
		p.step(dt, fmt.Sprintf("sinking step %d", i))
		if len(p.hits) == 0 {
			if touching {
				t.Failf("parted", "step %d: two overlapping bodies at rest were %g deep with a slop of %g, and were parted altogether", i, last, p.slop)
			}
			return
		}
		depth := 0.0
		for _, c := range p.hits[0].set.Points[:p.hits[0].set.Count] {
			depth = math.Max(depth, -c.Distance)
		}
		if !touching {
			first, touching = depth, true
		}
		last = depth
		for _, b := range p.b {
			t.Check(vlen(b.Velocity()) <= 1e-9*p.size && math.Abs(b.AngularVelocity()) <= 1e-9, "correction-became-velocity", "step %d: an overlapping body at rest moves at %s, turns at %g", i, fv(b.Velocity()), b.AngularVelocity())
		}
	}
	if !touching {
		return
	}
	t.Check(last <= p.slop+0.01*p.size, "never-corrected", "after 3 s a penetration of %g is still %g deep with a slop of %g", first, last, p.slop)
	t.Ev("sinks")
	if first > p.slop*1.5 {
		t.Ev("sinks_corrected")
	}
	t.NonTrivial(first, p.slop)
}

func init() {
	register(&Prop{ID: "C13",
		Technique: "runtime monitor: contacts, impulses and velocities observed at every post-solve are judged against the contact laws (complementarity of normal impulse and rebound, friction cone, sliding direction, energy, rate of position correction)",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"pair", 15000, 600000, c13pair}, {"scene", 6000, 200000, c13scene}, {"sink", 4000, 160000, c13sink}},
		Need: map[string]int64{"cones": 100000, "sliding": 5000, "sticking": 5000, "restitutions": 20000, "bounces": 10000, "elastic_bounces": 1000, "stuck": 1000, "friction_opposes": 10000, "surface_velocity": 2000, "double_contacts": 5000, "double_bounces": 200,
			"energies": 5000, "energies_kept": 100, "corrections": 20000, "corrections_needed": 10000, "corrections_with_slop": 5000, "correction_pushes": 2000, "within_slop": 1000, "user_contacts": 1000, "scene_hits": 50000, "sinks": 300, "sinks_corrected": 200},
	})
}
