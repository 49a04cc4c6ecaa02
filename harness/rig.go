package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// A rig is one joint between two bodies that touch nothing.
type rig struct {
	sp   *cp.Space
	a, b *cp.Body
	j    *JSpec
	c    *cp.Constraint
	size float64
	dt   float64
	// velocities after the velocity update, before the solver
	va, vb V
	wa, wb float64
	hold   float64 // ratchet: the turn it does not let back
}

// rigBody is a body of any kind.
func rigBody(sp *cp.Space, r *Rand, size float64) *cp.Body {
	switch {
	case r.P(0.12):
		return sp.AddBody(cp.NewKinematicBody())
	case r.P(0.06):
		return sp.AddBody(cp.NewStaticBody())
	case r.P(0.06):
		return sp.StaticBody
	}
	b := loneBody(sp, r, size)
	return b
}

func rigPlace(r *Rand, x *cp.Body, size, speed float64) {
	x.SetPosition(V{X: r.Range(-2, 2) * size, Y: r.Range(-2, 2) * size})
	x.SetAngle(r.Range(-4, 4))
	if x.GetType() != cp.BODY_STATIC {
		x.SetVelocity(r.Range(-1, 1)*size*speed, r.Range(-1, 1)*size*speed)
		x.SetAngularVelocity(r.Range(-1, 1) * speed)
	}
}

// newRig: bodies anywhere, the joint between them made for the state they are in or for another one.
func newRig(r *Rand, kind string, size, speed float64) *rig {
	g := &rig{sp: cp.NewSpace(), size: size}
	g.sp.Iterations = uint(2 + r.Intn(15))
	for {
		g.a, g.b = rigBody(g.sp, r, size), rigBody(g.sp, r, size)
		if g.a != g.b && (g.a.GetType() == cp.BODY_DYNAMIC || g.b.GetType() == cp.BODY_DYNAMIC) {
			break
		}
	}
	rigPlace(r, g.a, size, speed)
	rigPlace(r, g.b, size, speed)
	g.j = genJSpec(r, kind, g.a, g.b, size)
	if g.j.linear() && r.P(0.1) { // cannot be turned
		g.a.SetMoment(cp.INFINITY)
	}
	return g
}

// build makes the joint and starts watching.
func (g *rig) build() {
	g.c = g.j.build(g.a, g.b)
	g.hold = g.b.Angle() - g.a.Angle()
	g.sp.AddConstraint(g.c)
	for _, x := range []*cp.Body{g.a, g.b} {
		if x.GetType() == cp.BODY_STATIC {
			continue
		}
		x.SetVelocityUpdateFunc(func(body *cp.Body, gr V, damp, dt float64) {
			cp.BodyUpdateVelocity(body, gr, damp, dt)
			g.read()
		})
	}
}

func (g *rig) read() {
	g.va, g.wa, g.vb, g.wb = g.a.Velocity(), g.a.AngularVelocity(), g.b.Velocity(), g.b.AngularVelocity()
}

func (g *rig) step(dt float64) {
	g.dt = dt
	g.read()
	g.sp.Step(dt)
}

// rate is how fast an error is to be corrected.
func (g *rig) rate(e float64) float64 {
	return clampf(-(1-math.Pow(g.j.ErrBias, g.dt))*e/g.dt, -g.j.MaxB, g.j.MaxB)
}

func (g *rig) rateV(e V) V {
	d := vmul(e, -(1-math.Pow(g.j.ErrBias, g.dt))/g.dt)
	if l := vlen(d); l > g.j.MaxB {
		d = vmul(d, g.j.MaxB/l)
	}
	return d
}

func clampf(x, lo, hi float64) float64 { return math.Min(math.Max(x, lo), hi) }

// pointVel is the velocity of the material of a body at a place.
func pointVel(b *cp.Body, at V, v V, w float64) V {
	r := vsub(at, worldCog(b))
	return V{X: v.X - w*r.Y, Y: v.Y + w*r.X}
}

// relVel is the velocity of the joint's point on b against that on a, now and before the solver.
func (g *rig) relVel() (pa, pb, now, was V) {
	pa, pb = g.j.points(g.a, g.b)
	now = vsub(pointVel(g.b, pb, g.b.Velocity(), g.b.AngularVelocity()), pointVel(g.a, pa, g.a.Velocity(), g.a.AngularVelocity()))
	was = vsub(pointVel(g.b, pb, g.vb, g.wb), pointVel(g.a, pa, g.va, g.wa))
	return
}

func (g *rig) twist() float64 { return g.b.Angle() - g.a.Angle() }

// ledger: equal and opposite, and as reported.
func (g *rig) ledger(t *T, when string) (J V, jw float64) {
	return jointLedger(t, g.j, g.a, g.b, motionOf(g.a, g.va, g.wa), motionOf(g.b, g.vb, g.wb), g.c.Class.GetImpulse(), when)
}

// notch updates what a ratchet holds and returns how far it has been turned back beyond that.
func (g *rig) notch() (back float64) {
	d := g.twist()
	if (g.hold-d)*g.j.Ratio > 0 {
		return g.hold - d
	}
	g.hold = math.Floor((d-g.j.Phase)/g.j.Ratio)*g.j.Ratio + g.j.Phase
	return 0
}

// spread is a momentum to measure rounding by.
func (g *rig) spread() float64 {
	s := 0.0
	for _, b := range []*cp.Body{g.a, g.b} {
		if b.GetType() == cp.BODY_DYNAMIC {
			s += b.Mass() * (vlen(b.Velocity()) + math.Abs(b.AngularVelocity())*g.size + 1e-3)
		}
	}
	return s
}
