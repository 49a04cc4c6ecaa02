package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// A JSpec describes a joint independently of the library.
type JSpec struct {
	Kind       string
	A, B       V       // anchors on the bodies, local
	GA, GB     V       // groove on body a, local
	Min, Max   float64 // slide and rotary limit
	Dist       float64 // pin
	Phase      float64 // gear, ratchet
	Ratio      float64 // gear, ratchet
	Rate       float64 // motor
	Rest       float64 // springs
	Stiff      float64
	Damp       float64
	MaxF, MaxB float64
	ErrBias    float64
	World      *V // pivot: made from this point of the world
}

var linearJoints = []string{"pin", "slide", "pivot", "groove", "spring"}
var angularJoints = []string{"limit", "ratchet", "gear", "motor", "rotspring"}

func (j *JSpec) linear() bool {
	switch j.Kind {
	case "pin", "slide", "pivot", "groove", "spring":
		return true
	}
	return false
}

func (j *JSpec) String() string { return fmt.Sprintf("%+v", *j) }

// genJSpec invents a joint; the bodies may be anywhere, so that it starts violated most of the time.
func genJSpec(r *Rand, kind string, a, b *cp.Body, size float64) *JSpec {
	rv := func() V {
		switch r.Intn(6) {
		case 0:
			return V{}
		case 1:
			return V{X: r.Range(-1, 1) * size}
		}
		return V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size}
	}
	j := &JSpec{Kind: kind, A: rv(), B: rv(), MaxF: cp.INFINITY, MaxB: cp.INFINITY, ErrBias: math.Pow(0.9, 60)}
	rel := b.Angle() - a.Angle()
	d := vdist(worldAnchor(a, j.A), worldAnchor(b, j.B))
	switch kind {
	case "pin":
		j.Dist = d // as constructed; bodies may be moved later
	case "slide":
		x := d * r.Range(0, 2)
		j.Min, j.Max = x, x+r.Pick(0, 1)*r.Range(0.1, 1)*size
		if r.P(0.3) {
			j.Min = 0
		}
	case "groove":
		j.GA, j.GB = rv(), rv()
		for vdist(j.GA, j.GB) < 0.2*size {
			j.GB = vadd(rv(), V{X: size})
		}
	case "spring":
		j.Rest, j.Stiff, j.Damp = d*r.Range(0, 2), r.Pick(0, 1)*r.LogRange(0.1, 100), r.Pick(0, 1)*r.LogRange(0.1, 100)
	case "rotspring":
		j.Rest, j.Stiff, j.Damp = rel+r.Range(-2, 2), r.Pick(0, 1)*r.LogRange(0.1, 100)*size*size, r.Pick(0, 1)*r.LogRange(0.1, 100)*size*size
	case "limit":
		x := rel + r.Range(-1, 1)
		j.Min, j.Max = x, x+r.Pick(0, 1)*r.Range(0, 1)
	case "ratchet":
		j.Phase, j.Ratio = r.Range(-1, 1), r.Sign()*r.Range(0.1, 1.5)
	case "gear":
		j.Phase, j.Ratio = r.Range(-1, 1), r.Sign()*r.LogRange(0.3, 3)
		if r.P(0.2) {
			j.Ratio = 1
		}
	case "motor":
		j.Rate = r.Range(-5, 5)
	}
	return j
}

func (j *JSpec) build(a, b *cp.Body) *cp.Constraint {
	var c *cp.Constraint
	switch j.Kind {
	case "pin":
		c = cp.NewPinJoint(a, b, j.A, j.B)
	case "slide":
		c = cp.NewSlideJoint(a, b, j.A, j.B, j.Min, j.Max)
	case "pivot":
		if j.World != nil {
			c = cp.NewPivotJoint(a, b, *j.World)
		} else {
			c = cp.NewPivotJoint2(a, b, j.A, j.B)
		}
	case "groove":
		c = cp.NewGrooveJoint(a, b, j.GA, j.GB, j.B)
	case "spring":
		c = cp.NewDampedSpring(a, b, j.A, j.B, j.Rest, j.Stiff, j.Damp)
	case "rotspring":
		c = cp.NewDampedRotarySpring(a, b, j.Rest, j.Stiff, j.Damp)
	case "limit":
		c = cp.NewRotaryLimitJoint(a, b, j.Min, j.Max)
	case "ratchet":
		c = cp.NewRatchetJoint(a, b, j.Phase, j.Ratio)
	case "gear":
		c = cp.NewGearJoint(a, b, j.Phase, j.Ratio)
	case "motor":
		c = cp.NewSimpleMotor(a, b, j.Rate)
	default:
		panic(j.Kind)
	}
	if j.MaxF != cp.INFINITY {
		c.SetMaxForce(j.MaxF)
	}
	if j.MaxB != cp.INFINITY {
		c.SetMaxBias(j.MaxB)
	}
	if j.ErrBias != math.Pow(0.9, 60) {
		c.SetErrorBias(j.ErrBias)
	}
	return c
}

// worldAnchor is where a local point is, from position and angle alone.
func worldAnchor(b *cp.Body, p V) V { return vadd(b.Position(), vrot(p, b.Angle())) }

func worldCog(b *cp.Body) V { return worldAnchor(b, b.CenterOfGravity()) }

// points are the places on the two bodies where a linear joint acts.
func (j *JSpec) points(a, b *cp.Body) (pa, pb V) {
	pb = worldAnchor(b, j.B)
	if j.Kind == "groove" {
		return closestOnSeg(pb, worldAnchor(a, j.GA), worldAnchor(a, j.GB)), pb
	}
	return worldAnchor(a, j.A), pb
}

// motion of a body between two moments.
type motion struct {
	m, i   float64 // 0: infinite
	dv     V
	dw     float64
	sv, sw float64 // magnitudes
}

func motionOf(b *cp.Body, v0 V, w0 float64) motion {
	x := motion{dv: vsub(b.Velocity(), v0), dw: b.AngularVelocity() - w0, sv: vlen(b.Velocity()) + vlen(v0), sw: math.Abs(b.AngularVelocity()) + math.Abs(w0)}
	if b.GetType() == cp.BODY_DYNAMIC {
		x.m, x.i = b.Mass(), b.Moment()
		if x.i > 1e300 {
			x.i = 0
		}
	}
	return x
}

// jointLedger checks that the changes of velocity of two bodies are those of one equal and opposite impulse, applied
// where the joint acts and as large as the joint reports. It returns the impulse on b.
func jointLedger(t *T, j *JSpec, a, b *cp.Body, ma, mb motion, reported float64, when string) (J V, jw float64) {
	const tol = 1e-8
	fail := func(ok bool, kind, f string, args ...interface{}) {
		t.Check(ok, kind, "%s: %s (%s): m=%g,%g i=%g,%g dv=%s,%s dw=%.17g,%.17g reported %.17g", when, fmt.Sprintf(f, args...), j, ma.m, mb.m, ma.i, mb.i, fv(ma.dv), fv(mb.dv), ma.dw, mb.dw, reported)
	}
	if !j.linear() {
		for _, m := range []motion{ma, mb} {
			fail(m.dv == V{}, "moved-by-angular-joint", "an angular joint changes the linear velocity by %s", fv(m.dv))
		}
		ra := 1.0 // what a gets for one of b
		if j.Kind == "gear" {
			ra = 1 / j.Ratio
		}
		sc := ma.i*(ma.sw+0.01) + mb.i*(mb.sw+0.01) + math.Abs(reported)
		if mb.i > 0 {
			jw = mb.i * mb.dw
		} else {
			jw = -ma.i * ma.dw / ra
		}
		if ma.i > 0 && mb.i > 0 {
			fail(near(ma.i*ma.dw, -jw*ra, tol*sc*(1+math.Abs(ra))), "angular-momentum", "body a gets %.17g for %.17g of b", ma.i*ma.dw, jw)
		}
		if ma.i > 0 || mb.i > 0 {
			fail(near(math.Abs(jw), math.Abs(reported), tol*sc*(1+1/math.Abs(ra))), "reported-impulse", "transferred %.17g", jw)
		}
		t.Ev("ledger_" + j.Kind)
		return
	}
	pa, pb := j.points(a, b)
	ca, cb := worldCog(a), worldCog(b)
	r1, r2 := vsub(pa, ca), vsub(pb, cb)
	sc := ma.m*(ma.sv+0.01) + mb.m*(mb.sv+0.01) + math.Abs(reported)
	if ma.m > 0 && mb.m > 0 {
		fail(vlen(vadd(vmul(ma.dv, ma.m), vmul(mb.dv, mb.m))) <= tol*sc, "momentum", "bodies get %s and %s", fv(vmul(ma.dv, ma.m)), fv(vmul(mb.dv, mb.m)))
	}
	if mb.m > 0 {
		J = vmul(mb.dv, mb.m)
	} else {
		J = vmul(ma.dv, -ma.m)
	}
	fail(near(vlen(J), math.Abs(reported), tol*sc), "reported-impulse", "transferred %s", fv(J))
	pos := 1 + vlen(pa) + vlen(pb) + vlen(ca) + vlen(cb)
	if ma.i > 0 {
		fail(near(ma.i*ma.dw, -vcross(r1, J), tol*(ma.i*ma.sw+sc*pos)), "lever", "body a at lever %s turns by %.17g for %s", fv(r1), ma.i*ma.dw, fv(vmul(J, -1)))
	}
	if mb.i > 0 {
		fail(near(mb.i*mb.dw, vcross(r2, J), tol*(mb.i*mb.sw+sc*pos)), "lever", "body b at lever %s turns by %.17g for %s", fv(r2), mb.i*mb.dw, fv(J))
	}
	d := vsub(pb, pa)
	switch j.Kind {
	case "pin", "slide", "spring":
		if l := vlen(d); l > 1e-6*pos {
			fail(math.Abs(vcross(J, d))/l <= 1e-7*sc*(1+pos/l*1e-3), "direction", "impulse %s does not act along %s", fv(J), fv(d))
		}
	}
	t.Ev("ledger_" + j.Kind)
	return
}

// loneBody adds a dynamic body that touches nothing, with its centre of gravity anywhere.
func loneBody(sp *cp.Space, r *Rand, size float64) *cp.Body {
	m := r.LogRange(0.1, 100)
	b := sp.AddBody(cp.NewBody(m, m*size*size*r.LogRange(0.05, 2)))
	if r.P(0.4) {
		s := sp.AddShape(cp.NewCircle(b, size*r.LogRange(0.3, 2), V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size}))
		s.SetFilter(cp.SHAPE_FILTER_NONE)
		s.SetMass(m)
	}
	return b
}
