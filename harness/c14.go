package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// obeys checks the velocities a joint leaves behind, from the poses alone: the error is corrected at its rate, or as far
// as the largest allowed impulse goes.
func obeys(t *T, g *rig, when string) (broken float64, acted bool) {
	j, r := g.j, g.rate
	J, jw := g.ledger(t, when)
	size := vlen(J) + math.Abs(jw)
	most := math.Min(j.MaxF, cp.INFINITY) * g.dt
	if j.MaxF >= cp.INFINITY {
		most = math.Inf(1)
	}
	full := size >= most*(1-1e-9)-1e-9*g.spread() // all the force there is
	if most < math.Inf(1) {
		t.Check(size <= most*(1+1e-9)+1e-9*g.spread(), "force-limit", "%s: a joint transferred %.17g, at most %.17g is allowed in a step of %g %s", when, size, most, g.dt, j)
		t.Check(math.Abs(g.c.Class.GetImpulse()) <= most*(1+1e-9), "force-limit-report", "%s: a joint reports %.17g, at most %.17g is allowed in a step of %g %s", when, g.c.Class.GetImpulse(), most, g.dt, j)
		t.Ev("force_limited")
		if full {
			t.Ev("force_saturated")
		}
	}
	if j.MaxB < cp.INFINITY {
		t.Ev("bias_limited")
	}
	sv := 1 + vlen(g.va) + vlen(g.vb) + (math.Abs(g.wa)+math.Abs(g.wb))*g.size
	// rounding grows with the ratio of the masses and with the levers
	cond := 1.0
	for _, b := range []*cp.Body{g.a, g.b} {
		if b.GetType() != cp.BODY_DYNAMIC {
			continue
		}
		cond = math.Max(cond, b.Mass()*g.size*g.size/b.Moment())
		sv = math.Max(sv, vlen(b.Velocity())+math.Abs(b.AngularVelocity())*g.size)
	}
	if mx := math.Max(g.a.Mass(), g.b.Mass()) / math.Min(g.a.Mass(), g.b.Mass()); mx < 1e12 {
		cond *= mx
	}
	eq := func(got, was, want float64, kind, what string) {
		tol := 1e-11 * cond * (sv + math.Abs(want))
		if full {
			t.Check(got >= math.Min(was, want)-tol && got <= math.Max(was, want)+tol, kind+"-saturated", "%s: with all its force %s went from %.17g to %.17g, want towards %.17g %s", when, what, was, got, want, j)
			return
		}
		t.Check(near(got, want, tol), kind, "%s: %s is %.17g after a step of %g, want %.17g (tolerance %g) %s", when, what, got, g.dt, want, tol, j)
		t.Ev("rates_checked")
	}
	// oneSided: x must reach want from below and the joint may only push it up.
	oneSided := func(x, was, want, push float64, kind string) {
		tol := 1e-11 * cond * (sv + math.Abs(want))
		if full && x < want {
			t.Check(x >= was-tol, kind+"-saturated", "%s: with all its force the error is corrected at %.17g, before at %.17g %s", when, x, was, j)
			return
		}
		t.Check(x >= want-tol, kind+"-too-slow", "%s: the error is corrected at %.17g in a step of %g, want %.17g %s", when, x, g.dt, want, j)
		t.Check(push >= -tol, kind+"-wrong-way", "%s: the joint acts in its forbidden direction by %.17g %s", when, push, j)
		if was > want+tol {
			t.Check(near(x, was, tol), kind+"-pointless", "%s: already corrected at %.17g of %.17g, but changed to %.17g %s", when, was, want, x, j)
			t.Ev("no_push_needed")
		} else {
			t.Check(near(x, want, tol), kind+"-overshoot", "%s: the error is corrected at %.17g in a step of %g, want %.17g %s", when, x, g.dt, want, j)
			t.Ev("one_sided_pushes")
		}
	}
	idle := func(kind string) {
		t.Check(g.a.Velocity() == g.va && g.b.Velocity() == g.vb && g.a.AngularVelocity() == g.wa && g.b.AngularVelocity() == g.wb, kind,
			"%s: a joint within its range changes a from %s %.17g to %s %.17g, b from %s %.17g to %s %.17g %s", when, fv(g.va), g.wa, fv(g.a.Velocity()), g.a.AngularVelocity(), fv(g.vb), g.wb, fv(g.b.Velocity()), g.b.AngularVelocity(), j)
		t.Check(g.c.Class.GetImpulse() == 0, "idle-report", "%s: a joint within its range reports %g %s", when, g.c.Class.GetImpulse(), j)
		t.Ev("idle_" + j.Kind)
	}
	const edge = 1e-9
	if j.linear() {
		pa, pb, now, was := g.relVel()
		d := vsub(pb, pa)
		l := vlen(d)
		n := vmul(d, 1/l)
		acted = vlen(J) > 0
		far := 1 + vlen(pa) + vlen(pb)
		switch j.Kind {
		case "pin":
			if l < 1e-6*far {
				return 0, acted // no direction
			}
			cond *= math.Max(1, far/l) * (1 + vlen(was)*1e-3)
			eq(vdot(now, n), vdot(was, n), r(l-j.Dist), "pin-rate", "the rate of the distance")
			broken = math.Abs(l - j.Dist)
		case "slide":
			if l < 1e-6*far {
				return 0, acted
			}
			cond *= math.Max(1, far/l)
			switch {
			case l > j.Max+edge*far:
				oneSided(-vdot(now, n), -vdot(was, n), -r(l-j.Max), -vdot(J, n), "slide-max")
				broken = l - j.Max
				t.Ev("slide_long")
			case l < j.Min-edge*far:
				oneSided(vdot(now, n), vdot(was, n), r(l-j.Min), vdot(J, n), "slide-min")
				broken = j.Min - l
				t.Ev("slide_short")
			case l < j.Max-edge*far && l > j.Min+edge*far:
				idle("slide-idle")
			}
		case "pivot":
			want := g.rateV(d)
			eq(now.X, was.X, want.X, "pivot-rate", "the relative velocity in x")
			eq(now.Y, was.Y, want.Y, "pivot-rate", "the relative velocity in y")
			if got, whole := vsub(now, was), vsub(want, was); full {
				tol := 1e-10 * cond * (sv + vlen(whole))
				t.Check(math.Abs(vcross(got, whole)) <= tol*vlen(whole), "pivot-aside", "%s: with all its force the relative velocity changed by %s, want along %s %s", when, fv(got), fv(whole), j)
			}
			broken = l
		case "groove":
			ga, gb := worldAnchor(g.a, j.GA), worldAnchor(g.a, j.GB)
			u := vmul(vsub(gb, ga), 1/vdist(gb, ga))
			q := V{X: -u.Y, Y: u.X}
			s, whole := vdot(vsub(pb, ga), u), vdist(ga, gb)
			want := g.rateV(d)
			broken = l
			if math.Abs(s) < edge*far || math.Abs(s-whole) < edge*far {
				return
			}
			if full && (s < 0 || s > whole) {
				return // the limit shortens the impulse as a whole
			}
			eq(vdot(now, q), vdot(was, q), vdot(want, q), "groove-rate", "the velocity across the groove")
			scJ := 1e-9 * (vlen(J) + sv)
			switch {
			case s < 0:
				oneSided(vdot(now, u), vdot(now, u), vdot(want, u), vdot(J, u), "groove-end")
				t.Ev("groove_end")
			case s > whole:
				oneSided(-vdot(now, u), -vdot(now, u), -vdot(want, u), -vdot(J, u), "groove-end")
				t.Ev("groove_end")
			default:
				t.Check(math.Abs(vdot(J, u)) <= scJ*far, "groove-along", "%s: the groove pushes %s along itself %s", when, fv(J), j)
				t.Ev("groove_inside")
			}
		}
		return
	}
	acted = jw != 0
	wr, was := g.b.AngularVelocity()-g.a.AngularVelocity(), g.wb-g.wa
	d := g.twist()
	switch j.Kind {
	case "limit":
		switch {
		case d > j.Max:
			oneSided(-wr, -was, -r(d-j.Max), -jw, "limit-max")
			broken = d - j.Max
			t.Ev("limit_over")
		case d < j.Min:
			oneSided(wr, was, r(d-j.Min), jw, "limit-min")
			broken = j.Min - d
			t.Ev("limit_under")
		default:
			idle("limit-idle")
		}
	case "ratchet":
		back := g.notch()
		s := math.Copysign(1, j.Ratio)
		if back*s > 1e-12 {
			oneSided(wr*s, was*s, math.Abs(r(back)), jw*s, "ratchet")
			broken = math.Abs(back)
			t.Ev("ratchet_back")
		} else if back == 0 {
			idle("ratchet-idle")
		}
	case "gear":
		e := g.b.Angle()*j.Ratio - g.a.Angle() - j.Phase
		cond *= math.Abs(j.Ratio) + 1/math.Abs(j.Ratio)
		eq(g.b.AngularVelocity()*j.Ratio-g.a.AngularVelocity(), g.wb*j.Ratio-g.wa, r(e), "gear-rate", "the rate of the gear's error")
		broken = math.Abs(e)
	case "motor":
		eq(-wr, -was, j.Rate, "motor-rate", "the rate of the motor")
	}
	return
}

func c14kind(r *Rand) string {
	return []string{"pin", "slide", "pivot", "groove", "groove", "limit", "ratchet", "gear", "motor"}[r.Intn(9)]
}

// c14law: one joint, bodies in any state, the velocities after every step.
func c14law(t *T) {
	r := t.R
	kind := c14kind(r)
	g := newRig(r, kind, r.LogRange(0.5, 10), r.Pick(0, 0.3, 3))
	if r.P(0.3) {
		g.j.MaxB = r.Pick(0, r.LogRange(0.05, 20), r.LogRange(0.05, 20))
	}
	if r.P(0.4) {
		g.j.ErrBias = r.Pick(0, 0.5, r.LogRange(1e-8, 1), 1)
	}
	if kind == "pivot" && r.P(0.3) { // given by a point of the world
		at := V{X: r.Range(-2, 2) * g.size, Y: r.Range(-2, 2) * g.size}
		g.j.A, g.j.B = vrot(vsub(at, g.a.Position()), -g.a.Angle()), vrot(vsub(at, g.b.Position()), -g.b.Angle())
		g.j.World = &at
		t.Ev("pivots_by_world_point")
	}
	g.build()
	if r.P(0.3) {
		g.sp.SetGravity(V{X: r.Range(-10, 10), Y: r.Range(-10, 10)})
	}
	did := 0
	dt := 1.0 / 60
	for i := 0; i < 30; i++ {
		if r.P(0.1) {
			rigPlace(r, g.a, g.size, 3)
		}
		if r.P(0.1) {
			rigPlace(r, g.b, g.size, 3)
		}
		if r.P(0.1) {
			dt = r.LogRange(0.003, 0.05)
		}
		for _, b := range []*cp.Body{g.a, g.b} {
			if r.P(0.1) && b.GetType() == cp.BODY_DYNAMIC {
				b.SetForce(V{X: r.Range(-100, 100), Y: r.Range(-100, 100)})
				b.SetTorque(r.Range(-100, 100))
			}
		}
		c14retune(r, g)
		c14remass(t, g)
		g.step(dt)
		if !finite(g.a.Angle(), g.b.Angle(), g.a.Position().X, g.b.Position().X) {
			t.Failf("nan", "a joint makes the state infinite %s", g.j)
		}
		if _, acted := obeys(t, g, fmt.Sprintf("step %d", i)); acted {
			did++
		}
		t.Ev("steps_" + kind)
	}
	t.EvN("acting_"+kind, did)
	t.NonTrivial(kind, did, g.a.GetType(), g.b.GetType(), g.j.MaxB, g.j.ErrBias)
	t.Sample("%s", g.j)
}

// c14retune changes the joint's own settings while it is in use.
func c14retune(r *Rand, g *rig) {
	if !r.P(0.15) {
		return
	}
	j := g.j
	if r.P(0.3) {
		j.ErrBias, j.MaxB = r.Pick(0, 0.5, r.LogRange(1e-8, 1), 1), r.Pick(0, cp.INFINITY, r.LogRange(0.05, 20))
		g.c.SetErrorBias(j.ErrBias)
		g.c.SetMaxBias(j.MaxB)
	}
	rv := func() V {
		if r.P(0.1) {
			return V{}
		}
		return V{X: r.Range(-1, 1) * g.size, Y: r.Range(-1, 1) * g.size}
	}
	anchors := func(a, b *V) {
		if a != nil && r.P(0.5) {
			j.A = rv()
			*a = j.A
		}
		if r.P(0.5) {
			j.B = rv()
			*b = j.B
		}
	}
	switch c := g.c.Class.(type) {
	case *cp.PinJoint:
		j.Dist = r.Range(0, 2) * g.size
		c.Dist = j.Dist
		anchors(&c.AnchorA, &c.AnchorB)
	case *cp.SlideJoint:
		j.Min = r.Range(0, 2) * g.size
		j.Max = j.Min + r.Range(0, 1)*g.size
		c.Min, c.Max = j.Min, j.Max
		anchors(&c.AnchorA, &c.AnchorB)
	case *cp.PivotJoint:
		anchors(&c.AnchorA, &c.AnchorB)
	case *cp.GrooveJoint:
		anchors(nil, &c.AnchorB)
		if r.P(0.5) {
			j.GA, j.GB = rv(), rv()
			for vdist(j.GA, j.GB) < 0.2*g.size {
				j.GB = vadd(rv(), V{X: g.size})
			}
			c.GrooveA, c.GrooveB = j.GA, j.GB
			d := vmul(vsub(j.GB, j.GA), 1/vdist(j.GA, j.GB))
			c.GrooveN = V{X: -d.Y, Y: d.X}
		}
	case *cp.DampedSpring:
		j.Rest, j.Stiff, j.Damp = r.Range(0, 3)*g.size, r.Pick(0, 1)*r.LogRange(0.1, 100), r.Pick(0, 1, 1)*r.LogRange(0.01, 1e4)
		if r.P(0.4) { // only one of them
			j.Rest, j.Stiff = c.RestLength, c.Stiffness
		} else if r.P(0.4) {
			j.Damp = c.Damping
		}
		c.RestLength, c.Stiffness, c.Damping = j.Rest, j.Stiff, j.Damp
		anchors(&c.AnchorA, &c.AnchorB)
	case *cp.DampedRotarySpring:
		j.Rest, j.Stiff, j.Damp = r.Range(-4, 4), r.Pick(0, 1)*r.LogRange(0.1, 100), r.Pick(0, 1, 1)*r.LogRange(0.01, 1e4)
		if r.P(0.4) {
			j.Rest, j.Stiff = c.RestAngle, c.Stiffness
		} else if r.P(0.4) {
			j.Damp = c.Damping
		}
		c.RestAngle, c.Stiffness, c.Damping = j.Rest, j.Stiff, j.Damp
	case *cp.RotaryLimitJoint:
		j.Min = r.Range(-3, 3)
		j.Max = j.Min + r.Range(0, 1)
		c.Min, c.Max = j.Min, j.Max
	case *cp.RatchetJoint:
		if r.P(0.5) {
			j.Phase, j.Ratio = r.Range(-1, 1), r.Sign()*r.Range(0.1, 1.5)
			c.Phase, c.Ratchet = j.Phase, j.Ratio
		} else {
			g.hold = r.Range(-4, 4)
			c.Angle = g.hold
		}
	case *cp.SimpleMotor:
		j.Rate = r.Range(-5, 5)
		c.Rate = j.Rate
	}
}

// c14remass gives a body of the rig another mass and moment while the joint is in use.
func c14remass(t *T, g *rig) {
	r := t.R
	if !r.P(0.08) {
		return
	}
	b := g.a
	if r.P(0.5) {
		b = g.b
	}
	if b.GetType() != cp.BODY_DYNAMIC || b.Moment() > 1e300 {
		return
	}
	m := r.LogRange(0.1, 100)
	if r.P(0.7) {
		b.SetMass(m)
	}
	if r.P(0.7) {
		b.SetMoment(m * g.size * g.size * r.LogRange(0.05, 2))
	}
	t.Ev("remassed")
}

// c14course: left alone, every joint brings its error down step by step at its rate and holds it there.
func c14course(t *T) {
	r := t.R
	kind := c14kind(r)
	for kind == "motor" {
		kind = c14kind(r)
	}
	g := newRig(r, kind, r.LogRange(0.5, 10), 0)
	g.j.ErrBias = math.Pow(1-r.Pick(0.05, 0.1, 0.2), 60)
	g.build()
	rigPlace(r, g.b, g.size, 0)
	g.sp.SetDamping(0.05)
	dt := r.Pick(1.0/60, 1.0/120)
	first, last, was := 0.0, 0.0, math.Inf(1)
	angular := !g.j.linear()
	n := int(10 / dt)
	if angular {
		n = 300
	}
	for i := 0; i < n; i++ {
		g.step(dt)
		e, _ := obeys(t, g, fmt.Sprintf("course step %d", i))
		if i == 0 {
			first = e
		}
		if angular && was < math.Inf(1) && kind == "gear" {
			// a plain sequence: e, e(1-c), e(1-c)^2, ...
			c := 1 - math.Pow(g.j.ErrBias, dt)
			t.Check(near(e, was*(1-c), 1e-9*(1+first+math.Abs(g.a.Angle())+math.Abs(g.b.Angle()))), "course", "the error goes from %.17g to %.17g in a step, want %.17g %s", was, e, was*(1-c), g.j)
			t.Ev("course_steps")
		}
		was, last = e, e
	}
	t.Check(last <= 1e-3*first+1e-3*g.size, "not-enforced", "after 10 s the error of a joint is %g, was %g %s", last, first, g.j)
	t.Ev("courses")
	if first > 0.01*g.size {
		t.Ev("courses_from_violation")
	}
	t.NonTrivial(kind, first)
}

// mirrored is the same joint with its bodies the other way round.
func (j *JSpec) mirrored() *JSpec {
	m := *j
	m.A, m.B = j.B, j.A
	switch j.Kind {
	case "limit":
		m.Min, m.Max = -j.Max, -j.Min
	case "ratchet":
		m.Phase, m.Ratio = -j.Phase, -j.Ratio
	case "gear":
		m.Ratio, m.Phase = 1/j.Ratio, -j.Phase/j.Ratio
	case "motor":
		m.Rate = -j.Rate
	case "rotspring":
		m.Rest = -j.Rest
	}
	return &m
}

// c14mirror: the same two bodies with the joint listed a-b and b-a.
func c14mirror(t *T) {
	r := t.R
	kind := []string{"pin", "slide", "pivot", "limit", "ratchet", "gear", "motor", "spring", "rotspring"}[r.Intn(9)]
	seed := r.U64()
	mk := func(swap bool) *rig {
		q := newRand(seed)
		g := newRig(q, kind, q.LogRange(0.5, 10), 1)
		if q.P(0.4) && kind != "gear" { // a gear's limits are in terms of its own ratio
			g.j.MaxF = q.LogRange(1, 1e4)
		}
		if q.P(0.3) && kind != "gear" {
			g.j.MaxB = q.LogRange(0.05, 20)
		}
		if swap {
			g.a, g.b, g.j = g.b, g.a, g.j.mirrored()
		}
		g.build()
		return g
	}
	x, y := mk(false), mk(true)
	spd := 0.0
	for i := 0; i < 12; i++ {
		x.step(1.0 / 60)
		y.step(1.0 / 60)
		for k, p := range [][2]*cp.Body{{x.a, y.b}, {x.b, y.a}} {
			spd = math.Max(spd, 1+vlen(p[0].Velocity())+math.Abs(p[0].AngularVelocity())*x.size)
			tol := 1e-7 * spd * (1 + x.size)
			if x.j.linear() {
				tol *= 10
			}
			t.Check(vdist(p[0].Velocity(), p[1].Velocity()) <= tol && near(p[0].AngularVelocity(), p[1].AngularVelocity(), tol), "asymmetric",
				"step %d: body %d moves at %s, %.17g with the joint listed one way, at %s, %.17g with it the other way round %s", i, k, fv(p[0].Velocity()), p[0].AngularVelocity(), fv(p[1].Velocity()), p[1].AngularVelocity(), x.j)
		}
		t.Ev("mirror_steps")
	}
	t.NonTrivial(kind, x.a.GetType(), x.b.GetType(), x.j.A.X)
}

// c14chain: a hanging chain of joints under gravity stays together.
func c14chain(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(30 + r.Intn(30))
	size := r.LogRange(0.5, 10)
	gr := size * r.Range(3, 15)
	sp.SetGravity(V{Y: -gr})
	sp.SetDamping(r.Pick(0.5, 0.3))
	kind := []string{"pin", "slide", "pivot", "groove"}[r.Intn(4)]
	n := 2 + r.Intn(5)
	prev := sp.StaticBody
	type link struct {
		j    *JSpec
		a, b *cp.Body
	}
	var links []link
	at := V{}
	for i := 0; i < n; i++ {
		m := r.Range(0.5, 2)
		b := sp.AddBody(cp.NewBody(m, cp.MomentForBox(m, size, size*0.2)))
		b.SetPosition(vadd(at, V{X: size / 2}))
		j := &JSpec{Kind: kind, B: V{X: -size / 2}, MaxF: cp.INFINITY, MaxB: cp.INFINITY, ErrBias: math.Pow(0.9, 60)}
		if prev != sp.StaticBody {
			j.A = V{X: size / 2}
		}
		switch kind {
		case "pin", "slide":
			// a gap between the anchors, so that there is a direction
			gap := size * 0.5
			b.SetPosition(vadd(b.Position(), V{X: gap}))
			j.Dist, j.Min, j.Max = gap, gap*r.Range(0, 1), gap*r.Range(1, 1.5)
			at = vadd(at, V{X: gap})
		case "groove":
			j.GA, j.GB = vadd(j.A, V{X: -0.1 * size}), vadd(j.A, V{X: 0.1 * size, Y: 0.05 * size})
		}
		x, y := prev, b
		if kind != "groove" && r.P(0.5) {
			j.A, j.B = j.B, j.A
			x, y = b, prev
		}
		sp.AddConstraint(j.build(x, y))
		links = append(links, link{j, x, y})
		at = vadd(at, V{X: size})
		prev = b
	}
	worst := 0.0
	for i := 0; i < 400; i++ {
		sp.Step(1.0 / 60)
		for k, l := range links {
			pa, pb := l.j.points(l.a, l.b)
			d := vdist(pa, pb)
			e := d
			switch kind {
			case "pin":
				e = math.Abs(d - l.j.Dist)
			case "slide":
				e = math.Max(math.Max(0, d-l.j.Max), l.j.Min-d)
			}
			worst = math.Max(worst, e/size)
			t.Check(e <= 0.3*size, "chain-torn", "step %d: link %d of a chain of %d %s joints is off by %g (size %g)", i, k, n, kind, e, size)
		}
	}
	for _, x := range []float64{0.03, 0.1, 0.2} {
		if worst > x {
			t.Ev(fmt.Sprintf("chain_worst_over_%g", x))
		}
	}
	t.Ev("chains_" + kind)
	t.NonTrivial(kind, n, worst)
}

var restKinds = []string{"pin", "slide", "pivot", "groove", "gear", "motor", "limit"}

// c14rest: a chain hanging straight down (or a train of bodies held against a torque) comes to rest.
// From then on the impulses of one step, scaled by the ratio of the step sizes, are those of the next, so that it
// stays at rest whatever the step sizes and however few the iterations.
func c14rest(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(15 + r.Intn(15))
	size := r.LogRange(0.5, 10)
	kind := restKinds[r.Intn(len(restKinds))]
	angular := kind == "gear" || kind == "motor" || kind == "limit"
	gr := size * r.Range(3, 15)
	tq := r.Sign() * gr * size
	strut := kind == "slide" && r.P(0.5) // pressed together instead: the joints hold their least length
	if strut {
		sp.SetGravity(V{Y: gr})
	} else if !angular {
		sp.SetGravity(V{Y: -gr})
	}
	n := 2 + r.Intn(4)
	prev := sp.StaticBody
	var bs []*cp.Body
	var cs []*cp.Constraint
	carried := make([]float64, n) // weight below, or torque
	for i := 0; i < n; i++ {
		m := r.Range(0.5, 2)
		b := sp.AddBody(cp.NewBody(m, cp.MomentForBox(m, size*0.2, size)))
		gap := 0.0
		if kind == "pin" || kind == "slide" {
			gap = size * 0.5
		}
		b.SetPosition(V{Y: -float64(i)*(size+gap) - size/2 - gap})
		j := &JSpec{Kind: kind, B: V{Y: size / 2}, MaxF: cp.INFINITY, MaxB: cp.INFINITY, ErrBias: math.Pow(0.9, 60), Ratio: 1}
		if i > 0 {
			j.A = V{Y: -size / 2}
		}
		j.GA, j.GB = vadd(j.A, V{X: -size}), vadd(j.A, V{X: size})
		x, y := prev, b
		if kind != "groove" && r.P(0.5) {
			j.A, j.B = j.B, j.A
			x, y = b, prev
		}
		switch kind { // one-sided joints stay beyond their range, as nothing brings them back
		case "slide":
			j.Max, j.ErrBias = gap*0.98, 1
			if strut {
				j.Min, j.Max = gap*1.02, gap*10
			}
		case "limit":
			j.Min, j.Max, j.ErrBias = -1, -0.02, 1
			if (tq < 0) != (x == b) {
				j.Min, j.Max = 0.02, 1
			}
		}
		cs = append(cs, sp.AddConstraint(j.build(x, y)))
		bs = append(bs, b)
		for k := 0; k <= i; k++ {
			carried[k] += m * gr
		}
		prev = b
	}
	if angular {
		for k := range carried {
			carried[k] = math.Abs(tq)
		}
	}
	step := func(dt float64) (v, off float64) {
		if angular {
			bs[n-1].SetTorque(tq)
		}
		sp.Step(dt)
		for k, b := range bs {
			v = math.Max(v, math.Max(vlen(b.Velocity()), math.Abs(b.AngularVelocity())*size))
			off = math.Max(off, math.Abs(math.Abs(cs[k].Class.GetImpulse())-carried[k]*dt)/(carried[k]*dt))
		}
		return
	}
	dt := 1.0 / 60
	calm := 0
	for i := 0; i < 1500 && calm < 20; i++ {
		if v, off := step(dt); v < 1e-5*gr*dt && off < 1e-5 {
			calm++
		} else {
			calm = 0
		}
	}
	t.Check(calm >= 20, "not-settled", "a chain of %d bodies on %s joints, hanging straight, does not come to rest with %d iterations", n, kind, sp.Iterations)
	sp.Iterations = uint(r.Pick(1, 1, 2, 10))
	for i := 0; i < 40; i++ {
		if r.P(0.6) {
			dt = r.Pick(1.0/60, 1.0/120, 1.0/240, 1.0/30)
		}
		v, off := step(dt)
		t.Check(v < 1e-3*gr*dt && off < 1e-3, "carried-wrong", "a chain of %d bodies on %s joints was at rest; with a step of %g and %d iterations it moves with %g (gravity gives %g in a step), and the impulse of a joint is off by a fraction of %g", n, kind, dt, sp.Iterations, v, gr*dt, off)
		t.Ev("rest_steps_" + kind)
		if strut {
			t.Ev("strut_steps")
		}
	}
	t.NonTrivial(kind, n, size)
}

func init() {
	need := map[string]int64{"rates_checked": 50000, "one_sided_pushes": 20000, "no_push_needed": 5000, "slide_long": 2000, "slide_short": 2000, "groove_end": 5000, "groove_inside": 2000, "limit_over": 2000, "limit_under": 2000, "ratchet_back": 2000,
		"idle_slide": 1000, "idle_limit": 1000, "idle_ratchet": 2000, "courses": 1000, "courses_from_violation": 500, "course_steps": 20000, "mirror_steps": 10000, "strut_steps": 500}
	for _, k := range []string{"pin", "slide", "pivot", "groove", "limit", "ratchet", "gear", "motor"} {
		need["acting_"+k] = 2000
	}
	for _, k := range []string{"pin", "slide", "pivot", "groove"} {
		need["chains_"+k] = 30
	}
	for _, k := range restKinds {
		need["rest_steps_"+k] = 1000
	}
	register(&Prop{ID: "C14",
		Technique: "runtime monitor: after every step of a joint of unlimited force, an independent model of each joint's error computed from the poses alone decides what the relative velocity has to be and which way the joint may have pushed; whole correction courses, mirrored twins and hanging chains",
		Rule:      "every case is a whole history of one joint",
		Loads:     []Load{{"law", 60000, 800000, c14law}, {"course", 4800, 60000, c14course}, {"mirror", 12000, 160000, c14mirror}, {"chain", 900, 12000, c14chain}, {"rest", 1800, 12000, c14rest}},
		Need:      need,
	})
}
