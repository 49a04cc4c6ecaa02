package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// c15limits: one joint with limited force or bias.
func c15limits(t *T) {
	r := t.R
	kind := c14kind(r)
	g := newRig(r, kind, r.LogRange(0.5, 10), r.Pick(0, 0.3, 3))
	limits := func() {
		g.j.MaxF, g.j.MaxB = cp.INFINITY, cp.INFINITY
		if r.P(0.8) {
			g.j.MaxF = r.LogRange(0.1, 1e5)
			if r.P(0.05) {
				g.j.MaxF = 0
			}
		}
		if r.P(0.5) {
			g.j.MaxB = r.Pick(0, r.LogRange(0.01, 20), r.LogRange(0.01, 20))
		}
	}
	limits()
	if r.P(0.3) {
		g.j.ErrBias = r.Pick(0, 0.5, r.LogRange(1e-8, 1))
	}
	g.build()
	t.Check(g.c.MaxForce() == g.j.MaxF && g.c.MaxBias() == g.j.MaxB && g.c.ErrorBias() == g.j.ErrBias, "settings", "a joint made with max force %g, max bias %g, error bias %g says %g, %g, %g", g.j.MaxF, g.j.MaxB, g.j.ErrBias, g.c.MaxForce(), g.c.MaxBias(), g.c.ErrorBias())
	if r.P(0.3) {
		g.sp.SetGravity(V{X: r.Range(-10, 10), Y: r.Range(-10, 10)})
	}
	acted := 0
	dt := 1.0 / 60
	for i := 0; i < 30; i++ {
		if r.P(0.06) {
			rigPlace(r, g.a, g.size, 3)
		}
		if r.P(0.06) {
			rigPlace(r, g.b, g.size, 3)
		}
		if r.P(0.1) {
			dt = r.LogRange(0.003, 0.05)
		}
		if r.P(0.1) {
			limits()
			g.c.SetMaxForce(g.j.MaxF)
			g.c.SetMaxBias(g.j.MaxB)
		}
		c14retune(r, g)
		c14remass(t, g)
		g.step(dt)
		if _, yes := obeys(t, g, fmt.Sprintf("step %d", i)); yes {
			acted++
		}
	}
	t.EvN("limited_"+kind, acted)
	t.NonTrivial(kind, acted > 0, g.j.MaxF, g.j.MaxB)
	t.Sample("%s", g.j)
}

// c15spring: one spring, its law computed from poses and velocities before the step.
func c15spring(t *T) {
	r := t.R
	linear := r.P(0.5)
	kind := "rotspring"
	if linear {
		kind = "spring"
	}
	g := newRig(r, kind, r.LogRange(0.5, 10), r.Pick(0, 0.3, 3))
	j := g.j
	j.Damp = r.Pick(0, 1, 1) * r.LogRange(0.01, 1e4)
	if !linear {
		j.Damp *= g.size * g.size
	}
	g.c = j.build(g.a, g.b)
	g.sp.AddConstraint(g.c)
	grav := V{}
	if r.P(0.4) {
		grav = V{X: r.Range(-10, 10), Y: r.Range(-10, 10)}
		g.sp.SetGravity(grav)
	}
	law := func(x float64) float64 {
		if linear {
			return (j.Rest - x) * j.Stiff
		}
		return (x - j.Rest) * j.Stiff
	}
	// a law of the user's
	calls, given := 0, 0.0
	custom := r.P(0.4)
	if custom {
		k, p := r.Range(-50, 50), r.Range(-5, 5)
		law = func(x float64) float64 { return k*math.Sin(x) + p }
		switch c := g.c.Class.(type) {
		case *cp.DampedSpring:
			c.SpringForceFunc = func(s *cp.DampedSpring, d float64) float64 {
				t.Check(s == c, "wrong-spring", "the force function is called for another spring")
				calls, given = calls+1, d
				return law(d)
			}
		case *cp.DampedRotarySpring:
			c.SpringTorqueFunc = func(s *cp.DampedRotarySpring, d float64) float64 {
				t.Check(s == c, "wrong-spring", "the torque function is called for another spring")
				calls, given = calls+1, d
				return law(d)
			}
		}
	}
	inv := func(b *cp.Body) (m, i float64) {
		if b.GetType() != cp.BODY_DYNAMIC {
			return 0, 0
		}
		return 1 / b.Mass(), 1 / b.Moment()
	}
	dt, moved := 1.0/60, 0
	for n := 0; n < 25; n++ {
		if r.P(0.06) {
			rigPlace(r, g.b, g.size, 3)
		}
		if r.P(0.1) {
			dt = r.LogRange(0.003, 0.05)
		}
		c14retune(r, g)
		c14remass(t, g)
		if math.Abs(g.a.Angle())+math.Abs(g.b.Angle())+vlen(g.a.Position())+vlen(g.b.Position()) > 1e5 {
			break // stiffer than the step can follow
		}
		// before the solver, without the spring
		g.read()
		if g.a.GetType() == cp.BODY_DYNAMIC {
			g.va = vadd(g.va, vmul(grav, dt))
		}
		if g.b.GetType() == cp.BODY_DYNAMIC {
			g.vb = vadd(g.vb, vmul(grav, dt))
		}
		g.dt = dt
		calls = 0
		g.sp.Step(dt)
		when := fmt.Sprintf("step %d", n)
		J, jw := g.ledger(t, when)
		ma, ia := inv(g.a)
		mb, ib := inv(g.b)
		if custom {
			t.Check(calls == 1, "force-calls", "%s: the force function is called %d times in a step", when, calls)
			t.Ev("custom_force_steps")
		}
		var was, got, k, x, sent, now float64
		if linear {
			pa, pb := j.points(g.a, g.b)
			d := vsub(pb, pa)
			x = vlen(d)
			if x < 1e-6*(1+vlen(pa)+vlen(pb)) {
				continue
			}
			u := vmul(d, 1/x)
			ra, rb := vcross(vsub(pa, worldCog(g.a)), u), vcross(vsub(pb, worldCog(g.b)), u)
			k = ma + mb + ia*ra*ra + ib*rb*rb
			was = vdot(vsub(pointVel(g.b, pb, g.vb, g.wb), pointVel(g.a, pa, g.va, g.wa)), u)
			now = vdot(vsub(pointVel(g.b, pb, g.b.Velocity(), g.b.AngularVelocity()), pointVel(g.a, pa, g.a.Velocity(), g.a.AngularVelocity())), u)
			got = vdot(J, u)
		} else {
			x = g.a.Angle() - g.b.Angle()
			k = ia + ib
			was, now = g.wb-g.wa, g.b.AngularVelocity()-g.a.AngularVelocity()
			got = jw
		}
		sent = law(x) * dt
		mid := was + sent*k // with the force alone
		left := mid * math.Exp(-j.Damp*dt*k)
		want := sent + (left-mid)/k
		sc := math.Abs(was) + math.Abs(sent*k) + vlen(g.va) + vlen(g.vb) + (math.Abs(g.wa)+math.Abs(g.wb))*g.size + 1e-3 + j.Stiff*dt*k*(1+vlen(g.a.Position())+vlen(g.b.Position()))
		tol := 1e-9 * sc
		if custom {
			t.Check(near(given, x, 1e-9*(1+vlen(g.a.Position())+vlen(g.b.Position()))), "force-argument", "%s: the force function gets %.17g, want %.17g %s", when, given, x, j)
		}
		t.Check(near(now, left, tol), "spring-velocity", "%s: a spring at %g takes the relative velocity from %.17g to %.17g, want %.17g (force alone %.17g, damping %g, k %g, dt %g) %s", when, x, was, now, left, mid, j.Damp, k, dt, j)
		t.Check(near(got*k, want*k, 10*tol), "spring-impulse", "%s: a spring at %g sends %.17g, want %.17g %s", when, x, got, want, j)
		t.Check(near(g.c.Class.GetImpulse()*k, want*k, 10*tol), "spring-report", "%s: a spring at %g reports %.17g, want %.17g %s", when, x, g.c.Class.GetImpulse(), want, j)
		if j.Damp > 0 && math.Abs(mid) > tol {
			t.Check(now*mid >= 0 || math.Abs(now) <= tol, "spring-reversal", "%s: damping takes the relative velocity from %.17g to %.17g %s", when, mid, now, j)
			t.Ev("damped_steps")
		}
		if sent != 0 {
			moved++
			t.Ev("spring_forces")
		}
		t.Ev("steps_" + kind)
	}
	t.NonTrivial(kind, custom, j.Rest, moved > 0)
	t.Sample("%s", j)
}

// c15scene: many joints with limits, contacts, sleeping, histories; hooks and limits.
func c15scene(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints = true
	conf.Friction, conf.Elasticity = r.Pick(0, 0.5, 2), r.Pick(0, 0.5, 1)
	w := newWorld(t, r, conf)
	type hooks struct {
		pre, post int
		imp       float64
	}
	seen := map[*cp.Constraint]*hooks{}
	inStep := false
	watch := func(c *WCon) {
		if seen[c.C] != nil {
			return
		}
		h := &hooks{}
		seen[c.C] = h
		if r.P(0.5) {
			if !springy(c.C) {
				c.C.SetMaxForce(r.LogRange(1, 1e5))
			}
		}
		me := c.C
		c.C.PreSolve = func(x *cp.Constraint, sp *cp.Space) {
			t.Check(x == me && sp == w.Sp && inStep, "hook-arguments", "a pre-solve hook gets another joint or space, or runs outside of a step")
			t.Check(h.pre == h.post, "hook-order", "pre-solve runs again before post-solve")
			h.pre++
		}
		c.C.PostSolve = func(x *cp.Constraint, sp *cp.Space) {
			t.Check(x == me && sp == w.Sp && inStep, "hook-arguments", "a post-solve hook gets another joint or space, or runs outside of a step")
			h.post++
			h.imp = x.Class.GetImpulse()
		}
	}
	for i := r.Intn(5); i > 0; i-- {
		w.addJoint()
	}
	hooksRun, slept := 0, 0
	for i, n := 0, 20+r.Intn(80); i < n; i++ {
		if r.P(0.7) {
			w.ops()
		}
		for _, c := range w.Cons {
			watch(c)
		}
		for _, h := range seen {
			h.pre, h.post = 0, 0
		}
		dt := w.dt()
		inStep = true
		w.step(dt)
		inStep = false
		in := map[*cp.Constraint]bool{}
		for _, c := range w.Cons {
			h := seen[c.C]
			in[c.C] = true
			if h == nil {
				continue
			}
			want := 1
			if c.A.B.IsSleeping() || c.B.B.IsSleeping() {
				want = 0
				slept++
			}
			t.Check(h.pre == want && h.post == want, "hook-count", "step %d: joint c%d ran its pre-solve hook %d times and its post-solve hook %d times, want %d (bodies asleep: %v %v, types %d %d)", i, c.ID, h.pre, h.post, want, c.A.B.IsSleeping(), c.B.B.IsSleeping(), c.A.Typ, c.B.Typ)
			hooksRun += h.pre
			if want == 1 {
				t.Check(h.imp == c.C.Class.GetImpulse(), "late-impulse", "step %d: joint c%d reports %g to its post-solve hook, %g after the step", i, c.ID, h.imp, c.C.Class.GetImpulse())
				if max := c.C.MaxForce(); max < 1e300 && !springy(c.C) {
					t.Check(math.Abs(h.imp) <= max*dt*(1+1e-9), "force-limit", "step %d: joint c%d reports %.17g in a step of %g with a max force of %g", i, c.ID, h.imp, dt, max)
					t.Ev("scene_limits")
					if math.Abs(h.imp) >= max*dt*(1-1e-9) {
						t.Ev("scene_saturated")
					}
				}
			}
		}
		for c, h := range seen {
			if !in[c] {
				t.Check(h.pre == 0 && h.post == 0, "hook-after-removal", "step %d: a removed joint runs its hooks", i)
				delete(seen, c)
			}
		}
	}
	t.EvN("hooks_run", hooksRun)
	t.EvN("joints_asleep", slept)
	t.NonTrivial(len(t.trace), hooksRun)
	t.Sample("%s", w.describe())
}

func springy(c *cp.Constraint) bool {
	switch c.Class.(type) {
	case *cp.DampedSpring, *cp.DampedRotarySpring:
		return true
	}
	return false
}

// c15hook: what a pre-solve hook sets counts in the same step, what a post-solve hook reads is final.
func c15hook(t *T) {
	r := t.R
	kind := []string{"motor", "pin", "pivot", "limit", "gear", "slide"}[r.Intn(6)]
	g := newRig(r, kind, r.LogRange(0.5, 10), 1)
	g.build()
	post := 0
	g.c.PreSolve = func(c *cp.Constraint, _ *cp.Space) {
		if r.P(0.5) {
			g.j.MaxF = r.LogRange(0.1, 1e5)
			c.SetMaxForce(g.j.MaxF)
		}
		if r.P(0.5) {
			g.j.MaxB = r.LogRange(0.1, 20)
			c.SetMaxBias(g.j.MaxB)
		}
		if r.P(0.5) {
			g.j.ErrBias = r.LogRange(1e-8, 1)
			c.SetErrorBias(g.j.ErrBias)
		}
		switch x := c.Class.(type) {
		case *cp.SimpleMotor:
			g.j.Rate = r.Range(-5, 5)
			x.Rate = g.j.Rate
		case *cp.PinJoint:
			g.j.Dist = r.Range(0, 2) * g.size
			x.Dist = g.j.Dist
		}
	}
	g.c.PostSolve = func(c *cp.Constraint, _ *cp.Space) {
		post++
		g.ledger(t, "in post-solve")
	}
	for i := 0; i < 20; i++ {
		g.step(1.0 / 60)
		t.Check(post == i+1, "post-solve-count", "%d post-solve calls in %d steps", post, i+1)
		obeys(t, g, fmt.Sprintf("hooked step %d", i))
		t.Ev("hooked_steps")
	}
	t.NonTrivial(kind, g.j.MaxF)
}

// c15point: a joint whose two points coincide has no direction to act in. Whatever it does then, it reports what it
// transfers, and it does not save anything up for the moment when the points are apart again.
func c15point(t *T) {
	r := t.R
	kind := []string{"pin", "slide", "spring"}[r.Intn(3)]
	sp := cp.NewSpace()
	sp.Iterations = uint(1 + r.Intn(15))
	mk := func() *cp.Body {
		m := r.LogRange(0.1, 100)
		b := sp.AddBody(cp.NewBody(m, m*r.LogRange(0.05, 10)))
		b.SetPosition(V{X: 3, Y: -2})
		return b
	}
	a, b := mk(), mk()
	if r.P(0.3) {
		a = sp.StaticBody
		b.SetPosition(V{})
	}
	j := &JSpec{Kind: kind, MaxF: cp.INFINITY, MaxB: cp.INFINITY, ErrBias: math.Pow(0.9, 60)}
	j.Dist = r.Pick(0, 1) * r.LogRange(0.1, 10)
	j.Min = r.Pick(0, 1) * r.LogRange(0.1, 10)
	j.Max = j.Min + r.LogRange(0.1, 10)
	j.Rest, j.Stiff, j.Damp = r.LogRange(0.1, 10), r.LogRange(0.1, 100), r.LogRange(0.1, 100)
	c := sp.AddConstraint(j.build(a, b))
	if p, ok := c.Class.(*cp.PinJoint); ok {
		p.Dist = j.Dist
	}
	dt := 1.0 / 60
	if r.P(0.5) { // first at work
		at := b.Position()
		b.SetPosition(vadd(at, V{X: r.Range(0.01, 20)}))
		for i := 0; i < 3; i++ {
			sp.Step(dt)
		}
		b.SetPosition(at)
		b.SetAngle(0)
		b.SetVelocityVector(V{})
		b.SetAngularVelocity(0)
		if a != sp.StaticBody {
			a.SetPosition(at)
			a.SetAngle(0)
			a.SetVelocityVector(V{})
			a.SetAngularVelocity(0)
		}
		t.Ev("points_brought_together")
	}
	n := r.Intn(4)
	for i := 0; i <= n; i++ {
		va, vb := a.Velocity(), b.Velocity()
		wa, wb := a.AngularVelocity(), b.AngularVelocity()
		sp.Step(dt)
		J, _ := jointLedger(t, j, a, b, motionOf(a, va, wa), motionOf(b, vb, wb), c.Class.GetImpulse(), fmt.Sprintf("coinciding step %d", i))
		t.Check(vlen(J) == 0, "push-from-a-point", "step %d: a joint between coinciding points sends %s %s", i, fv(J), j)
		t.Ev("coinciding_steps")
	}
	// apart, where the joint has nothing to do
	d := map[string]float64{"pin": j.Dist, "slide": (j.Min + j.Max) / 2, "spring": j.Rest}[kind]
	if kind == "pin" && d == 0 {
		d = 1
		c.Class.(*cp.PinJoint).Dist = d
	}
	b.SetPosition(vadd(a.Position(), vrot(V{X: d}, r.Range(0, 7))))
	for i := 0; i < 2; i++ {
		sp.Step(dt)
		v := math.Max(math.Max(vlen(a.Velocity()), vlen(b.Velocity())), math.Max(math.Abs(a.AngularVelocity()), math.Abs(b.AngularVelocity())))
		t.Check(v <= 1e-9*(1+d)*(1+j.Stiff), "saved-up", "a %s joint whose points coincided for %d steps and are now as far apart as it wants makes its bodies move with %g %s", kind, n+1, v, j)
		t.Ev("apart_steps")
	}
	t.NonTrivial(kind, a == sp.StaticBody, n, j.Min > 0)
}

// spyClass stands where a joint class of the user's would: it notes every call and, around a built-in class, passes it on.
type spyClass struct {
	in                      cp.Constrainer
	t                       *T
	c                       *cp.Constraint
	phase                   int // 0 before pre-step, 1 pre-stepped, 2 warm-started, 3 iterating
	pre, post               int
	preSteps, cached, iters int
	dt, coef                float64
	acc                     float64
}

func (s *spyClass) PreStep(dt float64) {
	s.t.Check(s.phase == 0, "class-order", "PreStep in phase %d of a step", s.phase)
	if s.c.PreSolve != nil {
		s.t.Check(s.pre == 1, "class-order", "PreStep after %d pre-solve hooks", s.pre)
	}
	s.phase = 1
	s.preSteps++
	s.t.Check(dt == s.dt, "class-dt", "PreStep gets %.17g in a step of %.17g", dt, s.dt)
	if s.in != nil {
		s.in.PreStep(dt)
	}
}

func (s *spyClass) ApplyCachedImpulse(coef float64) {
	s.t.Check(s.phase == 1, "class-order", "ApplyCachedImpulse in phase %d of a step", s.phase)
	s.phase = 2
	s.cached++
	s.t.Check(near(coef, s.coef, 1e-12*s.coef), "class-coef", "ApplyCachedImpulse gets %.17g in a step of %.17g, want %.17g", coef, s.dt, s.coef)
	if s.in != nil {
		s.in.ApplyCachedImpulse(coef)
	}
}

func (s *spyClass) ApplyImpulse(dt float64) {
	s.t.Check(s.phase == 2 || s.phase == 3, "class-order", "ApplyImpulse in phase %d of a step", s.phase)
	s.phase = 3
	s.iters++
	s.t.Check(dt == s.dt, "class-dt", "ApplyImpulse gets %.17g in a step of %.17g", dt, s.dt)
	if s.in != nil {
		s.in.ApplyImpulse(dt)
	}
}

func (s *spyClass) GetImpulse() float64 {
	if s.in != nil {
		return s.in.GetImpulse()
	}
	return s.acc
}

// c15class: joint classes of the user's own are driven through the phases of every step like the built-in ones.
func c15class(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints = true
	w := newWorld(t, r, conf)
	spies := map[*cp.Constraint]*spyClass{}
	watch := func(c *WCon) {
		if spies[c.C] != nil {
			return
		}
		if old, back := c.C.Class.(*spyClass); back { // removed and added again
			spies[c.C] = old
			t.Ev("classes_back")
			return
		}
		s := &spyClass{in: c.C.Class, t: t, c: c.C}
		c.C.Class = s
		spies[c.C] = s
		if r.P(0.5) {
			c.C.PreSolve = func(x *cp.Constraint, sp *cp.Space) {
				t.Check(x == s.c && sp == w.Sp && s.phase == 0, "class-order", "a pre-solve hook in phase %d", s.phase)
				s.pre++
			}
		}
		if r.P(0.5) {
			c.C.PostSolve = func(x *cp.Constraint, sp *cp.Space) {
				want := 3
				if sp.Iterations == 0 {
					want = 2
				}
				t.Check(x == s.c && sp == w.Sp && s.phase == want, "class-order", "a post-solve hook in phase %d", s.phase)
				s.post++
			}
		}
	}
	own := func() {
		if len(w.Bodies) < 2 {
			return
		}
		p := r.Perm(len(w.Bodies))
		a, b := w.Bodies[p[0]], w.Bodies[p[1]]
		if r.P(0.2) {
			a = w.Static
		}
		if !a.movable() && !b.movable() {
			return
		}
		if r.P(0.5) {
			a, b = b, a
		}
		s := &spyClass{t: t}
		c := &WCon{ID: w.id(), A: a, B: b, Kind: "own", Collide: true, In: true}
		c.C = cp.NewConstraint(s, a.B, b.B)
		t.Check(c.C.MaxForce() == cp.INFINITY && c.C.MaxBias() == cp.INFINITY, "class-defaults", "a new joint has max force %g and max bias %g", c.C.MaxForce(), c.C.MaxBias())
		s.c = c.C
		spies[c.C] = s
		w.putJoint(c)
		t.Ev("own_joints")
	}
	for i := r.Intn(5); i > 0; i-- {
		w.addJoint()
		if r.P(0.4) {
			own()
		}
	}
	prev := 0.0
	driven, slept := 0, 0
	for i, n := 0, 15+r.Intn(50); i < n; i++ {
		if r.P(0.6) {
			w.ops()
		}
		if r.P(0.05) {
			own()
		}
		for _, c := range w.Cons {
			watch(c)
		}
		if r.P(0.1) {
			w.Sp.Iterations = uint(r.Intn(12))
		}
		dt := w.dt()
		if r.P(0.05) {
			w.Sp.Step(0)
			t.Ev("empty_steps")
		}
		for _, s := range spies {
			*s = spyClass{in: s.in, t: t, c: s.c, dt: dt}
			if prev != 0 {
				s.coef = dt / prev
			}
		}
		w.step(dt)
		in := map[*cp.Constraint]bool{}
		for _, c := range w.Cons {
			s := spies[c.C]
			in[c.C] = true
			asleep := c.A.B.IsSleeping() || c.B.B.IsSleeping()
			ones, its := 1, int(w.Sp.Iterations)
			if asleep {
				ones, its = 0, 0
				slept++
			}
			t.Check(s.preSteps == ones && s.cached == ones && s.iters == its, "class-count", "step %d: the class of joint c%d (%s) got %d PreStep, %d ApplyCachedImpulse and %d ApplyImpulse calls with %d iterations (asleep %v)", i, c.ID, c.Kind, s.preSteps, s.cached, s.iters, w.Sp.Iterations, asleep)
			if c.C.PreSolve != nil {
				t.Check(s.pre == ones, "class-hooks", "step %d: %d pre-solve hooks", i, s.pre)
			}
			if c.C.PostSolve != nil {
				t.Check(s.post == ones, "class-hooks", "step %d: %d post-solve hooks", i, s.post)
			}
			driven += s.preSteps
		}
		for c, s := range spies {
			if !in[c] {
				t.Check(s.preSteps+s.cached+s.iters+s.pre+s.post == 0, "class-after-removal", "step %d: a removed joint is driven", i)
				delete(spies, c)
			}
		}
		prev = dt
	}
	t.EvN("classes_driven", driven)
	t.EvN("classes_asleep", slept)
	t.NonTrivial(len(t.trace), driven)
	t.Sample("%s", w.describe())
}

func init() {
	need := map[string]int64{"force_limited": 100000, "force_saturated": 30000, "bias_limited": 50000, "spring_forces": 20000, "damped_steps": 20000, "custom_force_steps": 10000, "steps_spring": 20000, "steps_rotspring": 20000,
		"classes_driven": 20000, "classes_asleep": 100, "own_joints": 1000, "empty_steps": 500, "hooks_run": 50000, "joints_asleep": 200, "scene_limits": 10000, "scene_saturated": 500, "hooked_steps": 20000, "coinciding_steps": 2000, "apart_steps": 2000, "points_brought_together": 500}
	for _, k := range []string{"pin", "slide", "pivot", "groove", "limit", "ratchet", "gear", "motor"} {
		need["limited_"+k] = 1000
	}
	register(&Prop{ID: "C15",
		Technique: "runtime monitor: the impulse each joint transferred, derived from the velocity changes of its bodies, is compared with its limits, its report and an independent model of the joint or spring law; hook counters in full scenes",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"limits", 60000, 800000, c15limits}, {"spring", 36000, 500000, c15spring}, {"scene", 9000, 100000, c15scene}, {"hook", 9000, 100000, c15hook}, {"class", 4000, 50000, c15class}, {"point", 6000, 50000, c15point}},
		Need:      need,
	})
}
