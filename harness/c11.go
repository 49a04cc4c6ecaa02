package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// A freeBody is a body without contacts or joints, and what must become of it.
type freeBody struct {
	b          *cp.Body
	mass, mom  float64
	cog        V
	p          V // of the centre of gravity
	a          float64
	v, f       V
	w, tq      float64
	typ        int
	custom     int // 0 default, 1 wrapped default, 2 own functions
	g          V   // gravity of its own
	vcalls     int
	pcalls     int
	sc         float64 // magnitude of everything that was added up
	va, wa, aa float64 // magnitudes for tolerances of velocity, spin and angle
}

func (f *freeBody) angScale() float64 { return 1 + math.Abs(f.a) }

// sync checks the body against the model.
func (f *freeBody) sync(t *T, when string, step int) {
	b := f.b
	tol := 1e-11
	c := vadd(b.Position(), vrot(b.CenterOfGravity(), b.Angle()))
	ok := vdist(c, f.p) <= tol*(1+f.sc+vlen(f.cog)*f.angScale())
	t.Check(ok, "position", "%s %d: body (type %d mass %g moment %g cog %s) has its centre at %s, want %s", when, step, f.typ, f.mass, f.mom, fv(f.cog), fv(c), fv(f.p))
	t.Check(near(b.Angle(), f.a, tol*(1+f.aa)), "angle", "%s %d: body has angle %.17g, want %.17g", when, step, b.Angle(), f.a)
	t.Check(vdist(b.Velocity(), f.v) <= tol*(1e-6+f.va), "velocity", "%s %d: body (type %d mass %g moment %g) has velocity %s, want %s", when, step, f.typ, f.mass, f.mom, fv(b.Velocity()), fv(f.v))
	t.Check(near(b.AngularVelocity(), f.w, tol*(1e-6+f.wa)), "spin", "%s %d: body (type %d mass %g moment %g) has angular velocity %.17g, want %.17g", when, step, f.typ, f.mass, f.mom, b.AngularVelocity(), f.w)
	ftol := tol * (1 + vlen(f.f))
	t.Check(vdist(b.Force(), f.f) <= ftol && near(b.Torque(), f.tq, tol*(1+math.Abs(f.tq)+vlen(f.f)*(f.sc+1e3))), "force", "%s %d: body has force %s torque %.17g, want %s %.17g", when, step, fv(b.Force()), b.Torque(), fv(f.f), f.tq)
}

// adopt takes over the rounding of the library, so that errors do not add up.
func (f *freeBody) adopt() {
	b := f.b
	f.p = vadd(b.Position(), vrot(b.CenterOfGravity(), b.Angle()))
	f.a, f.v, f.w, f.f, f.tq = b.Angle(), b.Velocity(), b.AngularVelocity(), b.Force(), b.Torque()
	f.sc, f.va, f.wa, f.aa = vlen(f.p), vlen(f.v), math.Abs(f.w), math.Abs(f.a)
}

// act applies a force or an impulse and predicts its effect.
func (f *freeBody) act(t *T, r *Rand) {
	b := f.b
	J := vmul(V{X: r.Range(-1, 1), Y: r.Range(-1, 1)}, f.mass*r.LogRange(0.1, 1e3))
	if f.typ != cp.BODY_DYNAMIC {
		J = V{X: r.Range(-1, 1), Y: r.Range(-1, 1)}
	}
	local := V{X: r.Range(-5, 5), Y: r.Range(-5, 5)}
	if r.P(0.2) {
		local = f.cog
	}
	world := vadd(f.p, vrot(vsub(local, f.cog), f.a))
	arm := vsub(world, f.p)
	Jw := J
	f.sc += vlen(f.p)
	switch k := r.Intn(6); k {
	case 0, 1: // impulse
		if k == 0 {
			b.ApplyImpulseAtWorldPoint(J, world)
		} else {
			b.ApplyImpulseAtLocalPoint(J, local)
			Jw = vrot(J, f.a)
		}
		if f.typ == cp.BODY_DYNAMIC {
			f.v = vadd(f.v, vmul(Jw, 1/f.mass))
			f.w += vcross(arm, Jw) / f.mom
			f.va += vlen(Jw) / f.mass * f.angScale()
			f.wa += (vlen(f.p) + vlen(arm)) * vlen(Jw) / f.mom * f.angScale()
		}
		t.Ev("impulses")
	case 2, 3: // force
		if k == 2 {
			b.ApplyForceAtWorldPoint(J, world)
		} else {
			b.ApplyForceAtLocalPoint(J, local)
			Jw = vrot(J, f.a)
		}
		f.f = vadd(f.f, Jw)
		f.tq += vcross(arm, Jw)
		t.Ev("forces")
	case 4:
		b.SetForce(J)
		f.f = J
		t.Ev("forces_set")
	case 5:
		x := r.Range(-10, 10) * math.Min(f.mom, 1e6)
		b.SetTorque(x)
		f.tq = x
		t.Ev("torques_set")
	}
	f.sync(t, "after a push", 0)
	f.adopt()
}

// step predicts what a step makes of the body.
func (f *freeBody) step(gravity V, damping, dt float64) {
	f.p = vadd(f.p, vmul(f.v, dt))
	f.a += f.w * dt
	f.sc, f.aa = vlen(f.p)+vlen(f.v)*dt, math.Abs(f.a)+math.Abs(f.w*dt)
	if f.typ == cp.BODY_KINEMATIC {
		f.va, f.wa = vlen(f.v), math.Abs(f.w)
		return
	}
	if f.custom == 2 {
		gravity = f.g
	}
	acc := vadd(gravity, vmul(f.f, 1/f.mass))
	f.va = vlen(f.v) + (vlen(gravity)+vlen(f.f)/f.mass)*dt
	f.wa = math.Abs(f.w) + math.Abs(f.tq)/f.mom*dt
	f.v = vadd(vmul(f.v, damping), vmul(acc, dt))
	f.w = f.w*damping + f.tq/f.mom*dt
	f.f, f.tq = V{}, 0
}

func c11free(t *T) {
	r := t.R
	sp := cp.NewSpace()
	gravity := V{}
	if r.P(0.7) {
		gravity = V{X: r.Range(-10, 10), Y: r.Sign() * r.LogRange(0.1, 1e3)}
	}
	damping := r.Pick(1, 1, 0.9, 0.5, 0.01, 1e-4, 0)
	sp.SetGravity(gravity)
	sp.SetDamping(damping)
	sp.Iterations = uint(r.Intn(12))
	t.Check(sp.Gravity() == gravity && sp.Damping() == damping, "setting", "gravity %s damping %g read back as %s %g", fv(gravity), damping, fv(sp.Gravity()), sp.Damping())
	if r.P(0.3) {
		sp.UseSpatialHash(r.LogRange(1, 50), 100)
	}
	if r.P(0.3) {
		sp.SleepTimeThreshold = 1e9 // sleeping is on, but nothing is idle that long
	}
	var bodies []*freeBody
	var dtNow, dampNow float64
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		f := &freeBody{typ: cp.BODY_DYNAMIC, mass: r.LogRange(1e-2, 1e4)}
		f.mom = f.mass * r.LogRange(0.01, 1e3)
		if r.P(0.1) {
			f.mom = r.Pick(cp.INFINITY, math.Inf(1))
		}
		switch {
		case r.P(0.15):
			f.typ, f.b = cp.BODY_KINEMATIC, cp.NewKinematicBody()
		default:
			f.b = cp.NewBody(f.mass, f.mom)
		}
		b := f.b
		sp.AddBody(b)
		b.SetPosition(V{X: 1e3 * float64(i), Y: r.Range(-10, 10)})
		b.SetAngle(r.Range(-4, 4))
		if r.P(0.7) { // shapes far from all others
			k := 1 + r.Intn(2)
			for ; k > 0; k-- {
				s := sp.AddShape(genShape(r, shapeGen{size: 3, offset: 3, maxVerts: 6}).build(b))
				s.SetFilter(cp.NewShapeFilter(1, cp.ALL_CATEGORIES, cp.ALL_CATEGORIES))
				if f.typ == cp.BODY_DYNAMIC && r.P(0.6) {
					s.SetMass(r.LogRange(0.1, 100))
				}
			}
		}
		if f.typ == cp.BODY_DYNAMIC {
			f.mass, f.mom, f.cog = b.Mass(), b.Moment(), b.CenterOfGravity()
			if !(f.mass > 0 && f.mom > 1e-12*f.mass) { // shapes with mass but without area
				b.SetMass(1)
				b.SetMoment(1)
				f.mass, f.mom = 1, 1
			}
		}
		b.SetVelocity(r.Range(-20, 20), r.Range(-20, 20))
		b.SetAngularVelocity(r.Range(-5, 5))
		f.custom = r.Intn(3)
		f.g = V{X: r.Range(-10, 10), Y: r.Range(-10, 10)}
		if f.custom > 0 {
			fb := f
			b.SetVelocityUpdateFunc(func(body *cp.Body, g V, damp, dt float64) {
				fb.vcalls++
				t.Check(body == fb.b && g == sp.Gravity() && near(damp, dampNow, 1e-14*dampNow) && dt == dtNow, "arguments", "velocity function called with gravity %s damping %.17g step %.17g, want %s %.17g %.17g", fv(g), damp, dt, fv(sp.Gravity()), dampNow, dtNow)
				t.Check(fb.pcalls == fb.vcalls, "order", "velocity function called before the position function")
				if fb.custom == 2 {
					g = fb.g
				}
				if r.P(0.5) {
					body.UpdateVelocity(g, damp, dt)
				} else {
					cp.BodyUpdateVelocity(body, g, damp, dt)
				}
				t.Ev("velocity_calls")
			})
			b.SetPositionUpdateFunc(func(body *cp.Body, dt float64) {
				fb.pcalls++
				t.Check(body == fb.b && dt == dtNow, "arguments", "position function called with step %.17g, want %.17g", dt, dtNow)
				cp.BodyUpdatePosition(body, dt)
				t.Ev("position_calls")
			})
		}
		f.adopt()
		bodies = append(bodies, f)
	}
	steps := 5 + r.Intn(20)
	for i := 0; i < steps; i++ {
		for _, f := range bodies {
			for k := r.Intn(4); k > 0; k-- {
				f.act(t, r)
			}
			if r.P(0.1) {
				f.b.SetVelocity(r.Range(-20, 20), r.Range(-20, 20))
				f.b.SetAngularVelocity(r.Range(-5, 5))
				f.adopt()
			}
		}
		if r.P(0.1) {
			gravity = V{X: r.Range(-10, 10), Y: r.Range(-100, 100)}
			sp.SetGravity(gravity)
		}
		if r.P(0.1) {
			damping = r.Range(0.1, 1)
			sp.SetDamping(damping)
		}
		dtNow = r.Pick(1.0/60, 1.0/60, r.LogRange(1e-4, 1), 0)
		dampNow = math.Pow(damping, dtNow)
		for _, f := range bodies {
			f.vcalls, f.pcalls = 0, 0
		}
		sp.Step(dtNow)
		t.Check(dtNow == 0 || sp.TimeStep() == dtNow, "time-step", "after a step of %g the space says %g", dtNow, sp.TimeStep())
		for k, f := range bodies {
			want := 1
			if dtNow == 0 {
				want = 0
				t.Ev("zero_steps")
			} else {
				f.step(gravity, dampNow, dtNow)
			}
			if f.custom > 0 {
				t.Check(f.vcalls == want && f.pcalls == want, "calls", "in a step of %g velocity and position function of a body of type %d were called %d and %d times", dtNow, f.typ, f.vcalls, f.pcalls)
			}
			f.sync(t, "body", k)
			if dtNow != 0 && f.typ == cp.BODY_DYNAMIC {
				t.Check(f.b.Force() == V{} && f.b.Torque() == 0, "not-cleared", "force %s and torque %g are left after the step", fv(f.b.Force()), f.b.Torque())
			}
			f.adopt()
			t.Ev("bodies_checked")
		}
	}
	t.NonTrivial(n, steps)
	t.Sample("%d bodies, %d steps, gravity %s, damping %g", n, steps, fv(gravity), damping)
}

// c11calls counts the calls of the update functions in full scenes.
func c11calls(t *T) {
	r := t.R
	conf := genConf(r)
	if r.P(0.5) {
		conf.Sleep, conf.QuietBias = true, 0.9
	}
	w := newWorld(t, r, conf)
	type count struct{ v, p int }
	counts := map[*WBody]*count{}
	var dtNow, dampNow float64
	hook := func() {
		for _, b := range w.Bodies {
			if counts[b] != nil {
				continue
			}
			c, b := &count{}, b
			counts[b] = c
			b.B.SetVelocityUpdateFunc(func(body *cp.Body, g V, damp, dt float64) {
				c.v++
				t.Check(body == b.B && g == w.Sp.Gravity() && near(damp, dampNow, 1e-14) && dt == dtNow, "arguments", "velocity function of b%d called with gravity %s damping %.17g step %.17g, want %s %.17g %.17g", b.ID, fv(g), damp, dt, fv(w.Sp.Gravity()), dampNow, dtNow)
				t.Check(c.p == 1 || !b.active() || b.B.IdleTime() == 0, "order", "velocity function of b%d called without its position function", b.ID)
				cp.BodyUpdateVelocity(body, g, damp, dt)
			})
			b.B.SetPositionUpdateFunc(func(body *cp.Body, dt float64) {
				c.p++
				t.Check(body == b.B && dt == dtNow, "arguments", "position function of b%d called with step %.17g, want %.17g", b.ID, dt, dtNow)
				cp.BodyUpdatePosition(body, dt)
			})
		}
	}
	for i, n := 0, 20+r.Intn(60); i < n; i++ {
		w.ops()
		hook()
		before := map[*WBody]bool{}
		for _, b := range w.Bodies {
			before[b] = b.active()
			*counts[b] = count{}
		}
		dtNow = w.dt()
		if r.P(0.05) {
			dtNow = 0
		}
		dampNow = math.Pow(w.Sp.Damping(), dtNow)
		var was []pose
		if dtNow == 0 {
			for _, b := range w.Bodies {
				was = append(was, poseOf(b.B))
			}
		}
		w.step(dtNow)
		if dtNow == 0 {
			t.Check(len(w.Log) == 0, "zero-step", "a zero step ran %d callbacks", len(w.Log))
			for k, b := range w.Bodies {
				t.Check(poseOf(b.B) == was[k] && *counts[b] == count{}, "zero-step", "a zero step changed b%d", b.ID)
			}
			t.Ev("zero_steps")
			continue
		}
		for _, b := range w.Bodies {
			c := *counts[b]
			after := b.active()
			switch {
			case before[b] && after:
				t.Check(c.v == 1 && c.p == 1, "calls", "velocity and position function of b%d (type %d), awake before and after the step, called %d and %d times", b.ID, b.Typ, c.v, c.p)
				t.Ev("awake_checked")
			case before[b]:
				t.Check(c.v == 0 && c.p == 1, "calls", "velocity and position function of b%d, fallen asleep in the step, called %d and %d times", b.ID, c.v, c.p)
				t.Ev("fell_asleep_checked")
			case after:
				t.Check(c.v == 1 && c.p == 0, "calls", "velocity and position function of b%d, woken in the step, called %d and %d times", b.ID, c.v, c.p)
				t.Ev("woken_checked")
			default:
				t.Check(c.v == 0 && c.p <= 1, "calls", "velocity and position function of b%d (type %d), static or asleep, called %d and %d times", b.ID, b.Typ, c.v, c.p)
				t.Ev("resting_checked")
			}
		}
	}
	t.NonTrivial(len(t.trace), len(w.Bodies))
	t.Sample("%s", w.describe())
}

func init() {
	register(&Prop{ID: "C11",
		Technique: "runtime monitor: a one-step model of the documented integrator predicts every free body after each force, impulse and step; call counters on user update functions in full scenes",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"free", 36000, 400000, c11free}, {"calls", 9000, 60000, c11calls}},
		Need:      map[string]int64{"bodies_checked": 100000, "impulses": 50000, "forces": 50000, "velocity_calls": 50000, "zero_steps": 1000, "awake_checked": 100000, "fell_asleep_checked": 500, "woken_checked": 200, "resting_checked": 10000},
	})
}
