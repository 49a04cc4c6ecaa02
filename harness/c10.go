package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// pose is what a step may or may not change of a body.
type pose struct {
	p, v, cog V
	a, w      float64
}

func poseOf(b *cp.Body) pose {
	return pose{b.Position(), b.Velocity(), b.CenterOfGravity(), b.Angle(), b.AngularVelocity()}
}

// center is the world position of the centre of gravity.
func (p pose) center() V { return vadd(p.p, vrot(p.cog, p.a)) }

// unmoved checks what a step did to the bodies that impulses cannot move.
func unmoved(t *T, w *World, before map[*WBody]pose, fresh *WBody, dt float64) {
	all := append(append([]*WBody(nil), w.Bodies...), w.Static)
	for _, b := range all {
		was, ok := before[b]
		if !ok {
			continue
		}
		is := poseOf(b.B)
		switch b.Typ {
		case cp.BODY_STATIC:
			t.Check(is == was, "static-moved", "static body b%d went from %+v to %+v in a step of %g", b.ID, was, is, dt)
			t.Ev("static_checked")
			if touched(b) {
				t.Ev("static_in_contact")
			}
		case cp.BODY_KINEMATIC:
			t.Check(is.v == was.v && is.w == was.w, "kinematic-deflected", "kinematic body b%d had velocity %s %.17g, has %s %.17g after a step of %g", b.ID, fv(was.v), was.w, fv(is.v), is.w, dt)
			want := vadd(was.center(), vmul(was.v, dt))
			tol := 1e-12 * (1 + vlen(want) + vlen(was.p) + vlen(was.cog)*(1+math.Abs(was.a)))
			t.Check(vdist(is.center(), want) <= tol, "kinematic-moved", "kinematic body b%d went from %+v to %+v in a step of %g: its centre is off by %g", b.ID, was, is, dt, vdist(is.center(), want))
			t.Check(near(is.a, was.a+was.w*dt, 1e-12*(1+math.Abs(is.a))), "kinematic-turned", "kinematic body b%d went from angle %.17g to %.17g in a step of %g at %g", b.ID, was.a, is.a, dt, was.w)
			t.Ev("kinematic_checked")
			if touched(b) {
				t.Ev("kinematic_in_contact")
			}
			if len(b.Cons) > 0 {
				t.Ev("kinematic_with_joint")
			}
		default:
			if b.massShapes || b.Mom < 1e300 || b.B.IsSleeping() {
				continue
			}
			damp := math.Pow(w.Sp.Damping(), dt)
			t.Check(near(is.w, was.w*damp, 1e-12*math.Abs(was.w)+1e-200), "turned", "body b%d with infinite moment turned at %.17g, turns at %.17g after a step of %g with damping %g", b.ID, was.w, is.w, dt, damp)
			// the position correction computed while the moment was finite is still to come
			t.Check(b == fresh || near(is.a, was.a+was.w*dt, 1e-12*(1+math.Abs(is.a))), "turned", "body b%d with infinite moment went from angle %.17g to %.17g in a step of %g at %g", b.ID, was.a, is.a, dt, was.w)
			t.Ev("infinite_moment_checked")
			if touched(b) {
				t.Ev("infinite_moment_in_contact")
			}
		}
	}
}

// stopped checks what changing its type does to a body.
func stopped(t *T, b *WBody, was pose) {
	is := poseOf(b.B)
	tol := 1e-12 * (1 + vlen(was.p) + vlen(was.cog)*(1+math.Abs(was.a)) + vlen(is.cog)*(1+math.Abs(was.a)))
	t.Check(vdist(is.p, was.p) <= tol && is.a == was.a, "moved-by-type", "body b%d made type %d went from %+v to %+v", b.ID, b.Typ, was, is)
	if b.Typ == cp.BODY_DYNAMIC {
		return
	}
	t.Check(is.v == V{} && is.w == 0, "not-stopped", "body b%d made type %d still has velocity %s and %g, it had %s and %g", b.ID, b.Typ, fv(is.v), is.w, fv(was.v), was.w)
	t.Ev("made_immovable")
	if was.w != 0 {
		t.Ev("made_immovable_spinning")
	}
}

// touched: the body has contacts.
func touched(b *WBody) (yes bool) {
	b.B.EachArbiter(func(*cp.Arbiter) { yes = true })
	return
}

// push applies forces and impulses to bodies they cannot move.
func push(t *T, w *World) (fresh *WBody) {
	r := w.R
	if len(w.Bodies) == 0 {
		return
	}
	b := w.Bodies[r.Intn(len(w.Bodies))]
	if r.P(0.1) {
		b = w.Static
	}
	if b.Typ == cp.BODY_DYNAMIC {
		// give it an infinite moment if all its joints can still be solved
		for _, c := range b.Cons {
			if !c.A.movable() || !c.B.movable() || c.A == c.B {
				return
			}
		}
		if b.massShapes || b.B.IsSleeping() {
			return
		}
		b.Mom = r.Pick(cp.INFINITY, math.Inf(1))
		b.B.SetMoment(b.Mom)
		w.logf("SetMoment b%d %g", b.ID, b.Mom)
		return b
	}
	was := poseOf(b.B)
	f, at := vmul(w.vel(), r.LogRange(1, 1e6)), w.pos()
	switch r.Intn(5) {
	case 0:
		b.B.ApplyImpulseAtWorldPoint(f, at)
	case 1:
		b.B.ApplyImpulseAtLocalPoint(f, at)
	case 2:
		b.B.ApplyForceAtWorldPoint(f, at)
	case 3:
		b.B.ApplyForceAtLocalPoint(f, at)
	case 4:
		b.B.SetForce(f)
		b.B.SetTorque(f.X)
	}
	t.Check(poseOf(b.B) == was, "moved-by-push", "body b%d of type %d went from %+v to %+v by an impulse or force", b.ID, b.Typ, was, poseOf(b.B))
	b.B.SetForce(V{}) // it would act if the type changed
	b.B.SetTorque(0)
	if r.P(0.5) && b.Typ == cp.BODY_KINEMATIC { // forces may stay: nothing comes of them
		b.B.SetForce(f)
	}
	w.logf("pushed b%d", b.ID)
	t.Ev("pushes")
	return
}

func c10(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints = true
	conf.Types = r.P(0.6)
	conf.PKin, conf.PStatic = r.Pick(0.1, 0.25, 0.5), r.Pick(0.1, 0.3)
	conf.Arena *= r.Pick(0.4, 1)
	w := newWorld(t, r, conf)
	w.OnType = func(b *WBody, was pose) { stopped(t, b, was) }
	for i, n := 0, 20+r.Intn(80); i < n; i++ {
		w.ops()
		var fresh *WBody
		if r.P(0.3) {
			fresh = push(t, w)
		}
		before := map[*WBody]pose{}
		for _, b := range append(append([]*WBody(nil), w.Bodies...), w.Static) {
			before[b] = poseOf(b.B)
		}
		dt := w.dt()
		w.step(dt)
		unmoved(t, w, before, fresh, dt)
	}
	t.NonTrivial(len(t.trace), len(w.Bodies))
	t.Sample("%s", w.describe())
}

// c10pairs: one body that cannot be moved, one heavy and fast one that tries, and every joint between them.
func c10pairs(t *T) {
	r := t.R
	conf := genConf(r)
	conf.N, conf.Hash, conf.Types, conf.Joints, conf.Size = 0, r.Intn(2), false, true, r.LogRange(1, 10)
	conf.Handlers, conf.Sleep = false, false
	w := newWorld(t, r, conf)
	w.C.Speed = r.LogRange(10, 1e4)
	w.C.Arena = conf.Size
	w.C.PStatic, w.C.PKin = 0, 0
	if r.P(0.5) {
		w.C.PStatic = 1
	} else {
		w.C.PKin = 1
	}
	rock := w.addBody()
	w.C.PStatic, w.C.PKin = 0, 0
	for i := 0; i < 1+r.Intn(3); i++ {
		b := w.addBody()
		if !b.massShapes {
			b.Mass *= r.LogRange(1, 1e6)
			b.B.SetMass(b.Mass)
			if b.Mom < 1e300 {
				b.Mom *= r.LogRange(1, 1e6)
				b.B.SetMoment(b.Mom)
			}
		}
		for k := r.Intn(3); k > 0 && b.movable(); k-- {
			x, y := rock, b
			if r.P(0.5) {
				x, y = y, x
			}
			c := &WCon{ID: w.id(), A: x, B: y, Kind: allJoints[r.Intn(len(allJoints))], Collide: true, In: true}
			c.C = makeJoint(r, c.Kind, x.B, y.B, w.C.Size)
			w.putJoint(c)
			t.Ev("joint_" + c.Kind)
		}
	}
	for i := 0; i < 20; i++ {
		for _, b := range w.Bodies {
			if r.P(0.1) {
				b.B.SetPosition(vadd(rock.B.Position(), vmul(w.vel(), conf.Size/w.C.Speed)))
				w.moved(b)
			}
			if r.P(0.1) && b.Typ != cp.BODY_STATIC {
				b.B.SetVelocityVector(w.vel())
				b.B.SetAngularVelocity(r.Range(-10, 10))
			}
		}
		before := map[*WBody]pose{}
		for _, b := range w.Bodies {
			before[b] = poseOf(b.B)
		}
		dt := w.dt()
		w.step(dt)
		unmoved(t, w, before, nil, dt)
	}
	t.NonTrivial(len(w.Cons), rock.Typ)
}

// c10mass: bodies with an infinite mass and a moment of their own turn but never change their course.
func c10mass(t *T) {
	r := t.R
	sp := cp.NewSpace()
	if r.P(0.5) {
		sp.SetGravity(V{Y: -r.LogRange(1, 1e3)})
	}
	size := r.LogRange(0.5, 10)
	mk := func(mass, moment float64) *cp.Body {
		b := cp.NewBody(mass, moment)
		sp.AddBody(b)
		b.SetPosition(V{X: r.Range(-2, 2) * size, Y: r.Range(-2, 2) * size})
		b.SetAngle(genAngle(r))
		b.SetVelocity(r.Range(-9, 9), r.Range(-9, 9))
		b.SetAngularVelocity(r.Range(-1, 1))
		sp.AddShape(genShape(r, shapeGen{size: size, maxVerts: 6}).build(b)).SetFriction(r.Pick(0, 1))
		return b
	}
	heavy := mk(cp.INFINITY, r.LogRange(0.1, 1e3)*size*size)
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		m := r.LogRange(0.1, 1e3)
		b := mk(m, m*size*size)
		if r.P(0.5) {
			kind := []string{"pin", "slide", "pivot", "groove", "spring", "limit", "gear", "motor"}[r.Intn(8)]
			if r.P(0.5) {
				sp.AddConstraint(makeJoint(r, kind, heavy, b, size))
			} else {
				sp.AddConstraint(makeJoint(r, kind, b, heavy, size))
			}
		}
	}
	hits := 0
	for i := 0; i < 30; i++ {
		was := poseOf(heavy)
		sp.Step(1.0 / 60)
		is := poseOf(heavy)
		t.Check(vdist(is.v, was.v) <= 1e-200, "infinite-mass-deflected", "body with infinite mass had velocity %s, has %s", fv(was.v), fv(is.v))
		heavy.EachArbiter(func(*cp.Arbiter) { hits++ })
		if is.w != was.w {
			t.Ev("infinite_mass_turned")
		}
		t.Ev("infinite_mass_checked")
	}
	t.EvN("infinite_mass_contacts", hits)
	t.NonTrivial(n, hits > 0)
}

func init() {
	register(&Prop{ID: "C10",
		Technique: "runtime monitor: poses and velocities of static, kinematic and infinite bodies are compared (bitwise or with their own motion) around every step of hostile scenes with contacts and every kind of joint",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"histories", 12000, 200000, c10}, {"pairs", 24000, 400000, c10pairs}, {"mass", 8000, 100000, c10mass}},
		Need: map[string]int64{"static_checked": 50000, "kinematic_checked": 50000, "static_in_contact": 5000, "kinematic_in_contact": 5000, "kinematic_with_joint": 5000,
			"infinite_moment_checked": 5000, "infinite_moment_in_contact": 1000, "pushes": 1000, "infinite_mass_checked": 10000, "infinite_mass_contacts": 1000, "made_immovable_spinning": 1000},
	})
}
