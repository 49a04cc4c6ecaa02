package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// worldPts returns the core points of a shape in world space as the library has cached them.
func worldPts(s *cp.Shape) []V {
	switch c := s.Class.(type) {
	case *cp.Circle:
		return []V{c.TransformC()}
	case *cp.Segment:
		return []V{c.TransformA(), c.TransformB()}
	case *cp.PolyShape:
		var p []V
		for i := 0; i < c.Count(); i++ {
			p = append(p, c.TransformVert(i))
		}
		return p
	}
	return nil
}

func shapeRadius(s *cp.Shape) float64 {
	switch c := s.Class.(type) {
	case *cp.Circle:
		return c.Radius()
	case *cp.Segment:
		return c.Radius()
	case *cp.PolyShape:
		return c.Radius()
	}
	return 0
}

// rsOf is the reference shape with the library's cached world geometry.
func rsOf(s *cp.Shape) RS {
	p := worldPts(s)
	if len(p) == 2 && p[0] == p[1] {
		p = p[:1]
	}
	return RS{P: p, R: shapeRadius(s)}
}

// geometryFollows checks that the cached geometry of a shape is the body's transform of its local geometry.
func geometryFollows(t *T, s *cp.Shape, l LShape, b *cp.Body, when string) {
	var want []V
	for _, p := range l.P {
		want = append(want, b.LocalToWorld(p))
	}
	got := worldPts(s)
	sc := RS{P: want, R: l.R}.scale()
	tol := 1e-9 * sc
	t.Check(len(got) == len(want), "shape-vertices", "%s: shape has %d world points, want %d", when, len(got), len(want))
	off := 0
	if l.Kind == 'p' {
		off = -1
		for i := range want {
			if vdist(got[0], want[i]) <= tol {
				off = i
			}
		}
		t.Check(off >= 0, "shape-geometry", "%s: world vertex %s is none of %s", when, fv(got[0]), fvs(want))
	}
	for i := range got {
		w := want[(off+i)%len(want)]
		t.Check(vdist(got[i], w) <= tol, "shape-geometry", "%s: world point %d of %c is %s, body transform gives %s", when, i, l.Kind, fv(got[i]), fv(w))
	}
	bl, bb, br, bt := RS{P: want, R: l.R}.bb()
	box := s.BB()
	t.Check(near(box.L, bl, tol) && near(box.B, bb, tol) && near(box.R, br, tol) && near(box.T, bt, tol), "shape-box",
		"%s: box of %c is %v, want {%g %g %g %g}", when, l.Kind, box, bl, bb, br, bt)
}

// rigid checks that the body's accessors describe one rigid transform and one velocity field.
func rigid(t *T, b *cp.Body, r *Rand, when string) {
	a := b.Angle()
	pos, cog := b.Position(), b.CenterOfGravity()
	sc := vlen(pos) + vlen(cog) + 100
	tol := 1e-9 * sc
	rot := b.Rotation()
	t.Check(vnear(rot, V{X: math.Cos(a), Y: math.Sin(a)}, 1e-9), "rotation", "%s: rotation %s at angle %g", when, fv(rot), a)
	t.Check(vnear(b.LocalToWorld(V{}), pos, tol), "position", "%s: LocalToWorld(0)=%s, Position=%s", when, fv(b.LocalToWorld(V{})), fv(pos))
	for i := 0; i < 3; i++ {
		p := V{X: r.Range(-100, 100), Y: r.Range(-100, 100)}
		w := b.LocalToWorld(p)
		t.Check(vnear(w, vadd(pos, vrot(p, a)), tol), "LocalToWorld", "%s: LocalToWorld(%s)=%s, want %s", when, fv(p), fv(w), fv(vadd(pos, vrot(p, a))))
		t.Check(vnear(b.WorldToLocal(w), p, tol), "inverse", "%s: WorldToLocal(LocalToWorld(%s))=%s", when, fv(p), fv(b.WorldToLocal(w)))
		t.Check(vnear(b.LocalToWorld(b.WorldToLocal(p)), p, tol), "inverse", "%s: LocalToWorld(WorldToLocal(%s))", when, fv(p))
		// velocity field v + w x r about the centre of gravity
		v, om := b.Velocity(), b.AngularVelocity()
		rr := vsub(w, b.LocalToWorld(cog))
		want := V{X: v.X - om*rr.Y, Y: v.Y + om*rr.X}
		vt := 1e-9 * (vlen(v) + math.Abs(om)*sc + 1)
		t.Check(vnear(b.VelocityAtWorldPoint(w), want, vt), "VelocityAtWorldPoint", "%s: velocity at %s is %s, want %s", when, fv(w), fv(b.VelocityAtWorldPoint(w)), fv(want))
		t.Check(vnear(b.VelocityAtLocalPoint(p), want, vt), "VelocityAtLocalPoint", "%s: velocity at local %s is %s, want %s", when, fv(p), fv(b.VelocityAtLocalPoint(p)), fv(want))
	}
	t.Ev("rigid_checks")
}

func c27(t *T) {
	r := t.R
	space := cp.NewSpace()
	if r.P(0.3) {
		space.UseSpatialHash(r.LogRange(1, 50), 100)
	}
	var body *cp.Body
	typ := cp.BODY_DYNAMIC
	switch r.Intn(5) {
	case 0:
		body, typ = cp.NewKinematicBody(), cp.BODY_KINEMATIC
	case 1:
		body, typ = cp.NewStaticBody(), cp.BODY_STATIC
	default:
		body = cp.NewBody(r.LogRange(0.1, 100), r.LogRange(0.1, 1000))
	}
	t.Check(body.GetType() == typ, "type", "new body has type %d, want %d", body.GetType(), typ)
	inSpace := r.P(0.8)
	if inSpace {
		space.AddBody(body)
	}
	type ent struct {
		s *cp.Shape
		l LShape
	}
	var ents []ent
	g := shapeGen{size: r.LogRange(0.5, 20), offset: 20, sharp: true, degenerate: true}
	for i := 0; i < 1+r.Intn(4); i++ {
		l := genShape(r, g)
		s := l.build(body)
		if l.Kind == 's' && len(l.P) == 2 && l.P[0] == l.P[1] {
			t.Ev("point_segments")
		}
		if typ == cp.BODY_DYNAMIC && r.P(0.6) {
			s.SetMass(r.LogRange(0.1, 10)) // gives the body an off-centre centre of gravity
		}
		if inSpace {
			space.AddShape(s)
		} else {
			body.AddShape(s)
		}
		ents = append(ents, ent{s, l})
	}
	if inSpace {
		for _, e := range ents {
			geometryFollows(t, e.s, e.l, body, "on adding")
		}
	}
	rigid(t, body, r, "new body")
	if vlen(body.CenterOfGravity()) > 0.1 {
		t.Ev("offcentre_bodies")
	}
	for step := 0; step < 25; step++ {
		op := ""
		moved := false
		pos, ang, cogW := body.Position(), body.Angle(), body.LocalToWorld(body.CenterOfGravity())
		v, w := body.Velocity(), body.AngularVelocity()
		f, tq := body.Force(), body.Torque()
		tol := 1e-9 * (vlen(pos) + vlen(cogW) + 100)
		keepMotion := true
		switch r.Intn(10) {
		case 0:
			op = "SetPosition"
			p := V{X: r.Range(-200, 200), Y: r.Range(-200, 200)}
			body.SetPosition(p)
			t.Check(vnear(body.Position(), p, tol+1e-6*1e-3), op, "position set to %s reads %s", fv(p), fv(body.Position()))
			t.Check(body.Angle() == ang, op, "SetPosition turned the body")
			moved = true
		case 1:
			op = "SetAngle"
			a := genAngle(r)
			body.SetAngle(a)
			t.Check(body.Angle() == a, op, "angle set to %g reads %g", a, body.Angle())
			c := body.LocalToWorld(body.CenterOfGravity())
			t.Check(vnear(c, cogW, tol), op, "SetAngle moved the centre of gravity from %s to %s", fv(cogW), fv(c))
			moved = true
		case 2:
			op = "SetVelocity"
			v = V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
			if r.P(0.5) {
				body.SetVelocity(v.X, v.Y)
			} else {
				body.SetVelocityVector(v)
			}
		case 3:
			op = "SetAngularVelocity"
			w = r.Range(-5, 5)
			body.SetAngularVelocity(w)
		case 4:
			op = "SetForce"
			f, tq = V{X: r.Range(-5, 5), Y: r.Range(-5, 5)}, r.Range(-5, 5)
			body.SetForce(f)
			body.SetTorque(tq)
		case 5:
			op = "SetMass"
			if typ != cp.BODY_DYNAMIC {
				continue
			}
			m, i := r.LogRange(0.1, 100), r.LogRange(0.1, 100)
			body.SetMass(m)
			body.SetMoment(i)
			t.Check(body.Mass() == m && body.Moment() == i, op, "mass %g moment %g read back as %g, %g", m, i, body.Mass(), body.Moment())
			t.Check(vnear(body.Position(), pos, tol), op, "SetMass moved the body")
		case 6:
			op = "shape properties"
			e := ents[r.Intn(len(ents))].s
			fr, el, sn := r.Range(0, 2), r.Range(0, 1), r.P(0.5)
			fl := cp.NewShapeFilter(uint(r.Intn(4)), uint(r.Intn(16)), uint(r.Intn(16)))
			e.SetFriction(fr)
			e.SetElasticity(el)
			e.SetSensor(sn)
			e.SetFilter(fl)
			t.Check(e.Friction() == fr && e.Elasticity() == el && e.Sensor() == sn && e.Filter == fl && e.Body() == body, op, "shape properties do not read back")
			e.SetSensor(false)
		default:
			if !inSpace || (typ == cp.BODY_DYNAMIC && !(body.Mass() > 0 && body.Moment() > 0)) {
				continue
			}
			op = "Step"
			dt := r.Pick(1.0/60, 0.1, r.LogRange(1e-3, 1))
			space.Step(dt)
			if typ != cp.BODY_STATIC {
				c := body.LocalToWorld(body.CenterOfGravity())
				want := vadd(cogW, vmul(v, dt))
				t.Check(vnear(c, want, tol+1e-9*vlen(v)*dt), "step-position", "a step of %g moved the centre of gravity from %s to %s, want %s", dt, fv(cogW), fv(c), fv(want))
				t.Check(near(body.Angle(), ang+w*dt, 1e-9*(1+math.Abs(ang))), "step-angle", "a step turned the body from %g to %g", ang, body.Angle())
			} else {
				t.Check(body.Position() == pos && body.Angle() == ang, "step-static", "a step moved a static body")
			}
			keepMotion = false
			for _, e := range ents {
				if typ != cp.BODY_STATIC {
					geometryFollows(t, e.s, e.l, body, "after a step")
				}
			}
		}
		if keepMotion {
			t.Check(body.Velocity() == v && body.AngularVelocity() == w, op, "%s: velocity reads %s %g, want %s %g", op, fv(body.Velocity()), body.AngularVelocity(), fv(v), w)
			t.Check(body.Force() == f && body.Torque() == tq, op, "%s: force/torque read %s %g", op, fv(body.Force()), body.Torque())
		}
		if moved && (typ == cp.BODY_STATIC || r.P(0.5)) {
			for _, e := range ents {
				if inSpace {
					space.ReindexShape(e.s)
				} else {
					e.s.CacheBB()
				}
				geometryFollows(t, e.s, e.l, body, "after reindexing")
			}
		}
		t.Logf("%s", op)
		rigid(t, body, r, op)
		t.Ev("op_" + op)
	}
	t.NonTrivial(t.Case)
}

func c27constraint(t *T) {
	r := t.R
	for k := 0; k < 20; k++ {
		a, b := cp.NewBody(1, 1), cp.NewBody(2, 3)
		a.SetPosition(V{X: r.Range(-9, 9), Y: r.Range(-9, 9)})
		b.SetPosition(V{X: r.Range(-9, 9), Y: r.Range(-9, 9)})
		a.SetAngle(genAngle(r))
		b.SetAngle(genAngle(r))
		p := V{X: r.Range(-9, 9), Y: r.Range(-9, 9)}
		c := cp.NewPivotJoint(a, b, p)
		j := c.Class.(*cp.PivotJoint)
		t.Check(vnear(a.LocalToWorld(j.AnchorA), p, 1e-9) && vnear(b.LocalToWorld(j.AnchorB), p, 1e-9), "pivot-anchors", "NewPivotJoint at %s anchors at %s and %s", fv(p), fv(a.LocalToWorld(j.AnchorA)), fv(b.LocalToWorld(j.AnchorB)))
		q := V{X: r.Range(-9, 9), Y: r.Range(-9, 9)}
		pc := cp.NewPinJoint(a, b, p, q)
		pj := pc.Class.(*cp.PinJoint)
		t.Check(near(pj.Dist, vdist(a.LocalToWorld(p), b.LocalToWorld(q)), 1e-9), "pin-distance", "NewPinJoint distance %g, want %g", pj.Dist, vdist(a.LocalToWorld(p), b.LocalToWorld(q)))
		x, y, z := r.Range(0, 100), r.Range(0, 100), r.F()
		c.SetMaxForce(x)
		c.SetMaxBias(y)
		c.SetErrorBias(z)
		t.Check(c.MaxForce() == x && c.MaxBias() == y && c.ErrorBias() == z, "constraint-properties", "constraint properties do not read back")
		t.Ev("constraints")
	}
	t.NonTrivial(t.Case)
}

func init() {
	register(&Prop{
		ID:        "C27",
		Technique: "runtime monitoring: a rigid-transform consistency monitor attached to bodies and shapes through random histories of setters and steps",
		Note:      "25-operation histories on dynamic, kinematic and static bodies with off-centre centres of gravity, compared within 1e-9 relative",
		Rule:      "every case runs one history of a body with 1-4 shapes",
		Assumptions: []string{
			"after SetPosition/SetAngle outside a step, shape geometry is refreshed by the next step or ReindexShape, as documented",
			"SetAngle turns a body about its centre of gravity",
		},
		Loads: []Load{
			{"bodies", 48000, 200000, c27},
			{"constraints", 2000, 5000, c27constraint},
		},
		Need: map[string]int64{"rigid_checks": 50000, "offcentre_bodies": 2000, "op_Step": 5000, "op_SetAngle": 3000, "op_SetPosition": 3000, "point_segments": 100, "constraints": 1000},
	})
}
