package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

func c17formulas(t *T) {
	r := t.R
	rel := func(what string, got, want, scale float64) {
		t.Check(finite(got) && math.Abs(got-want) <= 1e-9*(math.Abs(want)+scale), what, "%s = %.17g, want %.17g", what, got, want)
	}
	for k := 0; k < 60; k++ {
		m := r.LogRange(1e-3, 1e4)
		r1, r2 := r.Range(0, 20), r.LogRange(0.01, 50)
		if r.P(0.4) {
			r1 = 0
		}
		if r.P(0.3) {
			r1, r2 = r2, r1
		}
		off := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
		if r.P(0.3) {
			off = V{}
		}
		t.Logf("m=%g r1=%g r2=%g off=%s", m, r1, r2, fv(off))
		// a ring, integrated as the difference of two discs
		rel("AreaForCircle", cp.AreaForCircle(r1, r2), math.Abs(math.Pi*r2*r2-math.Pi*r1*r1), 0)
		if r1 != r2 {
			ro, ri := math.Max(r1, r2), math.Min(r1, r2)
			ring := (ro*ro*ro*ro - ri*ri*ri*ri) / (ro*ro - ri*ri) / 2
			rel("MomentForCircle", cp.MomentForCircle(m, r1, r2, off), m*(ring+vdot(off, off)), m*1e-6)
		}
		// segments
		a, b := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}, V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
		l, c := vdist(a, b), vmul(vadd(a, b), 0.5)
		rel("MomentForSegment", cp.MomentForSegment(m, a, b, 0), m*(l*l/12+vdot(c, c)), m*1e-6)
		rad := r.Range(0, 10)
		bl, bw := l+2*rad, 2*rad
		rel("MomentForSegment-bevelled", cp.MomentForSegment(m, a, b, rad), m*((bl*bl+bw*bw)/12+vdot(c, c)), m*1e-6)
		rel("AreaForSegment", cp.AreaForSegment(a, b, rad), 2*rad*l+math.Pi*rad*rad, 0)
		// boxes
		w, h := r.LogRange(0.01, 100), r.LogRange(0.01, 100)
		rel("MomentForBox", cp.MomentForBox(m, w, h), m*(w*w+h*h)/12, 0)
		bb := cp.BB{L: off.X, B: off.Y, R: off.X + w, T: off.Y + h}
		bp := []V{{X: bb.L, Y: bb.B}, {X: bb.R, Y: bb.B}, {X: bb.R, Y: bb.T}, {X: bb.L, Y: bb.T}}
		rel("MomentForBox2", cp.MomentForBox2(m, bb), m*polyMoment(bp, V{}), m*1e-6)
		// polygons
		p := genConvex(r, 3+r.Intn(9), r.LogRange(0.5, 50))
		if r.P(0.5) { // star-shaped, not convex
			s := r.LogRange(0.5, 50)
			n := 5 + r.Intn(10)
			p = nil
			for i := 0; i < n; i++ {
				p = append(p, vmul(cp.ForAngle(2*math.Pi*(float64(i)+0.5*r.F())/float64(n)), s*r.Range(0.3, 1)))
			}
		}
		for i := range p {
			p[i] = vadd(p[i], off)
		}
		A := polyArea(p)
		sc := RS{P: p}.scale()
		per := 0.0
		for i := range p {
			per += vdist(p[i], p[(i+1)%len(p)])
		}
		t.Logf("poly=%s", fvs(p))
		rel("AreaForPoly", cp.AreaForPoly(len(p), p, 0), A, 1e-3*sc*sc)
		rel("AreaForPoly-bevelled", cp.AreaForPoly(len(p), p, rad), A+rad*per+math.Pi*rad*rad, 1e-3*sc*sc)
		cen := polyCentroid(p)
		got := cp.CentroidForPoly(len(p), p)
		t.Check(vnear(got, cen, 1e-7*sc*math.Max(1, sc*sc/A/100)), "CentroidForPoly", "CentroidForPoly %s want %s", fv(got), fv(cen))
		o := V{X: r.Range(-30, 30), Y: r.Range(-30, 30)}
		rel("MomentForPoly", cp.MomentForPoly(m, len(p), p, o, 0), m*polyMoment(p, vmul(o, -1)), m*1e-3*(sc*sc+900)*math.Max(1, sc*sc/A/100))
		// a line is a polygon of two corners
		line := []V{vadd(a, off), vadd(b, off)}
		la, lb := vadd(line[0], o), vadd(line[1], o)
		lc := vmul(vadd(la, lb), 0.5)
		rel("MomentForPoly-line", cp.MomentForPoly(m, 2, line, o, 0), m*(l*l/12+vdot(lc, lc)), m*1e-6)
		// the other way round it is the same figure
		cw := make([]V, len(p))
		for i := range p {
			cw[len(p)-1-i] = p[i]
		}
		got = cp.CentroidForPoly(len(cw), cw)
		t.Check(vnear(got, cen, 1e-7*sc*math.Max(1, sc*sc/A/100)), "CentroidForPoly-cw", "clockwise: CentroidForPoly %s want %s", fv(got), fv(cen))
		rel("MomentForPoly-cw", cp.MomentForPoly(m, len(cw), cw, o, 0), m*polyMoment(p, vmul(o, -1)), m*1e-3*(sc*sc+900)*math.Max(1, sc*sc/A/100))
		t.Ev("figures")
	}
	t.NonTrivial(t.Case)
}

// refMass is the expected mass data of one shape about its own centre.
type refMass struct {
	m, area, i float64 // i per unit mass
	c          V
}

func refShapeMass(l LShape) refMass {
	switch l.Kind {
	case 'c':
		return refMass{area: math.Pi * l.R * l.R, i: l.R * l.R / 2, c: l.P[0]}
	case 's':
		a, b := l.P[0], l.P[len(l.P)-1]
		d := vdist(a, b)
		w, h := d+2*l.R, 2*l.R
		return refMass{area: 2*l.R*d + math.Pi*l.R*l.R, i: (w*w + h*h) / 12, c: vmul(vadd(a, b), 0.5)}
	}
	per := 0.0
	for i := range l.P {
		per += vdist(l.P[i], l.P[(i+1)%len(l.P)])
	}
	c := polyCentroid(l.P)
	return refMass{area: polyArea(l.P) + l.R*per + math.Pi*l.R*l.R, i: polyMoment(l.P, c), c: c}
}

func c17body(t *T) {
	r := t.R
	space := cp.NewSpace()
	body := cp.NewBody(0, 0)
	inSpace := r.P(0.7)
	if inSpace {
		space.AddBody(body)
	}
	type ent struct {
		s *cp.Shape
		l LShape
		m float64
	}
	var ents []*ent
	pos, ang := V{X: r.Range(-100, 100), Y: r.Range(-100, 100)}, genAngle(r)
	body.SetAngle(ang)
	body.SetPosition(pos)
	g := shapeGen{size: r.LogRange(0.5, 20), offset: 20, sharp: true}
	scale := vlen(pos) + 60 + 4*g.size

	check := func(op string) {
		M, C := 0.0, V{}
		for _, e := range ents {
			rm := refShapeMass(e.l)
			t.Check(near(e.s.Mass(), e.m, 1e-8*e.m), "shape-mass", "after %s: shape mass %g want %g", op, e.s.Mass(), e.m)
			t.Check(near(e.s.Area(), rm.area, 1e-8*(rm.area+1)), "shape-area", "after %s: shape area %g want %g", op, e.s.Area(), rm.area)
			t.Check(vnear(e.s.CenterOfGravity(), rm.c, 1e-7*scale), "shape-cog", "after %s: shape cog %s want %s", op, fv(e.s.CenterOfGravity()), fv(rm.c))
			t.Check(near(e.s.Moment(), e.m*rm.i, 1e-7*e.m*(rm.i+1)), "shape-moment", "after %s: shape moment %g want %g", op, e.s.Moment(), e.m*rm.i)
			if rm.area > 0 {
				t.Check(near(e.s.Density(), e.m/rm.area, 1e-7*(e.m/rm.area)), "shape-density", "after %s: density %g want %g", op, e.s.Density(), e.m/rm.area)
			}
			M += e.m
			C = vadd(C, vmul(rm.c, e.m))
		}
		if M > 0 {
			C = vmul(C, 1/M)
		}
		I := 0.0
		for _, e := range ents {
			rm := refShapeMass(e.l)
			d := vsub(rm.c, C)
			I += e.m * (rm.i + vdot(d, d))
		}
		if body.GetType() == cp.BODY_DYNAMIC {
			t.Check(near(body.Mass(), M, 1e-9*(M+1)), "mass", "after %s: body mass %.17g want %.17g", op, body.Mass(), M)
			t.Check(near(body.Moment(), I, 1e-7*(I+M)), "moment", "after %s: body moment %.17g want %.17g", op, body.Moment(), I)
			t.Check(vnear(body.CenterOfGravity(), C, 1e-7*scale), "cog", "after %s: body cog %s want %s", op, fv(body.CenterOfGravity()), fv(C))
		} else {
			t.Check(math.IsInf(body.Mass(), 0) || body.Mass() == cp.INFINITY, "mass", "after %s: non-dynamic body has mass %g", op, body.Mass())
		}
		t.Check(vnear(body.Position(), pos, 1e-9*scale), "position", "after %s: body moved from %s to %s", op, fv(pos), fv(body.Position()))
		t.Check(body.Angle() == ang, "angle", "after %s: body turned from %g to %g", op, ang, body.Angle())
		for i, e := range ents {
			e.s.CacheBB()
			var got []V
			switch c := e.s.Class.(type) {
			case *cp.Circle:
				got = []V{c.TransformC()}
			case *cp.Segment:
				got = []V{c.TransformA(), c.TransformB()}
			case *cp.PolyShape:
				for k := 0; k < c.Count(); k++ {
					got = append(got, c.TransformVert(k))
				}
			}
			want := e.l.at(pos, ang).P
			for _, p := range got {
				d := math.Inf(1)
				for _, q := range want {
					d = math.Min(d, vdist(p, q))
				}
				t.Check(d <= 1e-9*scale, "shape-moved", "after %s: shape %d (%c) has the world point %s, want one of %s", op, i, e.l.Kind, fv(p), fvs(want))
			}
		}
		t.Ev("mass_checks")
	}

	add := func() {
		l := genShape(r, g)
		if r.P(0.1) { // a point
			l = LShape{'c', []V{{X: r.Range(-g.size, g.size), Y: r.Range(-g.size, g.size)}}, 0}
			t.Ev("point_masses")
		}
		e := &ent{s: l.build(body), l: l}
		if r.P(0.8) {
			e.m = r.LogRange(0.01, 100)
			if rm := refShapeMass(l); r.P(0.4) && rm.area > 0 {
				d := e.m / rm.area
				e.s.SetDensity(d)
				e.m = d * rm.area
			} else {
				e.s.SetMass(e.m)
			}
		}
		if inSpace {
			space.AddShape(e.s)
		} else {
			body.AddShape(e.s)
		}
		ents = append(ents, e)
	}
	add()
	check("first shape")
	most := 6
	if r.P(0.04) {
		most = 7 + r.Intn(60)
		for len(ents) < most {
			add()
		}
		check("many shapes")
		t.Ev("many_shapes")
	}
	for step := 0; step < 25; step++ {
		op := ""
		var e *ent
		if len(ents) > 0 {
			e = ents[r.Intn(len(ents))]
		}
		switch k := r.Intn(10); {
		case k < 3 || e == nil:
			if len(ents) > most {
				continue
			}
			add()
			op = "add"
		case k == 3:
			for i := range ents {
				if ents[i] == e {
					ents = append(ents[:i], ents[i+1:]...)
					break
				}
			}
			if inSpace {
				space.RemoveShape(e.s)
			} else {
				body.RemoveShape(e.s)
			}
			op = "remove"
		case k == 4:
			e.m = r.Pick(0, r.LogRange(0.01, 100), r.LogRange(0.01, 100))
			e.s.SetMass(e.m)
			op = "SetMass"
		case k == 5:
			rm := refShapeMass(e.l)
			if rm.area > 0 {
				d := r.Pick(r.LogRange(0.001, 10), r.LogRange(0.001, 10), 0)
				e.s.SetDensity(d)
				e.m = d * rm.area
			}
			op = "SetDensity"
		case k == 6: // radius
			e.l.R = g.size * r.Range(0.1, 1)
			switch c := e.s.Class.(type) {
			case *cp.Circle:
				c.SetRadius(e.l.R)
			case *cp.Segment:
				c.SetRadius(e.l.R)
			case *cp.PolyShape:
				c.SetRadius(e.l.R)
			}
			op = "SetRadius"
		case k == 7: // outline
			switch c := e.s.Class.(type) {
			case *cp.Segment:
				if a, b := e.l.P[0], e.l.P[1]; r.P(0.3) { // the same centre, another length or direction
					h := V{X: r.Range(-20, 20), Y: r.Range(-20, 20)}
					if m := vmul(vadd(a, b), 0.5); r.P(0.6) {
						h = vmul(vsub(b, m), r.Pick(0.5, 2, -1, 4))
						e.l.P = []V{vsub(m, h), vadd(m, h)}
					} else {
						e.l.P = []V{vmul(h, -1), h}
					}
					t.Ev("same_centre")
				} else {
					e.l.P = []V{{X: r.Range(-20, 20), Y: r.Range(-20, 20)}, {X: r.Range(-20, 20), Y: r.Range(-20, 20)}}
				}
				c.SetEndpoints(e.l.P[0], e.l.P[1])
				op = "SetEndpoints"
			case *cp.PolyShape:
				if last := e.l.P; r.P(0.3) { // same area and centre, another outline
					w, h := math.Ldexp(1, r.Intn(5)-1), math.Ldexp(1, r.Intn(5)-1)
					if len(last) == 4 && r.P(0.5) && last[2].X == -last[0].X && last[2].Y == -last[0].Y {
						w, h = 2*math.Abs(last[0].X), math.Abs(last[0].Y)/2
						t.Ev("same_area")
					}
					e.l.P = []V{{X: -w, Y: -h}, {X: w, Y: -h}, {X: w, Y: h}, {X: -w, Y: h}}
				} else {
					e.l.P = genConvex(r, 3+r.Intn(6), g.size)
				}
				if r.P(0.3) {
					e.l.R = 0
					c.SetRadius(0)
				}
				c.SetVertsUnsafe(len(e.l.P), append([]V(nil), e.l.P...), cp.NewTransformIdentity())
				op = "SetVertsUnsafe"
			}
		case k == 8:
			pos, ang = V{X: r.Range(-100, 100), Y: r.Range(-100, 100)}, genAngle(r)
			body.SetAngle(ang)
			body.SetPosition(pos)
			op = "move"
		case k == 9 && r.P(0.3):
			m := 0.0
			for _, x := range ents {
				m += x.m
			}
			if m > 0 {
				body.AccumulateMassFromShapes() // already accounted for
				op = "Accumulate"
			}
		default:
			if !inSpace || r.P(0.5) {
				continue
			}
			if body.GetType() == cp.BODY_DYNAMIC {
				body.SetType([]int{cp.BODY_KINEMATIC, cp.BODY_STATIC}[r.Intn(2)])
			} else {
				body.SetType(cp.BODY_DYNAMIC)
			}
			op = "SetType"
			t.Ev("type_changes")
		}
		if op == "" {
			continue
		}
		t.Logf("%s", op)
		check(op)
		t.Ev("op_" + op)
	}
	t.NonTrivial(t.Case)
}

func init() {
	register(&Prop{
		ID:        "C17",
		Technique: "runtime monitoring: closed-form and triangle-fan oracles for figures; a mass-ledger monitor on bodies through random add/remove/re-mass/reshape/type-change histories",
		Note:      "generated figures and 25-operation histories, compared within 1e-7 relative",
		Rule:      "every case checks 60 figures or one body history",
		Assumptions: []string{
			"a segment's moment is that of its bounding box and a polygon's moment ignores its radius, as documented in the code",
			"polygons have positive area",
		},
		Loads: []Load{
			{"figures", 3000, 40000, c17formulas},
			{"bodies", 40000, 150000, c17body},
		},
		Need: map[string]int64{"figures": 50000, "mass_checks": 50000, "op_SetRadius": 1000, "op_SetEndpoints": 200, "op_SetVertsUnsafe": 200, "op_remove": 1000, "op_SetMass": 1000, "op_SetDensity": 1000, "type_changes": 500, "point_masses": 5000, "same_area": 500, "same_centre": 100},
	})
}
