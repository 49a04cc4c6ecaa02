package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// pairPose is two shapes in world poses.
type pairPose struct {
	la, lb LShape
	pa, pb V
	aa, ab float64
	mode   string
}

func (p pairPose) String() string {
	return fmt.Sprintf("mode=%s A=%c%s r=%.17g at %s ang %.17g; B=%c%s r=%.17g at %s ang %.17g", p.mode, p.la.Kind, fvs(p.la.P), p.la.R, fv(p.pa), p.aa,
		p.lb.Kind, fvs(p.lb.P), p.lb.R, fv(p.pb), p.ab)
}

func fv(v V) string { return fmt.Sprintf("{%.17g, %.17g}", v.X, v.Y) }
func fvs(v []V) string {
	s := ""
	for _, x := range v {
		s += fv(x)
	}
	return "[" + s + "]"
}

func genPair(r *Rand) pairPose {
	var p pairPose
	sa := r.LogRange(0.5, 50)
	sb := sa
	if r.P(0.3) {
		sb = sa * r.LogRange(0.02, 50)
	}
	ga := shapeGen{size: sa, sharp: true, degenerate: true, maxVerts: 12, few: true}
	gb := ga
	gb.size = sb
	if r.P(0.5) {
		ga.offset, gb.offset = sa, sb
	}
	p.la, p.lb = genShape(r, ga), genShape(r, gb)
	p.aa, p.ab = genAngle(r), genAngle(r)
	base := V{}
	switch r.Intn(4) {
	case 0:
		base = V{X: r.Range(-100, 100), Y: r.Range(-100, 100)}
	case 1:
		base = V{X: r.Range(-1e4, 1e4), Y: r.Range(-1e4, 1e4)}
	}
	p.pa = base
	switch m := r.Intn(9); m {
	case 0: // random
		p.mode = "random"
		p.pb = vadd(base, V{X: r.Range(-1.5, 1.5) * (sa + sb), Y: r.Range(-1.5, 1.5) * (sa + sb)})
	case 1: // coincident origins
		p.mode = "coincident"
		p.pb = base
	case 2: // aligned grid
		p.mode = "grid"
		p.aa = math.Pi / 2 * float64(r.Intn(4))
		p.ab = p.aa
		q := sa / 4
		p.pb = vadd(base, V{X: q * float64(r.Intn(17)-8), Y: q * float64(r.Intn(17)-8)})
	case 3: // copies of the same figure
		p.mode = "copy"
		p.lb = p.la
		p.ab = p.aa
		if r.P(0.5) {
			p.ab += math.Pi / 2 * float64(r.Intn(4))
		}
		p.pb = vadd(base, V{X: r.Range(-1, 1) * sa, Y: r.Range(-1, 1) * sa})
		if r.P(0.3) {
			p.pb.Y = base.Y
		}
	case 8: // segments end to end or end-on
		p.mode = "endon"
		l := sa * r.Range(0.3, 1)
		p.la = LShape{'s', []V{{X: -l}, {X: l}}, r.Pick(0, 0.1, 0.3) * sa}
		p.aa = math.Pi / 2 * float64(r.Intn(4))
		dir := vrot(V{X: 1}, p.aa)
		if r.P(0.5) {
			l2 := sa * r.Range(0.3, 1)
			p.lb = LShape{'s', []V{{X: -l2}, {X: l2}}, r.Pick(0, 0.1, 0.3) * sa}
			p.ab = p.aa + math.Pi*float64(r.Intn(2))
			l += l2
		} else {
			p.ab = 0
			l += sa * r.Range(0, 1)
		}
		if r.P(0.7) { // exactly axis-aligned
			p.aa, p.ab = 0, 0
			dir = V{X: 1}
			if r.P(0.5) {
				dir = V{Y: 1}
				flip := func(l *LShape) {
					for i, v := range l.P {
						l.P[i] = V{X: v.Y, Y: v.X}
					}
				}
				flip(&p.la)
				if p.lb.Kind == 's' {
					flip(&p.lb)
				}
			}
			if r.P(0.5) {
				p.la.P[0], p.la.P[1] = p.la.P[1], p.la.P[0]
			}
		}
		p.pb = vadd(base, vmul(dir, (l+sa*r.Range(-0.5, 0.5))*r.Sign()))
	default:
		p.mode = "target"
		th := r.Range(0, 2*math.Pi)
		if r.P(0.3) {
			th = math.Pi / 4 * float64(r.Intn(8))
		}
		dir := V{X: math.Cos(th), Y: math.Sin(th)}
		min := math.Min(sa, sb)
		target := r.Pick(0, -1e-4, 1e-4, -1e-2, 1e-2, -0.1, 0.1, -0.3, -0.7, 0.4) * min
		if r.P(0.15) { // touching by hardly more than rounding
			sc := math.Max(sa+sb, math.Max(math.Abs(base.X), math.Abs(base.Y)))
			target = r.Sign() * r.LogRange(3e-9, 1e-5) * sc
			p.mode = "hair"
		}
		lo, hi := 0.0, 20*(sa+sb)+vlen(vsub(p.la.at(V{}, p.aa).P[0], p.lb.at(V{}, p.ab).P[0]))
		A := p.la.at(base, p.aa)
		for i := 0; i < 60; i++ {
			m := (lo + hi) / 2
			if shapeDist(A, p.lb.at(vadd(base, vmul(dir, m)), p.ab)) > target {
				hi = m
			} else {
				lo = m
			}
		}
		p.pb = vadd(base, vmul(dir, hi))
	}
	return p
}

func (p pairPose) make() (sa, sb *cp.Shape, A, B RS) {
	ba, bb := cp.NewBody(1, 1), cp.NewBody(1, 1)
	ba.SetPosition(p.pa)
	ba.SetAngle(p.aa)
	bb.SetPosition(p.pb)
	bb.SetAngle(p.ab)
	sa, sb = p.la.build(ba), p.lb.build(bb)
	sa.CacheBB()
	sb.CacheBB()
	return sa, sb, p.la.at(p.pa, p.aa), p.lb.at(p.pb, p.ab)
}

// checkContacts decides one contact set against the reference geometry. It returns whether the shapes clearly overlap.
func checkContacts(t *T, A, B RS, set cp.ContactPointSet, what string) {
	scale := math.Max(A.scale(), B.scale())
	tol := 1e-9 * scale
	if tol < 1e-9 {
		tol = 1e-9
	}
	sd := shapeDist(A, B)
	t.Check(set.Count >= 0 && set.Count <= 2, "count", "%s: %d contacts", what, set.Count)
	if set.Count == 0 {
		t.Check(sd > -tol, "missed-overlap", "%s: no contact although shapes overlap by %g", what, -sd)
		t.Ev("pairs_apart")
		return
	}
	t.Check(sd < tol, "false-contact", "%s: contact although shapes are %g apart", what, sd)
	n := set.Normal
	t.Check(vfinite(n), "nan", "%s: normal %v", what, n)
	t.Check(math.Abs(vlen(n)-1) < 1e-9, "normal-length", "%s: |normal| = %v", what, vlen(n))
	cd := coreShapeDist(A, B)
	sep := sepAlong(A, B, n)
	ntol := tol
	if len(A.P)+len(B.P) <= 3 && math.Abs(cd) < tol {
		// a point on the core of a segment within rounding: the axis is not determined
		sep = cd
		t.Ev("axis_undetermined")
	}
	t.Check(math.Abs(sep-cd) < 10*ntol, "normal-not-minimal", "%s: separation along the reported normal %v is %v, the least is %v", what, n, sep, cd)
	best := math.Inf(1)
	for i := 0; i < set.Count; i++ {
		c := set.Points[i]
		t.Check(vfinite(c.PointA, c.PointB) && finite(c.Distance), "nan", "%s: contact %d = %+v", what, i, c)
		d := vdot(vsub(c.PointB, c.PointA), n)
		t.Check(math.Abs(d-c.Distance) < tol, "distance-formula", "%s: contact %d distance %v but points are %v apart along the normal", what, i, c.Distance, d)
		t.Check(c.Distance < tol, "positive-distance", "%s: contact %d distance %v is positive", what, i, c.Distance)
		best = math.Min(best, c.Distance)
		ca := vsub(c.PointA, vmul(n, A.R))
		cb := vadd(c.PointB, vmul(n, B.R))
		t.Check(A.boundaryDist(ca) < 10*tol, "point-off-surface", "%s: contact %d point A %v is %g off the first shape", what, i, c.PointA, A.boundaryDist(ca))
		t.Check(B.boundaryDist(cb) < 10*tol, "point-off-surface", "%s: contact %d point B %v is %g off the second shape", what, i, c.PointB, B.boundaryDist(cb))
	}
	t.Check(math.Abs(best-sd) < 20*tol, "distance-wrong", "%s: smallest reported distance %v, true signed distance %v", what, best, sd)
	t.Ev("pairs_touching")
	t.EvN("contacts", set.Count)
	if cd < -tol {
		t.Ev("cores_overlapping")
	}
}

// faceInterval: when both shapes have a core edge perpendicular to n, the tangential overlap interval of those edges.
func faceEdge(s RS, n V, sign float64) (lo, hi float64, ok bool) {
	if len(s.P) < 2 {
		return
	}
	tan := V{X: -n.Y, Y: n.X}
	ext := math.Inf(-1)
	for _, p := range s.P {
		ext = math.Max(ext, sign*vdot(p, n))
	}
	tol := 1e-9 * s.scale()
	lo, hi = math.Inf(1), math.Inf(-1)
	cnt := 0
	for _, p := range s.P {
		if ext-sign*vdot(p, n) < tol {
			c := vdot(p, tan)
			lo, hi = math.Min(lo, c), math.Max(hi, c)
			cnt++
		}
	}
	return lo, hi, cnt >= 2 && hi-lo > 1e-4*s.scale()
}

func checkFaces(t *T, A, B RS, set cp.ContactPointSet, what string) {
	if set.Count == 0 {
		return
	}
	n := set.Normal
	la, ha, oka := faceEdge(A, n, 1)
	lb, hb, okb := faceEdge(B, n, -1)
	if !oka || !okb {
		return
	}
	lo, hi := math.Max(la, lb), math.Min(ha, hb)
	scale := math.Max(A.scale(), B.scale())
	if hi-lo < 1e-3*scale || shapeDist(A, B) > -1e-6*scale {
		return
	}
	t.Check(set.Count == 2, "face-contacts", "%s: faces overlap over [%v,%v] but %d contact was reported", what, lo, hi, set.Count)
	tan := V{X: -n.Y, Y: n.X}
	var got [2]float64
	for i := 0; i < 2; i++ {
		x, y := vdot(set.Points[i].PointA, tan), vdot(set.Points[i].PointB, tan)
		t.Check(math.Abs(x-y) < 1e-6*scale, "face-contacts", "%s: contact %d of two flush faces is skewed: %v vs %v", what, i, x, y)
		got[i] = x
	}
	if got[0] > got[1] {
		got[0], got[1] = got[1], got[0]
	}
	t.Check(math.Abs(got[0]-lo) < 1e-6*scale && math.Abs(got[1]-hi) < 1e-6*scale, "face-contacts",
		"%s: contacts at %v, faces overlap over [%v,%v]", what, got, lo, hi)
	t.Ev("flush_faces")
}

func c02pairs(t *T) {
	const n = 40
	for i := 0; i < n; i++ {
		p := genPair(t.R)
		t.Logf("pair %d: %s", i, p)
		sa, sb, A, B := p.make()
		if collinearNoise(A, B) {
			t.Ev("collinear_noise_skipped")
			continue
		}
		set := cp.ShapesCollide(sa, sb)
		t.Logf("  set %+v", set)
		checkContacts(t, A, B, set, "collide(A,B)")
		checkFaces(t, A, B, set, "collide(A,B)")
		rev := cp.ShapesCollide(sb, sa)
		checkContacts(t, B, A, rev, "collide(B,A)")
		checkFaces(t, B, A, rev, "collide(B,A)")
		again := cp.ShapesCollide(sa, sb)
		t.Check(again == set, "unstable", "the same query gave %+v then %+v", set, again)
		// mirrored contacts, when the axis is unambiguous
		if set.Count > 0 && rev.Count > 0 && p.la.Kind != p.lb.Kind {
			t.Check(set.Count == rev.Count && vdist(set.Normal, vmul(rev.Normal, -1)) < 1e-12, "swap", "swapped query: %+v vs %+v", set, rev)
			for k := 0; k < set.Count; k++ {
				a, b := set.Points[k], rev.Points[k]
				t.Check(a.PointA == b.PointB && a.PointB == b.PointA && a.Distance == b.Distance, "swap", "swapped contact %d: %+v vs %+v", k, a, b)
			}
			t.Ev("swap_pairs")
		}
		t.Ev(fmt.Sprintf("kind_%c%c", p.la.Kind, p.lb.Kind))
		if set.Count > 0 {
			t.NonTrivial(p.String())
		}
		t.Sample("%s -> count=%d normal=%v d0=%v", p, set.Count, set.Normal, set.Points[0].Distance)
	}
}

// roundish is a polygon of n corners on an ellipse.
func roundish(r *Rand, n int, size float64) LShape {
	w, h := size*r.Range(0.3, 1), size*r.Range(0.3, 1)
	turn, even := r.Range(0, 7), r.P(0.5)
	var p []V
	for i := 0; i < n; i++ {
		a := float64(i)
		if !even {
			a += r.Range(-0.3, 0.3)
		}
		s, c := math.Sincos(a * 2 * math.Pi / float64(n))
		p = append(p, vrot(V{X: w * c, Y: h * s}, turn))
	}
	// any corner may be the first
	k := r.Intn(n)
	p = append(append([]V{}, p[k:]...), p[:k]...)
	return LShape{'p', p, r.Pick(0, 0.1, 0.5) * size}
}

// c02many: polygons with many corners. Overlapping cores are expanded a corner at a time, up to a limit, so that only
// pairs with few corners, or with cores apart, are exact.
func c02many(t *T) {
	r := t.R
	for i := 0; i < 10; i++ {
		p := genPair(r)
		sz := r.LogRange(0.5, 50)
		n := 12 + r.Intn(15)
		if r.P(0.3) {
			n = int(r.LogRange(27, 700))
		}
		if r.P(0.15) {
			// more corners than the low byte of an index tells apart
			n = 257 + r.Intn(500)
		}
		p.la = roundish(r, n, sz)
		if r.P(0.3) {
			m := 3 + r.Intn(30-min(n, 27))
			if n > 27 {
				m = int(r.LogRange(3, 60))
			}
			p.lb = roundish(r, m, sz*r.LogRange(0.1, 10))
		} else {
			p.lb = genShape(r, shapeGen{size: sz * r.LogRange(0.1, 10), sharp: true, maxVerts: 5, few: true})
		}
		if r.P(0.8) {
			p.pb = vadd(p.pa, vmul(vrot(V{X: 1}, r.Range(0, 7)), sz*r.Range(0, 3)))
		}
		if r.P(0.5) {
			p.la, p.lb = p.lb, p.la
		}
		t.Logf("pair %d: %s", i, p)
		sa, sb, A, B := p.make()
		set := cp.ShapesCollide(sa, sb)
		corners := len(p.la.P) + len(p.lb.P)
		if cd := coreShapeDist(A, B); corners <= 32 || cd > 0 {
			checkContacts(t, A, B, set, "collide(A,B)")
			checkFaces(t, A, B, set, "collide(A,B)")
			t.Ev("many_exact")
		} else {
			sd := cd - A.R - B.R
			scale := math.Max(A.scale(), B.scale())
			t.Check(set.Count > 0, "missed-overlap", "no contact although shapes overlap by %g", -sd)
			best := 0.0
			for k := 0; k < set.Count; k++ {
				best = math.Min(best, set.Points[k].Distance)
			}
			t.Check(math.Abs(best-sd) <= 0.02*scale, "distance-wrong", "smallest reported distance %v, true signed distance %v", best, sd)
			t.Ev("many_deep")
		}
		t.NonTrivial(p.String())
	}
}

// collinearNoise: two segments on one line up to rounding, but not exactly; see known finding KF-C02-1.
func collinearNoise(A, B RS) bool {
	if len(A.P) != 2 || len(B.P) != 2 {
		return false
	}
	tol := 1e-9 * math.Max(A.scale(), B.scale())
	d := vsub(A.P[1], A.P[0])
	n := vmul(V{X: -d.Y, Y: d.X}, 1/vlen(d))
	for _, p := range B.P {
		if math.Abs(vdot(vsub(p, A.P[0]), n)) > tol {
			return false
		}
	}
	x, y := A.P[0].X, A.P[0].Y
	exactX := A.P[1].X == x && B.P[0].X == x && B.P[1].X == x
	exactY := A.P[1].Y == y && B.P[0].Y == y && B.P[1].Y == y
	return !exactX && !exactY
}

func c02probeCollinear(t *T) {
	p := pairPose{mode: "probe", la: LShape{'s', []V{{X: -33.155626250961326}, {X: 33.155626250961326}}, 10.306411775226342},
		lb: LShape{'s', []V{{X: -15.908641134740016}, {X: 15.908641134740016}}, 0},
		pb: V{X: -6.2434089614302739e-15, Y: -33.987535376334286}, aa: 4.7123889803846897, ab: 4.7123889803846897}
	sa, sb, A, B := p.make()
	checkContacts(t, A, B, cp.ShapesCollide(sa, sb), "collide(A,B)")
}

// c02space drives pairs through the solver, so that narrow phase starts warm from earlier steps.
func c02space(t *T) {
	r := t.R
	sp := cp.NewSpace()
	sp.Iterations = uint(1 + r.Intn(5))
	if r.P(0.5) {
		sp.SetGravity(V{Y: -100})
	}
	type item struct {
		l LShape
		b *cp.Body
		s *cp.Shape
	}
	var items []*item
	find := map[*cp.Shape]*item{}
	n := 4 + r.Intn(10)
	for i := 0; i < n; i++ {
		l := genShape(r, shapeGen{size: 8, offset: 4, sharp: true, maxVerts: 10, few: true})
		var b *cp.Body
		switch {
		case i == 0:
			l = LShape{'p', []V{{X: -80, Y: -5}, {X: 80, Y: -5}, {X: 80, Y: 5}, {X: -80, Y: 5}}, r.Pick(0, 1)}
			b = sp.AddBody(cp.NewStaticBody())
			b.SetPosition(V{Y: -30})
		case r.P(0.15):
			b = sp.AddBody(cp.NewKinematicBody())
			b.SetVelocity(r.Range(-20, 20), r.Range(-20, 20))
			b.SetAngularVelocity(r.Range(-2, 2))
		default:
			b = sp.AddBody(cp.NewBody(r.LogRange(0.5, 20), r.LogRange(10, 1000)))
			b.SetVelocity(r.Range(-60, 60), r.Range(-60, 60))
			b.SetAngularVelocity(r.Range(-4, 4))
		}
		if i > 0 {
			b.SetPosition(V{X: r.Range(-25, 25), Y: r.Range(-20, 30)})
			b.SetAngle(genAngle(r))
		}
		s := l.build(b)
		s.SetElasticity(r.Range(0, 0.5))
		s.SetFriction(r.Range(0, 1))
		s.SetCollisionType(cp.CollisionType(r.Intn(3)))
		if r.P(0.15) {
			s.SetSensor(true)
		}
		sp.AddShape(s)
		it := &item{l, b, s}
		items = append(items, it)
		find[s] = it
	}
	if r.P(0.3) {
		sp.UseSpatialHash(10, 200)
	}
	check := func(arb *cp.Arbiter, when string, fresh bool) {
		a, b := arb.Shapes()
		ia, ib := find[a], find[b]
		if ia == nil || ib == nil {
			t.Failf("unknown-shape", "arbiter names a shape that is not in the space")
		}
		ba, bb := arb.Bodies()
		t.Check(ba == ia.b && bb == ib.b, "bodies", "%s: Bodies() do not match Shapes()", when)
		A, B := ia.l.at(ia.b.Position(), ia.b.Angle()), ib.l.at(ib.b.Position(), ib.b.Angle())
		set := arb.ContactPointSet()
		t.Check(set.Count == arb.Count() && set.Count > 0, "count", "%s: set count %d, Count() %d", when, set.Count, arb.Count())
		t.Check(set.Normal == arb.Normal(), "normal", "%s: set normal %v, Normal() %v", when, set.Normal, arb.Normal())
		checkContacts(t, A, B, set, when)
		checkFaces(t, A, B, set, when)
		if fresh {
			q := cp.ShapesCollide(a, b)
			t.Check(q.Count > 0, "fresh-query", "%s: arbiter reports contacts, a fresh query none", when)
			t.Ev("arbiters_vs_query")
		}
	}
	for ta := 0; ta < 3; ta++ {
		for tb := ta; tb < 3; tb++ {
			h := sp.NewCollisionHandler(cp.CollisionType(ta), cp.CollisionType(tb))
			h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
				check(arb, "in pre-solve", true)
				return true
			}
			h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) {
				check(arb, "in post-solve", false)
				t.Ev("post_solve_contacts")
			}
		}
	}
	touched := int64(0)
	for step := 0; step < 60; step++ {
		// reshape: what the pair remembers of the last step may name corners that are gone
		for r.P(0.3) {
			it := items[1+r.Intn(len(items)-1)]
			switch c := it.s.Class.(type) {
			case *cp.PolyShape:
				var h []V
				if n := len(it.l.P); n > 3 && r.P(0.7) {
					drop := r.Intn(n)
					h = append(append(h, it.l.P[:drop]...), it.l.P[drop+1:]...)
				} else {
					h = genConvex(r, 3+r.Intn(10), 8*r.LogRange(0.4, 1.6))
				}
				if polyArea(h) < 1 {
					continue
				}
				it.l.P = h
				c.SetVertsRaw(len(h), append([]V{}, h...))
				t.Ev("reshaped")
			case *cp.Segment:
				d := vrot(V{X: r.Range(1, 10)}, r.Range(0, 7))
				it.l.P = []V{vmul(d, -1), d}
				c.SetEndpoints(it.l.P[0], it.l.P[1])
				t.Ev("reshaped")
			}
		}
		sp.Step(1.0 / 60)
		if step%10 == 9 && r.P(0.5) {
			// every body's own arbiter list
			for _, it := range items {
				it.b.EachArbiter(func(arb *cp.Arbiter) {
					ba, _ := arb.Bodies()
					t.Check(ba == it.b, "each-arbiter-order", "EachArbiter: the visited body is not first")
					n := arb.Normal()
					t.Check(math.Abs(vlen(n)-1) < 1e-9, "normal-length", "EachArbiter normal %v", n)
					set := arb.ContactPointSet()
					a, b := arb.Shapes()
					A := find[a].l.at(find[a].b.Position(), find[a].b.Angle())
					B := find[b].l.at(find[b].b.Position(), find[b].b.Angle())
					checkContacts(t, A, B, set, "in EachArbiter")
					t.Ev("each_arbiter")
				})
			}
		}
		// nudge some bodies so that pairs separate and meet again
		if r.P(0.2) {
			it := items[1+r.Intn(len(items)-1)]
			it.b.SetPosition(vadd(it.b.Position(), V{X: r.Range(-5, 5), Y: r.Range(-5, 5)}))
		}
		touched += t.ev["pairs_touching"]
	}
	if touched > 0 {
		t.NonTrivial(t.Case, touched)
	}
	t.Sample("%d bodies, 60 steps, %d contact checks", n, t.ev["pairs_touching"])
}

func init() {
	register(&Prop{ID: "C02", Technique: "runtime monitor: independent Minkowski-hull oracle over contact sets from queries and solver callbacks",
		Rule:        "a case is a batch of 40 shape pairs (or a 60-step scene) generated from its index; non-trivial when at least one pair touched; distinct by pair geometry",
		Assumptions: []string{"polygons have no near-degenerate corners; two of more than 32 corners together and overlapping cores are held to 2 % of their size, as the expansion stops after 30 corners", "touching is not decided within 1e-9 of the coordinate scale"},
		Loads:       []Load{{"pairs", 24000, 400000, c02pairs}, {"space", 1200, 40000, c02space}, {"many", 600, 10000, c02many}, {"probe-collinear", 1, 1, c02probeCollinear}},
		Need:        map[string]int64{"pairs_touching": 20000, "pairs_apart": 5000, "flush_faces": 200, "cores_overlapping": 5000, "post_solve_contacts": 2000, "swap_pairs": 5000, "reshaped": 10000, "many_exact": 3000, "many_deep": 300}})
}
