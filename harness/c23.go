package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

func genScalar(r *Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return float64(r.Intn(9) - 4)
	case 1:
		return r.Sign() * r.LogRange(1e-6, 1e8)
	case 2:
		return 0
	}
	return r.Range(-50, 50)
}

func genVec(r *Rand) V { return V{X: genScalar(r), Y: genScalar(r)} }

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
func vnear(a, b V, tol float64) bool {
	return math.Abs(a.X-b.X) <= tol && math.Abs(a.Y-b.Y) <= tol
}

func c23vector(t *T) {
	r := t.R
	for i := 0; i < 200; i++ {
		a, b, c := genVec(r), genVec(r), genVec(r)
		if r.P(0.1) {
			b = a
		}
		if r.P(0.05) {
			b = vmul(a, -1)
		}
		if r.P(0.05) {
			b = vmul(a, r.LogRange(0.1, 10))
		}
		s := genScalar(r)
		u := r.Pick(0, 1, 0.5, r.F(), r.F())
		la, lb := vlen(a), vlen(b)
		tol := 1e-12 * (la + lb + vlen(c) + 1)
		tol2 := 1e-12 * (la + lb + 1) * (la + lb + 1)
		t.Logf("a=%s b=%s c=%s s=%.17g u=%.17g", fv(a), fv(b), fv(c), s, u)
		eqv := func(what string, got, want V, tl float64) {
			t.Check(vfinite(got) && vnear(got, want, tl), what, "%s: got %s want %s", what, fv(got), fv(want))
		}
		eqf := func(what string, got, want, tl float64) {
			t.Check(finite(got) && near(got, want, tl), what, "%s: got %.17g want %.17g", what, got, want)
		}
		eqv("Add", a.Add(b), V{X: a.X + b.X, Y: a.Y + b.Y}, tol)
		eqv("Sub", a.Sub(b), V{X: a.X - b.X, Y: a.Y - b.Y}, tol)
		eqv("Neg", a.Neg(), V{X: -a.X, Y: -a.Y}, 0)
		eqv("Mult", a.Mult(s), V{X: a.X * s, Y: a.Y * s}, tol*(1+math.Abs(s)))
		eqf("Dot", a.Dot(b), a.X*b.X+a.Y*b.Y, tol2)
		eqf("Cross", a.Cross(b), a.X*b.Y-a.Y*b.X, tol2)
		eqf("Cross-antisymmetric", a.Cross(b)+b.Cross(a), 0, tol2)
		eqv("Perp", a.Perp(), V{X: -a.Y, Y: a.X}, 0)
		eqv("ReversePerp", a.ReversePerp(), V{X: a.Y, Y: -a.X}, 0)
		eqv("Clone", a.Clone(), a, 0)
		t.Check(a.Equal(b) == (a.X == b.X && a.Y == b.Y) && a.Equal(a), "Equal", "Equal")
		eqf("Length", a.Length(), la, tol)
		eqf("LengthSq", a.LengthSq(), la*la, tol2)
		d := math.Hypot(a.X-b.X, a.Y-b.Y)
		eqf("Distance", a.Distance(b), d, tol)
		eqf("DistanceSq", a.DistanceSq(b), d*d, tol2)
		for _, k := range []float64{0.999, 1.001} {
			if d > 1e-6*(la+lb) && d > 0 {
				t.Check(a.Near(b, d*k) == (k > 1), "Near", "Near(%g) at distance %g", d*k, d)
			}
		}
		n := a.Normalize()
		if la > 1e-5 {
			eqf("Normalize-length", vlen(n), 1, 1e-9)
			eqv("Normalize-direction", vmul(n, la), a, tol+1e-9*la)
		} else if la == 0 {
			eqv("Normalize-zero", n, V{}, 0)
		}
		if lb > 1e-3 {
			p := a.Project(b)
			eqf("Project-parallel", vcross(p, b), 0, 1e-9*(la+1)*(lb+1))
			eqf("Project-orthogonal", vdot(vsub(a, p), b), 0, 1e-9*(la+1)*(lb+1))
		}
		// interpolation
		eqv("Lerp-0", a.Lerp(b, 0), a, tol)
		eqv("Lerp-1", a.Lerp(b, 1), b, tol)
		eqv("Lerp", a.Lerp(b, u), V{X: a.X*(1-u) + b.X*u, Y: a.Y*(1-u) + b.Y*u}, tol)
		eqf("scalar-Lerp", cp.Lerp(a.X, b.X, u), a.X*(1-u)+b.X*u, tol)
		eqv("LerpT-", a.LerpT(b, -1), a, tol)
		eqv("LerpT+", a.LerpT(b, 1), b, tol)
		eqv("LerpT", a.LerpT(b, 2*u-1), V{X: a.X*(1-u) + b.X*u, Y: a.Y*(1-u) + b.Y*u}, tol)
		dist := math.Abs(s)
		lc := a.LerpConst(b, dist)
		if d <= dist {
			eqv("LerpConst-reaches", lc, b, tol)
		} else {
			eqf("LerpConst-distance", vdist(a, lc), dist, 1e-9*(la+lb+1))
			eqf("LerpConst-towards", vdist(lc, b), d-dist, 1e-9*(la+lb+1))
		}
		slc := cp.LerpConst(a.X, b.X, dist)
		wantslc := b.X
		if b.X > a.X+dist {
			wantslc = a.X + dist
		} else if b.X < a.X-dist {
			wantslc = a.X - dist
		}
		eqf("scalar-LerpConst", slc, wantslc, tol)
		cl := a.Clamp(dist)
		if la <= dist*(1-1e-12) {
			eqv("Clamp-inside", cl, a, 0)
		} else {
			eqf("Clamp-length", vlen(cl), math.Min(dist, la), 1e-9*(dist+la))
			eqf("Clamp-direction", vcross(cl, a), 0, 1e-9*(dist+la)*(dist+la))
			t.Check(vdot(cl, a) >= 0, "Clamp-direction", "Clamp reverses the vector")
		}
		lo, hi := math.Min(a.Y, b.Y), math.Max(a.Y, b.Y)
		cs := cp.Clamp(s, lo, hi)
		t.Check(cs >= lo && cs <= hi && (cs == s || s < lo && cs == lo || s > hi && cs == hi), "scalar-Clamp", "Clamp(%g,%g,%g)=%g", s, lo, hi, cs)
		c01 := cp.Clamp01(s)
		t.Check(c01 >= 0 && c01 <= 1 && (c01 == s || s < 0 && c01 == 0 || s > 1 && c01 == 1), "Clamp01", "Clamp01(%g)=%g", s, c01)
		// rotations
		ang := r.Range(-10, 10)
		e := cp.ForAngle(ang)
		eqv("ForAngle", e, V{X: math.Cos(ang), Y: math.Sin(ang)}, 1e-12)
		wrapped := math.Remainder(ang, 2*math.Pi)
		if math.Abs(math.Abs(wrapped)-math.Pi) > 1e-9 {
			eqf("ToAngle", e.ToAngle(), wrapped, 1e-9)
		}
		eqv("Rotate", a.Rotate(e), vrot(a, ang), 1e-11*(la+1))
		eqv("Unrotate", a.Rotate(e).Unrotate(e), a, 1e-11*(la+1))
		eqv("Unrotate2", a.Unrotate(e), vrot(a, -ang), 1e-11*(la+1))
		// spherical interpolation of unit vectors
		a1, a2 := r.Range(-10, 10), r.Range(-10, 10)
		if r.P(0.2) {
			a2 = a1 + r.Pick(0, 1e-9, 1e-4, 2*math.Pi)
		}
		K := r.Pick(1, 1, 1000, r.LogRange(0.1, 1e5))
		v1, v2 := cp.ForAngle(a1).Mult(K), cp.ForAngle(a2).Mult(K)
		om := math.Abs(math.Remainder(a2-a1, 2*math.Pi))
		if om < 3.1 {
			eqv("SLerp-0", v1.SLerp(v2, 0), v1, 1e-9*K)
			eqv("SLerp-1", v1.SLerp(v2, 1), v2, 1e-9*K)
			m := v1.SLerp(v2, u)
			eqf("SLerp-length", vlen(m)/K, 1, 1e-6)
			between := func(what string, m V, want float64) {
				ang := math.Atan2(vcross(v1, m), vdot(v1, m))
				if math.Remainder(a2-a1, 2*math.Pi) < 0 {
					ang = -ang
				}
				eqf(what, ang, want, 1e-6)
			}
			between("SLerp-angle", m, u*om)
			lim := r.Pick(0.05, 0.5, 1, 4)
			m = v1.SlerpConst(v2, lim)
			t.Check(vfinite(m), "SlerpConst", "SlerpConst(%s,%s,%g) = %s", fv(v1), fv(v2), lim, fv(m))
			between("SlerpConst-angle", m, math.Min(lim, om))
		}
		// closest points
		cpnt := c.ClosestPointOnSegment(a, b)
		want := closestOnSeg(c, a, b)
		eqf("ClosestPointOnSegment", vdist(c, cpnt), vdist(c, want), 1e-9*(la+lb+vlen(c)+1))
		eqf("ClosestPointOnSegment-on", vdist(cpnt, closestOnSeg(cpnt, a, b)), 0, 1e-9*(la+lb+vlen(c)+1))
		o := closestOnSeg(V{}, a, b)
		eqf("ClosestDist", math.Sqrt(a.ClosestDist(b)), vlen(o), 1e-6*(la+lb+1))
		ct := a.ClosestT(b)
		t.Check(ct >= -1 && ct <= 1, "ClosestT", "ClosestT=%g", ct)
		eqf("ClosestT", vlen(a.LerpT(b, ct)), vlen(o), 1e-6*(la+lb+1))
		// orientation predicate: c is on the positive side of the line through a and b, away from rounding
		side := vcross(vsub(b, a), vsub(c, a))
		if math.Abs(side) > 1e-9*(la+lb+vlen(c)+1)*(la+lb+vlen(c)+1) {
			t.Check(a.PointGreater(b, c) == (side > 0), "PointGreater", "PointGreater disagrees with orientation %g", side)
		}
		// whether c goes no further along axis than the two ends do
		axis := b.Sub(c).Perp()
		gap := vdot(c, axis) - math.Max(vdot(a, axis), vdot(b, axis))
		if math.Abs(gap) > 1e-9*(la+lb+vlen(c)+1)*(vlen(axis)+1) {
			t.Check(a.CheckAxis(b, c, axis) == (gap < 0), "CheckAxis", "CheckAxis disagrees with %g", gap)
		}
		t.Ev("vector_sets")
	}
	t.NonTrivial(t.Case)
	t.Sample("200 random vector triples")
}

func genBB(r *Rand, grid bool) cp.BB {
	g := func() float64 {
		if grid {
			return float64(r.Intn(17)-8) / 2
		}
		return genScalar(r)
	}
	x0, x1, y0, y1 := g(), g(), g(), g()
	return cp.BB{L: math.Min(x0, x1), R: math.Max(x0, x1), B: math.Min(y0, y1), T: math.Max(y0, y1)}
}

// segBox reports whether the closed segment and the closed box intersect; margin>0 when clearly so.
func segBoxFirst(bb cp.BB, a, b V) (float64, bool) {
	// clip parameter interval
	t0, t1 := 0.0, 1.0
	for k := 0; k < 2; k++ {
		p, q, lo, hi := a.X, b.X, bb.L, bb.R
		if k == 1 {
			p, q, lo, hi = a.Y, b.Y, bb.B, bb.T
		}
		d := q - p
		if d == 0 {
			if p < lo || p > hi {
				return 0, false
			}
			continue
		}
		u, w := (lo-p)/d, (hi-p)/d
		if u > w {
			u, w = w, u
		}
		t0, t1 = math.Max(t0, u), math.Min(t1, w)
	}
	return t0, t0 <= t1
}

// exact separating-axis test for small dyadic coordinates
func segBoxExact(bb cp.BB, a, b V) bool {
	if math.Max(a.X, b.X) < bb.L || math.Min(a.X, b.X) > bb.R || math.Max(a.Y, b.Y) < bb.B || math.Min(a.Y, b.Y) > bb.T {
		return false
	}
	d := vsub(b, a)
	pos, neg := false, false
	for _, c := range []V{{X: bb.L, Y: bb.B}, {X: bb.L, Y: bb.T}, {X: bb.R, Y: bb.B}, {X: bb.R, Y: bb.T}} {
		s := vcross(d, vsub(c, a))
		if s >= 0 {
			pos = true
		}
		if s <= 0 {
			neg = true
		}
	}
	return pos && neg
}

func c23box(t *T) {
	r := t.R
	for i := 0; i < 150; i++ {
		grid := r.P(0.6)
		A, B := genBB(r, grid), genBB(r, grid)
		g := func() V {
			if grid {
				return V{X: float64(r.Intn(25)-12) / 2, Y: float64(r.Intn(25)-12) / 2}
			}
			return genVec(r)
		}
		p, q := g(), g()
		t.Logf("A=%v B=%v p=%s q=%s", A, B, fv(p), fv(q))
		inA := func(v V) bool { return A.L <= v.X && v.X <= A.R && A.B <= v.Y && v.Y <= A.T }
		t.Check(A.ContainsVect(p) == inA(p), "ContainsVect", "ContainsVect(%s) of %v", fv(p), A)
		sub := B.L >= A.L && B.R <= A.R && B.B >= A.B && B.T <= A.T
		t.Check(A.Contains(B) == sub, "Contains", "Contains %v %v", A, B)
		over := math.Max(A.L, B.L) <= math.Min(A.R, B.R) && math.Max(A.B, B.B) <= math.Min(A.T, B.T)
		t.Check(A.Intersects(B) == over && B.Intersects(A) == over, "Intersects", "Intersects %v %v", A, B)
		M := A.Merge(B)
		t.Check(M == cp.BB{L: math.Min(A.L, B.L), B: math.Min(A.B, B.B), R: math.Max(A.R, B.R), T: math.Max(A.T, B.T)}, "Merge", "Merge %v %v = %v", A, B, M)
		tol := 1e-12 * (math.Abs(M.L) + math.Abs(M.R) + math.Abs(M.B) + math.Abs(M.T) + 1)
		t.Check(near(A.MergedArea(B), (M.R-M.L)*(M.T-M.B), tol*(M.R-M.L+M.T-M.B+1)), "MergedArea", "MergedArea %v %v = %g", A, B, A.MergedArea(B))
		t.Check(near(A.Area(), (A.R-A.L)*(A.T-A.B), tol*(A.R-A.L+A.T-A.B+1)), "Area", "Area %v", A)
		cd := math.Abs((A.L+A.R)-(B.L+B.R)) + math.Abs((A.B+A.T)-(B.B+B.T)) // twice the distance of the centres, along the axes
		t.Check(near(A.Proximity(B), cd, 8*tol) && near(B.Proximity(A), cd, 8*tol), "Proximity", "Proximity of %v and %v is %g, want %g", A, B, A.Proximity(B), cd)
		E := A.Expand(p)
		t.Check(E == cp.BB{L: math.Min(A.L, p.X), B: math.Min(A.B, p.Y), R: math.Max(A.R, p.X), T: math.Max(A.T, p.Y)}, "Expand", "Expand %v %s = %v", A, fv(p), E)
		c := A.Center()
		t.Check(near(c.X, (A.L+A.R)/2, tol) && near(c.Y, (A.B+A.T)/2, tol), "Center", "Center %v = %s", A, fv(c))
		cv := A.ClampVect(&p)
		t.Check(cv.X == math.Min(math.Max(p.X, A.L), A.R) && cv.Y == math.Min(math.Max(p.Y, A.B), A.T), "ClampVect", "ClampVect %v %s = %s", A, fv(p), fv(cv))
		O := A.Offset(q)
		t.Check(O == cp.BB{L: A.L + q.X, B: A.B + q.Y, R: A.R + q.X, T: A.T + q.Y}, "Offset", "Offset")
		w, h := A.R-A.L, A.T-A.B
		if w > 1e-3 && h > 1e-3 && math.Abs(p.X) < 1e4*w && math.Abs(p.Y) < 1e4*h {
			wv := A.WrapVect(p)
			kx, ky := (p.X-wv.X)/w, (p.Y-wv.Y)/h
			t.Check(wv.X >= A.L-tol && wv.X <= A.R+tol && wv.Y >= A.B-tol && wv.Y <= A.T+tol, "WrapVect", "WrapVect %v %s = %s outside", A, fv(p), fv(wv))
			t.Check(near(kx, math.Round(kx), 1e-6) && near(ky, math.Round(ky), 1e-6), "WrapVect", "WrapVect %v %s = %s not a whole number of boxes away", A, fv(p), fv(wv))
		}
		if !grid && r.P(0.5) {
			hw, hh := math.Abs(p.X), math.Abs(p.Y)
			x := cp.NewBBForExtents(q, hw, hh)
			t.Check(x == cp.BB{L: q.X - hw, B: q.Y - hh, R: q.X + hw, T: q.Y + hh}, "NewBBForExtents", "extents")
			y := cp.NewBBForCircle(q, hw)
			t.Check(y == cp.BB{L: q.X - hw, B: q.Y - hw, R: q.X + hw, T: q.Y + hw}, "NewBBForCircle", "circle")
			t.Check(cp.NewBB(1, 2, 3, 4) == cp.BB{L: 1, B: 2, R: 3, T: 4}, "NewBB", "NewBB")
		}
		// ray against box
		if r.P(0.3) {
			q.X = p.X
		} else if r.P(0.3) {
			q.Y = p.Y
		}
		got := A.SegmentQuery(p, q)
		first, hit := segBoxFirst(A, p, q)
		if grid {
			hit = segBoxExact(A, p, q)
			// near-exact corner grazes are decided by rounding in the fractions; only demand agreement away from them
			grow := cp.BB{L: A.L - 1e-9, B: A.B - 1e-9, R: A.R + 1e-9, T: A.T + 1e-9}
			_, hitGrow := segBoxFirst(grow, p, q)
			shrink := cp.BB{L: A.L + 1e-9, B: A.B + 1e-9, R: A.R - 1e-9, T: A.T - 1e-9}
			hitShrink := false
			if shrink.L < shrink.R && shrink.B < shrink.T {
				_, hitShrink = segBoxFirst(shrink, p, q)
			}
			axis := p.X == q.X || p.Y == q.Y
			if hit == hitGrow && (hit == hitShrink || !hit || axis) {
				t.Check((got != cp.INFINITY) == hit, "bb-SegmentQuery", "SegmentQuery %v %s->%s = %g, exact answer %v", A, fv(p), fv(q), got, hit)
				t.Ev("bb_exact")
			}
		} else {
			grow := cp.BB{L: A.L - tol, B: A.B - tol, R: A.R + tol, T: A.T + tol}
			_, hitGrow := segBoxFirst(grow, p, q)
			if hit == hitGrow && (!hit || inA(p) || inA(q)) {
				t.Check((got != cp.INFINITY) == hit, "bb-SegmentQuery", "SegmentQuery %v %s->%s = %g, want hit %v", A, fv(p), fv(q), got, hit)
			}
		}
		if got != cp.INFINITY && hit {
			t.Check(near(got, first, 1e-9), "bb-SegmentQuery", "SegmentQuery %v %s->%s = %.17g, first contact %.17g", A, fv(p), fv(q), got, first)
			t.Ev("bb_hits")
		}
		t.Check(A.IntersectsSegment(p, q) == (got != cp.INFINITY), "IntersectsSegment", "disagrees with SegmentQuery")
		t.Ev("bb_sets")
	}
	t.NonTrivial(t.Case)
	t.Sample("150 box pairs and segments")
}

// aff is an affine map by definition: p -> (a x + c y + tx, b x + d y + ty)
type aff struct{ a, b, c, d, tx, ty float64 }

func (m aff) point(p V) V { return V{X: m.a*p.X + m.c*p.Y + m.tx, Y: m.b*p.X + m.d*p.Y + m.ty} }
func (m aff) vect(p V) V  { return V{X: m.a*p.X + m.c*p.Y, Y: m.b*p.X + m.d*p.Y} }

func c23transform(t *T) {
	r := t.R
	gen := func() (cp.Transform, aff, bool) {
		tr := V{X: r.Range(-100, 100), Y: r.Range(-100, 100)}
		ang := r.Range(-7, 7)
		cs, sn := math.Cos(ang), math.Sin(ang)
		switch r.Intn(8) {
		case 0:
			return cp.NewTransformIdentity(), aff{1, 0, 0, 1, 0, 0}, true
		case 1:
			return cp.NewTransformTranslate(tr), aff{1, 0, 0, 1, tr.X, tr.Y}, true
		case 2:
			x, y := r.Range(0.1, 4)*r.Sign(), r.Range(0.1, 4)*r.Sign()
			return cp.NewTransformScale(x, y), aff{x, 0, 0, y, 0, 0}, false
		case 3:
			return cp.NewTransformRotate(ang), aff{cs, sn, -sn, cs, 0, 0}, true
		case 4, 5:
			return cp.NewTransformRigid(tr, ang), aff{cs, sn, -sn, cs, tr.X, tr.Y}, true
		}
		for {
			a, b, c, d := r.Range(-3, 3), r.Range(-3, 3), r.Range(-3, 3), r.Range(-3, 3)
			if math.Abs(a*d-b*c) > 0.1 {
				m := aff{a, b, c, d, tr.X, tr.Y}
				if r.P(0.5) {
					return cp.NewTransform(a, c, tr.X, b, d, tr.Y), m, false
				}
				return cp.NewTransformTranspose(a, c, tr.X, b, d, tr.Y), m, false
			}
		}
	}
	for i := 0; i < 150; i++ {
		A, ma, rigid := gen()
		B, mb, _ := gen()
		p := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
		q := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
		t.Logf("A=%+v B=%+v p=%s", ma, mb, fv(p))
		eq := func(what string, got, want V, tol float64) {
			t.Check(vfinite(got) && vnear(got, want, tol), what, "%s: got %s want %s", what, fv(got), fv(want))
		}
		eq("Point", A.Point(p), ma.point(p), 1e-9)
		eq("Vect", A.Vect(p), ma.vect(p), 1e-9)
		eq("Mult", A.Mult(B).Point(p), ma.point(mb.point(p)), 1e-7)
		eq("Mult-vect", A.Mult(B).Vect(p), ma.vect(mb.vect(p)), 1e-7)
		I := A.Inverse()
		eq("Inverse", I.Point(ma.point(p)), p, 1e-7)
		eq("Inverse2", ma.point(I.Point(p)), p, 1e-7)
		if rigid {
			R := cp.NewTransformRigidInverse(A)
			eq("RigidInverse", R.Point(ma.point(p)), p, 1e-9)
			eq("RigidInverse2", ma.point(R.Point(p)), p, 1e-9)
			t.Check(near(vdist(A.Point(p), A.Point(q)), vdist(p, q), 1e-9), "rigid", "rigid transform changes distances")
		}
		W := A.Wrap(B)
		eq("Wrap", A.Point(W.Point(p)), mb.point(ma.point(p)), 1e-6)
		bb := cp.BB{L: math.Min(p.X, q.X), R: math.Max(p.X, q.X), B: math.Min(p.Y, q.Y), T: math.Max(p.Y, q.Y)}
		out := A.BB(bb)
		want := cp.BB{L: math.Inf(1), B: math.Inf(1), R: math.Inf(-1), T: math.Inf(-1)}
		for _, c := range []V{{X: bb.L, Y: bb.B}, {X: bb.L, Y: bb.T}, {X: bb.R, Y: bb.B}, {X: bb.R, Y: bb.T}} {
			x := ma.point(c)
			want = cp.BB{L: math.Min(want.L, x.X), B: math.Min(want.B, x.Y), R: math.Max(want.R, x.X), T: math.Max(want.T, x.Y)}
		}
		t.Check(near(out.L, want.L, 1e-9) && near(out.B, want.B, 1e-9) && near(out.R, want.R, 1e-9) && near(out.T, want.T, 1e-9), "transform-BB", "BB of %v is %v, want %v", bb, out, want)
		// misc constructors
		bs := A.BoneScale(p, q)
		eq("BoneScale", bs.Point(V{}), p, 1e-9)
		eq("BoneScale", bs.Point(V{X: 1}), q, 1e-9)
		eq("BoneScale-perp", vsub(bs.Point(V{Y: 1}), p), V{X: -(q.Y - p.Y), Y: q.X - p.X}, 1e-9)
		th, sc := r.Range(-7, 7), r.Range(-3, 3)
		ax := V{X: math.Cos(th), Y: math.Sin(th)}
		as := A.AxialScale(ax, p, sc)
		d := vsub(q, p)
		along := vmul(ax, vdot(d, ax))
		eq("AxialScale", as.Point(q), vadd(p, vadd(vsub(d, along), vmul(along, sc))), 1e-8)
		if bb.R-bb.L > 0.1 && bb.T-bb.B > 0.1 {
			o := A.Ortho(bb)
			eq("Ortho", o.Point(V{X: bb.L, Y: bb.B}), V{X: -1, Y: -1}, 1e-7)
			eq("Ortho", o.Point(V{X: bb.R, Y: bb.T}), V{X: 1, Y: 1}, 1e-7)
		}
		t.Ev("transform_sets")
	}
	t.NonTrivial(t.Case)
	t.Sample("150 transform pairs")
}

func init() {
	register(&Prop{ID: "C23", Technique: "runtime monitor: algebraic identities and definitions checked on generated operands",
		Rule:        "a case is a batch of 150-200 random operand sets (grid-exact, wide-range, coincident, opposite); distinct by case",
		Assumptions: []string{"spherical interpolation between vectors more than 3.1 rad apart is not judged", "box/ray grazes within rounding are not judged"},
		Loads:       []Load{{"vector", 8000, 100000, c23vector}, {"box", 8000, 100000, c23box}, {"transform", 8000, 100000, c23transform}},
		Need:        map[string]int64{"vector_sets": 400000, "bb_sets": 300000, "transform_sets": 300000, "bb_hits": 20000, "bb_exact": 50000}})
}
