package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// checkPointQuery judges one point query result against the reference shape.
func checkPointQuery(t *T, S RS, p V, info cp.PointQueryInfo, s *cp.Shape) {
	scale := math.Max(S.scale(), math.Max(math.Abs(p.X), math.Abs(p.Y)))
	tol := 1e-9 * scale
	t.Check(vfinite(info.Point, info.Gradient) && finite(info.Distance), "nan", "point query at %s gives %+v", fv(p), info)
	t.Check(info.Shape == s, "shape", "point query does not name the shape")
	want := S.sd(p)
	t.Check(math.Abs(info.Distance-want) <= tol, "distance", "point query at %s: distance %.17g, true %.17g", fv(p), info.Distance, want)
	t.Check(math.Abs(vlen(info.Gradient)-1) < 1e-6, "gradient", "point query at %s: gradient %v is not a unit vector", fv(p), info.Gradient)
	cd, _ := S.coreDist(p)
	near := tol
	if math.Abs(cd) <= 1.1*cp.MAGIC_EPSILON {
		near += 2.5 * cp.MAGIC_EPSILON // the documented fallback zone around the core
		t.Ev("point_on_core")
	}
	t.Check(math.Abs(S.sd(info.Point)) <= near, "off-outline", "point query at %s: point %s is %g off the outline", fv(p), fv(info.Point), S.sd(info.Point))
	t.Check(math.Abs(vdist(p, info.Point)-math.Abs(want)) <= near, "point-distance", "point query at %s: point %s is %g away, distance says %g", fv(p), fv(info.Point), vdist(p, info.Point), want)
	if math.Abs(cd) > 1.1*cp.MAGIC_EPSILON && math.Abs(want) > 1e-6*scale {
		d := vsub(vsub(p, info.Point), vmul(info.Gradient, info.Distance))
		t.Check(vlen(d) <= 1e-6*scale, "gradient", "point query at %s: point %s plus distance %g along gradient %v misses it by %g", fv(p), fv(info.Point), info.Distance, info.Gradient, vlen(d))
	}
	if math.Abs(cd) <= 1.1*cp.MAGIC_EPSILON && len(S.P) >= 2 {
		// the fallback is a normal of the core at its closest feature: a supporting line there
		n := info.Gradient
		lo, hi := S.project(n)
		x := vdot(p, n)
		ok := math.Abs(x-hi) < 1e-3*(hi-lo)+3*cp.MAGIC_EPSILON+tol
		if len(S.P) == 2 {
			ok = ok || math.Abs(x-lo) < 3*cp.MAGIC_EPSILON+tol
		}
		t.Check(ok, "gradient-on-core", "point query at %s on the core: gradient %v is not an outward normal", fv(p), n)
	}
	if want < -tol {
		t.Ev("points_inside")
	} else if want > tol {
		t.Ev("points_outside")
	}
}

func genQueryPoint(r *Rand, S RS, size float64) V {
	n := len(S.P)
	switch r.Intn(7) {
	case 0:
		return S.P[r.Intn(n)] // core vertex
	case 1: // on a core edge
		a, b := S.P[r.Intn(n)], S.P[r.Intn(n)]
		if r.P(0.5) {
			i := r.Intn(n)
			a, b = S.P[i], S.P[(i+1)%n]
		}
		f := r.Pick(0.5, 0.25, r.F())
		return vadd(vmul(a, 1-f), vmul(b, f))
	case 2: // near the outline
		p := S.P[r.Intn(n)]
		th := r.Range(0, 2*math.Pi)
		return vadd(p, vmul(V{X: math.Cos(th), Y: math.Sin(th)}, S.R+r.Pick(0, 1e-9, -1e-9, 1e-6, 1e-3)*size))
	case 3: // just off a vertex
		p := S.P[r.Intn(n)]
		return vadd(p, V{X: r.Range(-1, 1) * r.Pick(1e-16, 1e-12, 1e-7, 1e-5, 1e-4), Y: r.Range(-1, 1) * r.Pick(1e-16, 1e-12, 1e-7, 1e-5, 1e-4)})
	case 4: // centroid
		var c V
		for _, p := range S.P {
			c = vadd(c, vmul(p, 1/float64(n)))
		}
		return c
	case 5: // far
		return vadd(S.P[0], V{X: r.Range(-100, 100) * size, Y: r.Range(-100, 100) * size})
	}
	return vadd(S.P[r.Intn(n)], V{X: r.Range(-2, 2) * size, Y: r.Range(-2, 2) * size})
}

// rayCheck judges one segment query of a single shape. It returns the hit fraction or -1.
func rayCheck(t *T, S RS, a, b V, rad float64, hit bool, info cp.SegmentQueryInfo, s *cp.Shape) {
	L := vdist(a, b)
	scale := math.Max(S.scale(), math.Max(math.Max(math.Abs(a.X), math.Abs(a.Y)), math.Max(math.Abs(b.X), math.Abs(b.Y)))) + rad
	tol := 1e-7 * scale
	what := fmt.Sprintf("ray %s -> %s radius %.17g", fv(a), fv(b), rad)
	t.Check(vfinite(info.Point, info.Normal) && finite(info.Alpha), "nan", "%s gives %+v", what, info)
	f := func(x float64) float64 { return S.sd(vadd(vmul(a, 1-x), vmul(b, x))) - rad }
	first, least := S.rayFirst(a, b, rad)
	if !hit && math.Abs(f(0)) <= tol {
		return // starts on the surface within rounding
	}
	if !hit {
		t.Check(least > -tol, "missed-hit", "%s is reported to miss, but comes within %g of the surface minus the radius", what, least)
		t.Check(info.Shape == nil && info.Alpha == 1, "miss-info", "%s misses but leaves %+v", what, info)
		t.Ev("ray_miss")
		return
	}
	t.Check(info.Shape == s, "shape", "%s: result does not name the shape", what)
	t.Check(least < tol, "false-hit", "%s is reported to hit at %g, but stays %g away", what, info.Alpha, least)
	t.Check(info.Alpha >= 0 && info.Alpha <= 1, "alpha", "%s: alpha %g", what, info.Alpha)
	t.Check(math.Abs(vlen(info.Normal)-1) < 1e-6, "normal", "%s: normal %v is not a unit vector", what, info.Normal)
	f0 := f(0)
	if f0 <= -tol || (f0 <= tol && info.Alpha == 0) {
		t.Check(info.Alpha == 0, "alpha", "%s starts inside but the hit is at %g", what, info.Alpha)
		t.Ev("ray_start_inside")
		cd, _ := S.coreDist(a)
		if math.Abs(cd) > 2*cp.MAGIC_EPSILON {
			t.Check(math.Abs(S.sd(info.Point)) < tol && math.Abs(vdist(info.Point, a)-math.Abs(S.sd(a))) < tol, "start-inside", "%s starts inside, but the reported point %s is not the closest surface point", what, fv(info.Point))
			d := vsub(vsub(a, info.Point), vmul(info.Normal, S.sd(a)))
			t.Check(vlen(d) < 1e-6*scale, "start-inside", "%s starts inside: normal %v does not point out of the surface at %s", what, info.Normal, fv(info.Point))
		}
		return
	}
	if f0 < tol {
		return // starts on the surface within rounding
	}
	t.Check(math.Abs(f(info.Alpha)) <= 10*tol, "alpha", "%s: hit at %.17g, where the surface is %g away (first contact %.17g)", what, info.Alpha, f(info.Alpha), first)
	// not later than the first contact: everything strictly before alpha is outside
	for _, k := range []float64{0.999999, 0.999, 0.9, 0.5} {
		t.Check(f(info.Alpha*k) > -tol, "alpha-late", "%s: hit at %.17g, but already inside by %g at %.17g (first %.17g)", what, info.Alpha, f(info.Alpha*k), info.Alpha*k, first)
	}
	c := vadd(vmul(a, 1-info.Alpha), vmul(b, info.Alpha))
	p := vsub(c, vmul(info.Normal, rad))
	t.Check(vdist(p, info.Point) <= tol, "point", "%s: hit point %s, expected %s from alpha and normal", what, fv(info.Point), fv(p))
	t.Check(math.Abs(S.sd(info.Point)) <= 1e-5*scale, "point", "%s: hit point %s is %g off the surface", what, fv(info.Point), S.sd(info.Point))
	_, hi := S.project(info.Normal)
	t.Check(math.Abs(vdot(c, info.Normal)-hi-S.R-rad) < 1e-5*scale, "normal", "%s: normal %v is not the outward normal at %s (off by %g)", what, info.Normal, fv(info.Point), vdot(c, info.Normal)-hi-S.R-rad)
	if L > 0 && least < -1e-3*scale {
		t.Check(math.Abs(info.Alpha-first)*L < 1e-3*scale, "alpha", "%s: hit at %.17g, expected %.17g", what, info.Alpha, first)
	}
	t.Ev("ray_hit")
}

func genRay(r *Rand, S RS, size float64) (a, b V, rad float64) {
	n := len(S.P)
	rad = r.Pick(0, 0, size*r.Range(0, 1), size*3)
	around := func(k float64) V {
		return vadd(S.P[r.Intn(n)], V{X: r.Range(-k, k) * size, Y: r.Range(-k, k) * size})
	}
	switch r.Intn(9) {
	case 0: // through a vertex
		a = around(4)
		v := S.P[r.Intn(n)]
		b = vadd(v, vmul(vsub(v, a), r.Range(-0.3, 2)))
	case 1: // axis-aligned
		a = around(4)
		b = a
		if r.P(0.5) {
			b.X += r.Range(-8, 8) * size
		} else {
			b.Y += r.Range(-8, 8) * size
		}
	case 2: // parallel to an edge, inside the slab of its thickness
		i := r.Intn(n)
		p, q := S.P[i], S.P[(i+1)%n]
		d := vsub(q, p)
		if vlen(d) == 0 {
			d = V{X: size}
		}
		d = vmul(d, 1/vlen(d))
		nn := V{X: -d.Y, Y: d.X}
		off := r.Range(-1.2, 1.2) * (S.R + rad)
		a = vadd(vadd(p, vmul(nn, off)), vmul(d, r.Range(-6, 6)*size))
		b = vadd(a, vadd(vmul(d, r.Range(-8, 8)*size), vmul(nn, r.Pick(0, 0.1, 1)*r.Range(-1, 1)*size)))
	case 3: // beyond an end, inside the slab, pointing anywhere
		i := r.Intn(n)
		p, q := S.P[i], S.P[(i+1)%n]
		d := vsub(q, p)
		if vlen(d) == 0 {
			d = V{X: size}
		}
		d = vmul(d, 1/vlen(d))
		nn := V{X: -d.Y, Y: d.X}
		a = vadd(vadd(q, vmul(d, (S.R+rad)*r.Range(1, 2))), vmul(nn, r.Range(-1, 1)*(S.R+rad)))
		b = vadd(S.P[r.Intn(n)], V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size})
		b = vadd(a, vmul(vsub(b, a), r.Range(0.2, 3)))
	case 4: // zero length
		a = around(2)
		b = a
	case 5: // starts at a special point
		a = genQueryPoint(r, S, size)
		b = around(4)
	case 6: // ends at a special point
		a = around(4)
		b = genQueryPoint(r, S, size)
	case 7: // long
		a, b = around(100), around(100)
	default:
		a, b = around(4), around(4)
	}
	return
}

func c07batch(t *T) {
	r := t.R
	size := r.LogRange(0.3, 60)
	l := genShape(r, shapeGen{size: size, offset: size, sharp: true, degenerate: true, maxVerts: 10})
	if r.P(0.1) && l.Kind != 'c' {
		l.R = 0
	}
	pos, ang := V{}, genAngle(r)
	switch r.Intn(3) {
	case 0:
		pos = V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
	case 1:
		pos = V{X: r.Range(-3000, 3000), Y: r.Range(-3000, 3000)}
	}
	if r.P(0.3) {
		ang = 0
	}
	body := cp.NewBody(1, 1)
	body.SetPosition(pos)
	body.SetAngle(ang)
	s := l.build(body)
	s.CacheBB()
	S := l.at(pos, ang)
	t.Logf("shape %c %s r=%.17g at %s angle %.17g", l.Kind, fvs(l.P), l.R, fv(pos), ang)
	for i := 0; i < 40; i++ {
		p := genQueryPoint(r, S, size)
		t.Logf("point %s", fv(p))
		checkPointQuery(t, S, p, s.PointQuery(p), s)
		t.Ev(fmt.Sprintf("point_%c", l.Kind))
	}
	for i := 0; i < 60; i++ {
		a, b, rad := genRay(r, S, size)
		if d := vdist(a, b); d > 0 && d < 1e-3*size {
			b = a
		}
		t.Logf("ray %s -> %s radius %.17g", fv(a), fv(b), rad)
		var info cp.SegmentQueryInfo
		hit := s.SegmentQuery(a, b, rad, &info)
		rayCheck(t, S, a, b, rad, hit, info, s)
		if r.P(0.2) { // whatever was in the result before is overwritten
			old := info
			old.Shape, old.Normal, old.Point, old.Alpha = cp.NewCircle(body, 1, V{}), V{X: r.Range(-1, 1), Y: r.Range(-1, 1)}, V{X: r.Range(-9, 9), Y: r.Range(-9, 9)}, r.F()
			if r.P(0.3) {
				old.Shape = s
			}
			t.Check(s.SegmentQuery(a, b, rad, &old) == hit && old == info, "reused-info", "ray %s -> %s radius %.17g: %+v into a fresh result, %+v into a used one", fv(a), fv(b), rad, info, old)
			t.Ev("reused_results")
		}
		if r.P(0.05) {
			t.Check(s.SegmentQuery(a, b, rad, nil) == hit, "nil-info", "a query without info answers differently")
		}
		t.Ev(fmt.Sprintf("ray_%c", l.Kind))
	}
	t.NonTrivial(t.Case)
	t.Sample("shape %c %s r=%g at %s angle %g: 40 points, 60 rays", l.Kind, fvs(l.P), l.R, fv(pos), ang)
}

func init() {
	register(&Prop{ID: "C07", Technique: "runtime monitor: signed-distance oracle over single-shape point and ray queries",
		Rule:        "a case is one random shape in a random pose with 40 points (centres, vertices, edges, outline, near, far) and 60 rays (through vertices, axis-aligned, in-slab, grazing, zero-length, starting or ending at special points); distinct by case",
		Assumptions: []string{"non-zero rays are at least 1e-3 of the shape size long", "hits and misses within 1e-7 of the coordinate scale are not decided", "within MAGIC_EPSILON of the core the gradient may be the documented fallback normal"},
		Loads:       []Load{{"batch", 40000, 600000, c07batch}},
		Need:        map[string]int64{"ray_hit": 50000, "ray_miss": 50000, "ray_start_inside": 20000, "points_inside": 20000, "points_outside": 20000, "point_on_core": 5000, "reused_results": 100000}})
}
