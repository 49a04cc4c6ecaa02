package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

func subsetOf(a, b []V) bool {
	in := map[V]bool{}
	for _, p := range b {
		in[p] = true
	}
	for _, p := range a {
		if !in[p] {
			return false
		}
	}
	return true
}

func genCloud(r *Rand) (pts []V, exact bool) {
	n := 1 + r.Intn(24)
	if r.P(0.05) {
		n = 200 + r.Intn(300)
	}
	s := r.LogRange(0.5, 500)
	switch r.Intn(7) {
	case 0, 1: // small integer grid: duplicates and collinear runs, exactly representable
		k := 2 + r.Intn(8)
		for i := 0; i < n; i++ {
			pts = append(pts, V{X: float64(r.Intn(k) - k/2), Y: float64(r.Intn(k) - k/2)})
		}
		return pts, true
	case 2: // all on one grid line
		dx, dy := float64(r.Intn(5)-2), float64(r.Intn(5)-2)
		for i := 0; i < n; i++ {
			m := float64(r.Intn(9) - 4)
			pts = append(pts, V{X: dx * m, Y: dy * m})
		}
		return pts, true
	case 3: // box with points on its edges
		for i := 0; i < n+4; i++ {
			x, y := float64(r.Intn(9)), float64(r.Intn(5))
			switch r.Intn(4) {
			case 0:
				x = 0
			case 1:
				x = 8
			case 2:
				y = 0
			case 3:
				y = 4
			}
			pts = append(pts, V{X: x, Y: y})
		}
		return pts, true
	case 4: // circle
		for i := 0; i < n; i++ {
			pts = append(pts, vmul(cp.ForAngle(r.Range(0, 7)), s))
		}
	case 5: // thin
		a := r.Range(0, 7)
		for i := 0; i < n; i++ {
			pts = append(pts, vrot(V{X: s * r.Range(-1, 1), Y: s * 0.01 * r.Range(-1, 1)}, a))
		}
	default:
		o := V{X: r.Range(-1, 1) * s * 3, Y: r.Range(-1, 1) * s * 3}
		for i := 0; i < n; i++ {
			pts = append(pts, vadd(o, V{X: s * r.Range(-1, 1), Y: s * r.Range(-1, 1)}))
		}
	}
	if r.P(0.3) {
		for i := 0; i < 3 && len(pts) > 1; i++ {
			pts[r.Intn(len(pts))] = pts[r.Intn(len(pts))]
		}
	}
	return pts, false
}

// distOutside is how far p is outside the convex polygon (0 if inside).
func distOutside(h []V, p V) float64 {
	d, _ := RS{P: h}.coreDist(p)
	return math.Max(d, 0)
}

func c21hull(t *T) {
	r := t.R
	for k := 0; k < 100; k++ {
		pts, exact := genCloud(r)
		t.Logf("pts=%s", fvs(pts))
		in := append([]V(nil), pts...)
		n := cp.ConvexHull(len(pts), pts, nil, 0)
		t.Check(n >= 1 && n <= len(pts), "count", "count %d of %d", n, len(pts))
		hull := append([]V(nil), pts[:n]...)
		t.Check(subsetOf(hull, in), "invented", "hull %s has a vertex that is no input point", fvs(hull))
		ref := hullCCW(in)
		sc := RS{P: in}.scale()
		checkHull(t, hull, ref, in, sc, exact)
		// first: index of the first hull vertex
		pts2 := append([]V(nil), in...)
		first := -1
		n2 := cp.ConvexHull(len(pts2), pts2, &first, 0)
		t.Check(n2 == n, "first-count", "asking for the first index changes the hull")
		t.Check(first >= 0 && first < len(in) && in[first] == pts2[0], "first", "first=%d is not the first hull vertex", first)
		// the hull of a hull is itself
		pts3 := append([]V(nil), hull...)
		n3 := cp.ConvexHull(len(pts3), pts3, nil, 0)
		if exact {
			t.Check(n3 <= n, "idempotent", "hull of the hull has more vertices")
			t.Check(distSetHull(hull, pts3[:n3]) <= 1e-9*sc, "idempotent", "hull of the hull is smaller")
		}
		// order of the input does not matter
		pts4 := make([]V, len(in))
		for i, j := range r.Perm(len(in)) {
			pts4[i] = in[j]
		}
		n4 := cp.ConvexHull(len(pts4), pts4, nil, 0)
		checkHull(t, pts4[:n4], ref, in, sc, exact)
		if len(ref) >= 3 {
			t.Ev("hulls_2d")
		} else {
			t.Ev("hulls_degenerate")
		}
		if exact {
			t.Ev("hulls_exact")
		}
	}
	t.NonTrivial(t.Case)
}

func distSetHull(pts, hull []V) float64 {
	m := 0.0
	for _, p := range pts {
		m = math.Max(m, distOutside(hull, p))
	}
	return m
}

func checkHull(t *T, hull, ref, in []V, sc float64, exact bool) {
	tol := 1e-9 * sc
	if exact {
		seen := map[V]int{}
		for _, p := range hull {
			seen[p]++
			if seen[p] != 1 {
				t.Failf("repeated", "hull repeats %s: %s", fv(p), fvs(hull))
			}
		}
		for _, p := range ref {
			if seen[p] != 1 {
				t.Failf("missing", "hull %s misses the corner %s", fvs(hull), fv(p))
			}
		}
	}
	for _, p := range in {
		if d := distOutside(hull, p); d > tol {
			t.Failf("outside", "input %s is %g outside the hull %s", fv(p), d, fvs(hull))
		}
	}
	if len(ref) < 3 {
		t.Check(len(hull) <= 2 || !exact, "degenerate", "collinear points give %d hull vertices", len(hull))
		return
	}
	convexCCW(t, hull, sc)
}

func convexCCW(t *T, hull []V, sc float64) {
	n := len(hull)
	turn := 0.0
	for i := range hull {
		a, b, c := hull[i], hull[(i+1)%n], hull[(i+2)%n]
		e, f := vsub(b, a), vsub(c, b)
		cr := vcross(e, f)
		if !(cr >= -1e-9*sc*(vlen(e)+vlen(f)+1e-9*sc)) {
			t.Failf("not-convex", "hull turns right by %g at %s: %s", cr, fv(b), fvs(hull))
		}
		turn += math.Atan2(cr, vdot(e, f))
	}
	if n >= 3 {
		t.Check(turn > 0 && turn < 3*math.Pi, "winding", "hull turns by %g, not once around counter-clockwise: %s", turn, fvs(hull))
	}
}

func c21tol(t *T) {
	r := t.R
	for k := 0; k < 60; k++ {
		// a round cloud, so that every edge meets its neighbours at a blunt angle
		n := 6 + r.Intn(60)
		if r.P(0.02) {
			n = 200 + r.Intn(600)
		}
		s := r.LogRange(1, 300)
		var pts []V
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (float64(i) + 0.3*r.F()) / float64(n)
			pts = append(pts, vmul(cp.ForAngle(a), s*r.Range(0.97, 1)))
		}
		p := r.Perm(n)
		in := make([]V, n)
		for i := range p {
			in[i] = pts[p[i]]
		}
		tol := s * r.LogRange(0.001, 0.05)
		out := append([]V(nil), in...)
		m := cp.ConvexHull(n, out, nil, tol)
		t.Check(m >= 1 && m <= n, "count", "count %d", m)
		hull := out[:m]
		t.Check(subsetOf(hull, in), "invented", "hull %s has a vertex that is no input point", fvs(hull))
		convexCCW(t, hull, s+1)
		for _, q := range in {
			d := distOutside(hull, q)
			if !(d <= 3*tol) {
				t.Failf("tolerance", "with tolerance %g, %s is left %g outside: %s", tol, fv(q), d, fvs(hull))
			}
			if d > 0 {
				t.Ev("shaved_points")
			}
		}
		t.Ev("tolerance_hulls")
	}
	t.NonTrivial(t.Case)
}

func c21poly(t *T) {
	r := t.R
	for k := 0; k < 20; k++ {
		body := cp.NewBody(1, 1)
		pts, _ := genCloud(r)
		rad := r.Pick(0, r.Range(0, 5))
		s := r.LogRange(0.5, 50)
		if r.P(0.2) {
			s = r.LogRange(1e-3, 0.5)
		}
		gen := func() []V {
			h := genConvex(r, 3+r.Intn(8), s)
			if r.P(0.3) { // blunt corners, far from where any tolerance should matter
				n := len(h)
				var g []V
				for i := range h {
					a, b := h[i], h[(i+1)%n]
					e := vsub(b, a)
					g = append(g, a)
					if r.P(0.5) {
						out := vmul(V{X: e.Y, Y: -e.X}, r.LogRange(1e-7, 1e-4))
						g = append(g, vadd(vadd(a, vmul(e, r.Range(0.3, 0.7))), out))
						t.Ev("blunt_corners")
					}
				}
				h = g
			}
			for i := 0; i < r.Intn(5); i++ { // interior points
				h = append(h, polyCentroid(hullCCW(h)))
			}
			q := make([]V, len(h))
			for i, j := range r.Perm(len(h)) {
				q[i] = h[j]
			}
			return q
		}
		pts = gen()
		tr := cp.NewTransformIdentity()
		apply := func(p V) V { return p }
		switch r.Intn(4) {
		case 1:
			d := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
			tr = cp.NewTransformTranslate(d)
			apply = func(p V) V { return vadd(p, d) }
		case 2:
			x, y := r.Sign()*r.Range(0.3, 3), r.Sign()*r.Range(0.3, 3)
			tr = cp.NewTransformScale(x, y)
			apply = func(p V) V { return V{X: p.X * x, Y: p.Y * y} }
		case 3:
			d, a := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}, r.Range(-7, 7)
			tr = cp.NewTransformRigid(d, a)
			apply = func(p V) V { return vadd(vrot(p, a), d) }
		}
		mapped := func(p []V) []V {
			q := make([]V, len(p))
			for i := range p {
				q[i] = apply(p[i])
			}
			return q
		}
		t.Logf("pts=%s rad=%g tr=%v", fvs(pts), rad, tr)
		var sh *cp.Shape
		var want []V
		switch r.Intn(4) {
		case 0:
			w, h := r.LogRange(0.1, 100), r.LogRange(0.1, 100)
			sh = cp.NewBox(body, w, h, rad)
			want = []V{{X: w / 2, Y: -h / 2}, {X: w / 2, Y: h / 2}, {X: -w / 2, Y: h / 2}, {X: -w / 2, Y: -h / 2}}
		case 1:
			x, y, w, h := r.Range(-50, 50), r.Range(-50, 50), r.LogRange(0.1, 100), r.LogRange(0.1, 100)
			sh = cp.NewBox2(body, cp.BB{L: x, B: y, R: x + w, T: y + h}, rad)
			want = []V{{X: x + w, Y: y}, {X: x + w, Y: y + h}, {X: x, Y: y + h}, {X: x, Y: y}}
		case 2:
			want = hullCCW(mapped(pts))
			sh = cp.NewPolyShapeRaw(body, len(want), append([]V(nil), want...), rad)
		default:
			in := append([]V(nil), pts...)
			sh = cp.NewPolyShape(body, len(in), in, tr, rad)
			for i := range in {
				t.Check(in[i] == pts[i], "input-modified", "NewPolyShape changed its input")
			}
			want = hullCCW(mapped(pts))
		}
		var space *cp.Space
		if r.P(0.5) {
			space = cp.NewSpace()
			space.AddBody(body)
			space.AddShape(sh)
		}
		var pos V
		ang := 0.0
		p := sh.Class.(*cp.PolyShape)
		for step := 0; step < 4; step++ {
			if r.P(0.7) {
				pos, ang = V{X: r.Range(-200, 200), Y: r.Range(-200, 200)}, genAngle(r)
				body.SetAngle(ang)
				body.SetPosition(pos)
			} else {
				t.Ev("reshaped_in_place")
			}
			var bb cp.BB
			switch k := r.Intn(6); {
			case space == nil || k < 2:
				bb = sh.CacheBB()
			case k == 2:
				space.ReindexShape(sh)
				bb = sh.BB()
			case k == 3:
				space.ReindexShape(sh)
				body.EachShape(func(s *cp.Shape) { space.ReindexShape(s) })
				bb = sh.BB()
			case k == 4:
				space.Step(0.01) // at rest: the body stays, its shapes are brought up to date
				bb = sh.BB()
				t.Ev("updated_by_step")
			default:
				bb = sh.Update(cp.NewTransformRigid(pos, ang))
			}
			checkPoly(t, sh, p, want, rad, pos, ang, bb)
			switch r.Intn(4) {
			case 0:
				rad = r.Range(0, 4)
				p.SetRadius(rad)
			case 1:
				pts = gen()
				in := append([]V(nil), pts...)
				p.SetVertsUnsafe(len(in), in, tr)
				want = hullCCW(mapped(pts))
			case 2:
				want = hullCCW(gen())
				p.SetVertsRaw(len(want), append([]V(nil), want...))
			}
			t.Logf("want=%s rad=%g", fvs(want), rad)
		}
		t.Ev("poly_shapes")
	}
	t.NonTrivial(t.Case)
}

func checkPoly(t *T, sh *cp.Shape, p *cp.PolyShape, want []V, rad float64, pos V, ang float64, bb cp.BB) {
	sc := RS{P: want, R: rad}.scale()
	tol := 1e-9 * (sc + vlen(pos))
	n := p.Count()
	t.Check(n == len(want), "vertex-count", "%d vertices, want %d", n, len(want))
	t.Check(p.Radius() == rad, "radius", "radius %g want %g", p.Radius(), rad)
	off := -1
	for i := range want {
		if vdist(p.Vert(0), want[i]) <= tol {
			off = i
		}
	}
	t.Check(off >= 0, "vertex", "vertex %s is not one of %s", fv(p.Vert(0)), fvs(want))
	l, b, rr, tt := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for i := 0; i < n; i++ {
		w := want[(off+i)%n]
		t.Check(vdist(p.Vert(i), w) <= tol, "vertex", "vertex %d is %s, want %s", i, fv(p.Vert(i)), fv(w))
		ww := vadd(pos, vrot(w, ang))
		t.Check(vdist(p.TransformVert(i), ww) <= tol, "world-vertex", "world vertex %d is %s, want %s", i, fv(p.TransformVert(i)), fv(ww))
		l, rr = math.Min(l, ww.X-rad), math.Max(rr, ww.X+rad)
		b, tt = math.Min(b, ww.Y-rad), math.Max(tt, ww.Y+rad)
	}
	t.Check(near(bb.L, l, tol) && near(bb.B, b, tol) && near(bb.R, rr, tol) && near(bb.T, tt, tol) && bb == sh.BB(), "box",
		"bounding box %v, want {%g %g %g %g}", bb, l, b, rr, tt)
	// edge normals, as queries report them
	for i := 0; i < n; i++ {
		a, c := vadd(pos, vrot(want[i], ang)), vadd(pos, vrot(want[(i+1)%n], ang))
		e := vsub(c, a)
		nrm := vmul(V{X: e.Y, Y: -e.X}, 1/vlen(e))
		mid := vmul(vadd(a, c), 0.5)
		far := vadd(mid, vmul(nrm, rad+sc))
		q := sh.PointQuery(far)
		t.Check(vdist(q.Gradient, nrm) < 1e-6 && near(q.Distance, sc, 100*tol), "edge-normal", "edge %d: outward normal %s, query says %s at %g (want %g)", i, fv(nrm), fv(q.Gradient), q.Distance, sc)
		var si cp.SegmentQueryInfo
		ok := sh.SegmentQuery(far, vsub(mid, vmul(nrm, 1e-3*vlen(e))), 0, &si)
		t.Check(ok && vdist(si.Normal, nrm) < 1e-6, "edge-normal", "edge %d: outward normal %s, ray says %v %s", i, fv(nrm), ok, fv(si.Normal))
		t.Ev("edges")
	}
}

func init() {
	register(&Prop{
		ID:        "C21",
		Technique: "runtime monitoring: differential oracle (independent monotone-chain hull, exact on integer grids) over generated point sets; shape geometry monitor through the public accessors and queries",
		Note:      "generated point clouds and polygons; hulls on integer grids are compared exactly, others within 1e-9 relative",
		Rule:      "every case checks 20-100 point sets or polygon shapes",
		Loads: []Load{
			{"hull", 800, 30000, c21hull},
			{"tolerance", 500, 20000, c21tol},
			{"poly", 1500, 80000, c21poly},
		},
		Need: map[string]int64{"hulls_2d": 10000, "hulls_degenerate": 1000, "hulls_exact": 10000, "tolerance_hulls": 10000, "shaved_points": 10000, "poly_shapes": 10000, "blunt_corners": 5000, "reshaped_in_place": 5000, "updated_by_step": 2000, "edges": 100000},
	})
}
