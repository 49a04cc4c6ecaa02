package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

type dseg struct{ a, b V }

// field is a sampled scalar field on a grid.
type field struct {
	bb     cp.BB
	nx, ny int
	v      [][]float64 // [j][i]
	t      float64
	ties   bool // some sample equals the threshold
}

func genField(r *Rand) field {
	f := field{nx: 2 + r.Intn(14), ny: 2 + r.Intn(14)}
	switch {
	case r.P(0.004):
		f.nx, f.ny = 16+r.Intn(140), 2+r.Intn(100)
	case r.P(0.01):
		f.nx = 16 + r.Intn(300)
	case r.P(0.01):
		f.ny = 16 + r.Intn(300)
	}
	f.bb = cp.BB{L: r.Range(-100, 100), B: r.Range(-100, 100)}
	f.bb.R = f.bb.L + r.LogRange(1, 300)
	f.bb.T = f.bb.B + r.LogRange(1, 300)
	if r.P(0.3) {
		f.bb = cp.BB{L: 0, B: 0, R: float64(f.nx - 1), T: float64(f.ny - 1)}
	}
	kind := r.Intn(5)
	f.t = r.Pick(0.5, 0, r.Range(-1, 1))
	cx, cy, rad := r.F(), r.F(), r.Range(0.1, 0.7)
	fx, fy, ph := r.Range(1, 9), r.Range(1, 9), r.Range(0, 6)
	f.v = make([][]float64, f.ny)
	for j := range f.v {
		f.v[j] = make([]float64, f.nx)
		for i := range f.v[j] {
			x, y := float64(i)/float64(f.nx-1), float64(j)/float64(f.ny-1)
			var s float64
			switch kind {
			case 0: // noise
				s = f.t + r.Range(-1, 1)
			case 1: // bitmap
				s = f.t + r.Pick(-1, 1) + 0.3*r.F()
			case 2: // blob
				s = f.t + rad - math.Hypot(x-cx, y-cy)
			case 3: // waves
				s = f.t + math.Sin(fx*x+ph)*math.Cos(fy*y)
			default: // integers with ties
				s = f.t + float64(r.Intn(5)-2)
			}
			if s == f.t {
				f.ties = true
			}
			f.v[j][i] = s
		}
	}
	return f
}

func (f field) gx(i int) float64 { return f.bb.L + (f.bb.R-f.bb.L)*float64(i)/float64(f.nx-1) }
func (f field) gy(j int) float64 { return f.bb.B + (f.bb.T-f.bb.B)*float64(j)/float64(f.ny-1) }

func c22march(t *T) {
	r := t.R
	for k := 0; k < 30; k++ {
		f := genField(r)
		for _, hard := range []bool{false, true} {
			marchCheck(t, f, hard)
		}
	}
	t.NonTrivial(t.Case)
}

func marchCheck(t *T, f field, hard bool) {
	w, h := (f.bb.R-f.bb.L)/float64(f.nx-1), (f.bb.T-f.bb.B)/float64(f.ny-1)
	tol := 1e-9 * (w + h + math.Abs(f.bb.L) + math.Abs(f.bb.B))
	samples := map[[2]int]int{}
	sample := func(p V) float64 {
		fi, fj := (p.X-f.bb.L)/w, (p.Y-f.bb.B)/h
		i, j := int(math.Round(fi)), int(math.Round(fj))
		if math.Abs(fi-float64(i)) > 1e-6 || math.Abs(fj-float64(j)) > 1e-6 || i < 0 || j < 0 || i >= f.nx || j >= f.ny {
			t.Failf("sample-position", "sampled %s, not on the %dx%d grid over %v", fv(p), f.nx, f.ny, f.bb)
		}
		samples[[2]int{i, j}]++
		return f.v[j][i]
	}
	var segs []dseg
	collect := func(a, b V, set *cp.PolyLineSet) {
		segs = append(segs, dseg{a, b})
		cp.PolyLineCollectSegment(a, b, set)
	}
	march := cp.MarchSoft
	name := "soft"
	if hard {
		march, name = cp.MarchHard, "hard"
	}
	set := march(f.bb, int64(f.nx), int64(f.ny), f.t, collect, sample)
	t.Logf("%s %dx%d bb=%v t=%.17g field=%v", name, f.nx, f.ny, f.bb, f.t, f.v)
	for j := 0; j < f.ny; j++ {
		for i := 0; i < f.nx; i++ {
			t.Check(samples[[2]int{i, j}] == 1, "samples", "grid point %d,%d was sampled %d times", i, j, samples[[2]int{i, j}])
		}
	}

	// expected crossing points of the grid edges, keyed by rounded position
	type key [2]int64
	q := 1e-9 * (w + h + math.Abs(f.bb.L) + math.Abs(f.bb.B))
	mk := func(p V) key { return key{int64(math.Round(p.X / q)), int64(math.Round(p.Y / q))} }
	type vert struct {
		p        V
		out, in  int
		wantDeg  int
		border   bool
		high     V // the sample above the threshold
		centre   bool
		expected bool
	}
	verts := map[key]*vert{}
	get := func(p V) *vert {
		kk := mk(p)
		for dx := int64(-1); dx <= 1; dx++ {
			for dy := int64(-1); dy <= 1; dy++ {
				if v, ok := verts[key{kk[0] + dx, kk[1] + dy}]; ok && vdist(v.p, p) <= 2*q {
					return v
				}
			}
		}
		v := &vert{p: p}
		verts[kk] = v
		return v
	}
	above := func(i, j int) bool { return f.v[j][i] > f.t }
	cross := func(i0, j0, i1, j1 int, border bool) {
		if above(i0, j0) == above(i1, j1) {
			return
		}
		fr := 0.5
		if !hard {
			s0, s1 := f.v[j0][i0], f.v[j1][i1]
			fr = (f.t - s0) / (s1 - s0)
		}
		a, b := V{X: f.gx(i0), Y: f.gy(j0)}, V{X: f.gx(i1), Y: f.gy(j1)}
		v := get(vadd(vmul(a, 1-fr), vmul(b, fr)))
		v.expected = true
		v.border = v.border || border
		if border {
			v.wantDeg++
		} else {
			v.wantDeg += 2
		}
		v.high = a
		if above(i1, j1) {
			v.high = b
		}
	}
	for j := 0; j < f.ny; j++ {
		for i := 0; i < f.nx; i++ {
			if i+1 < f.nx {
				cross(i, j, i+1, j, j == 0 || j == f.ny-1)
			}
			if j+1 < f.ny {
				cross(i, j, i, j+1, i == 0 || i == f.nx-1)
			}
		}
	}
	deg := map[dseg]int{}
	for _, s := range segs {
		deg[s]++
		t.Check(vfinite(s.a, s.b), "finite", "segment %s-%s", fv(s.a), fv(s.b))
		va, vb := get(s.a), get(s.b)
		va.out++
		vb.in++
		l := vdist(s.a, s.b)
		t.Check(l > 0, "zero-length", "zero-length segment at %s", fv(s.a))
		for _, v := range []*vert{va, vb} {
			if v.expected {
				// the sample above the threshold lies to the left
				c := vcross(vsub(s.b, s.a), vsub(v.high, s.a))
				if !f.ties {
					t.Check(c >= -tol*l-1e-4*q*(w+h), "side", "segment %s->%s has the sample above the threshold at %s on its right (%g)", fv(s.a), fv(s.b), fv(v.high), c)
				}
				continue
			}
			t.Check(hard, "crossing", "segment %s->%s does not end on a threshold crossing", fv(s.a), fv(s.b))
			// hard contours turn at cell centres
			ci, cj := (v.p.X-f.bb.L)/w-0.5, (v.p.Y-f.bb.B)/h-0.5
			t.Check(math.Abs(ci-math.Round(ci)) < 1e-6 && math.Abs(cj-math.Round(cj)) < 1e-6, "midline", "hard contour vertex %s is no midline crossing and no cell centre", fv(v.p))
			v.centre = true
		}
		if hard {
			// along midlines, inside one cell, with the nearest sample to the left above the threshold and to the right not
			t.Check(near(s.a.X, s.b.X, tol) || near(s.a.Y, s.b.Y, tol), "midline", "hard segment %s->%s is not axis-aligned", fv(s.a), fv(s.b))
			for _, fr := range []float64{0.2, 0.8} {
				m := vadd(vmul(s.a, 1-fr), vmul(s.b, fr))
				d := vmul(vsub(s.b, s.a), 1/l)
				for side, wantHigh := range map[float64]bool{1: true, -1: false} {
					p := vadd(m, vmul(V{X: -d.Y, Y: d.X}, side*0.1*math.Min(w, h)))
					i, j := int(math.Round((p.X-f.bb.L)/w)), int(math.Round((p.Y-f.bb.B)/h))
					t.Check(above(i, j) == wantHigh, "side", "hard segment %s->%s: nearest sample %d,%d on side %g is above=%v", fv(s.a), fv(s.b), i, j, side, above(i, j))
				}
			}
		}
		t.Ev(name + "_segments")
	}
	for _, v := range verts {
		if v.centre {
			t.Check(v.in == v.out, "open", "contour is open at the cell centre %s (in %d out %d)", fv(v.p), v.in, v.out)
			continue
		}
		if !f.ties {
			t.Check(v.in+v.out == v.wantDeg, "degree", "crossing %s has %d segments in and %d out, want %d ends", fv(v.p), v.in, v.out, v.wantDeg)
		}
		if !v.border {
			t.Check(v.in == v.out, "open", "contour is open inside the field at %s (in %d out %d)", fv(v.p), v.in, v.out)
		}
	}
	// polylines keep every segment, in its direction
	inLines := map[dseg]int{}
	ends := map[V]int{}
	for _, l := range set.Lines {
		t.Check(len(l.Verts) >= 2, "polyline", "polyline with %d vertices", len(l.Verts))
		for i := 0; i+1 < len(l.Verts); i++ {
			inLines[dseg{l.Verts[i], l.Verts[i+1]}]++
		}
		n := len(l.Verts)
		closed := l.Verts[0] == l.Verts[n-1]
		t.Check(l.IsClosed() == closed, "IsClosed", "IsClosed=%v for %s", l.IsClosed(), fvs(l.Verts))
		if closed {
			t.Ev("closed_lines")
		} else {
			t.Ev("open_lines")
			ends[l.Verts[n-1]]++
			for _, p := range []V{l.Verts[0], l.Verts[n-1]} {
				onBorder := near(p.X, f.bb.L, tol) || near(p.X, f.bb.R, tol) || near(p.Y, f.bb.B, tol) || near(p.Y, f.bb.T, tol)
				t.Check(onBorder || f.ties, "open", "polyline ends inside the field at %s", fv(p))
			}
		}
	}
	for s, n := range deg {
		t.Check(inLines[s] == n, "lost", "segment %s->%s was emitted %d times and is %d times in the polylines", fv(s.a), fv(s.b), n, inLines[s])
	}
	for s, n := range inLines {
		t.Check(deg[s] == n, "invented", "polylines contain %s->%s which was emitted %d times", fv(s.a), fv(s.b), deg[s])
	}
	for _, l := range set.Lines {
		if l.Verts[0] != l.Verts[len(l.Verts)-1] {
			t.Check(ends[l.Verts[0]] == 0, "unjoined", "two polylines meet at %s but were not joined", fv(l.Verts[0]))
		}
	}
	// simplification of real contours
	for _, l := range set.Lines {
		simplifyCheck(t, l, 0.5*math.Min(w, h))
	}
	t.Ev(name + "_fields")
}

func distToLine(p V, line []V) float64 {
	d := math.Inf(1)
	if len(line) == 1 {
		return vdist(p, line[0])
	}
	for i := 0; i+1 < len(line); i++ {
		d = math.Min(d, vdist(p, closestOnSeg(p, line[i], line[i+1])))
	}
	return d
}

// cyclicSub reports whether sub is an ordered selection of line's vertices (any starting point if closed).
func orderedSub(sub, line []V, closed bool) bool {
	try := func(l []V) bool {
		j := 0
		for _, p := range l {
			if j < len(sub) && sub[j] == p {
				j++
			}
		}
		return j == len(sub)
	}
	if !closed {
		return try(line)
	}
	n := len(line) - 1
	for s := 0; s < n; s++ {
		rot := make([]V, 0, n+1)
		for i := 0; i <= n; i++ {
			rot = append(rot, line[(s+i)%n])
		}
		if len(sub) > 0 && rot[0] == sub[0] && try(rot) {
			return true
		}
	}
	return false
}

func simplifyCheck(t *T, l *cp.PolyLine, unit float64) {
	r := t.R
	in := append([]V(nil), l.Verts...)
	n := len(in)
	closed := n > 1 && in[0] == in[n-1]
	same := func(what string) {
		for i := range in {
			t.Check(len(l.Verts) == n && l.Verts[i] == in[i], what, "%s modified the polyline it was given", what)
		}
	}
	sc := RS{P: in}.scale()

	tol := unit * r.LogRange(0.01, 10)
	t.Logf("SimplifyCurves tol=%.17g %s", tol, fvs(in))
	red := l.SimplifyCurves(tol).Verts
	same("SimplifyCurves")
	t.Check(len(red) >= 1, "curves-empty", "SimplifyCurves returned nothing")
	if closed {
		t.Check(red[0] == red[len(red)-1], "curves-closed", "SimplifyCurves opened a closed line: %s", fvs(red))
	} else {
		t.Check(red[0] == in[0] && red[len(red)-1] == in[n-1], "curves-ends", "SimplifyCurves moved the ends: %s", fvs(red))
	}
	t.Check(len(red) <= n+1, "curves-longer", "SimplifyCurves added vertices: %s", fvs(red))
	sub := red
	if closed && len(red) == 3 && red[0] == red[1] { // a loop collapsed to a point
		sub = red[:1]
	}
	t.Check(orderedSub(sub, in, closed), "curves-vertices", "SimplifyCurves result is not an ordered selection of the original vertices: %s", fvs(red))
	for i := 0; i+1 < len(red); i++ {
		for _, u := range []float64{0.25, 0.5, 0.75} {
			p := vadd(vmul(red[i], 1-u), vmul(red[i+1], u))
			d := distToLine(p, in)
			t.Check(d <= tol+1e-9*sc, "curves-strays", "SimplifyCurves(%g) strays %g from the original at %s", tol, d, fv(p))
		}
	}
	if len(red) < n {
		t.Ev("simplified_curves")
	}
	// a vertex that was dropped is within the tolerance of the line through the vertices kept around it, or of one of them
	if !selfTouching(in) && len(sub) > 1 {
		at := map[V]int{}
		for i, p := range in {
			if i < n-1 || !closed {
				at[p] = i
			}
		}
		m := n
		if closed {
			m = n - 1
		}
		for i := 0; i+1 < len(red); i++ {
			a, b := red[i], red[i+1]
			if a == b {
				continue
			}
			for j := (at[a] + 1) % m; j != at[b]; j = (j + 1) % m {
				p := in[j]
				d := math.Min(math.Abs(vcross(vsub(p, a), vsub(b, a)))/vdist(a, b), math.Min(vdist(p, a), vdist(p, b)))
				t.Check(d <= tol*(1+1e-6)+1e-9*sc, "curves-dropped", "SimplifyCurves(%g) drops %s, which is %g from the line through %s and %s and from both", tol, fv(p), d, fv(a), fv(b))
				t.Ev("dropped_vertices")
			}
		}
	}
	// zero tolerance loses no corner
	red0 := l.SimplifyCurves(0).Verts
	for _, p := range in {
		d := distToLine(p, red0)
		t.Check(d <= 1e-6*sc || selfTouching(in), "curves-zero", "SimplifyCurves(0) leaves %s %g away", fv(p), d)
	}

	if n < 3 {
		return
	}
	ang := r.Pick(r.Range(0.01, 1), 0.1, 0.3)
	t.Logf("SimplifyVertexes tol=%.17g", ang)
	rv := l.SimplifyVertexes(ang).Verts
	same("SimplifyVertexes")
	if closed {
		t.Check(rv[0] == rv[len(rv)-1], "vertexes-closed", "SimplifyVertexes(%g) opened a closed line: %s -> %s", ang, fvs(in), fvs(rv))
	} else {
		t.Check(rv[0] == in[0] && rv[len(rv)-1] == in[n-1], "vertexes-ends", "SimplifyVertexes moved the ends: %s", fvs(rv))
	}
	t.Check(orderedSub(rv, in, closed), "vertexes-vertices", "SimplifyVertexes result is not an ordered selection of the original vertices: %s", fvs(rv))
	want, sure := refVertexes(in, ang)
	if sure {
		ok := len(want) == len(rv)
		for i := range want {
			ok = ok && want[i] == rv[i]
		}
		t.Check(ok, "vertexes-result", "SimplifyVertexes(%g) of %s gives %s, want %s", ang, fvs(in), fvs(rv), fvs(want))
		t.Ev("vertexes_exact")
	}
	if len(rv) < n {
		t.Ev("simplified_vertexes")
	}
}

// selfTouching reports lines that visit a place twice; their simplification may cut loops off.
func selfTouching(in []V) bool {
	seen := map[V]bool{}
	for i, p := range in {
		if seen[p] && !(i == len(in)-1 && p == in[0]) {
			return true
		}
		seen[p] = true
	}
	return false
}

// refVertexes joins a vertex away when the line turns by no more than tol radians there.
func refVertexes(in []V, tol float64) (out []V, sure bool) {
	sure = true
	straight := func(a, b, c V) bool {
		if a == b || b == c {
			sure = false
			return false
		}
		turn := math.Abs(math.Atan2(vcross(vsub(b, a), vsub(c, b)), vdot(vsub(b, a), vsub(c, b))))
		if math.Abs(turn-tol) < 1e-6 {
			sure = false
		}
		return turn <= tol
	}
	out = append(out, in[0], in[1])
	for _, v := range in[2:] {
		if straight(out[len(out)-2], out[len(out)-1], v) {
			out[len(out)-1] = v
		} else {
			out = append(out, v)
		}
	}
	if in[0] == in[len(in)-1] && straight(out[len(out)-2], out[0], out[1]) {
		out[0] = out[len(out)-2]
		out = out[:len(out)-1]
	}
	return out, sure
}

func c22simplify(t *T) {
	r := t.R
	for k := 0; k < 60; k++ {
		n := 2 + r.Intn(40)
		if r.P(0.03) {
			n = 40 + r.Intn(400)
			t.Ev("long_polylines")
		}
		var pts []V
		p := V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
		dir := r.Range(0, 7)
		kind := r.Intn(5)
		spike := r.LogRange(0.1, 20)
		for i := 0; i < n; i++ {
			switch kind {
			case 0: // smooth walk
				dir += r.Range(-0.4, 0.4)
				p = vadd(p, vmul(cp.ForAngle(dir), r.Range(0.2, 2)))
			case 1: // rectilinear, exact collinear runs
				if r.P(0.4) {
					dir = math.Pi / 2 * float64(r.Intn(4))
				}
				p = vadd(V{X: math.Round(p.X), Y: math.Round(p.Y)}, V{X: math.Round(math.Cos(dir)), Y: math.Round(math.Sin(dir))})
			case 2: // ellipse
				a := 2 * math.Pi * float64(i) / float64(n)
				p = V{X: 20 * math.Cos(a), Y: 8 * math.Sin(a)}
			case 3: // a walk with narrow spikes
				if i%2 == 0 {
					p = vadd(p, V{X: spike * r.Pick(0.05, 0.2, 1, 3) * r.Range(0.5, 1), Y: spike * 0.1 * r.Range(-1, 1)})
				} else if i+1 < n && r.P(0.6) {
					pts = append(pts, vadd(p, V{X: spike * r.Range(-0.1, 0.1), Y: spike * r.Sign() * r.Range(0.5, 1)}))
					p = vadd(p, V{X: spike * r.Range(0.01, 0.2)})
				}
			default: // random points
				p = V{X: r.Range(-50, 50), Y: r.Range(-50, 50)}
			}
			pts = append(pts, p)
		}
		if r.P(0.5) && n > 2 && pts[0] != pts[n-1] {
			pts = append(pts, pts[0])
			t.Ev("closed_inputs")
		}
		l := &cp.PolyLine{Verts: pts}
		simplifyCheck(t, l, r.LogRange(0.1, 20))
		t.Ev("polylines")
	}
	t.NonTrivial(t.Case)
}

func init() {
	register(&Prop{
		ID:        "C22",
		Technique: "runtime monitoring: trace checker over the emitted contour segments (grid crossings, degrees, sides, conservation into polylines) and post-condition monitor on polyline simplification",
		Note:      "generated fields up to 15x15 samples, a few up to 315 wide, with noise, bitmaps, blobs, waves and exact ties; polylines up to 40 vertices, a few up to 440",
		Rule:      "every case traces 30 fields both ways or simplifies 60 polylines",
		Loads: []Load{
			{"march", 800, 12000, c22march},
			{"simplify", 1500, 30000, c22simplify},
		},
		Need: map[string]int64{"soft_segments": 100000, "hard_segments": 100000, "closed_lines": 10000, "open_lines": 10000, "simplified_curves": 10000, "simplified_vertexes": 10000, "vertexes_exact": 10000, "closed_inputs": 1000, "dropped_vertices": 100000},
	})
}
