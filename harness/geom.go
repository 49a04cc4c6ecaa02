package main

// Independent reference geometry: a shape is the Minkowski sum of a convex core (its points' hull) and a disc.

import (
	"math"
	"sort"

	"github.com/jakecoffman/cp/v2"
)

type V = cp.Vector

func vadd(a, b V) V         { return V{X: a.X + b.X, Y: a.Y + b.Y} }
func vsub(a, b V) V         { return V{X: a.X - b.X, Y: a.Y - b.Y} }
func vmul(a V, s float64) V { return V{X: a.X * s, Y: a.Y * s} }
func vdot(a, b V) float64   { return a.X*b.X + a.Y*b.Y }
func vcross(a, b V) float64 { return a.X*b.Y - a.Y*b.X }
func vlen(a V) float64      { return math.Hypot(a.X, a.Y) }
func vdist(a, b V) float64  { return math.Hypot(a.X-b.X, a.Y-b.Y) }
func vrot(a V, ang float64) V {
	s, c := math.Sincos(ang)
	return V{X: a.X*c - a.Y*s, Y: a.X*s + a.Y*c}
}
func finite(xs ...float64) bool {
	for _, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}
func vfinite(vs ...V) bool {
	for _, v := range vs {
		if !finite(v.X, v.Y) {
			return false
		}
	}
	return true
}

// RS is a reference shape in world space.
type RS struct {
	P []V // core hull vertices, counter-clockwise (1, 2 or more points)
	R float64
}

func (s RS) scale() float64 {
	m := math.Abs(s.R)
	for _, p := range s.P {
		m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
	}
	return m + 1
}

func (s RS) bb() (l, b, r, t float64) {
	l, b, r, t = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, p := range s.P {
		l, r = math.Min(l, p.X-s.R), math.Max(r, p.X+s.R)
		b, t = math.Min(b, p.Y-s.R), math.Max(t, p.Y+s.R)
	}
	return
}

// hullCCW is Andrew's monotone chain; collinear points are dropped.
func hullCCW(pts []V) []V {
	p := append([]V(nil), pts...)
	sort.Slice(p, func(i, j int) bool { return p[i].X < p[j].X || (p[i].X == p[j].X && p[i].Y < p[j].Y) })
	q := p[:0]
	for i, v := range p {
		if i == 0 || v != q[len(q)-1] {
			q = append(q, v)
		}
	}
	p = q
	if len(p) <= 2 {
		return p
	}
	var h []V
	for _, v := range p {
		for len(h) >= 2 && vcross(vsub(h[len(h)-1], h[len(h)-2]), vsub(v, h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, v)
	}
	n := len(h) + 1
	for i := len(p) - 2; i >= 0; i-- {
		for len(h) >= n && vcross(vsub(h[len(h)-1], h[len(h)-2]), vsub(p[i], h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p[i])
	}
	return h[:len(h)-1]
}

func closestOnSeg(p, a, b V) V {
	d := vsub(b, a)
	l2 := vdot(d, d)
	if l2 == 0 {
		return a
	}
	t := vdot(vsub(p, a), d) / l2
	if t <= 0 {
		return a
	}
	if t >= 1 {
		return b
	}
	return vadd(a, vmul(d, t))
}

// coreDist is the signed distance from p to the core (negative strictly inside a polygon) and the closest boundary point.
func (s RS) coreDist(p V) (float64, V) {
	n := len(s.P)
	if n == 1 {
		return vdist(p, s.P[0]), s.P[0]
	}
	best, bp := math.Inf(1), V{}
	line := math.Inf(-1) // largest signed distance to an edge's line
	scale := s.scale()
	for i := 0; i < n; i++ {
		a, b := s.P[i], s.P[(i+1)%n]
		if n == 2 && i == 1 {
			break
		}
		c := closestOnSeg(p, a, b)
		if d := vdist(p, c); d < best {
			best, bp = d, c
		}
		if l := vdist(a, b); l > 1e-9*scale {
			line = math.Max(line, -vcross(vsub(b, a), vsub(p, a))/l)
		}
	}
	// Inside a convex polygon the closest boundary point lies on the closest edge line; slivers fail that.
	if n >= 3 && line <= 0 && math.Abs(best+line) <= 1e-9*scale {
		return -best, bp
	}
	return best, bp
}

// sd is the signed distance from p to the outline of the rounded shape.
func (s RS) sd(p V) float64 {
	d, _ := s.coreDist(p)
	return d - s.R
}

// minkowski returns the hull of {b - a}.
func minkowski(a, b RS) []V {
	pts := make([]V, 0, len(a.P)*len(b.P))
	for _, x := range a.P {
		for _, y := range b.P {
			pts = append(pts, vsub(y, x))
		}
	}
	return hullCCW(pts)
}

// shapeDist is the signed distance between two shapes: positive gap, or minus the least translation separating them.
func shapeDist(a, b RS) float64 {
	return coreShapeDist(a, b) - a.R - b.R
}

func coreShapeDist(a, b RS) float64 {
	d, _ := RS{P: minkowski(a, b)}.coreDist(V{})
	return d
}

// sepAlong is the separation of the two cores along the unit axis n (from a to b).
func sepAlong(a, b RS, n V) float64 {
	mb, ma := math.Inf(1), math.Inf(-1)
	for _, p := range b.P {
		mb = math.Min(mb, vdot(p, n))
	}
	for _, p := range a.P {
		ma = math.Max(ma, vdot(p, n))
	}
	return mb - ma
}

func (s RS) project(n V) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, p := range s.P {
		d := vdot(p, n)
		lo, hi = math.Min(lo, d), math.Max(hi, d)
	}
	return
}

// boundaryDist is the unsigned distance from p to the boundary of the core.
func (s RS) boundaryDist(p V) float64 {
	d, _ := s.coreDist(p)
	return math.Abs(d)
}

// rayFirst finds the first t in [0,1] at which the signed distance along a->b drops to r.
// sd is convex along a line, so a golden-section/ternary search finds its minimum.
// It returns (t, min over the segment of sd-r). hit is decided by the caller with a margin.
func (s RS) rayFirst(a, b V, r float64) (float64, float64) {
	f := func(t float64) float64 { return s.sd(vadd(vmul(a, 1-t), vmul(b, t))) - r }
	lo, hi := 0.0, 1.0
	for i := 0; i < 120; i++ {
		m1, m2 := lo+(hi-lo)/3, hi-(hi-lo)/3
		if f(m1) <= f(m2) {
			hi = m2
		} else {
			lo = m1
		}
	}
	tm := (lo + hi) / 2
	fm := f(tm)
	if f0 := f(0); f0 < fm {
		tm, fm = 0, f0
	}
	if f1 := f(1); f1 < fm {
		tm, fm = 1, f1
	}
	if fm > 0 || f(0) <= 0 {
		if f(0) <= 0 {
			return 0, fm
		}
		return 1, fm
	}
	x, y := 0.0, tm
	for i := 0; i < 80; i++ {
		m := (x + y) / 2
		if f(m) <= 0 {
			y = m
		} else {
			x = m
		}
	}
	return y, fm
}

// polyArea, polyCentroid, polyMoment: triangle-fan formulas about the first vertex.
// coreSegGap is how far the core stays from a segment.
func (s RS) coreSegGap(a, b V) float64 {
	return coreShapeDist(RS{P: s.P}, RS{P: []V{a, b}})
}

func polyArea(p []V) float64 {
	a := 0.0
	for i := 1; i+1 < len(p); i++ {
		a += vcross(vsub(p[i], p[0]), vsub(p[i+1], p[0])) / 2
	}
	return a
}

func polyCentroid(p []V) V {
	var c V
	A := 0.0
	for i := 1; i+1 < len(p); i++ {
		a := vcross(vsub(p[i], p[0]), vsub(p[i+1], p[0])) / 2
		g := vmul(vadd(vadd(p[0], p[i]), p[i+1]), 1.0/3)
		c = vadd(c, vmul(g, a))
		A += a
	}
	return vmul(c, 1/A)
}

// polyMoment is the moment of inertia per unit mass about point o.
func polyMoment(p []V, o V) float64 {
	I, A := 0.0, 0.0
	for i := 1; i+1 < len(p); i++ {
		x, y, z := p[0], p[i], p[i+1]
		a := vcross(vsub(y, x), vsub(z, x)) / 2
		g := vmul(vadd(vadd(x, y), z), 1.0/3)
		// triangle of unit mass about own centroid: sum of squared edge lengths / 36
		e := (vdot(vsub(x, y), vsub(x, y)) + vdot(vsub(y, z), vsub(y, z)) + vdot(vsub(z, x), vsub(z, x))) / 36
		d := vsub(g, o)
		I += a * (e + vdot(d, d))
		A += a
	}
	return I / A
}
