package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// LShape describes a shape in body coordinates, together with how it was built.
type LShape struct {
	Kind byte // 'c', 's', 'p'
	P    []V  // circle: centre; segment: a, b; poly: hull, counter-clockwise
	R    float64
}

func (l LShape) at(pos V, ang float64) RS {
	out := make([]V, len(l.P))
	for i, p := range l.P {
		out[i] = vadd(pos, vrot(p, ang))
	}
	if l.Kind == 's' && len(out) == 2 && out[0] == out[1] {
		out = out[:1]
	}
	return RS{P: out, R: l.R}
}

// build makes the cp shape on the body.
func (l LShape) build(body *cp.Body) *cp.Shape {
	switch l.Kind {
	case 'c':
		return cp.NewCircle(body, l.R, l.P[0])
	case 's':
		return cp.NewSegment(body, l.P[0], l.P[1], l.R)
	}
	return cp.NewPolyShape(body, len(l.P), append([]V(nil), l.P...), cp.NewTransformIdentity(), l.R)
}

type shapeGen struct {
	size       float64
	offset     float64 // how far from the body origin
	degenerate bool    // allow zero radii segments, zero-length segments, point circles
	sharp      bool    // allow radius 0 polys
	kinds      string
	maxVerts   int
	few        bool // never many corners
}

func genConvex(r *Rand, n int, size float64) []V {
	for {
		var pts []V
		switch r.Intn(4) {
		case 0: // box
			w, h := size*r.Range(0.3, 2), size*r.Range(0.3, 2)
			pts = []V{{X: -w / 2, Y: -h / 2}, {X: w / 2, Y: -h / 2}, {X: w / 2, Y: h / 2}, {X: -w / 2, Y: h / 2}}
			if r.P(0.5) {
				a := r.Range(0, math.Pi)
				for i := range pts {
					pts[i] = vrot(pts[i], a)
				}
			}
		case 1: // regular
			ph := r.Range(0, math.Pi)
			for i := 0; i < n; i++ {
				a := ph + 2*math.Pi*float64(i)/float64(n)
				pts = append(pts, V{X: size * math.Cos(a), Y: size * math.Sin(a)})
			}
		default:
			for i := 0; i < n; i++ {
				a := r.Range(0, 2*math.Pi)
				pts = append(pts, V{X: size * r.Range(0.5, 1) * math.Cos(a), Y: size * r.Range(0.5, 1) * math.Sin(a)})
			}
		}
		h := hullCCW(pts)
		if len(h) < 3 || polyArea(h) < 0.05*size*size {
			continue
		}
		// reject near-degenerate corners
		ok := true
		for i := range h {
			a, b, c := h[i], h[(i+1)%len(h)], h[(i+2)%len(h)]
			if vdist(a, b) < 1e-3*size || vcross(vsub(b, a), vsub(c, b)) < 1e-4*size*size {
				ok = false
			}
		}
		if ok {
			return h
		}
	}
}

func genShape(r *Rand, g shapeGen) LShape {
	kinds := g.kinds
	if kinds == "" {
		kinds = "csp"
	}
	k := kinds[r.Intn(len(kinds))]
	off := V{}
	if g.offset > 0 && r.P(0.5) {
		off = V{X: r.Range(-1, 1) * g.offset, Y: r.Range(-1, 1) * g.offset}
	}
	sz := g.size * r.LogRange(0.4, 1.6)
	switch k {
	case 'c':
		return LShape{'c', []V{off}, sz * r.Range(0.3, 1)}
	case 's':
		a := r.Range(0, 2*math.Pi)
		if r.P(0.3) {
			a = math.Pi / 2 * float64(r.Intn(4))
		}
		d := V{X: math.Cos(a) * sz, Y: math.Sin(a) * sz}
		// level or upright for good
		if math.Abs(d.X) < 1e-9*sz {
			d.X = 0
		} else if math.Abs(d.Y) < 1e-9*sz {
			d.Y = 0
		}
		rad := sz * r.Range(0.05, 0.5)
		if g.sharp && r.P(0.3) {
			rad = 0
		}
		if g.degenerate && r.P(0.1) {
			return LShape{'s', []V{off, off}, math.Max(rad, sz*0.2)}
		}
		return LShape{'s', []V{vsub(off, d), vadd(off, d)}, rad}
	}
	mv := g.maxVerts
	if mv == 0 {
		mv = 8
	}
	nv := 3 + r.Intn(mv-2)
	if !g.few && r.P(0.03) {
		nv = 8 + r.Intn(24)
	}
	h := genConvex(r, nv, sz)
	for i := range h {
		h[i] = vadd(h[i], off)
	}
	rad := sz * r.Range(0.02, 0.3)
	if g.sharp && r.P(0.5) {
		rad = 0
	}
	return LShape{'p', h, rad}
}

func genAngle(r *Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return math.Pi / 2 * float64(r.Intn(8)-4)
	}
	return r.Range(-7, 7)
}

// hostileShape makes legal but extreme shapes: points, zero lengths, slivers, specks and giants.
func hostileShape(r *Rand, size float64) LShape {
	off := V{}
	if r.P(0.3) {
		off = V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size}
	}
	big := func() float64 { return r.LogRange(1e-4, 1e4) * size }
	rad := r.Pick(0, 0, 1e-9, 1e-3, size, big())
	switch r.Intn(6) {
	case 0:
		return LShape{'c', []V{off}, rad}
	case 1:
		return LShape{'s', []V{off, off}, rad}
	case 2:
		d := vrot(V{X: r.Pick(1e-9, 1e-4, size, big())}, r.Pick(0, math.Pi/2, r.Range(0, 7)))
		return LShape{'s', []V{vsub(off, d), vadd(off, d)}, rad}
	case 3:
		w, h := r.LogRange(1e-3, 1e3)*size, r.LogRange(1e-3, 1e3)*size
		return LShape{'p', []V{vadd(off, V{X: -w, Y: -h}), vadd(off, V{X: w, Y: -h}), vadd(off, V{X: w, Y: h}), vadd(off, V{X: -w, Y: h})}, rad}
	case 4: // many corners
		n := 3 + r.Intn(60)
		l := LShape{Kind: 'p', R: rad}
		k := r.LogRange(1e-2, 1e2) * size
		for i := 0; i < n; i++ {
			l.P = append(l.P, vadd(off, vrot(V{X: k}, 2*math.Pi*float64(i)/float64(n))))
		}
		return l
	}
	k := r.LogRange(1e-3, 1e3) * size // a triangle with a very sharp corner
	return LShape{'p', []V{off, vadd(off, V{X: k}), vadd(off, V{X: k, Y: k * r.LogRange(1e-3, 1)})}, rad}
}
