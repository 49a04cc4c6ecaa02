package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// Brute-force answers use the library's own single-shape queries (which C21 to C23 judge against geometry), so a
// space query must agree with them to the last bit. Only where rounding in the broad phase may decide, that is for
// rays that barely graze a shape or barely reach it, an answer is optional.

func genQueryFilter(r *Rand) cp.ShapeFilter {
	switch r.Intn(5) {
	case 0:
		return cp.NewShapeFilter(uint(1+r.Intn(3)), cp.ALL_CATEGORIES, cp.ALL_CATEGORIES)
	case 1:
		return cp.NewShapeFilter(0, uint(r.Intn(8)), uint(r.Intn(8)))
	}
	return cp.SHAPE_FILTER_ALL
}

// spot is an interesting place: on the grid, on a shape, at a corner of a box, or anywhere.
func (w *World) spot(r *Rand) V {
	if len(w.Shapes) > 0 && r.P(0.6) {
		s := w.Shapes[r.Intn(len(w.Shapes))]
		bb := s.S.BB()
		switch r.Intn(4) {
		case 0:
			return bb.Center()
		case 1:
			return V{X: r.Pick(bb.L, bb.R), Y: r.Pick(bb.B, bb.T)}
		case 2:
			p := worldPts(s.S)
			return p[r.Intn(len(p))]
		}
		return V{X: r.Range(bb.L-0.2, bb.R+0.2), Y: r.Range(bb.B-0.2, bb.T+0.2)}
	}
	a := w.C.Arena * 1.2
	p := V{X: r.Range(-a, a), Y: r.Range(-a, a)}
	if r.P(0.4) {
		g := r.Pick(1, 2, w.C.Size, w.cell())
		p = V{X: math.Round(p.X/g) * g, Y: math.Round(p.Y/g) * g}
	}
	return p
}

func (w *World) cell() float64 {
	if w.CellDim > 0 {
		return w.CellDim
	}
	return 1
}

func queries(t *T, w *World, r *Rand, n int) {
	for ; n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			queryBB(t, w, r)
		case 1:
			queryPoint(t, w, r)
		case 2:
			queryShape(t, w, r)
		case 3, 4:
			queryRay(t, w, r, false)
		case 5:
			queryRay(t, w, r, true)
		}
	}
}

// within is called in the callbacks of queries, which now and then make further queries.
func within(t *T, w *World, r *Rand) {
	if w.qdepth < 2 && r.P(0.02) {
		w.qdepth++
		queries(t, w, r, 1)
		w.qdepth--
		t.Ev("nested_queries")
	}
}

func queryBB(t *T, w *World, r *Rand) {
	p, q := w.spot(r), w.spot(r)
	bb := cp.BB{L: math.Min(p.X, q.X), B: math.Min(p.Y, q.Y), R: math.Max(p.X, q.X), T: math.Max(p.Y, q.Y)}
	switch r.Intn(6) {
	case 0:
		bb = cp.BB{L: p.X, B: p.Y, R: p.X, T: p.Y}
	case 1:
		e := r.LogRange(0.01, 3)
		bb = cp.BB{L: p.X - e, B: p.Y - e, R: p.X + e, T: p.Y + e}
	case 2:
		if r.P(0.3) {
			e := r.Pick(1e4, 1e9, 1e300, math.Inf(1))
			bb = cp.BB{L: -e, B: -e, R: e, T: e}
		}
	}
	f := genQueryFilter(r)
	tok := new(int)
	seen := map[*cp.Shape]int{}
	w.Sp.BBQuery(bb, f, func(s *cp.Shape, data interface{}) {
		within(t, w, r)
		seen[s]++
		t.Check(data == interface{}(tok), "data", "BBQuery passes on other data")
	}, tok)
	hits := 0
	for _, s := range w.Shapes {
		b := s.S.BB()
		want := !filterRejects(s.Filter, f) && b.L <= bb.R && bb.L <= b.R && b.B <= bb.T && bb.B <= b.T
		if want {
			hits++
			t.Check(seen[s.S] == 1, "bbquery-missing", "BBQuery %+v filter %v reports s%d %+v %d times", bb, f, s.ID, b, seen[s.S])
		} else {
			t.Check(seen[s.S] == 0, "bbquery-extra", "BBQuery %+v filter %v reports s%d %+v", bb, f, s.ID, b)
		}
		delete(seen, s.S)
	}
	t.Check(len(seen) == 0, "foreign", "BBQuery reports a shape that is not in the space")
	t.Ev("bb_queries")
	t.EvN("bb_hits", hits)
}

func queryPoint(t *T, w *World, r *Rand) {
	p := w.spot(r)
	max := r.LogRange(0.01, 50)
	switch r.Intn(8) {
	case 0:
		max = 0
	case 1:
		max = -r.LogRange(0.01, 2)
	case 2:
		max = r.Pick(1e6, 1e200, math.Inf(1))
	}
	f := genQueryFilter(r)
	got := w.Sp.PointQueryNearest(p, max, f)
	best, bestShape := math.Inf(1), 0
	for _, s := range w.Shapes {
		if filterRejects(s.Filter, f) || s.Sensor {
			t.Check(got.Shape != s.S, "nearest-forbidden", "PointQueryNearest %s reports s%d (sensor %v filter %v)", fv(p), s.ID, s.Sensor, s.Filter)
			continue
		}
		if d := s.S.PointQuery(p).Distance; d < best {
			best, bestShape = d, s.ID
		}
	}
	t.Ev("point_queries")
	if got.Shape == nil {
		t.Check(!(best < max-1e-9*(1+math.Abs(max))), "nearest-missing", "PointQueryNearest %s max %g filter %v finds nothing; s%d is at %.17g", fv(p), max, f, bestShape, best)
		t.Check(got.Distance == max, "nearest-none", "PointQueryNearest found nothing yet reports distance %g, max %g", got.Distance, max)
		return
	}
	t.Ev("point_hits")
	s, ok := got.Shape.UserData.(*WShape)
	t.Check(ok && s.In, "foreign", "PointQueryNearest reports a shape that is not in the space")
	one := s.S.PointQuery(p)
	t.Check(one == *got, "nearest-values", "PointQueryNearest %s: %+v, the shape's own answer %+v", fv(p), *got, one)
	t.Check(got.Distance == best, "nearest-not-nearest", "PointQueryNearest %s max %g filter %v: s%d at %.17g, s%d is at %.17g", fv(p), max, f, s.ID, got.Distance, bestShape, best)
	t.Check(got.Distance < max, "nearest-too-far", "PointQueryNearest %s max %g: distance %.17g", fv(p), max, got.Distance)
}

func queryShape(t *T, w *World, r *Rand) {
	var q *cp.Shape
	var own *WShape
	var ql LShape
	var moved *WBody
	if len(w.Shapes) > 0 && r.P(0.3) {
		own = w.Shapes[r.Intn(len(w.Shapes))]
		q, ql = own.S, own.L
		if b := own.B; !w.inStep && w.qdepth == 0 && b.Typ != cp.BODY_STATIC && r.P(0.3) {
			// moved by hand and not reindexed: the query looks where the body is now
			p := w.spot(r)
			w.logf("SetPosition b%d %s, then ShapeQuery with its s%d", b.ID, fv(p), own.ID)
			b.B.SetPosition(p)
			t.Ev("queries_with_moved_shape")
			w.qdepth = 2 // no queries in its callbacks
			moved = b
		}
	} else {
		l := genShape(r, w.shapeGen())
		b := cp.NewBody(1, 1)
		b.SetAngle(genAngle(r))
		b.SetPosition(w.spot(r))
		q, ql = l.build(b), l
		q.SetFilter(genQueryFilter(r))
		q.SetSensor(r.P(0.2))
	}
	type hit struct {
		n   int
		set cp.ContactPointSet
	}
	seen := map[*cp.Shape]*hit{}
	var cb func(s *cp.Shape, set *cp.ContactPointSet)
	if r.P(0.85) {
		cb = func(s *cp.Shape, set *cp.ContactPointSet) {
			within(t, w, r)
			h := seen[s]
			if h == nil {
				h = &hit{}
				seen[s] = h
			}
			h.n++
			h.set = *set
		}
	}
	any := w.Sp.ShapeQuery(q, cb)
	geometryFollows(t, q, ql, q.Body(), "the query's shape after ShapeQuery")
	must, may := false, false
	qb := q.BB()
	for _, s := range w.Shapes {
		h := seen[s.S]
		if h == nil {
			h = &hit{}
		}
		delete(seen, s.S)
		if s == own || filterRejects(s.Filter, q.Filter) {
			t.Check(h.n == 0, "shapequery-forbidden", "ShapeQuery reports s%d, filter %v against %v", s.ID, s.Filter, q.Filter)
			continue
		}
		set := cp.ShapesCollide(q, s.S)
		solid := !s.Sensor && !q.Sensor()
		switch {
		case set.Count == 0:
			t.Check(h.n == 0, "shapequery-extra", "ShapeQuery reports s%d, which it does not touch", s.ID)
		case s.S.BB().Intersects(qb):
			must = must || solid
			may = may || solid
			t.Ev("shape_hits")
			if cb != nil {
				t.Check(h.n == 1, "shapequery-missing", "ShapeQuery reports s%d %d times", s.ID, h.n)
			}
		default:
			may = may || solid
			t.Check(h.n <= 1, "shapequery-twice", "ShapeQuery reports s%d %d times", s.ID, h.n)
		}
		if h.n > 0 {
			t.Check(h.set == set, "shapequery-contacts", "ShapeQuery s%d contacts %+v, the pair's own %+v", s.ID, h.set, set)
		}
	}
	t.Check(len(seen) == 0, "foreign", "ShapeQuery reports a shape that is not in the space")
	t.Check(!must || any, "shapequery-result", "ShapeQuery answers false although it touches a shape and neither is a sensor")
	t.Check(may || !any, "shapequery-result", "ShapeQuery answers true although it touches nothing but sensors")
	t.Ev("shape_queries")
	if moved != nil {
		w.qdepth = 0
		w.reindex(moved)
	}
}

func queryRay(t *T, w *World, r *Rand, first bool) {
	a, b := w.spot(r), w.spot(r)
	switch r.Intn(8) {
	case 0:
		b = V{X: a.X, Y: b.Y}
	case 1:
		b = V{X: b.X, Y: a.Y}
	case 2:
		d := b.X - a.X
		b = V{X: a.X + d, Y: a.Y + r.Sign()*d}
	case 3:
		if r.P(0.2) {
			b = a
		}
	case 4: // end on or near something
		if len(w.Shapes) > 0 {
			s := w.Shapes[r.Intn(len(w.Shapes))]
			b = s.S.PointQuery(a).Point
		}
	case 5: // walk whole cells
		c := w.cell()
		a = V{X: math.Round(a.X/c) * c, Y: math.Round(a.Y/c) * c}
		b = V{X: a.X + float64(r.Intn(9)-4)*c, Y: a.Y + float64(r.Intn(9)-4)*c}
	}
	rad := 0.0
	if r.P(0.35) {
		rad = r.LogRange(0.01, 4)
	}
	f := genQueryFilter(r)
	len := vdist(a, b)
	n := V{}
	if len > 0 {
		n = vmul(V{X: -(b.Y - a.Y), Y: b.X - a.X}, 1e-9*(1+vlen(a)+len)/len)
	}
	// required: a shape every exact search would have to report, whatever the order of its arithmetic
	required := func(s *WShape, info cp.SegmentQueryInfo) bool {
		if !finite(info.Alpha) {
			return false
		}
		var tmp cp.SegmentQueryInfo
		if info.Alpha == 0 {
			return s.S.PointQuery(a).Distance < rad-1e-9*(1+vlen(a))
		}
		return info.Alpha < 1-1e-9 && s.S.SegmentQuery(vadd(a, n), vadd(b, n), rad, &tmp) && s.S.SegmentQuery(vsub(a, n), vsub(b, n), rad, &tmp)
	}
	if first {
		got := w.Sp.SegmentQueryFirst(a, b, rad, f)
		best, bestID := 1.0, 0
		for _, s := range w.Shapes {
			if filterRejects(s.Filter, f) || s.Sensor {
				t.Check(got.Shape != s.S, "first-forbidden", "SegmentQueryFirst reports s%d (sensor %v filter %v)", s.ID, s.Sensor, s.Filter)
				continue
			}
			var info cp.SegmentQueryInfo
			if s.S.SegmentQuery(a, b, rad, &info) && info.Alpha < best && required(s, info) {
				best, bestID = info.Alpha, s.ID
			}
		}
		t.Ev("first_queries")
		if got.Shape == nil {
			t.Check(bestID == 0, "first-missing", "SegmentQueryFirst %s to %s radius %g filter %v finds nothing; s%d is hit at %.17g", fv(a), fv(b), rad, f, bestID, best)
			t.Check(got.Alpha == 1 && got.Point == b, "first-none", "SegmentQueryFirst found nothing yet reports alpha %g point %s", got.Alpha, fv(got.Point))
			return
		}
		t.Ev("first_hits")
		s, ok := got.Shape.UserData.(*WShape)
		t.Check(ok && s.In, "foreign", "SegmentQueryFirst reports a shape that is not in the space")
		var info cp.SegmentQueryInfo
		hit := s.S.SegmentQuery(a, b, rad, &info)
		t.Check(hit && info == got, "first-values", "SegmentQueryFirst %s to %s radius %g: %+v, the shape's own answer %+v", fv(a), fv(b), rad, got, info)
		t.Check(got.Alpha <= best+1e-9, "first-not-first", "SegmentQueryFirst %s to %s radius %g filter %v: s%d at %.17g, s%d is hit at %.17g", fv(a), fv(b), rad, f, s.ID, got.Alpha, bestID, best)
		return
	}
	type hit struct {
		n    int
		info cp.SegmentQueryInfo
	}
	seen := map[*cp.Shape]*hit{}
	tok := new(int)
	w.Sp.SegmentQuery(a, b, rad, f, func(s *cp.Shape, p, nrm V, alpha float64, data interface{}) {
		within(t, w, r)
		h := seen[s]
		if h == nil {
			h = &hit{}
			seen[s] = h
		}
		h.n++
		h.info = cp.SegmentQueryInfo{Shape: s, Point: p, Normal: nrm, Alpha: alpha}
		t.Check(data == interface{}(tok), "data", "SegmentQuery passes on other data")
	}, tok)
	for _, s := range w.Shapes {
		h := seen[s.S]
		delete(seen, s.S)
		var info cp.SegmentQueryInfo
		hits := !filterRejects(s.Filter, f) && s.S.SegmentQuery(a, b, rad, &info)
		if !hits {
			t.Check(h == nil, "segment-extra", "SegmentQuery %s to %s radius %g filter %v reports s%d, which it misses or may not hit", fv(a), fv(b), rad, f, s.ID)
			continue
		}
		if h != nil {
			t.Check(h.n == 1, "segment-twice", "SegmentQuery reports s%d %d times", s.ID, h.n)
			t.Check(info == h.info || !finite(info.Alpha), "segment-values", "SegmentQuery s%d: %+v, its own answer %+v", s.ID, h.info, info)
			t.Ev("segment_hits")
			continue
		}
		// a tree compares boxes exactly the same way at every level
		exact := !w.OnHash && rad == 0 && s.S.BB().SegmentQuery(a, b) <= 1
		t.Check(!exact && !required(s, info), "segment-missing", "SegmentQuery %s to %s radius %g filter %v misses s%d hit at %.17g (box %+v, cell %g)",
			fv(a), fv(b), rad, f, s.ID, info.Alpha, s.S.BB(), w.CellDim)
		t.Ev("segment_optional")
	}
	t.Check(len0(seen) == 0, "foreign", "SegmentQuery reports a shape that is not in the space")
	t.Ev("segment_queries")
}

func len0[K comparable, E any](m map[K]E) int { return len(m) }

func c06(t *T) {
	r := t.R
	c := genConf(r)
	c.N = 2 + r.Intn(30)
	c.Arena = r.LogRange(5, 80)
	w := newWorld(t, r, c)
	qr := newRand(t.Case, "query")
	pq := qr.Pick(0, 0.02, 0.2)
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		if w.inStep && qr.P(pq) {
			queries(t, w, qr, 1)
			t.Ev("queries_in_callback_" + string(kind))
		}
		return true
	}
	n := 20 + r.Intn(25)
	for i := 0; i < n; i++ {
		w.ops()
		if r.P(0.3) {
			w.settle()
			queries(t, w, qr, 5)
		}
		w.step(w.dt())
		queries(t, w, qr, 5)
	}
	t.EvN("sleeping_seen", w.sleeping())
	if w.OnHash {
		t.Ev("hash_histories")
	} else {
		t.Ev("tree_histories")
	}
	if hits := t.ev["segment_hits"] + t.ev["first_hits"] + t.ev["bb_hits"]; hits > 0 {
		t.NonTrivial(t.Case, hits)
	}
	t.Sample("%s: %d box, %d point, %d shape, %d ray queries", w.describe(), t.ev["bb_queries"], t.ev["point_queries"], t.ev["shape_queries"], t.ev["segment_queries"]+t.ev["first_queries"])
}

// c06multitude: hundreds of shapes.
func c06multitude(t *T) {
	r := t.R
	w := newWorld(t, r, multitude(r))
	qr := newRand(t.Case, "query")
	for i := 0; i < 5; i++ {
		for k := 0; k < 20; k++ {
			w.op()
		}
		w.settle()
		queries(t, w, qr, 12)
		w.step(w.dt())
		queries(t, w, qr, 12)
	}
	t.EvN("multitude_shapes", len(w.Shapes))
	t.NonTrivial(t.Case, len(w.Shapes))
}

// c06grid: boxes on a lattice that coincides with the cells of the spatial hash, and rays along and across it.
func c06grid(t *T) {
	r := t.R
	w := newWorld(t, r, SConf{N: 0, Arena: 12, Size: 1, Ctypes: 1, Hash: 0, Kinds: "p", MaxShapes: 1, PSensor: 0.1})
	cell := r.Pick(0.5, 1, 2, 4)
	if r.P(0.8) {
		w.Sp.UseSpatialHash(cell, 10+r.Intn(1000))
		w.OnHash = true
	}
	w.CellDim = cell
	for i, n := 0, 1+r.Intn(20); i < n; i++ {
		b := &WBody{ID: w.id(), In: true, Typ: cp.BODY_DYNAMIC, Mass: 1, Mom: 1, B: cp.NewBody(1, 1)}
		if r.P(0.4) {
			b.Typ, b.B = cp.BODY_STATIC, cp.NewStaticBody()
		}
		b.B.UserData = b
		w.Sp.AddBody(b.B)
		w.Bodies = append(w.Bodies, b)
		b.B.SetPosition(V{X: float64(r.Intn(25) - 12), Y: float64(r.Intn(25) - 12)})
		h, v := r.Pick(0.5, 1, 1.5, 2), r.Pick(0.25, 0.5, 1, 2)
		s := &WShape{ID: w.id(), B: b, In: true, Filter: cp.SHAPE_FILTER_ALL, Sensor: r.P(0.1),
			L: LShape{Kind: 'p', P: []V{{X: -h, Y: -v}, {X: h, Y: -v}, {X: h, Y: v}, {X: -h, Y: v}}}}
		if r.P(0.3) {
			s.L = LShape{Kind: 'c', P: []V{{}}, R: h}
		}
		s.S = s.L.build(b.B)
		s.S.UserData = s
		s.S.SetSensor(s.Sensor)
		w.Sp.AddShape(s.S)
		b.Shapes = append(b.Shapes, s)
		w.Shapes = append(w.Shapes, s)
	}
	for i := 0; i < 3; i++ {
		queries(t, w, r, 15)
		w.step(1.0 / 60)
	}
	t.Ev("lattices")
	t.NonTrivial(t.Case, len(w.Shapes))
}

func init() {
	register(&Prop{
		ID:        "C06",
		Technique: "runtime monitoring: every space query during random histories is compared with an exhaustive search over the model's shapes (differential oracle)",
		Rule:      "a case counts when queries hit something",
		Assumptions: []string{"shapes of bodies moved by hand are reindexed before querying, as documented", "the shape given to ShapeQuery belongs to a body", "single-shape queries are judged by C21 to C23",
			"rays that graze a shape or end on its surface within 1e-9 may go either way, except in the tree, where the box test is the same at every level"},
		Loads: []Load{
			{"histories", 6000, 30000, c06},
			{"lattice", 12000, 40000, c06grid},
			{"multitudes", 60, 1000, c06multitude},
		},
		Need: map[string]int64{"bb_hits": 50000, "point_hits": 20000, "shape_hits": 20000, "segment_hits": 50000, "first_hits": 20000,
			"hash_histories": 300, "tree_histories": 300, "sleeping_seen": 300, "nested_queries": 300, "queries_in_callback_b": 200, "queries_in_callback_p": 1000, "queries_with_moved_shape": 10000},
	})
}
