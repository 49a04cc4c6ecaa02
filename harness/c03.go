package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

func extremeBits(r *Rand) uint {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1 << 63
	case 3:
		return 1 << 31
	case 4:
		return 1 << 32
	case 5:
		return uint(r.U64())
	}
	return math.MaxUint64
}

func extremeFilter(r *Rand) cp.ShapeFilter {
	g := uint(0)
	if r.P(0.4) {
		g = []uint{1, 2, 1 << 32, 1 << 63, math.MaxUint64}[r.Intn(5)]
	}
	return cp.NewShapeFilter(g, extremeBits(r), extremeBits(r))
}

// c03histories: filters and joints keep changing; exactly the permitted touching pairs are reported from the next step on.
func c03histories(t *T) {
	r := t.R
	c := genConf(r)
	c.Arena, c.Size = r.Range(4, 15), r.Range(1, 3)
	for i := 0; i < 6; i++ {
		c.Filters = append(c.Filters, extremeFilter(r))
	}
	c.Filters = append(c.Filters, cp.SHAPE_FILTER_ALL, cp.SHAPE_FILTER_NONE)
	c.PFilter = 0.5
	c.Joints = r.P(0.8)
	w := newWorld(t, r, c)
	qr := newRand(t.Case, "query")
	n := 40 + r.Intn(40)
	for i := 0; i < n; i++ {
		w.ops()
		if r.P(0.3) && len(w.Shapes) > 0 {
			s := w.Shapes[r.Intn(len(w.Shapes))]
			s.Filter = w.genFilter()
			s.S.SetFilter(s.Filter)
			w.logf("SetFilter s%d %v", s.ID, s.Filter)
		}
		if r.P(0.2) && len(w.Cons) > 0 {
			x := w.Cons[r.Intn(len(w.Cons))]
			x.Collide = !x.Collide
			x.C.SetCollideBodies(x.Collide)
			w.logf("SetCollideBodies c%d %v", x.ID, x.Collide)
		}
		c01step(t, w, w.dt())
		if r.P(0.3) {
			queries(t, w, qr, 4)
		}
		for _, a := range w.Shapes {
			for _, b := range w.Shapes {
				if a.B != b.B && !mayCollide(a, b) && pairTruth(rsOf(a.S), rsOf(b.S)) == -1 {
					t.Ev("filtered_overlaps")
				}
			}
		}
	}
	if t.nontriv {
		t.NonTrivial(t.Case, t.ev["touching_pairs"], t.ev["filtered_overlaps"])
	}
}

// c03pair: two overlapping shapes under every rule, in both orders, with collisions and with all five queries.
func c03pair(t *T) {
	r := t.R
	for n := 0; n < 20; n++ {
		sp := cp.NewSpace()
		if r.P(0.3) {
			sp.UseSpatialHash(2, 50)
		}
		fa, fb := extremeFilter(r), extremeFilter(r)
		want := !filterRejects(fa, fb)
		t.Check(fa.Reject(fb) == !want && fb.Reject(fa) == !want, "rule", "filters %v and %v: Reject %v and %v, rule %v", fa, fb, fa.Reject(fb), fb.Reject(fa), !want)
		ab, bb := cp.NewBody(1, 1), cp.NewBody(1, 1)
		switch r.Intn(4) {
		case 0:
			ab = cp.NewStaticBody()
		case 1:
			bb = cp.NewKinematicBody()
		}
		p := V{X: r.Range(-9, 9), Y: r.Range(-9, 9)}
		ab.SetPosition(p)
		bb.SetPosition(vadd(p, V{X: r.Range(-0.5, 0.5), Y: r.Range(-0.5, 0.5)}))
		sp.AddBody(ab)
		sp.AddBody(bb)
		mk := func(b *cp.Body) *cp.Shape {
			switch r.Intn(3) {
			case 0:
				return cp.NewCircle(b, 1, V{})
			case 1:
				return cp.NewSegment(b, V{X: -1}, V{X: 1}, 1)
			}
			return cp.NewBox(b, 2, 2, 0)
		}
		a, b := mk(ab), mk(bb)
		sameBody := r.P(0.1)
		if sameBody {
			b = mk(ab)
		}
		a.SetFilter(fa)
		b.SetFilter(fb)
		if r.P(0.5) {
			sp.AddShape(a)
			sp.AddShape(b)
		} else {
			sp.AddShape(b)
			sp.AddShape(a)
		}
		// joints between them and to others
		off := 0
		other := cp.NewBody(1, 1)
		sp.AddBody(other)
		type joint struct {
			*cp.Constraint
			off, foreign bool
		}
		var js []*joint
		nj := r.Intn(4)
		if r.P(0.1) {
			nj = 4 + r.Intn(60)
			t.Ev("many_joints")
		}
		for k := nj; k > 0; k-- {
			x, y := ab, bb
			if r.P(0.5) {
				x, y = y, x
			}
			foreign := r.P(0.4) || nj > 4 && r.P(0.9)
			if foreign {
				if r.P(0.5) {
					x = other
				} else {
					y = other
				}
			}
			j := &joint{cp.NewRotaryLimitJoint(x, y, -1e9, 1e9), r.P(0.5), foreign}
			if j.off {
				j.SetCollideBodies(false)
				if !foreign {
					off++
				}
			}
			sp.AddConstraint(j.Constraint)
			js = append(js, j)
		}
		calls := 0
		h := sp.NewCollisionHandler(0, 0)
		h.PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { calls++; return false }
		step := func(when string) {
			calls = 0
			sp.Step(1.0 / 60)
			movable := ab.GetType() != cp.BODY_STATIC || bb.GetType() != cp.BODY_STATIC
			exp := want && off == 0 && !sameBody && movable
			t.Check((calls == 1) == exp && calls <= 1, "pair-rule", "%s: filters %v and %v, %d joints that forbid collision, same body %v: %d callbacks", when, fa, fb, off, sameBody, calls)
			t.Ev("pair_steps")
			if exp {
				t.Ev("pairs_allowed")
			} else {
				t.Ev("pairs_suppressed")
			}
		}
		step("at first")
		for k := 0; k < 4; k++ {
			switch r.Intn(4) {
			case 0:
				fa = extremeFilter(r)
				a.SetFilter(fa)
			case 1:
				fb = extremeFilter(r)
				b.SetFilter(fb)
			case 2:
				if len(js) > 0 {
					i := r.Intn(len(js))
					sp.RemoveConstraint(js[i].Constraint)
					js = append(js[:i], js[i+1:]...)
				}
			case 3:
				if len(js) > 0 {
					j := js[r.Intn(len(js))]
					j.off = r.P(0.5)
					j.SetCollideBodies(!j.off)
				}
			}
			off = 0
			for _, j := range js {
				if j.off && !j.foreign {
					off++
				}
			}
			want = !filterRejects(fa, fb)
			step("after a change")
		}
		// queries against a alone
		for k := 0; k < 4; k++ {
			fq := extremeFilter(r)
			if k == 0 {
				fq = cp.SHAPE_FILTER_ALL
			}
			if k == 1 {
				fq = fa
			}
			may := !filterRejects(fa, fq)
			c := ab.Position()
			found := func(name string, got bool) {
				t.Check(got == may, "query-rule", "%s with filter %v: found %v, shape filter %v", name, fq, got, fa)
				t.Ev("query_rules")
			}
			hit := false
			sp.BBQuery(cp.NewBBForCircle(c, 0.1), fq, func(s *cp.Shape, _ interface{}) { hit = hit || s == a }, nil)
			found("BBQuery", hit)
			hit = false
			sp.SegmentQuery(vadd(c, V{X: -5, Y: 0.1}), vadd(c, V{X: 5, Y: 0.1}), 0, fq, func(s *cp.Shape, _, _ V, _ float64, _ interface{}) { hit = hit || s == a }, nil)
			found("SegmentQuery", hit)
			hit = false
			sp.SegmentQuery(vadd(c, V{X: -5, Y: 1.1}), vadd(c, V{X: 5, Y: 1.1}), 0.5, fq, func(s *cp.Shape, _, _ V, _ float64, _ interface{}) { hit = hit || s == a }, nil)
			found("SegmentQuery with radius", hit)
			first := sp.SegmentQueryFirst(vadd(c, V{X: -5, Y: 0.1}), vadd(c, V{X: 5, Y: 0.1}), r.Pick(0, 0.1), fq)
			t.Check(first.Shape != a || may, "query-rule", "SegmentQueryFirst with filter %v found a shape with filter %v", fq, fa)
			t.Check(first.Shape != nil || (!may && filterRejects(fb, fq)), "query-rule", "SegmentQueryFirst with filter %v found nothing; shape filters %v %v", fq, fa, fb)
			near := sp.PointQueryNearest(c, 0.1, fq)
			t.Check(near.Shape != a || may, "query-rule", "PointQueryNearest with filter %v found a shape with filter %v", fq, fa)
			t.Check(near.Shape != nil || !may, "query-rule", "PointQueryNearest with filter %v found nothing; shape filter %v", fq, fa)
			qb := cp.NewBody(1, 1)
			qb.SetPosition(c)
			q := cp.NewCircle(qb, 1, V{})
			q.SetFilter(fq)
			hit = false
			sp.ShapeQuery(q, func(s *cp.Shape, _ *cp.ContactPointSet) { hit = hit || s == a })
			found("ShapeQuery", hit)
		}
	}
	t.NonTrivial(t.Case)
}

// c03motion: bodies that may not collide move, to the last bit, as each would alone.
func c03motion(t *T) {
	r := t.R
	c := genConf(r)
	c.Size, c.Arena = r.Range(1, 3), r.Range(3, 10)
	c.Sleep, c.Joints, c.MassShapes, c.NoKick = false, false, false, true
	c.NoRemove, c.Types, c.NoGravityChange, c.Reshape = true, false, true, false
	c.PKin, c.MaxShapes = r.Pick(0, 0.3), 2
	how := r.Intn(4)
	switch how {
	case 0: // one group
		g := []uint{1, 7, 1 << 63, math.MaxUint64}[r.Intn(4)]
		for i := 0; i < 4; i++ {
			c.Filters = append(c.Filters, cp.NewShapeFilter(g, extremeBits(r), extremeBits(r)))
		}
	case 1: // nobody accepts
		bit := uint(1) << uint(r.Intn(64))
		c.Filters = []cp.ShapeFilter{cp.NewShapeFilter(0, bit, ^bit), cp.NewShapeFilter(1, bit, ^bit), cp.NewShapeFilter(2, bit, ^bit)}
	case 2: // one side only refuses: members of category A accept everything, but nothing else exists that accepts A
		bit := uint(1) << uint(r.Intn(64))
		c.Filters = []cp.ShapeFilter{cp.NewShapeFilter(0, bit, 0), cp.NewShapeFilter(0, math.MaxUint64, 0)}
	case 3: // joints
		c.N = 3 + r.Intn(5)
	}
	w := newWorld(t, r, c)
	if how == 3 {
		for i, a := range w.Bodies {
			for _, b := range w.Bodies[i+1:] {
				x, y := a.B, b.B
				if r.P(0.5) {
					x, y = y, x
				}
				j := cp.NewRotaryLimitJoint(x, y, -1e9, 1e9)
				j.SetCollideBodies(false)
				w.Sp.AddConstraint(j)
			}
		}
	}
	calls := 0
	w.OnEv = func(kind byte, arb *cp.Arbiter, _ *cp.CollisionHandler) bool { calls++; return true }
	solo := soloWorlds(w)
	for i := 0; i < 40; i++ {
		dt := w.dt()
		w.step(dt)
		solo.step(dt)
		t.Check(calls == 0, "callback", "callbacks although no pair may collide (way %d)", how)
		solo.compare(t, "in a space where no pair may collide")
		for i, a := range w.Shapes {
			for _, b := range w.Shapes[i+1:] {
				if a.B != b.B && a.S.BB().Intersects(b.S.BB()) && pairTruth(rsOf(a.S), rsOf(b.S)) == -1 {
					t.Ev("harmless_overlaps")
					t.nontriv = true
				}
			}
		}
	}
	if t.nontriv {
		t.NonTrivial(t.Case, how, t.ev["harmless_overlaps"])
	}
}

func init() {
	register(&Prop{
		ID:        "C03",
		Technique: "runtime monitoring: callbacks, query results and motion observed under random filters and joints, judged by the documented rule and by bit-comparison with isolated runs",
		Rule:      "a case counts when filtered or permitted shapes really overlapped",
		Loads: []Load{
			{"histories", 2800, 12000, c03histories},
			{"pairs", 1600, 8000, c03pair},
			{"motion", 2800, 10000, c03motion},
		},
		Need: map[string]int64{"touching_pairs": 20000, "filtered_overlaps": 20000, "pairs_allowed": 3000, "pairs_suppressed": 3000, "harmless_overlaps": 20000, "query_rules": 50000},
	})
}
