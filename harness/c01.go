package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// pairTruth classifies a pair of shapes where the library now has them: +1 surely apart, -1 surely touching, 0 too close to call.
func pairTruth(A, B RS) int {
	al, ab, ar, at := A.bb()
	bl, bb, br, bt := B.bb()
	sc := math.Max(A.scale(), B.scale())
	m := 1e-6 * sc
	if al > br+m || bl > ar+m || ab > bt+m || bb > at+m {
		return 1
	}
	d := shapeDist(A, B)
	if d > m {
		if collinearNoise(A, B) {
			return 0
		}
		return 1
	}
	if d < -m {
		return -1
	}
	return 0
}

// c01step runs a step and compares the observed callbacks with an exhaustive pairwise search.
func c01step(t *T, w *World, dt float64) {
	shapes := append([]*WShape(nil), w.Shapes...)
	act := make([]bool, len(shapes))
	for i, s := range shapes {
		act[i] = s.B.active()
	}
	w.step(dt)
	begin, pre := map[pairKey]int{}, map[pairKey]int{}
	for _, e := range w.Log {
		switch e.Kind {
		case 'b':
			begin[e.K]++
		case 'p':
			pre[e.K]++
		}
	}
	rs := make([]RS, len(shapes))
	for i, s := range shapes {
		rs[i] = rsOf(s.S)
	}
	touching := 0
	for i, a := range shapes {
		for j := i + 1; j < len(shapes); j++ {
			b := shapes[j]
			k := key(a.ID, b.ID)
			n, nb := pre[k], begin[k]
			delete(pre, k)
			delete(begin, k)
			if n == 0 && nb == 0 {
				// cheap rejection first
				if a.B == b.B || (!act[i] && !act[j]) || !a.S.BB().Intersects(b.S.BB()) {
					if a.B == b.B || (!act[i] && !act[j]) {
						continue
					}
				}
			}
			allowed := mayCollide(a, b) && (act[i] || act[j])
			t.Check(n <= 1 && nb <= 1, "repeated", "s%d-s%d: %d pre-solve and %d begin callbacks in one step", a.ID, b.ID, n, nb)
			t.Check(nb <= n, "begin-without-presolve", "s%d-s%d: begin returned true but pre-solve did not run", a.ID, b.ID)
			if !allowed {
				t.Check(n == 0, "forbidden", "s%d-s%d may not collide but their callbacks ran (bodies b%d, b%d active %v %v)", a.ID, b.ID, a.B.ID, b.B.ID, act[i], act[j])
				continue
			}
			switch pairTruth(rs[i], rs[j]) {
			case -1:
				touching++
				t.Check(n == 1, "missed", "s%d-s%d overlap by %g but their callbacks did not run (bodies b%d type %d sleeping %v, b%d type %d sleeping %v; bb %v, %v)", a.ID, b.ID,
					-shapeDist(rs[i], rs[j]), a.B.ID, a.B.Typ, a.B.B.IsSleeping(), b.B.ID, b.B.Typ, b.B.B.IsSleeping(), a.S.BB(), b.S.BB())
				t.Ev("touching_pairs")
				if !act[i] || !act[j] {
					t.Ev("touching_pairs_with_resting_body")
				}
			case 1:
				t.Check(n == 0, "phantom", "s%d-s%d are %g apart but their callbacks ran", a.ID, b.ID, shapeDist(rs[i], rs[j]))
				t.Ev("apart_pairs")
			default:
				t.Ev("too_close_to_call")
			}
		}
	}
	for k := range pre {
		t.Failf("unknown-pair", "callbacks for s%d-s%d, which are not both in the space", k.a, k.b)
	}
	t.EvN("sleeping_bodies_seen", w.sleeping())
	if touching > 0 {
		t.Ev("steps_with_contacts")
		t.nontriv = true
	}
}

func c01(t *T) {
	r := t.R
	c := genConf(r)
	w := newWorld(t, r, c)
	n := 60 + r.Intn(60)
	for i := 0; i < n; i++ {
		w.ops()
		c01step(t, w, w.dt())
		// whatever takes part in collision detection must be where its body is
		if r.P(0.1) && len(w.Shapes) > 0 {
			s := w.Shapes[r.Intn(len(w.Shapes))]
			geometryFollows(t, s.S, s.L, s.B.B, "after a step")
		}
	}
	if t.nontriv {
		t.NonTrivial(t.Case, len(w.Shapes), t.ev["touching_pairs"])
	}
	if w.OnHash {
		t.EvN("steps_on_spatial_hash", n)
	}
	t.Sample("%s after %d steps, %d touching pairs seen", w.describe(), n, t.ev["touching_pairs"])
}

// c01crowd: many bodies, so that the tree rebalances and the hash bins fill.
func c01crowd(t *T) {
	r := t.R
	c := genConf(r)
	c.N, c.Arena, c.Size = 60+r.Intn(60), r.Range(20, 50), r.Range(0.5, 2)
	c.Joints = false
	w := newWorld(t, r, c)
	w.Trace = true
	for i := 0; i < 25; i++ {
		for k := 0; k < 5; k++ {
			w.op()
		}
		c01step(t, w, w.dt())
	}
	if t.nontriv {
		t.NonTrivial(t.Case, len(w.Shapes))
	}
}

// c01multitude: hundreds of bodies for a few steps.
func c01multitude(t *T) {
	r := t.R
	c := multitude(r)
	c.Joints = r.P(0.3)
	w := newWorld(t, r, c)
	for i := 0; i < 8; i++ {
		for k := 0; k < 20; k++ {
			w.op()
		}
		c01step(t, w, w.dt())
	}
	t.EvN("multitude_shapes", len(w.Shapes))
	if t.nontriv {
		t.NonTrivial(t.Case, len(w.Shapes))
	}
}

// c01sparse: a handful of shapes that come, go and touch one another, so that the trees are empty, single or tiny.
func c01sparse(t *T) {
	r := t.R
	w := newWorld(t, r, SConf{N: 0, Arena: 3, Size: r.Range(1, 4), Ctypes: 1, Kinds: "csp", MaxShapes: 1, Handlers: true, Sleep: r.P(0.3), PKin: 0.1, PStatic: 0.2})
	w.Trace = true
	w.Sp.SetGravity(V{Y: r.Pick(0, -1, -10)})
	if r.P(0.3) {
		w.useHash()
	}
	for i := 0; i < 40; i++ {
		switch k := r.Intn(10); {
		case k < 3 && len(w.Shapes) < 4:
			b := w.Static
			if len(w.Bodies) < 4 && r.P(0.7) {
				b = w.addBody()
			} else if len(w.Bodies) > 0 && r.P(0.5) {
				b = w.Bodies[r.Intn(len(w.Bodies))]
			}
			if len(b.Shapes) < 2 {
				w.addShape(b)
			}
		case k == 3 && len(w.Shapes) > 0:
			w.removeShape(w.Shapes[r.Intn(len(w.Shapes))])
		case k == 4 && len(w.Bodies) > 0:
			w.removeBody(w.Bodies[r.Intn(len(w.Bodies))])
		case k == 5 && len(w.Bodies) > 0:
			b := w.Bodies[r.Intn(len(w.Bodies))]
			p := V{X: r.Range(-4, 4), Y: r.Range(-4, 4)}
			w.logf("SetPosition b%d %s", b.ID, fv(p))
			b.B.SetPosition(p)
			if b.Typ == cp.BODY_STATIC || r.P(0.5) {
				w.reindex(b)
			}
		}
		c01step(t, w, r.Pick(1.0/60, 1.0/60, 0.1))
		t.Ev("steps_with_few_shapes")
	}
	if t.nontriv {
		t.NonTrivial(t.Case, t.ev["touching_pairs"])
	}
}

func init() {
	_ = cp.INFINITY
	register(&Prop{
		ID:        "C01",
		Technique: "runtime monitoring: collision callbacks recorded during random histories, checked online each step against an exhaustive pairwise oracle over independently computed geometry",
		Note:      "histories of 60-120 steps with 2-20 bodies, and crowds of up to 120 bodies and multitudes of up to 600; pairs within 1e-6 of touching are not judged",
		Rule:      "a case counts when at least one pair that surely touches was judged",
		Loads: []Load{
			{"histories", 4000, 60000, c01},
			{"crowds", 250, 4000, c01crowd},
			{"multitudes", 16, 400, c01multitude},
			{"sparse", 4000, 60000, c01sparse},
		},
		Need: map[string]int64{"touching_pairs": 100000, "apart_pairs": 1000000, "touching_pairs_with_resting_body": 20000, "sleeping_bodies_seen": 20000,
			"steps_on_spatial_hash": 20000, "op_set-type": 500, "op_use-hash": 200, "op_remove-shape": 2000, "op_reshape": 500, "steps_with_few_shapes": 100000},
	})
}
