package main

import (
	"fmt"
	"reflect"

	"github.com/jakecoffman/cp/v2"
)

// Methods without parameters that only tell something.
var readers = map[string]bool{}

func init() {
	for _, n := range []string{"Bodies", "ContactPointSet", "Count", "IsFirstContact", "Normal", "Shapes", "TotalImpulse",
		"Angle", "AngularVelocity", "CenterOfGravity", "ComponentRoot", "Force", "GetType", "IdleTime", "IsSleeping", "KineticEnergy", "Mass",
		"Moment", "Position", "Rotation", "String", "Torque", "Velocity", "Radius", "TransformC", "ErrorBias", "MaxBias", "MaxForce",
		"GetImpulse", "A", "B", "TransformA", "TransformB", "Area", "BB", "Body", "Density", "Elasticity", "Friction", "HashId",
		"MassInfo", "Order", "Sensor", "Space", "Damping", "Gravity", "TimeStep"} {
		readers[n] = true
	}
}

// readAll calls every reader of an object twice and checks that it says the same.
func readAll(t *T, obj interface{}) {
	v := reflect.ValueOf(obj)
	ty := v.Type()
	for i := 0; i < ty.NumMethod(); i++ {
		m := ty.Method(i)
		if !readers[m.Name] || m.Type.NumIn() != 1 {
			continue
		}
		x, y := v.Method(i).Call(nil), v.Method(i).Call(nil)
		for j := range x {
			a, b := x[j].Interface(), y[j].Interface()
			if fmt.Sprint(a) != fmt.Sprint(b) && x[j].Kind() != reflect.Ptr {
				t.Failf("unstable-reader", "%s.%s says %v, then %v", ty, m.Name, a, b)
			}
		}
		t.Ev("reads")
	}
}

type nullDrawer struct{ n int }

func (d *nullDrawer) DrawCircle(V, float64, float64, cp.FColor, cp.FColor, interface{}) { d.n++ }
func (d *nullDrawer) DrawSegment(V, V, cp.FColor, interface{})                          { d.n++ }
func (d *nullDrawer) DrawFatSegment(V, V, float64, cp.FColor, cp.FColor, interface{})   { d.n++ }
func (d *nullDrawer) DrawPolygon(int, []V, float64, cp.FColor, cp.FColor, interface{})  { d.n++ }
func (d *nullDrawer) DrawDot(float64, V, cp.FColor, interface{})                        { d.n++ }
func (d *nullDrawer) Flags() uint                                                       { return 7 }
func (d *nullDrawer) OutlineColor() cp.FColor                                           { return cp.FColor{} }
func (d *nullDrawer) ShapeColor(*cp.Shape, interface{}) cp.FColor                       { return cp.FColor{} }
func (d *nullDrawer) ConstraintColor() cp.FColor                                        { return cp.FColor{} }
func (d *nullDrawer) CollisionPointColor() cp.FColor                                    { return cp.FColor{} }
func (d *nullDrawer) Data() interface{}                                                 { return nil }

// observe asks a space something.
func observe(t *T, w *World, r *Rand) {
	sp := w.Sp
	p, q := w.spot(r), w.spot(r)
	filter := genQueryFilter(r)
	what := ""
	switch r.Intn(14) {
	case 0:
		what = "point"
		sp.PointQueryNearest(p, r.LogRange(0.01, 1e3), filter)
	case 1:
		what = "bb"
		sp.BBQuery(cp.NewBBForCircle(p, r.LogRange(0.01, 1e3)), filter, func(*cp.Shape, interface{}) {}, nil)
	case 2:
		what = "segment"
		sp.SegmentQuery(p, q, r.Pick(0, 0.5, 3), filter, func(*cp.Shape, V, V, float64, interface{}) {}, nil)
	case 3:
		what = "first"
		sp.SegmentQueryFirst(p, q, r.Pick(0, 0.5, 3), filter)
	case 4:
		what = "shape"
		body := cp.NewKinematicBody()
		body.SetPosition(p)
		var s *cp.Shape
		switch r.Intn(3) {
		case 0:
			s = cp.NewCircle(body, r.LogRange(0.1, 20), V{})
		case 1:
			s = cp.NewBox(body, r.LogRange(0.1, 20), r.LogRange(0.1, 20), r.Pick(0, 0.5))
		case 2:
			s = cp.NewSegment(body, V{}, vsub(q, p), r.Pick(0, 0.5))
		}
		sp.ShapeQuery(s, func(*cp.Shape, *cp.ContactPointSet) {})
	case 5:
		what = "each"
		sp.EachBody(func(b *cp.Body) {
			if r.P(0.3) {
				readAll(t, b)
			}
		})
		sp.EachShape(func(s *cp.Shape) {
			if r.P(0.3) {
				readAll(t, s)
				readAll(t, s.Class)
			}
		})
		sp.EachConstraint(func(c *cp.Constraint) {
			if r.P(0.5) {
				readAll(t, c)
				readAll(t, c.Class)
			}
		})
	case 6:
		what = "draw"
		cp.DrawSpace(sp, &nullDrawer{})
	case 7:
		what = "debug-info"
		cp.DebugInfo(sp)
	case 8:
		what = "contains"
		for _, b := range w.Bodies {
			sp.ContainsBody(b.B)
		}
		for _, s := range w.Shapes {
			sp.ContainsShape(s.S)
		}
		for _, c := range w.Cons {
			sp.ContainsConstraint(c.C)
		}
		sp.PostStepCallback(1)
		sp.ArrayForBodyType(cp.BODY_DYNAMIC)
		readAll(t, sp)
	case 9:
		what = "body"
		if len(w.Bodies) > 0 {
			b := w.Bodies[r.Intn(len(w.Bodies))].B
			b.EachArbiter(func(arb *cp.Arbiter) { readAll(t, arb) })
			b.EachShape(func(*cp.Shape) {})
			b.EachConstraint(func(*cp.Constraint) {})
			b.LocalToWorld(p)
			b.WorldToLocal(p)
			b.VelocityAtLocalPoint(p)
			b.VelocityAtWorldPoint(p)
			readAll(t, b)
		}
	case 10, 11:
		what = "single-shape"
		if len(w.Shapes) > 0 {
			s := w.Shapes[r.Intn(len(w.Shapes))].S
			s.PointQuery(p)
			var info cp.SegmentQueryInfo
			s.SegmentQuery(p, q, r.Pick(0, 0.5), &info)
			o := w.Shapes[r.Intn(len(w.Shapes))].S
			if o.Body() != s.Body() {
				cp.ShapesCollide(s, o)
			}
			if poly, ok := s.Class.(*cp.PolyShape); ok {
				for i := 0; i < poly.Count(); i++ {
					poly.Vert(i)
					poly.TransformVert(i)
				}
			}
		}
	case 12:
		what = "own-shape"
		if len(w.Shapes) > 0 {
			sp.ShapeQuery(w.Shapes[r.Intn(len(w.Shapes))].S, func(*cp.Shape, *cp.ContactPointSet) {})
		}
	case 13:
		what = "draw-one"
		for _, s := range w.Shapes {
			cp.DrawShape(s.S, &nullDrawer{})
		}
		for _, c := range w.Cons {
			cp.DrawConstraint(c.C, &nullDrawer{})
		}
	}
	t.Ev("observed_" + what)
}

func c20(t *T) {
	r := t.R
	seed := fmt.Sprint(t.Seed, t.Load, t.Case)
	steps := 20 + r.Intn(60)
	or := newRand(t.Seed, "observer", t.Case)
	n := 1 + r.Intn(8)
	pIn := r.Pick(0, 0, 0.02, 0.1)
	watch := func(full bool) *recorder {
		return runHistory(seed, steps, full, false, func(w *World) {
			for k := or.Intn(n + 1); k > 0; k-- {
				observe(t, w, or)
			}
			t.Ev("observations")
		}, func(w *World) {
			if or.P(pIn) {
				observe(t, w, or)
				t.Ev("observed_in_callbacks")
			}
		})
	}
	a, b := runHistory(seed, steps, false, false, nil, nil), watch(false)
	if a.h != b.h {
		x := runHistory(seed, steps, true, false, nil, nil)
		msg, at := "not reproduced when recording in full", 0
		for try := 0; try < 5; try++ {
			y := watch(true)
			if x.h != y.h {
				i := 0
				for i < len(x.lines) && i < len(y.lines) && x.lines[i] == y.lines[i] {
					i++
				}
				if i < len(x.lines) && i < len(y.lines) {
					msg = fmt.Sprintf("%q unobserved, %q observed", x.lines[i], y.lines[i])
				}
				break
			}
		}
		for at < len(a.marks)-1 && a.marks[at] == b.marks[at] {
			at++
		}
		t.Failf("disturbed", "observing changed what happened in step %d: %s", at, msg)
	}
	for k, v := range a.ev {
		t.ev[k] += v
	}
	if a.ev["callbacks_recorded"] > 20 {
		t.NonTrivial(a.h)
	}
	t.Sample("%d steps, %d callbacks", steps, a.ev["callbacks_recorded"])
}

func init() {
	register(&Prop{ID: "C20", Technique: "runtime monitoring: twin runs of random histories, one with random observations between steps and in callbacks; bitwise comparison of trajectories and callbacks",
		Rule:  "a history counts when it had more than 20 collision callbacks; distinct by digest",
		Loads: []Load{{"twins", 4500, 40000, c20}},
		Need: map[string]int64{"callbacks_recorded": 100000, "observations": 30000, "observed_draw": 2000, "observed_own-shape": 2000, "observed_segment": 2000,
			"observed_single-shape": 2000, "reads": 500000, "observed_in_callbacks": 1000, "sleeping_seen": 200},
	})
}
