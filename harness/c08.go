package main

import "github.com/jakecoffman/cp/v2"

// contents compares everything that can be asked about a space's contents with the model.
func contents(t *T, w *World, when string, touch func(kind string, obj interface{})) {
	sp := w.Sp
	wantB, wantS, wantC := map[*cp.Body]int{}, map[*cp.Shape]int{}, map[*cp.Constraint]int{}
	for _, b := range w.Bodies {
		wantB[b.B] = 0
	}
	for _, s := range w.Shapes {
		wantS[s.S] = 0
	}
	for _, c := range w.Cons {
		wantC[c.C] = 0
	}
	sleeping := 0
	for _, b := range w.Bodies {
		if b.B.IsSleeping() {
			sleeping++
			t.Check(b.Typ == cp.BODY_DYNAMIC, "sleeping-type", "%s: b%d of type %d is asleep", when, b.ID, b.Typ)
		}
	}
	t.EvN("sleeping_bodies_iterated", sleeping)
	sp.EachBody(func(b *cp.Body) {
		n, ok := wantB[b]
		t.Check(ok, "body-foreign", "%s: EachBody visits a body that is not in the space", when)
		t.Check(n == 0, "body-twice", "%s: EachBody visits b%d twice", when, b.UserData.(*WBody).ID)
		wantB[b] = n + 1
		if touch != nil {
			touch("body", b)
		}
	})
	for b, n := range wantB {
		t.Check(n == 1, "body-lost", "%s: EachBody does not visit b%d (type %d, sleeping %v)", when, b.UserData.(*WBody).ID, b.GetType(), b.IsSleeping())
	}
	sp.EachShape(func(s *cp.Shape) {
		n, ok := wantS[s]
		t.Check(ok, "shape-foreign", "%s: EachShape visits a shape that is not in the space", when)
		t.Check(n == 0, "shape-twice", "%s: EachShape visits s%d twice", when, s.UserData.(*WShape).ID)
		wantS[s] = n + 1
		if touch != nil {
			touch("shape", s)
		}
	})
	for s, n := range wantS {
		t.Check(n == 1, "shape-lost", "%s: EachShape does not visit s%d", when, s.UserData.(*WShape).ID)
	}
	sp.EachConstraint(func(c *cp.Constraint) {
		n, ok := wantC[c]
		t.Check(ok, "constraint-foreign", "%s: EachConstraint visits a constraint that is not in the space", when)
		t.Check(n == 0, "constraint-twice", "%s: EachConstraint visits c%d twice", when, c.UserData.(*WCon).ID)
		wantC[c] = n + 1
		if touch != nil {
			touch("constraint", c)
		}
	})
	for c, n := range wantC {
		wc := c.UserData.(*WCon)
		t.Check(n == 1, "constraint-lost", "%s: EachConstraint does not visit c%d (%s between b%d sleeping %v and b%d sleeping %v)", when, wc.ID, wc.Kind,
			wc.A.ID, wc.A.B.IsSleeping(), wc.B.ID, wc.B.B.IsSleeping())
	}
	for _, b := range w.Bodies {
		t.Check(sp.ContainsBody(b.B), "contains-body", "%s: ContainsBody false for b%d", when, b.ID)
		t.Check(b.B.GetType() == b.Typ, "type", "%s: b%d has type %d, want %d", when, b.ID, b.B.GetType(), b.Typ)
		bodyLists(t, w, b, when)
	}
	bodyLists(t, w, w.Static, when)
	t.Check(sp.StaticBody == w.Static.B && sp.ContainsBody(sp.StaticBody), "static-body", "%s: the space does not contain its static body", when)
	if w.oldStatic != nil {
		t.Check(!sp.ContainsBody(w.oldStatic), "still-contained", "%s: the space contains the static body that was replaced", when)
	}
	for _, s := range w.Shapes {
		t.Check(sp.ContainsShape(s.S) && s.S.Space() == sp, "contains-shape", "%s: ContainsShape %v, Space() wrong for s%d", when, sp.ContainsShape(s.S), s.ID)
	}
	for _, c := range w.Cons {
		t.Check(sp.ContainsConstraint(c.C), "contains-constraint", "%s: ContainsConstraint false for c%d", when, c.ID)
	}
	t.Ev("content_checks")
}

func bodyLists(t *T, w *World, b *WBody, when string) {
	seenS := map[*cp.Shape]int{}
	b.B.EachShape(func(s *cp.Shape) { seenS[s]++ })
	t.Check(len(seenS) == len(b.Shapes), "body-shapes", "%s: b%d lists %d shapes, has %d", when, b.ID, len(seenS), len(b.Shapes))
	for _, s := range b.Shapes {
		t.Check(seenS[s.S] == 1, "body-shapes", "%s: b%d lists s%d %d times", when, b.ID, s.ID, seenS[s.S])
		t.Check(s.S.Body() == b.B, "shape-body", "%s: s%d is on another body", when, s.ID)
	}
	seenC := map[*cp.Constraint]int{}
	b.B.EachConstraint(func(c *cp.Constraint) { seenC[c]++ })
	t.Check(len(seenC) == len(b.Cons), "body-constraints", "%s: b%d lists %d constraints, has %d", when, b.ID, len(seenC), len(b.Cons))
	for _, c := range b.Cons {
		t.Check(seenC[c.C] == 1, "body-constraints", "%s: b%d lists c%d %d times", when, b.ID, c.ID, seenC[c.C])
	}
	seenA := map[pairKey]int{}
	b.B.EachArbiter(func(a *cp.Arbiter) {
		x, y := a.Shapes()
		sx, sy := x.UserData.(*WShape), y.UserData.(*WShape)
		t.Check(sx.In && sy.In, "arbiter-of-removed", "%s: b%d lists an arbiter between s%d and s%d, one of which was removed", when, b.ID, sx.ID, sy.ID)
		t.Check(sx.B == b || sy.B == b, "arbiter-foreign", "%s: b%d lists an arbiter between s%d and s%d of other bodies", when, b.ID, sx.ID, sy.ID)
		k := key(sx.ID, sy.ID)
		seenA[k]++
		t.Check(seenA[k] == 1, "arbiter-twice", "%s: b%d lists the arbiter s%d-s%d twice", when, b.ID, sx.ID, sy.ID)
	})
	t.EvN("arbiters_listed", len(seenA))
}

func removed(t *T, w *World, gone map[interface{}]bool, when string) {
	for o := range gone {
		switch o := o.(type) {
		case *cp.Body:
			t.Check(!w.Sp.ContainsBody(o), "still-contained", "%s: removed body still contained", when)
		case *cp.Shape:
			t.Check(!w.Sp.ContainsShape(o) && o.Space() == nil, "still-contained", "%s: removed shape still contained", when)
		case *cp.Constraint:
			t.Check(!w.Sp.ContainsConstraint(o), "still-contained", "%s: removed constraint still contained", when)
		}
	}
}

func c08(t *T) {
	c08run(t, genConf(t.R), 50+t.R.Intn(40), 1)
}

// c08multitude: hundreds of bodies and shapes, so that the tables behind the contents have to grow.
func c08multitude(t *T) {
	c08run(t, multitude(t.R), 10, 16)
}

func c08run(t *T, c SConf, n, busy int) {
	r := t.R
	c.Sleep = r.P(0.8)
	c.Types = r.P(0.7)
	c.Joints = r.P(0.8)
	w := newWorld(t, r, c)
	mr := newRand(t.Case, "monitor")
	gone := map[interface{}]bool{}
	var pool []*WBody // bodies taken out, to be put back later
	for i := 0; i < n; i++ {
		before := map[interface{}]bool{}
		for _, b := range w.Bodies {
			before[b.B] = true
		}
		for _, s := range w.Shapes {
			before[s.S] = true
		}
		for _, x := range w.Cons {
			before[x.C] = true
		}
		k := r.Intn(4) * busy
		if w.quiet > 0 {
			w.quiet--
			k = 0
		} else if r.P(0.1) {
			w.quiet = r.Intn(30)
		}
		for ; k > 0; k-- {
			op := w.op()
			if mr.P(0.3 / float64(busy)) {
				contents(t, w, "after "+op, nil)
			}
		}
		// put an object back that was removed before
		if len(pool) > 0 && r.P(0.2) {
			b := pool[0]
			pool = pool[1:]
			w.Sp.AddBody(b.B)
			b.In = true
			w.Bodies = append(w.Bodies, b)
			w.addShape(b)
			delete(gone, b.B)
			w.logf("AddBody b%d again", b.ID)
			t.Ev("readded_bodies")
		}
		if r.P(0.1) && len(w.Bodies) > 3 {
			b := w.Bodies[r.Intn(len(w.Bodies))]
			if !b.massShapes {
				w.removeBody(b)
				pool = append(pool, b)
			}
		}
		// iteration whose callback wakes or changes what it visits
		if mr.P(0.15) {
			contents(t, w, "iteration that changes the visited objects", func(kind string, o interface{}) {
				defer func() {
					if mr.P(0.08) {
						contents(t, w, "inside an iteration that changes the visited objects", nil)
						t.Ev("nested_iterations")
					}
				}()
				switch o := o.(type) {
				case *cp.Body:
					wb := o.UserData.(*WBody)
					if mr.P(0.5) {
						o.Activate()
					} else if wb.Typ == cp.BODY_DYNAMIC && mr.P(0.5) {
						o.SetVelocityVector(o.Velocity())
						o.ApplyImpulseAtLocalPoint(V{}, V{})
					}
				case *cp.Shape:
					if mr.P(0.5) {
						o.SetFriction(o.Friction())
						o.SetFilter(o.Filter)
					}
				case *cp.Constraint:
					if mr.P(0.5) {
						o.SetMaxForce(o.MaxForce())
					}
				}
			})
			contents(t, w, "after an iteration that changed the visited objects", nil)
			t.Ev("mutating_iterations")
		}
		if r.P(0.1) && len(w.Bodies) > 0 {
			c08bodyIter(t, w, r)
		}
		now := map[interface{}]bool{}
		for _, b := range w.Bodies {
			now[b.B] = true
		}
		for _, s := range w.Shapes {
			now[s.S] = true
		}
		for _, x := range w.Cons {
			now[x.C] = true
		}
		for o := range before {
			if !now[o] {
				gone[o] = true
			}
		}
		for o := range now {
			delete(gone, o)
		}
		removed(t, w, gone, "between steps")
		w.step(w.dt())
		contents(t, w, "after a step", nil)
	}
	// take everything out again
	for len(w.Bodies) > 0 {
		w.removeBody(w.Bodies[r.Intn(len(w.Bodies))])
		if mr.P(0.3 / float64(busy)) {
			contents(t, w, "while emptying the space", nil)
		}
	}
	for len(w.Static.Cons) > 0 {
		w.removeCon(w.Static.Cons[0])
	}
	contents(t, w, "in the emptied space", nil)
	w.Sp.Step(1.0 / 60)
	cnt := 0
	w.Sp.EachBody(func(*cp.Body) { cnt++ })
	w.Sp.EachShape(func(*cp.Shape) { cnt++ })
	w.Sp.EachConstraint(func(*cp.Constraint) { cnt++ })
	t.Check(cnt == 0, "not-empty", "%d objects left in the emptied space", cnt)
	w.Sp.BBQuery(cp.BB{L: -1e4, B: -1e4, R: 1e4, T: 1e4}, cp.SHAPE_FILTER_ALL, func(s *cp.Shape, _ interface{}) {
		t.Failf("not-empty", "a query still finds a shape in the emptied space")
	}, nil)
	t.Ev("emptied_spaces")
	t.NonTrivial(t.Case, t.ev["content_checks"])
	t.Sample("%d steps, %d content checks, %d sleeping bodies iterated", n, t.ev["content_checks"], t.ev["sleeping_bodies_iterated"])
}

// c08bodyIter visits what belongs to one body, and takes some of what it visits out of the space on the way.
func c08bodyIter(t *T, w *World, r *Rand) {
	b := w.Bodies[r.Intn(len(w.Bodies))]
	if r.P(0.1) {
		b = w.Static
	}
	switch r.Intn(3) {
	case 0:
		want := append([]*WCon(nil), b.Cons...)
		seen := map[*cp.Constraint]int{}
		w.logf("EachConstraint of b%d", b.ID)
		b.B.EachConstraint(func(c *cp.Constraint) {
			seen[c]++
			if wc := c.UserData.(*WCon); r.P(0.4) && wc.In {
				w.removeCon(wc)
				t.Ev("removed_while_visiting_joints")
			}
		})
		t.Check(len(seen) == len(want), "body-iteration", "EachConstraint of b%d, some removed on the way, visits %d joints of %d", b.ID, len(seen), len(want))
		for _, c := range want {
			t.Check(seen[c.C] == 1, "body-iteration", "EachConstraint of b%d, some removed on the way, visits c%d %d times", b.ID, c.ID, seen[c.C])
		}
	case 1:
		want := append([]*WShape(nil), b.Shapes...)
		seen := map[*cp.Shape]int{}
		w.logf("EachShape of b%d", b.ID)
		b.B.EachShape(func(s *cp.Shape) {
			seen[s]++
			if ws := s.UserData.(*WShape); r.P(0.2) && ws.In {
				w.removeShape(ws)
				t.Ev("removed_while_visiting_shapes")
			}
		})
		t.Check(len(seen) == len(want), "body-iteration", "EachShape of b%d, some removed on the way, visits %d shapes of %d", b.ID, len(seen), len(want))
		for _, s := range want {
			t.Check(seen[s.S] == 1, "body-iteration", "EachShape of b%d, some removed on the way, visits s%d %d times", b.ID, s.ID, seen[s.S])
		}
	case 2:
		// a shape that takes part in one contact only goes together with the visited one
		times := map[*WShape]int{}
		want := map[pairKey]int{}
		b.B.EachArbiter(func(a *cp.Arbiter) {
			x, y := a.Shapes()
			sx, sy := x.UserData.(*WShape), y.UserData.(*WShape)
			times[sx]++
			times[sy]++
			want[key(sx.ID, sy.ID)] = 0
		})
		w.logf("EachArbiter of b%d", b.ID)
		b.B.EachArbiter(func(a *cp.Arbiter) {
			x, y := a.Shapes()
			sx, sy := x.UserData.(*WShape), y.UserData.(*WShape)
			k := key(sx.ID, sy.ID)
			n, ok := want[k]
			t.Check(ok && n == 0, "body-iteration", "EachArbiter of b%d, some removed on the way, visits s%d-s%d which it did not list before, or twice", b.ID, sx.ID, sy.ID)
			want[k]++
			for _, s := range []*WShape{sx, sy} {
				if times[s] == 1 && s.In && r.P(0.2) {
					w.removeShape(s)
					t.Ev("removed_while_visiting_arbiters")
					break
				}
			}
		})
		for k, n := range want {
			t.Check(n == 1, "body-iteration", "EachArbiter of b%d, some removed on the way, visits s%d-s%d %d times", b.ID, k.a, k.b, n)
		}
	}
	contents(t, w, "after visiting and removing what belongs to a body", nil)
	t.Ev("body_iterations")
}

// c08migrate: two spaces that bodies, shapes and joints move between, each of them judged against the model.
func c08migrate(t *T) {
	r := t.R
	type item struct {
		b     *cp.Body
		s     []*cp.Shape
		at    int // space, or -1
		joint []*cp.Constraint
	}
	var sp [2]*cp.Space
	for i := range sp {
		sp[i] = cp.NewSpace()
		sp[i].SetGravity(V{Y: -r.Pick(0, 10)})
		sp[i].SleepTimeThreshold = 0.1
		sp[i].IdleSpeedThreshold = r.Pick(1, 20)
		if r.P(0.5) {
			sp[i].UseSpatialHash(r.LogRange(1, 8), 10+r.Intn(200))
		}
		sp[i].AddShape(cp.NewSegment(sp[i].StaticBody, V{X: -100}, V{X: 100}, 1))
	}
	var items []*item
	for i := 0; i < 3+r.Intn(8); i++ {
		it := &item{b: cp.NewBody(r.Range(1, 3), r.Range(1, 3)), at: -1}
		if r.P(0.15) {
			it.b.SetType([]int{cp.BODY_KINEMATIC, cp.BODY_STATIC}[r.Intn(2)])
		}
		it.b.SetPosition(V{X: r.Range(-6, 6), Y: r.Range(1, 6)})
		for k := 1 + r.Intn(2); k > 0; k-- {
			l := genShape(r, shapeGen{size: 2, offset: 0.5, sharp: true, maxVerts: 6})
			it.s = append(it.s, l.build(it.b))
		}
		items = append(items, it)
	}
	for round := 0; round < 30; round++ {
		it := items[r.Intn(len(items))]
		if it.at >= 0 {
			from := sp[it.at]
			for len(it.joint) > 0 {
				c := it.joint[0]
				from.RemoveConstraint(c)
				t.Check(!from.ContainsConstraint(c), "still-contained", "a removed joint is still contained")
				for _, o := range items {
					for i, x := range o.joint {
						if x == c {
							o.joint = append(o.joint[:i:i], o.joint[i+1:]...)
							break
						}
					}
				}
			}
			for _, i := range r.Perm(len(it.s)) {
				from.RemoveShape(it.s[i])
			}
			from.RemoveBody(it.b)
			it.at = -1
			if r.P(0.3) {
				it.b.SetPosition(V{X: r.Range(-6, 6), Y: r.Range(1, 6)})
			}
			if r.P(0.2) {
				it.b.SetVelocity(r.Range(-3, 3), 0)
			}
			t.Ev("taken_out")
		}
		if r.P(0.85) {
			it.at = r.Intn(2)
			sp[it.at].AddBody(it.b)
			for _, s := range it.s {
				sp[it.at].AddShape(s)
			}
			t.Ev("moved_in")
			o := items[r.Intn(len(items))]
			if o != it && o.at == it.at && r.P(0.6) && (o.b.GetType() == cp.BODY_DYNAMIC || it.b.GetType() == cp.BODY_DYNAMIC) {
				c := makeJoint(r, []string{"slide", "pivot", "limit", "spring"}[r.Intn(4)], it.b, o.b, 1)
				sp[it.at].AddConstraint(c)
				it.joint, o.joint = append(it.joint, c), append(o.joint, c)
				t.Ev("joined")
			}
		}
		for k := r.Intn(12); k > 0; k-- {
			sp[0].Step(1.0 / 60)
			sp[1].Step(1.0 / 60)
		}
		for i := range sp {
			wantB, wantS, wantC := map[*cp.Body]bool{}, 1, map[*cp.Constraint]bool{}
			for _, o := range items {
				t.Check(sp[i].ContainsBody(o.b) == (o.at == i), "contains-body", "space %d: ContainsBody says %v of a body in space %d", i, sp[i].ContainsBody(o.b), o.at)
				for _, s := range o.s {
					t.Check(sp[i].ContainsShape(s) == (o.at == i), "contains-shape", "space %d: ContainsShape says %v of a shape in space %d", i, sp[i].ContainsShape(s), o.at)
				}
				if o.at == i {
					wantB[o.b] = true
					wantS += len(o.s)
					for _, c := range o.joint {
						wantC[c] = true
					}
				}
				n := 0
				o.b.EachConstraint(func(*cp.Constraint) { n++ })
				t.Check(n == len(o.joint), "body-constraints", "a body that moved between spaces lists %d joints, has %d", n, len(o.joint))
			}
			nb, ns, nc := 0, 0, 0
			sp[i].EachBody(func(b *cp.Body) {
				nb++
				t.Check(wantB[b], "body-foreign", "space %d: EachBody visits a body that is not in the space", i)
			})
			sp[i].EachShape(func(s *cp.Shape) {
				ns++
				t.Check(s.Space() == sp[i], "shape-foreign", "space %d: EachShape visits a shape that is not in the space", i)
			})
			sp[i].EachConstraint(func(c *cp.Constraint) {
				nc++
				t.Check(wantC[c], "constraint-foreign", "space %d: EachConstraint visits a joint that is not in the space", i)
			})
			t.Check(nb == len(wantB) && ns == wantS && nc == len(wantC), "count", "space %d: visits %d bodies, %d shapes, %d joints, want %d, %d, %d", i, nb, ns, nc, len(wantB), wantS, len(wantC))
			found := 0
			sp[i].BBQuery(cp.BB{L: -1e5, B: -1e5, R: 1e5, T: 1e5}, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { found++ }, nil)
			t.Check(found == wantS, "count", "space %d: a query finds %d shapes, want %d", i, found, wantS)
			t.Ev("migration_checks")
		}
	}
	t.NonTrivial(t.Case)
}

func init() {
	register(&Prop{
		ID:        "C08",
		Technique: "runtime monitoring: the space's iterators, contains queries and per-body lists compared with a shadow model after every few calls of random histories",
		Note:      "histories of 50-90 steps; contents checked after calls, after every step, inside mutating iterations, and while emptying the space",
		Rule:      "every case checks one whole history",
		Loads:     []Load{{"histories", 10000, 40000, c08}, {"multitudes", 24, 600, c08multitude}, {"migrate", 6000, 20000, c08migrate}},
		Need: map[string]int64{"content_checks": 100000, "sleeping_bodies_iterated": 50000, "mutating_iterations": 3000, "nested_iterations": 3000, "op_set-type": 2000,
			"readded_bodies": 500, "arbiters_listed": 50000, "op_readd-shape": 500, "op_readd-joint": 100, "migration_checks": 20000, "moved_in": 10000, "joined": 1000,
			"body_iterations": 20000, "removed_while_visiting_joints": 500, "removed_while_visiting_shapes": 1000, "removed_while_visiting_arbiters": 300},
	})
}
