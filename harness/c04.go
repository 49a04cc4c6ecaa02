package main

import "github.com/jakecoffman/cp/v2"

// episode is the monitor's state of one pair of shapes.
type episode struct {
	active  bool
	ignored bool // begin returned false, or Ignore was called
	token   *int // stored in the arbiter's user data at begin
	begun   int  // step of begin
	shapes  [2]*WShape
	preStep int // last step with a pre-solve
	preRes  bool
	post    int // last step with a post-solve
	last    int
}

type lifeMonitor struct {
	t    *T
	w    *World
	r    *Rand
	eps  map[pairKey]*episode
	step bool // inside Step
	// probabilities of the callbacks' decisions
	pBegin, pPre, pIgnBegin, pIgnPre, pIgnPost float64
	removing                                   *WShape
	ended                                      []*episode       // in this step
	was                                        map[*WShape]bool // static or asleep before the step
}

func (m *lifeMonitor) get(k pairKey) *episode {
	e := m.eps[k]
	if e == nil {
		e = &episode{preStep: -1, post: -1, begun: -1}
		m.eps[k] = e
	}
	return e
}

func (m *lifeMonitor) on(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
	t, w := m.t, m.w
	sa, sb := arb.Shapes()
	a, b := sa.UserData.(*WShape), sb.UserData.(*WShape)
	k := key(a.ID, b.ID)
	e := m.get(k)
	e.shapes = [2]*WShape{a, b}
	tok, _ := arb.UserData.(*int)
	w.logf("  %c s%d-s%d", kind, a.ID, b.ID)
	t.Ev("callback_" + string(kind))
	if kind != 's' {
		t.Check(m.step, "outside-step", "callback %c of s%d-s%d outside a step", kind, a.ID, b.ID)
		t.Check(a.In && b.In, "removed-shape", "callback %c of s%d-s%d, one of which was removed", kind, a.ID, b.ID)
		set := arb.ContactPointSet()
		t.Check(arb.Count() > 0 && set.Count == arb.Count(), "no-contacts", "callback %c of s%d-s%d with %d contacts", kind, a.ID, b.ID, arb.Count())
	}
	switch kind {
	case 'b':
		t.Check(!e.active, "begin-twice", "s%d-s%d: begin without separate after the last begin", a.ID, b.ID)
		t.Check(arb.IsFirstContact(), "first-flag", "s%d-s%d: first-contact flag false in begin", a.ID, b.ID)
		t.Check(arb.UserData == nil, "stale-user-data", "s%d-s%d: user data of an earlier contact in begin", a.ID, b.ID)
		e.active, e.ignored, e.begun, e.token = true, false, w.Steps, new(int)
		arb.UserData = e.token
		if m.r.P(m.pIgnBegin) {
			t.Ev("ignored_in_begin")
			e.ignored = true
			return arb.Ignore()
		}
		if m.r.P(m.pBegin) {
			t.Ev("refused_in_begin")
			e.ignored = true
			return false
		}
	case 'p':
		t.Check(e.active, "presolve-without-begin", "s%d-s%d: pre-solve without begin", a.ID, b.ID)
		t.Check(!e.ignored, "presolve-ignored", "s%d-s%d: pre-solve of an ignored contact", a.ID, b.ID)
		t.Check(e.preStep != w.Steps, "presolve-twice", "s%d-s%d: second pre-solve in one step", a.ID, b.ID)
		t.Check(arb.IsFirstContact() == (e.begun == w.Steps), "first-flag", "s%d-s%d: first-contact flag %v in pre-solve, contact began %d steps ago", a.ID, b.ID, arb.IsFirstContact(), w.Steps-e.begun)
		t.Check(tok == e.token, "user-data", "s%d-s%d: user data lost in pre-solve", a.ID, b.ID)
		e.preStep, e.preRes = w.Steps, true
		if m.r.P(m.pIgnPre) {
			t.Ev("ignored_in_presolve")
			arb.Ignore()
			e.ignored, e.preRes = true, false
			return m.r.P(0.5)
		}
		if m.r.P(m.pPre) {
			t.Ev("refused_in_presolve")
			e.preRes = false
			return false
		}
	case 'o':
		// Contacts of an island that is woken during the step are solved with what they had.
		restored := m.was[a] && m.was[b] && (a.B.active() || b.B.active())
		if restored && e.preStep != w.Steps {
			t.Ev("restored_contacts")
		}
		t.Check(e.active && (e.preStep == w.Steps || restored) && e.preRes, "postsolve-unsolved", "s%d-s%d: post-solve of a contact that was not solved (active %v, pre-solve this step %v, accepted %v)",
			a.ID, b.ID, e.active, e.preStep == w.Steps, e.preRes)
		t.Check(!e.ignored, "postsolve-ignored", "s%d-s%d: post-solve of an ignored contact", a.ID, b.ID)
		t.Check(!a.Sensor && !b.Sensor || restored, "postsolve-sensor", "s%d-s%d: post-solve with a sensor", a.ID, b.ID)
		t.Check(a.B.Typ == cp.BODY_DYNAMIC || b.B.Typ == cp.BODY_DYNAMIC, "postsolve-immovable", "s%d-s%d: post-solve between bodies that cannot move", a.ID, b.ID)
		t.Check(e.post != w.Steps, "postsolve-twice", "s%d-s%d: second post-solve in one step", a.ID, b.ID)
		t.Check(tok == e.token, "user-data", "s%d-s%d: user data lost in post-solve", a.ID, b.ID)
		t.Check(arb.IsFirstContact() == (e.begun == w.Steps) || restored, "first-flag", "s%d-s%d: first-contact flag %v in post-solve, contact began %d steps ago", a.ID, b.ID, arb.IsFirstContact(), w.Steps-e.begun)
		e.post = w.Steps
		if m.r.P(m.pIgnPost) {
			t.Ev("ignored_in_postsolve")
			arb.Ignore()
			e.ignored = true
		}
	case 's':
		t.Check(e.active, "separate-without-begin", "s%d-s%d: separate without begin", a.ID, b.ID)
		t.Check(tok == e.token, "user-data", "s%d-s%d: user data lost in separate", a.ID, b.ID)
		if m.step {
			t.Check(e.preStep != w.Steps, "separate-in-contact", "s%d-s%d: separate in a step in which they touch", a.ID, b.ID)
			t.Check(a.In && b.In, "removed-shape", "separate of s%d-s%d during a step after one was removed", a.ID, b.ID)
		} else {
			t.Check(m.removing == a || m.removing == b, "separate-outside-step", "s%d-s%d: separate outside a step although neither is being removed", a.ID, b.ID)
			t.Ev("separated_by_removal")
		}
		e.active = false
		e.ignored = false
		m.ended = append(m.ended, e)
		t.Ev("episodes")
	}
	return true
}

// after judges every pair once the step is over.
func (m *lifeMonitor) after(shapes []*WShape) {
	t, w := m.t, m.w
	st := w.Steps - 1
	rs := map[*WShape]RS{}
	get := func(s *WShape) RS {
		if v, ok := rs[s]; ok {
			return v
		}
		rs[s] = rsOf(s.S)
		return rs[s]
	}
	for _, e := range m.ended {
		a, b := e.shapes[0], e.shapes[1]
		t.Check(!a.In || !b.In || !mayCollide(a, b) || pairTruth(get(a), get(b)) != -1, "separated-while-touching",
			"s%d-s%d still touch but their contact ended (resting before the step: %v %v)", a.ID, b.ID, m.was[a], m.was[b])
	}
	m.ended = m.ended[:0]
	for i, a := range shapes {
		for j := i + 1; j < len(shapes); j++ {
			b := shapes[j]
			if a.B == b.B {
				continue
			}
			k := key(a.ID, b.ID)
			e := m.eps[k]
			elig := !m.was[a] || !m.was[b]
			if !elig {
				if e != nil && e.active {
					t.Ev("resting_episodes")
				}
				continue
			}
			truth := 1
			if mayCollide(a, b) {
				truth = pairTruth(get(a), get(b))
			}
			switch truth {
			case -1:
				t.Check(e != nil && e.active, "separated-while-touching", "s%d-s%d touch but their contact is not between begin and separate", a.ID, b.ID)
				if !e.ignored || e.preStep == st {
					t.Check(e.preStep == st, "presolve-missing", "s%d-s%d touch and are not ignored but pre-solve did not run", a.ID, b.ID)
				}
			case 1:
				if e != nil && e.active && (m.was[a] || !a.B.active()) && (m.was[b] || !b.B.active()) {
					t.Ev("ended_falling_asleep") // told in the next step in which one of them is awake
				} else if e != nil && e.active {
					t.Failf("no-separate", "s%d-s%d no longer touch (or may not collide) but separate was not called (at rest before the step %v %v, now active %v %v, may collide %v, contact began in step %d, last pre-solve %d, now %d)", a.ID, b.ID,
						m.was[a], m.was[b], a.B.active(), b.B.active(), mayCollide(a, b), e.begun, e.preStep, st)
				}
			}
			if e != nil && e.preStep == st {
				solved := e.preRes && !a.Sensor && !b.Sensor && (a.B.Typ == cp.BODY_DYNAMIC || b.B.Typ == cp.BODY_DYNAMIC)
				if e.post != st && (a.B.B.IsSleeping() || b.B.B.IsSleeping()) {
					t.Ev("fell_asleep_unsolved") // bodies that fall asleep are not solved
					continue
				}
				t.Check((e.post == st) == solved, "postsolve-missing", "s%d-s%d: contact solved %v, post-solve called %v", a.ID, b.ID, solved, e.post == st)
			}
		}
	}
	// a removed pair must have been separated
	for k, e := range m.eps {
		if e.active && (!e.shapes[0].In || !e.shapes[1].In) {
			t.Failf("no-separate", "s%d-s%d: a shape was removed without separate", k.a, k.b)
		}
	}
	// only solved contacts take part in the contact graph
	for _, b := range w.Bodies {
		if b.B.IsSleeping() {
			continue
		}
		b.B.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			a, c := x.UserData.(*WShape), y.UserData.(*WShape)
			if a.B.B.IsSleeping() || c.B.B.IsSleeping() {
				return
			}
			e := m.eps[key(a.ID, c.ID)]
			t.Check(e != nil && e.active, "arbiter-inactive", "b%d lists a contact s%d-s%d that is not active", b.ID, a.ID, c.ID)
			t.Check(e.preStep != st || e.post == st, "arbiter-unsolved", "b%d lists the contact s%d-s%d that was not solved", b.ID, a.ID, c.ID)
		})
	}
}

func c04(t *T) {
	r := t.R
	c := genConf(r)
	c.Size, c.Arena = r.Range(1, 3), r.Range(5, 20)
	c.PSensor = r.Pick(0, 0.2, 0.4)
	w := newWorld(t, r, c)
	m := &lifeMonitor{t: t, w: w, r: newRand(t.Case, "decide"), eps: map[pairKey]*episode{}}
	if r.P(0.7) {
		m.pBegin, m.pPre = r.Pick(0, 0.1, 0.4), r.Pick(0, 0.1, 0.4)
		m.pIgnBegin, m.pIgnPre, m.pIgnPost = r.Pick(0, 0.1), r.Pick(0, 0.03), r.Pick(0, 0.03)
	}
	w.OnEv = m.on
	w.OnRemove = func(s *WShape) { m.removing = s }
	n := 60 + r.Intn(60)
	for i := 0; i < n; i++ {
		w.ops()
		shapes := append([]*WShape(nil), w.Shapes...)
		m.ended = m.ended[:0]
		m.was = map[*WShape]bool{}
		for _, s := range shapes {
			m.was[s] = !s.B.active()
		}
		m.step = true
		w.step(w.dt())
		m.step = false
		m.after(shapes)
	}
	t.EvN("sleeping_seen", w.sleeping())
	// tearing down ends every contact
	for len(w.Bodies) > 0 {
		w.removeBody(w.Bodies[r.Intn(len(w.Bodies))])
	}
	for k, e := range m.eps {
		t.Check(!e.active, "no-separate", "s%d-s%d: everything was removed without separate", k.a, k.b)
	}
	if t.ev["episodes"] > 0 {
		t.NonTrivial(t.Case, t.ev["episodes"])
	}
	t.Sample("%d steps: %d begin, %d pre, %d post, %d separate", n, t.ev["callback_b"], t.ev["callback_p"], t.ev["callback_o"], t.ev["callback_s"])
}

// c04free: bodies whose every contact is refused, ignored, sensed or both-immovable move as if alone.
func c04free(t *T) {
	r := t.R
	c := genConf(r)
	c.Size, c.Arena, c.PKin = r.Range(1, 3), r.Range(4, 12), r.Pick(0, 0.2)
	c.Sleep, c.Joints, c.MassShapes, c.NoKick = false, false, false, true
	c.NoRemove, c.Types, c.NoGravityChange, c.Reshape = true, false, true, false
	c.PSensor = 0.2
	w := newWorld(t, r, c)
	mode := map[pairKey]int{}
	mr := newRand(t.Case, "mode")
	w.OnEv = func(kind byte, arb *cp.Arbiter, _ *cp.CollisionHandler) bool {
		a, b := arb.Shapes()
		k := key(a.UserData.(*WShape).ID, b.UserData.(*WShape).ID)
		if _, ok := mode[k]; !ok {
			mode[k] = mr.Intn(4)
		}
		t.Check(kind != 'o', "postsolve-unsolved", "post-solve of a suppressed contact s%d-s%d", k.a, k.b)
		switch {
		case kind == 'b' && mode[k] == 0:
			return false
		case kind == 'b' && mode[k] == 1:
			arb.Ignore()
			return true
		case kind == 'p' && mode[k] == 2:
			t.Ev("suppressed_presolve")
			return false
		case kind == 'p':
			arb.Ignore()
			return mr.P(0.5)
		}
		if kind == 'b' {
			t.Ev("suppressed_begin")
		}
		return true
	}
	solo := soloWorlds(w)
	for i := 0; i < 40; i++ {
		dt := w.dt()
		w.step(dt)
		solo.step(dt)
		solo.compare(t, "in a space where every contact is suppressed")
	}
	if t.ev["suppressed_begin"] > 0 {
		t.NonTrivial(t.Case, t.ev["suppressed_begin"])
	}
}

// solos: for each body a space with nothing else in it.
type solos struct {
	b  []*WBody
	sp []*cp.Space
	s  []*cp.Body
}

func soloWorlds(w *World) *solos {
	o := &solos{}
	for _, b := range w.Bodies {
		if b.Typ == cp.BODY_STATIC {
			continue
		}
		sp := cp.NewSpace()
		sp.Iterations = w.Sp.Iterations
		sp.SetGravity(w.Sp.Gravity())
		sp.SetDamping(w.Sp.Damping())
		var n *cp.Body
		if b.Typ == cp.BODY_KINEMATIC {
			n = cp.NewKinematicBody()
		} else {
			n = cp.NewBody(b.B.Mass(), b.B.Moment())
		}
		n.SetPosition(b.B.Position())
		n.SetAngle(b.B.Angle())
		n.SetVelocityVector(b.B.Velocity())
		n.SetAngularVelocity(b.B.AngularVelocity())
		n.SetForce(b.B.Force())
		n.SetTorque(b.B.Torque())
		sp.AddBody(n)
		o.b, o.sp, o.s = append(o.b, b), append(o.sp, sp), append(o.s, n)
	}
	return o
}

func (o *solos) step(dt float64) {
	for _, sp := range o.sp {
		sp.Step(dt)
	}
}

func (o *solos) compare(t *T, when string) {
	for i, b := range o.b {
		x, y := b.B, o.s[i]
		t.Check(x.Position() == y.Position() && x.Angle() == y.Angle() && x.Velocity() == y.Velocity() && x.AngularVelocity() == y.AngularVelocity(),
			"motion-changed", "b%d %s: position %s angle %.17g velocity %s %.17g, alone %s %.17g %s %.17g", b.ID, when,
			fv(x.Position()), x.Angle(), fv(x.Velocity()), x.AngularVelocity(), fv(y.Position()), y.Angle(), fv(y.Velocity()), y.AngularVelocity())
		t.Ev("solo_comparisons")
	}
}

func init() {
	register(&Prop{
		ID:        "C04",
		Technique: "runtime monitoring: an online life-cycle automaton per shape pair over recorded collision callbacks, cross-checked each step against independent geometry, with randomly refusing and ignoring callbacks",
		Rule:      "a case counts when at least one complete contact episode (or suppressed contact) was observed",
		Loads: []Load{
			{"histories", 12000, 50000, c04},
			{"suppressed", 2400, 8000, c04free},
		},
		Need: map[string]int64{"callback_b": 20000, "callback_p": 100000, "callback_o": 50000, "callback_s": 20000, "separated_by_removal": 2000,
			"refused_in_begin": 1000, "refused_in_presolve": 2000, "ignored_in_begin": 300, "ignored_in_presolve": 300, "ignored_in_postsolve": 200,
			"resting_episodes": 2000, "suppressed_begin": 1000},
	})
}
