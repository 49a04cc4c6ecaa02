package main

// The scene engine: a random but reproducible history of calls on a cp.Space, together with a model of what was
// called. Monitors compare the space against the model. The choice of calls never depends on the library's results
// in a way that differs between two equal runs, so two worlds with the same seed make exactly the same calls.

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

type WBody struct {
	ID         int
	B          *cp.Body
	Typ        int
	In         bool
	Shapes     []*WShape
	Cons       []*WCon
	Mass, Mom  float64
	massShapes bool // mass comes from the shapes
	twin       *WBody // put exactly onto this one, with a shape like one of its
	dirty      bool // moved since the last step or reindex
}

type WShape struct {
	ID     int
	S      *cp.Shape
	L      LShape
	B      *WBody
	Filter cp.ShapeFilter
	Sensor bool
	Ctype  cp.CollisionType
	In     bool
}

type WCon struct {
	ID      int
	C       *cp.Constraint
	A, B    *WBody
	Kind    string
	Collide bool
	In      bool
}

type pairKey struct{ a, b int }

func key(a, b int) pairKey {
	if a > b {
		a, b = b, a
	}
	return pairKey{a, b}
}

// Event is one observed collision callback.
type Event struct {
	Kind byte // 'b' begin, 'p' pre-solve, 'o' post-solve, 's' separate
	K    pairKey
	A, B int // in the order the arbiter reports
}

type SConf struct {
	N                     int // bodies aimed for
	Arena, Size           float64
	Sleep                 bool
	Hash                  int // 0 tree, 1 spatial hash from the start, 2 switched to later
	Gravity               bool
	PKin, PStatic         float64
	PSensor, PFilter      float64
	Joints                bool
	Types                 bool // change body types
	Reshape               bool
	Degenerate            bool
	Sharp                 bool
	Ctypes                int
	Speed                 float64
	MassShapes            bool
	Springs               bool // allow springs (they add energy)
	NoKick                bool // no impulses, velocities or teleports
	Handlers              bool
	Friction, Elasticity  float64
	Kinds                 string
	Offset                float64
	MaxShapes             int
	Filters               []cp.ShapeFilter
	NoRemove              bool
	NoGravityChange       bool
	JointKinds            []string
	SlowMoves             bool
	QuietBias             float64 // probability of a quiet phase (no ops)
	NoSpecialFilterChange bool
	NoCtypeChange         bool
	CtypeVals             []cp.CollisionType
	Wild                  bool // wildcard handlers, and not every pair has a handler of its own
	Hostile               bool // legal but extreme shapes, masses and places
	Far                   float64
}

func genConf(r *Rand) SConf {
	c := SConf{
		N: 3 + r.Intn(14), Arena: r.LogRange(8, 60), Size: r.LogRange(1, 6),
		Sleep: r.P(0.6), Gravity: r.P(0.5), PKin: r.Pick(0, 0.1, 0.3), PStatic: r.Pick(0.1, 0.2, 0.4),
		PSensor: r.Pick(0, 0.1, 0.3), PFilter: r.Pick(0, 0.2, 0.5), Joints: r.P(0.6), Types: r.P(0.4), Reshape: r.P(0.4),
		Degenerate: r.P(0.3), Sharp: r.P(0.7), Ctypes: 1 + r.Intn(4), Speed: r.LogRange(1, 60), MassShapes: r.P(0.4),
		Springs: true, Handlers: true, Friction: r.Pick(0, 0.5, 1), Elasticity: r.Pick(0, 0, 0.5), Offset: r.Pick(0, 2),
		MaxShapes: 1 + r.Intn(3), QuietBias: r.Pick(0.2, 0.6),
	}
	if r.P(0.5) {
		c.Hash = 1 + r.Intn(2)
	}
	return c
}

// multitude is the configuration of a scene with hundreds of bodies.
func multitude(r *Rand) SConf {
	c := genConf(r)
	c.N = 200 + r.Intn(400)
	c.Size = r.Range(0.5, 2)
	c.Arena = c.Size * math.Sqrt(float64(c.N)) * r.Range(1, 2.5)
	c.MaxShapes = 1 + r.Intn(4)
	return c
}

type World struct {
	T         *T
	R         *Rand
	C         SConf
	Sp        *cp.Space
	Bodies    []*WBody
	Shapes    []*WShape
	Cons      []*WCon
	Static    *WBody // the space's own static body
	Log       []Event
	OnEv      func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool
	nextID    int
	Steps     int
	oldStatic *cp.Body  // a static body of the space that was replaced
	goneS     []*WShape // removed, to be put back now and then
	goneC     []*WCon
	OnHash    bool
	CellDim   float64
	quiet     int
	Trace     bool
	OnRemove  func(s *WShape) // before (with the shape) and after (nil) a removal
	OnType    func(b *WBody, was pose)
	lastOp    string
	hook      func(op string) // after every call between steps

	broughtBack bool
	inStep      bool
	qdepth      int // nesting of queries made by callbacks
}

func newWorld(t *T, r *Rand, c SConf) *World {
	w := &World{T: t, R: r, C: c, Sp: cp.NewSpace(), Trace: true}
	w.Sp.Iterations = uint(1 + r.Intn(12))
	if c.Gravity {
		w.Sp.SetGravity(V{Y: -r.LogRange(1, 200)})
	}
	if r.P(0.3) {
		w.Sp.SetDamping(r.Range(0.3, 1))
	}
	if r.P(0.3) {
		w.Sp.SetCollisionSlop(r.LogRange(0.001, 0.5))
	}
	if c.Sleep {
		w.Sp.SleepTimeThreshold = r.Pick(0.05, 0.2, 0.5)
		if r.P(0.7) {
			w.Sp.IdleSpeedThreshold = r.LogRange(0.5, 30)
		}
	}
	if c.Hash == 1 {
		w.useHash()
	}
	if r.P(0.2) {
		w.oldStatic = w.Sp.StaticBody
		w.Sp.SetStaticBody(cp.NewStaticBody())
	}
	w.Static = &WBody{ID: w.id(), B: w.Sp.StaticBody, Typ: cp.BODY_STATIC, In: false}
	w.Sp.StaticBody.UserData = w.Static
	if c.Handlers {
		w.handlers()
	}
	for i := 0; i < c.N; i++ {
		w.addBody()
	}
	return w
}

func (w *World) id() int { w.nextID++; return w.nextID }

func (w *World) logf(f string, a ...interface{}) {
	if w.Trace {
		w.T.Logf("[%d] "+f, append([]interface{}{w.Steps}, a...)...)
	}
}

func (w *World) useHash() {
	d, n := w.C.Size*w.R.LogRange(0.5, 6), 1+w.R.Intn(400)
	w.Sp.UseSpatialHash(d, n)
	w.OnHash, w.CellDim = true, d
	w.logf("UseSpatialHash(%g, %d)", d, n)
}

func (w *World) handlers() {
	for i := 0; i < w.C.Ctypes; i++ {
		for j := i; j < w.C.Ctypes; j++ {
			a, b := cp.CollisionType(i), cp.CollisionType(j)
			if w.R.P(0.5) {
				a, b = b, a
			}
			if w.C.Wild && w.R.P(0.6) {
				continue
			}
			h := w.Sp.NewCollisionHandler(a, b)
			h.BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { return w.event('b', arb, h) }
			h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { return w.event('p', arb, h) }
			h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { w.event('o', arb, h) }
			h.SeparateFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { w.event('s', arb, h) }
		}
		if w.C.Wild && w.R.P(0.8) {
			h := w.Sp.NewWildcardCollisionHandler(cp.CollisionType(i))
			h.BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { return w.event('b', arb, h) }
			h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { return w.event('p', arb, h) }
			h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { w.event('o', arb, h) }
			h.SeparateFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { w.event('s', arb, h) }
		}
	}
}

func (w *World) event(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
	a, b := arb.Shapes()
	x, y := a.UserData.(*WShape), b.UserData.(*WShape)
	w.Log = append(w.Log, Event{kind, key(x.ID, y.ID), x.ID, y.ID})
	if w.OnEv != nil {
		return w.OnEv(kind, arb, h)
	}
	return true
}

func (w *World) pos() V {
	a := w.C.Arena
	if w.C.Hostile {
		switch u := w.R.F(); {
		case u < 0.25 && len(w.Bodies) > 0:
			return w.Bodies[w.R.Intn(len(w.Bodies))].B.Position()
		case u < 0.3:
			return V{}
		case u < 0.32:
			f := w.R.LogRange(1, 1e7)
			return V{X: w.R.Range(-f, f), Y: w.R.Range(-f, f)}
		}
	}
	if w.R.P(0.3) { // grid positions make exact touching and shared bins likely
		g := math.Max(1, math.Round(w.C.Size))
		return V{X: math.Round(w.R.Range(-a, a)/g) * g, Y: math.Round(w.R.Range(-a, a)/g) * g}
	}
	return V{X: w.R.Range(-a, a), Y: w.R.Range(-a, a)}
}

func (w *World) vel() V {
	if w.R.P(0.3) {
		return V{}
	}
	s := w.C.Speed
	return V{X: w.R.Range(-s, s), Y: w.R.Range(-s, s)}
}

func (w *World) genMass(b *WBody) {
	b.Mass = w.R.LogRange(0.2, 20)
	b.Mom = b.Mass * w.C.Size * w.C.Size * w.R.LogRange(0.2, 2)
	if w.R.P(0.06) { // does not turn
		b.Mom = w.R.Pick(cp.INFINITY, math.Inf(1))
	}
	if w.C.Hostile {
		b.Mass = w.R.LogRange(1e-6, 1e9)
		b.Mom = b.Mass * w.C.Size * w.C.Size * w.R.LogRange(1e-3, 1e3)
		if w.R.P(0.15) {
			b.Mom = w.R.Pick(cp.INFINITY, math.Inf(1))
		}
	}
}

// movable: a joint to it can be solved.
func (b *WBody) movable() bool {
	return b.Typ == cp.BODY_DYNAMIC && (b.massShapes || b.Mass < 1e300 && b.Mom < 1e300)
}

func (w *World) addBody() *WBody {
	r := w.R
	b := &WBody{ID: w.id(), In: true}
	switch u := r.F(); {
	case u < w.C.PKin:
		b.Typ, b.B = cp.BODY_KINEMATIC, cp.NewKinematicBody()
	case u < w.C.PKin+w.C.PStatic:
		b.Typ, b.B = cp.BODY_STATIC, cp.NewStaticBody()
	default:
		b.Typ = cp.BODY_DYNAMIC
		w.genMass(b)
		b.B = cp.NewBody(b.Mass, b.Mom)
	}
	w.genMass(b)
	b.massShapes = w.C.MassShapes && r.P(0.4)
	if b.Typ == cp.BODY_DYNAMIC {
		b.B.SetMass(b.Mass)
		b.B.SetMoment(b.Mom)
	}
	b.B.UserData = b
	if len(w.Bodies) > 0 && r.P(0.05) {
		b.twin = w.Bodies[r.Intn(len(w.Bodies))]
	}
	if b.twin != nil {
		b.B.SetPosition(b.twin.B.Position())
		b.B.SetAngle(b.twin.B.Angle())
	} else {
		b.B.SetPosition(w.pos())
		b.B.SetAngle(genAngle(r))
	}
	if b.Typ != cp.BODY_STATIC {
		b.B.SetVelocityVector(w.vel())
		b.B.SetAngularVelocity(r.Range(-1, 1) * w.C.Speed / 10)
	}
	w.Sp.AddBody(b.B)
	w.Bodies = append(w.Bodies, b)
	w.logf("AddBody b%d type %d at %s angle %.17g v %s", b.ID, b.Typ, fv(b.B.Position()), b.B.Angle(), fv(b.B.Velocity()))
	n := 1 + r.Intn(w.C.MaxShapes)
	if !b.massShapes && r.P(0.05) {
		n = 0
	}
	for i := 0; i < n; i++ {
		w.addShape(b)
	}
	return b
}

func (w *World) genFilter() cp.ShapeFilter {
	r := w.R
	if w.C.Filters != nil {
		return w.C.Filters[r.Intn(len(w.C.Filters))]
	}
	if !r.P(w.C.PFilter) {
		return cp.SHAPE_FILTER_ALL
	}
	switch r.Intn(4) {
	case 0:
		return cp.NewShapeFilter(uint(1+r.Intn(3)), cp.ALL_CATEGORIES, cp.ALL_CATEGORIES)
	case 1:
		return cp.NewShapeFilter(0, 1<<uint(r.Intn(3)), uint(r.Intn(8)))
	case 2:
		return cp.NewShapeFilter(uint(r.Intn(3)), uint(r.Intn(8)), cp.ALL_CATEGORIES)
	}
	return cp.NewShapeFilter(uint(r.Intn(3)), uint(r.Intn(8)), uint(r.Intn(8)))
}

func (w *World) shapeGen() shapeGen {
	return shapeGen{size: w.C.Size, offset: w.C.Offset, degenerate: w.C.Degenerate, sharp: w.C.Sharp, kinds: w.C.Kinds, maxVerts: 7}
}

func (w *World) addShape(b *WBody) *WShape {
	r := w.R
	l := genShape(r, w.shapeGen())
	if w.C.Hostile && !b.massShapes && r.P(0.7) { // a point has no moment
		l = hostileShape(r, w.C.Size)
	}
	if b.twin != nil && len(b.twin.Shapes) > 0 && len(b.Shapes) == 0 && !b.massShapes {
		l = b.twin.Shapes[r.Intn(len(b.twin.Shapes))].L
		l.P = append([]V(nil), l.P...)
	}
	s := &WShape{ID: w.id(), L: l, B: b, Filter: w.genFilter(), Sensor: r.P(w.C.PSensor), In: true}
	s.Ctype = cp.CollisionType(r.Intn(w.C.Ctypes))
	if w.C.CtypeVals != nil {
		s.Ctype = w.C.CtypeVals[s.Ctype]
	}
	s.S = s.L.build(b.B)
	s.S.UserData = s
	s.S.SetFilter(s.Filter)
	s.S.SetSensor(s.Sensor)
	s.S.SetCollisionType(s.Ctype)
	s.S.SetFriction(w.C.Friction * r.F())
	s.S.SetElasticity(w.C.Elasticity * r.F())
	if b.massShapes {
		s.S.SetMass(r.LogRange(0.5, 5))
	}
	w.Sp.AddShape(s.S)
	b.Shapes = append(b.Shapes, s)
	w.Shapes = append(w.Shapes, s)
	w.logf("AddShape s%d to b%d %c %s r=%.17g sensor=%v ctype=%d filter=%v", s.ID, b.ID, s.L.Kind, fvs(s.L.P), s.L.R, s.Sensor, s.Ctype, s.Filter)
	return s
}

func (w *World) removeShape(s *WShape) {
	w.logf("RemoveShape s%d", s.ID)
	if w.OnRemove != nil {
		w.OnRemove(s)
	}
	w.Sp.RemoveShape(s.S)
	if w.OnRemove != nil {
		w.OnRemove(nil)
	}
	w.forgetShape(s)
}

// readd puts a shape or a joint back that was removed before.
func (w *World) readd() string {
	r := w.R
	if len(w.goneS) > 0 && r.P(0.6) {
		i := r.Intn(len(w.goneS))
		s := w.goneS[i]
		w.goneS = append(w.goneS[:i:i], w.goneS[i+1:]...)
		if s.In || !s.B.In || len(s.B.Shapes) > 5 {
			return ""
		}
		s.In = true
		w.Sp.AddShape(s.S)
		s.B.Shapes = append(s.B.Shapes, s)
		w.Shapes = append(w.Shapes, s)
		w.logf("AddShape s%d to b%d again", s.ID, s.B.ID)
		return "readd-shape"
	}
	if len(w.goneC) > 0 {
		i := r.Intn(len(w.goneC))
		c := w.goneC[i]
		w.goneC = append(w.goneC[:i:i], w.goneC[i+1:]...)
		if c.In || !(c.A.In || c.A == w.Static) || !(c.B.In || c.B == w.Static) || (!c.A.movable() && !c.B.movable()) {
			return ""
		}
		c.In = true
		w.putJoint(c)
		return "readd-joint"
	}
	return ""
}

func (w *World) forgetShape(s *WShape) {
	s.In = false
	w.goneS = append(w.goneS, s)
	if len(w.goneS) > 6 {
		w.goneS = w.goneS[1:]
	}
	for i, x := range s.B.Shapes {
		if x == s {
			s.B.Shapes = append(s.B.Shapes[:i:i], s.B.Shapes[i+1:]...)
			break
		}
	}
	for i, x := range w.Shapes {
		if x == s {
			w.Shapes = append(w.Shapes[:i:i], w.Shapes[i+1:]...)
			break
		}
	}
}

func (w *World) removeCon(c *WCon) {
	w.logf("RemoveConstraint c%d", c.ID)
	w.Sp.RemoveConstraint(c.C)
	w.forgetCon(c)
}

func (w *World) forgetCon(c *WCon) {
	c.In = false
	w.goneC = append(w.goneC, c)
	if len(w.goneC) > 6 {
		w.goneC = w.goneC[1:]
	}
	for _, b := range []*WBody{c.A, c.B} {
		for i, x := range b.Cons {
			if x == c {
				b.Cons = append(b.Cons[:i:i], b.Cons[i+1:]...)
				break
			}
		}
	}
	for i, x := range w.Cons {
		if x == c {
			w.Cons = append(w.Cons[:i:i], w.Cons[i+1:]...)
			break
		}
	}
}

func (w *World) removeBody(b *WBody) {
	for len(b.Cons) > 0 {
		w.removeCon(b.Cons[0])
	}
	for len(b.Shapes) > 0 {
		w.removeShape(b.Shapes[w.R.Intn(len(b.Shapes))])
	}
	w.logf("RemoveBody b%d", b.ID)
	w.Sp.RemoveBody(b.B)
	w.forgetBody(b)
}

func (w *World) forgetBody(b *WBody) {
	b.In = false
	for i, x := range w.Bodies {
		if x == b {
			w.Bodies = append(w.Bodies[:i:i], w.Bodies[i+1:]...)
			break
		}
	}
}

var allJoints = []string{"pin", "slide", "pivot", "pivot2", "groove", "spring", "rotspring", "limit", "ratchet", "gear", "motor"}

// makeJoint builds a joint that is satisfied, or nearly so, where the bodies are now.
func makeJoint(r *Rand, kind string, a, b *cp.Body, size float64) *cp.Constraint {
	rv := func() V { return V{X: r.Range(-1, 1) * size, Y: r.Range(-1, 1) * size} }
	rel := b.Angle() - a.Angle()
	switch kind {
	case "pin":
		x, y := rv(), rv()
		if vdist(a.LocalToWorld(x), b.LocalToWorld(y)) < 0.05*size {
			y = vadd(y, V{X: size})
		}
		return cp.NewPinJoint(a, b, x, y)
	case "slide":
		x, y := rv(), rv()
		d := vdist(a.LocalToWorld(x), b.LocalToWorld(y))
		return cp.NewSlideJoint(a, b, x, y, d*r.Range(0, 0.9), d*r.Range(1.1, 2)+0.1)
	case "pivot":
		return cp.NewPivotJoint(a, b, vmul(vadd(a.Position(), b.Position()), 0.5))
	case "pivot2":
		p := vmul(vadd(a.Position(), b.Position()), 0.5)
		return cp.NewPivotJoint2(a, b, a.WorldToLocal(p), b.WorldToLocal(p))
	case "groove":
		p := b.LocalToWorld(V{})
		d := vrot(V{X: size}, r.Range(0, 7))
		return cp.NewGrooveJoint(a, b, a.WorldToLocal(vsub(p, d)), a.WorldToLocal(vadd(p, d)), V{})
	case "spring":
		x, y := rv(), rv()
		return cp.NewDampedSpring(a, b, x, y, vdist(a.LocalToWorld(x), b.LocalToWorld(y))*r.Range(0.8, 1.2), r.LogRange(0.1, 20), r.LogRange(0.1, 5))
	case "rotspring":
		return cp.NewDampedRotarySpring(a, b, rel+r.Range(-0.3, 0.3), r.LogRange(0.1, 20)*size*size, r.LogRange(0.1, 5)*size*size)
	case "limit":
		return cp.NewRotaryLimitJoint(a, b, rel-r.Range(0, 1), rel+r.Range(0, 1))
	case "ratchet":
		return cp.NewRatchetJoint(a, b, r.Range(-1, 1), r.Sign()*r.Range(0.2, 1))
	case "gear":
		ratio := r.Sign() * r.Range(0.5, 2)
		return cp.NewGearJoint(a, b, b.Angle()*ratio-a.Angle(), ratio)
	case "motor":
		return cp.NewSimpleMotor(a, b, r.Range(-3, 3))
	}
	panic(kind)
}

func (w *World) addJoint() {
	r := w.R
	if len(w.Bodies) < 2 {
		return
	}
	a := w.Bodies[r.Intn(len(w.Bodies))]
	if r.P(0.15) {
		a = w.Static
	}
	b := w.Bodies[r.Intn(len(w.Bodies))]
	if a == b || (!a.movable() && !b.movable()) {
		return
	}
	if w.C.Far > 0 && vdist(a.B.Position(), b.B.Position()) > 200 {
		// no digits are left of the motion of what hangs on an arm that long
		return
	}
	if r.P(0.5) {
		a, b = b, a
	}
	kinds := allJoints
	if w.C.JointKinds != nil {
		kinds = w.C.JointKinds
	}
	kind := kinds[r.Intn(len(kinds))]
	c := &WCon{ID: w.id(), A: a, B: b, Kind: kind, Collide: true, In: true}
	c.C = makeJoint(r, kind, a.B, b.B, w.C.Size)
	if r.P(0.4) {
		c.C.SetMaxForce(r.Pick(r.LogRange(10, 1e5), r.LogRange(10, 1e5), r.LogRange(10, 1e5), 0))
	}
	if r.P(0.2) {
		c.C.SetMaxBias(r.LogRange(0.1, 100))
	}
	if r.P(0.3) {
		c.Collide = false
		c.C.SetCollideBodies(false)
	}
	w.putJoint(c)
}

func (w *World) putJoint(c *WCon) {
	c.C.UserData = c
	w.Sp.AddConstraint(c.C)
	c.A.Cons = append(c.A.Cons, c)
	c.B.Cons = append(c.B.Cons, c)
	w.Cons = append(w.Cons, c)
	w.logf("AddConstraint c%d %s b%d b%d collide=%v", c.ID, c.Kind, c.A.ID, c.B.ID, c.Collide)
}

// moved notes that the shapes of b may be out of date until the next step or reindex.
func (w *World) moved(b *WBody) { b.dirty = true }

func (w *World) reindex(b *WBody) {
	for _, s := range b.Shapes {
		w.Sp.ReindexShape(s.S)
	}
	b.dirty = false
}

// settle brings the spatial index up to date with every body moved since the last step.
func (w *World) settle() {
	for _, b := range w.Bodies {
		if b.dirty {
			w.reindex(b)
			w.logf("ReindexShape of all shapes of b%d", b.ID)
		}
	}
}

func (w *World) setType(b *WBody, typ int) {
	// A joint between two bodies neither of which can move is not solvable.
	if typ != cp.BODY_DYNAMIC {
		for _, c := range append([]*WCon(nil), b.Cons...) {
			o := c.A
			if o == b {
				o = c.B
			}
			if !o.movable() {
				w.removeCon(c)
			}
		}
	}
	w.logf("SetType b%d %d -> %d", b.ID, b.Typ, typ)
	was, old := poseOf(b.B), b.Typ
	b.B.SetType(typ)
	b.Typ = typ
	if w.OnType != nil && typ != old {
		w.OnType(b, was)
	}
	if typ == cp.BODY_DYNAMIC && !(b.massShapes && len(b.Shapes) > 0) {
		b.B.SetMass(b.Mass)
		b.B.SetMoment(b.Mom)
	}
	w.moved(b)
}

func (w *World) reshape(s *WShape) {
	r := w.R
	l := genShape(r, shapeGen{size: w.C.Size, offset: w.C.Offset, sharp: w.C.Sharp, kinds: string(s.L.Kind), maxVerts: 7})
	s.B.B.Activate() // mutating a shape is documented as unsafe on sleeping bodies
	switch c := s.S.Class.(type) {
	case *cp.Circle:
		c.SetRadius(l.R)
		s.L.R = l.R
	case *cp.Segment:
		if r.P(0.5) {
			c.SetEndpoints(l.P[0], l.P[1])
			s.L.P = l.P
		} else if s.L.P[0] != s.L.P[1] {
			c.SetRadius(l.R)
			s.L.R = l.R
		}
	case *cp.PolyShape:
		if r.P(0.6) {
			c.SetVerts(len(l.P), append([]V(nil), l.P...))
			s.L.P = l.P
		} else {
			c.SetRadius(l.R)
			s.L.R = l.R
		}
	}
	if s.B.massShapes {
		s.S.SetMass(s.S.Mass()) // bodies built from shapes follow the new figure
	}
	w.logf("reshape s%d to %s r=%.17g", s.ID, fvs(s.L.P), s.L.R)
	w.moved(s.B)
}

// op performs one random call or small group of calls between steps and names it.
func (w *World) op() string {
	r := w.R
	pickBody := func() *WBody {
		if len(w.Bodies) == 0 {
			return nil
		}
		return w.Bodies[r.Intn(len(w.Bodies))]
	}
	pickShape := func() *WShape {
		if len(w.Shapes) == 0 {
			return nil
		}
		return w.Shapes[r.Intn(len(w.Shapes))]
	}
	name := ""
	switch k := r.Intn(27); k {
	case 0, 1:
		if len(w.Bodies) < w.C.N+6 {
			w.addBody()
			name = "add-body"
		}
	case 2:
		if b := pickBody(); b != nil && len(w.Bodies) > 2 && !w.C.NoRemove {
			w.removeBody(b)
			name = "remove-body"
		}
	case 3:
		if b := pickBody(); b != nil && len(b.Shapes) < 5 {
			w.addShape(b)
			name = "add-shape"
		}
	case 4, 5:
		if s := pickShape(); s != nil && !w.C.NoRemove && !(s.B.massShapes && len(s.B.Shapes) == 1) {
			w.removeShape(s)
			name = "remove-shape"
		}
	case 6, 7:
		if w.C.Joints {
			w.addJoint()
			name = "add-joint"
		}
	case 8:
		if len(w.Cons) > 0 && !w.C.NoRemove {
			w.removeCon(w.Cons[r.Intn(len(w.Cons))])
			name = "remove-joint"
		}
	case 9, 10:
		if b := pickBody(); b != nil && !w.C.NoKick {
			p := w.pos()
			if w.C.SlowMoves || r.P(0.3) {
				p = vadd(b.B.Position(), vmul(w.vel(), 0.1))
			}
			b.B.SetPosition(p)
			w.logf("SetPosition b%d %s", b.ID, fv(p))
			w.moved(b)
			name = "set-position"
		}
	case 11:
		if b := pickBody(); b != nil && !w.C.NoKick {
			a := genAngle(r)
			b.B.SetAngle(a)
			w.logf("SetAngle b%d %.17g", b.ID, a)
			w.moved(b)
			name = "set-angle"
		}
	case 12, 13:
		if b := pickBody(); b != nil && b.Typ != cp.BODY_STATIC && !w.C.NoKick {
			b.B.SetVelocityVector(w.vel())
			b.B.SetAngularVelocity(r.Range(-2, 2))
			w.logf("SetVelocity b%d %s w %.17g", b.ID, fv(b.B.Velocity()), b.B.AngularVelocity())
			name = "set-velocity"
		}
	case 14:
		if b := pickBody(); b != nil && b.Typ == cp.BODY_DYNAMIC && !w.C.NoKick {
			b.B.ApplyImpulseAtLocalPoint(vmul(w.vel(), math.Min(b.Mass, 1e9)), V{X: r.Range(-1, 1), Y: r.Range(-1, 1)})
			w.logf("impulse b%d", b.ID)
			name = "impulse"
		}
	case 15:
		if b := pickBody(); b != nil && w.C.Types {
			w.setType(b, []int{cp.BODY_DYNAMIC, cp.BODY_KINEMATIC, cp.BODY_STATIC}[r.Intn(3)])
			name = "set-type"
		}
	case 16:
		if s := pickShape(); s != nil && w.C.PFilter > 0 {
			s.Filter = w.genFilter()
			s.S.SetFilter(s.Filter)
			w.logf("SetFilter s%d %v", s.ID, s.Filter)
			name = "set-filter"
		}
	case 17:
		if s := pickShape(); s != nil && w.C.PSensor > 0 {
			s.Sensor = !s.Sensor
			s.S.SetSensor(s.Sensor)
			w.logf("SetSensor s%d %v", s.ID, s.Sensor)
			name = "set-sensor"
		}
	case 18:
		if len(w.Cons) > 0 {
			c := w.Cons[r.Intn(len(w.Cons))]
			c.Collide = !c.Collide
			c.C.SetCollideBodies(c.Collide)
			w.logf("SetCollideBodies c%d %v", c.ID, c.Collide)
			name = "collide-bodies"
		}
	case 19:
		if r.P(0.3) && !w.C.NoGravityChange {
			g := V{X: r.Range(-10, 10), Y: r.Range(-100, 20)}
			if r.P(0.3) { // as strong as before
				g = w.Sp.Gravity()
				if r.P(0.5) {
					g = V{X: g.Y, Y: -g.X}
				} else {
					g = vmul(g, -1)
				}
			}
			w.Sp.SetGravity(g)
			w.logf("SetGravity %s", fv(g))
			name = "set-gravity"
		}
	case 20:
		if w.C.Hash == 2 && !w.OnHash && r.P(0.5) {
			w.settle()
			w.useHash()
			name = "use-hash"
		}
	case 21:
		if b := pickBody(); b != nil && w.C.Reshape && len(b.Shapes) > 0 {
			w.reshape(b.Shapes[r.Intn(len(b.Shapes))])
			name = "reshape"
		}
	case 22:
		if b := pickBody(); b != nil {
			w.reindex(b)
			w.logf("reindex b%d", b.ID)
			name = "reindex"
		}
	case 23:
		if b := pickBody(); b != nil {
			if b.Typ == cp.BODY_STATIC {
				b.B.ActivateStatic(nil)
			} else {
				b.B.Activate()
			}
			w.logf("Activate b%d", b.ID)
			name = "activate"
		}
	case 24:
		if s := pickShape(); s != nil && !w.C.NoCtypeChange {
			s.Ctype = cp.CollisionType(r.Intn(w.C.Ctypes))
			s.S.SetCollisionType(s.Ctype)
			w.logf("SetCollisionType s%d %d", s.ID, s.Ctype)
			name = "set-ctype"
		}
	case 25:
		name = w.readd()
	default:
		if b := pickBody(); b != nil && b.Typ != cp.BODY_STATIC && !w.C.NoKick {
			f := vmul(w.vel(), 10)
			b.B.SetForce(f)
			b.B.SetTorque(r.Range(-10, 10))
			w.logf("SetForce b%d", b.ID)
			name = "set-force"
		}
	}
	if name != "" {
		w.T.Ev("op_" + name)
		w.lastOp = name
		if w.hook != nil {
			w.hook(name)
		}
	}
	return name
}

// ops performs the calls between two steps; now and then the scene is left alone for a while so that it can rest.
func (w *World) ops() {
	if w.quiet > 0 {
		w.quiet--
		return
	}
	if w.R.P(w.C.QuietBias * 0.2) {
		w.quiet = w.R.Intn(40)
		if w.R.P(0.5) { // bring everything to rest
			for _, b := range w.Bodies {
				if b.Typ != cp.BODY_STATIC {
					b.B.SetVelocity(0, 0)
					b.B.SetAngularVelocity(0)
				}
			}
			w.logf("everything stopped")
		}
	}
	for n := w.R.Intn(4); n > 0; n-- {
		w.op()
	}
	w.together()
}

// together brings back what has left the scene.
func (w *World) together() {
	far := 8 * w.C.Arena
	if w.C.Far > 0 {
		far = w.C.Far
	}
	for _, b := range w.Bodies {
		if p := b.B.Position(); vlen(p) > far || vlen(b.B.Velocity()) > 1e4 || math.Abs(b.B.AngularVelocity()) > 1e3 || math.Abs(b.B.Angle()) > 1e4 {
			b.B.SetPosition(w.pos())
			b.B.SetAngle(0)
			if b.Typ != cp.BODY_STATIC {
				b.B.SetVelocity(0, 0)
				b.B.SetAngularVelocity(0)
			}
			w.moved(b)
			w.broughtBack = true
			w.logf("bring back b%d to %s", b.ID, fv(b.B.Position()))
		}
	}
}

// ease gives bodies that reach much farther than their moment says a larger one, and takes their friction off: at the end of a lever like that,
// friction pushes the lever onto the surface it drags along, and what both do grows with every turn of the solver.
func (w *World) ease() {
	for _, b := range w.Bodies {
		I, m := b.B.Moment(), b.B.Mass()
		if b.Typ != cp.BODY_DYNAMIC || !(I < cp.INFINITY) {
			continue
		}
		reach := 0.0
		for _, s := range b.Shapes {
			if s.S.Friction() > 1 {
				s.S.SetFriction(1)
			}
			for _, p := range s.L.P {
				reach = math.Max(reach, vdist(p, b.B.CenterOfGravity())+s.L.R)
			}
		}
		if m*reach*reach <= 20*I {
			continue
		}
		b.B.SetMoment(m * reach * reach / 4)
		for _, s := range b.Shapes {
			if s.S.Friction() > 0 {
				s.S.SetFriction(0)
			}
		}
	}
}

func (w *World) dt() float64 {
	switch w.R.Intn(8) {
	case 0:
		return 1.0 / 30
	case 1:
		return w.R.LogRange(0.001, 0.1)
	}
	return 1.0 / 60
}

// step runs one simulation step. Static bodies that were moved are reindexed first, as the library requires.
func (w *World) step(dt float64) {
	for _, b := range w.Bodies {
		if b.dirty && (b.Typ == cp.BODY_STATIC || b.B.IsSleeping()) {
			w.reindex(b)
			w.logf("ReindexShape of all shapes of b%d", b.ID)
		}
		b.dirty = false
	}
	w.Log = w.Log[:0]
	w.logf("Step %.17g", dt)
	w.inStep = true
	w.Sp.Step(dt)
	w.inStep = false
	w.Steps++
}

func (w *World) sleeping() int {
	n := 0
	for _, b := range w.Bodies {
		if b.B.IsSleeping() {
			n++
		}
	}
	return n
}

func (w *World) describe() string {
	return fmt.Sprintf("%d bodies %d shapes %d joints hash=%v sleep=%v", len(w.Bodies), len(w.Shapes), len(w.Cons), w.OnHash, w.C.Sleep)
}

// mayCollide is the documented filter rule.
func mayCollide(a, b *WShape) bool {
	if a.B == b.B {
		return false
	}
	if filterRejects(a.Filter, b.Filter) {
		return false
	}
	for _, c := range a.B.Cons {
		if !c.Collide && ((c.A == a.B && c.B == b.B) || (c.A == b.B && c.B == a.B)) {
			return false
		}
	}
	return true
}

func filterRejects(a, b cp.ShapeFilter) bool {
	if a.Group != 0 && a.Group == b.Group {
		return true
	}
	return a.Categories&b.Mask == 0 || b.Categories&a.Mask == 0
}

// active: its shapes take part in collision detection of their own accord.
func (b *WBody) active() bool { return b.Typ != cp.BODY_STATIC && !b.B.IsSleeping() }
