package cp

// c20World runs a circle through other shapes that must not affect it (unless they are left out), next to one that does
// if solid is set, and returns the positions and velocities of all bodies after each step.
func c20World(how int, with, solid, spin bool, x, v, g float64, steps int) (out []float64, begun int) {
	space := NewSpace()
	space.Iterations = 2
	space.SetGravity(Vector{0, g})
	space.SetDamping(0.5)
	b := []*Body{NewBody(1, 2), NewBody(3, 1), NewBody(2, 2), NewKinematicBody()}
	p := []Vector{{x, 0}, {0, 0.5}, {2, -0.25}, {-1, 0.5}}
	vel := []Vector{{v, 1}, {-1, 0}, {0, 0.5}, {0.5, 0}}
	c := NewCircle(b[0], 0.75, Vector{})
	s := []*Shape{c, NewBox(b[1], 1, 1.5, 0), NewCircle(b[2], 0.5, Vector{}), NewSegment(b[3], Vector{-1, 0}, Vector{1, 0}, 0.25),
		NewCircle(space.StaticBody, 0.5, Vector{1, 0}), NewSegment(space.StaticBody, Vector{-8, -1}, Vector{1, -1}, 0.25)}
	if solid {
		vel[0].Y = -1
	}
	for i := range b {
		space.AddBody(b[i])
		b[i].SetPosition(p[i])
		b[i].SetVelocityVector(vel[i])
		if spin {
			b[i].SetAngularVelocity(float64(i) - 1)
		}
	}
	if !with {
		// the bodies move without shapes
		if solid {
			space.AddShape(s[0])
			space.AddShape(s[5])
		}
	} else {
		for i, x := range s {
			x.SetElasticity(1)
			x.SetFriction(1)
			x.SetCollisionType(CollisionType(i))
			switch how {
			case 0:
				x.SetSensor(i > 0 && i < 5)
			case 1:
				x.SetSensor(true)
			}
			if how >= 2 && i > 0 && i < 4 {
				x.SetCollisionType(7)
			}
			if i < 5 || solid {
				space.AddShape(x)
			}
		}
		if solid {
			// only the circle and the last shape collide
			s[0].SetSensor(false)
			s[5].SetSensor(false)
		}
		for _, x := range []*Shape{s[0], s[5]} {
			x.SetElasticity(0)
			x.SetFriction(0)
		}
		for i := range s {
			for k := range s[:i+1] {
				if i == 5 && k == 0 {
					continue
				}
				h := space.NewCollisionHandler(s[k].collisionType, s[i].collisionType)
				h.BeginFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
					begun++
					return how != 2
				}
				switch how {
				case 3:
					h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool { return false }
				case 4:
					h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
						arb.Ignore()
						return true
					}
				case 5:
					h.BeginFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
						begun++
						arb.Ignore()
						return true
					}
				case 6, 7:
					// becomes a sensor as it is touched
					become := func(arb *Arbiter, _ *Space, _ interface{}) bool {
						begun++
						x, y := arb.Shapes()
						if x == s[0] || x == s[5] {
							x = y
						}
						x.SetSensor(true)
						return true
					}
					if how == 6 {
						h.BeginFunc = become
					} else {
						h.PreSolveFunc = become
					}
				}
			}
		}
	}
	for i := 0; i < steps; i++ {
		space.Step(0.25)
		for _, b := range b {
			out = append(out, b.p.X, b.p.Y, b.v.X, b.v.Y, b.a, b.w, b.v_bias.X, b.v_bias.Y, b.w_bias)
		}
	}
	return
}

func c20Compare(how int, solid, spin bool, x, v, g float64, steps int) {
	want, _ := c20World(how, false, solid, spin, x, v, g, steps)
	got, begun := c20World(how, true, solid, spin, x, v, g, steps)
	for i := range want {
		vClose(got[i], want[i], 1e-9, "contacts of sensors and rejected contacts change no motion")
	}
	if begun > 0 {
		vCover("touched")
	}
}

// VH_C20_free: bodies move through sensors and rejected contacts as if alone.
//
//verif:bounds sensors, all sensors, begin rejected, presolve rejected, ignored in presolve or begin, made sensors in begin or presolve; a circle at any x in [-4,4] among a box, a circle, a kinematic segment and a static circle, 3 velocities and gravities; 3 steps
//verif:time 200
func VH_C20_free() {
	how := vChoose("how", 8)
	k := how
	if vThorough() {
		k = vChoose("k", 3)
	}
	c20Compare(how, false, k%2 == 0, vFloat("x", -4, 4), []float64{2, 0, -3}[k%3], []float64{0, -4, 1}[k%3], 3)
}

// VH_C20_velocity: the same with any velocity.
//
//verif:bounds as above; circle at x=-2 (thorough 3 places), any velocity in [-8,8]; 2 steps
//verif:time 200
func VH_C20_velocity() {
	how := vChoose("how", 8)
	x := -2.0
	if vThorough() {
		x = []float64{-2, 0.5, 3}[vChoose("x", 3)]
	}
	c20Compare(how, false, false, x, vFloat("v", -8, 8), -2, 2)
}

// VH_C20_solid: the other contacts of a body that also touches sensors are solved as without the sensors.
//
//verif:bounds as above, with a static floor that the circle lands on; circle at any x in [-6,0.5]; 3 steps
//verif:time 200
func VH_C20_solid() {
	how := vChoose("how", 8)
	c20Compare(how, true, false, vFloat("x", -6, 0.5), -1, -2, 3)
}
