package cp

func c16Pick(name string, n, hist int) int {
	if vThorough() {
		return vChoose(name, n)
	}
	return hist % n
}

// c16Index switches to a spatial hash; one table is so small that most cells share a bin.
func c16Index(k int) func(*Space) {
	dim := []float64{1, 2.5, 7}[k%3]
	num := []int{3, 1000, 1}[k%3]
	return func(s *Space) { s.UseSpatialHash(dim, num) }
}

// VH_C16_bb: box queries on the hash.
//
//verif:bounds 8 histories on 6 shapes, 3 cell and table sizes (bins shared by many cells included); box of 3 sizes, left in [-8,8], 2 y; 2 filters (quick: picked by history)
//verif:time 100
func VH_C16_bb() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, c16Index(c16Pick("hash", 3, h)))
	w := []Vector{{0, 0}, {3, 1}, {1, 6}}[c16Pick("size", 3, h/2)]
	l := Vector{vFloat("x", -8, 8), []float64{-2.75, 0.5}[vChoose("y", 2)]}
	uBBQuery(space, shapes, BB{l.X, l.Y, l.X + w.X, l.Y + w.Y}, uFilter(c16Pick("filter", 2, h/3)))
}

// VH_C16_point: nearest point queries on the hash.
//
//verif:bounds 8 histories on 6 shapes, 3 cell and table sizes; x in [-8,8], 2 y; 3 distances; 2 filters (quick: picked by history)
//verif:time 100
func VH_C16_point() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, c16Index(c16Pick("hash", 3, h+1)))
	p := Vector{vFloat("x", -8, 8), []float64{0.75, -2.25}[c16Pick("y", 2, h)]}
	max := []float64{-0.25, 0, 1.5}[c16Pick("max", 3, h/2+2)]
	uPointQuery(space, shapes, p, max, uFilter(c16Pick("filter", 2, h/3)))
}

// VH_C16_segment: segment queries on the hash.
//
//verif:bounds 8 histories on 6 shapes, 3 cell and table sizes; start x in [-8,8], 2 y (cell boundaries included); 4 directions; radius {0,0.5}; 2 filters (quick: picked by history)
//verif:time 200
func VH_C16_segment() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, c16Index(c16Pick("hash", 3, h)))
	a := Vector{vFloat("x", -8, 8), []float64{5, -1.5}[c16Pick("y", 2, h)]}
	d := []Vector{{0, -9}, {9, -4}, {-7, 0}, {-6, 8}}[vChoose("dir", 4)]
	uSegmentQuery(space, shapes, a, uAdd(a, d), []float64{0, 0.5}[c16Pick("r", 2, h/2)], uFilter(c16Pick("filter", 2, h/3)))
}

// VH_C16_ray: rays from cell corners and boundaries.
//
//verif:bounds a small circle at 5 places, cells of size 1 (tables of 1000 and 3), rays from (k,y) and (k,m) on cell boundaries in 6 directions towards a symbolic distance
//verif:time 100
func VH_C16_ray() {
	space := NewSpace()
	c := []Vector{{-2.5, 0.5}, {-0.3, -2.7}, {2.5, 2.5}, {1.5, -1.5}, {-1.5, 1.5}}[vChoose("at", 5)]
	s := space.AddShape(NewCircle(space.StaticBody, 0.25, c))
	space.UseSpatialHash(1, []int{1000, 3}[vChoose("table", 2)])
	a := []Vector{{0, 0}, {1, 0.5}, {-1, -1}, {0.5, 2}}[vChoose("start", 4)]
	// towards any point near the center
	b := uAdd(a, uMul(uSub(uAdd(c, Vector{0, vFloat("off", -0.5, 0.5)}), a), []float64{1, 2}[vChoose("len", 2)]))
	uSegmentQuery(space, []*Shape{s}, a, b, 0, SHAPE_FILTER_ALL)
}

// VH_C16_shape: shape queries on the hash.
//
//verif:bounds 8 histories on 6 shapes, 3 cell and table sizes; circle and box at x in [-8,8], 2 y (quick: picked by history)
//verif:time 200
func VH_C16_shape() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, c16Index(c16Pick("hash", 3, h+2)))
	body := NewBody(1, 1)
	body.SetPosition(Vector{vFloat("x", -8, 8), []float64{0.8, -2.1}[c16Pick("y", 2, h)]})
	q := NewCircle(body, 1, Vector{})
	if vChoose("kind", 2) == 1 {
		q = NewBox(body, 1, 2, 0)
	}
	uShapeQuery(space, shapes, q)
}

// VH_C16_step: the same collisions as the tree.
//
//verif:bounds 4 circles (one static) and a segment in a tree space and a hash space (3 cell and table sizes) with one circle at 3 places, then moved to any x1; 2 steps; 2 y
//verif:time 100
func VH_C16_step() {
	x0, x1 := []float64{-6, 1.5, 4}[vChoose("x0", 3)], vFloat("x1", -8, 8)
	k := vChoose("hash", 3)
	y := []float64{0.5, -2.25}[vChoose("y", 2)]
	run := func(hash bool) [2]map[[2]int]int {
		space := NewSpace()
		if hash {
			c16Index(k)(space)
		}
		var log [2]map[[2]int]int
		step := 0
		h := space.NewWildcardCollisionHandler(0)
		add := func(b *Body, s *Shape, id int) {
			s.UserData = id
			space.AddShape(s)
		}
		var moving *Body
		for i, p := range []Vector{{-2, 0}, {2, 0.25}, {0, y}} {
			b := space.AddBody(NewBody(1, 1))
			b.SetPosition(p)
			moving = b
			if i == 2 {
				b.SetPosition(Vector{x0, y})
			}
			add(b, NewCircle(b, 1, Vector{}), i)
		}
		add(space.StaticBody, NewCircle(space.StaticBody, 0.75, Vector{4.5, 0}), 3)
		add(space.StaticBody, NewSegment(space.StaticBody, Vector{-5, -3}, Vector{1, -3}, 0.1), 4)
		h.PreSolveFunc = func(arb *Arbiter, space *Space, _ interface{}) bool {
			a, b := arb.Shapes()
			i, j := a.UserData.(int), b.UserData.(int)
			if i > j {
				i, j = j, i
			}
			log[step][[2]int{i, j}]++
			return false
		}
		for step = 0; step < 2; step++ {
			log[step] = map[[2]int]int{}
			if step == 1 {
				moving.SetPosition(Vector{x1, y})
			}
			space.Step(0.01)
		}
		return log
	}
	t, h := run(false), run(true)
	for i := range t {
		vAssert(len(t[i]) == len(h[i]), "the hash finds as many collisions")
		for p, n := range t[i] {
			vAssert(h[i][p] == n, "the hash finds the same collisions")
			vCover("collision")
		}
	}
}

// VH_C16_nested: queries made by the callbacks of queries and collisions on the hash.
//
//verif:bounds 8 histories on 6 shapes, 3 cell and table sizes; outer: box, segment and shape queries at any x in [-8,4], or a step with one shape moved to any x, 1 y (thorough 2); inner: a box and a segment query in each callback
//verif:time 100
func VH_C16_nested() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, c16Index(c16Pick("hash", 3, h)))
	y := -1.25
	if vThorough() {
		y = []float64{-1.25, 0.5}[vChoose("y", 2)]
	}
	uNested(space, shapes, vFloat("x", -8, 4), y, vChoose("outer", 4))
}
