package cp

type c34Seg struct{ a, b Vector }

// c34Cell runs one cell and returns its segments.
func c34Cell(hard bool, t float64, s [4]float64, bb BB) (segs []c34Seg) {
	f := func(a, b Vector, data *PolyLineSet) { segs = append(segs, c34Seg{a, b}) }
	if hard {
		MarchCellHard(t, s[0], s[1], s[2], s[3], bb.L, bb.R, bb.B, bb.T, f, nil)
	} else {
		MarchCellSoft(t, s[0], s[1], s[2], s[3], bb.L, bb.R, bb.B, bb.T, f, nil)
	}
	return
}

// The corners a, b, d, c of a cell in counter-clockwise order.
var c34Corners = []int{0, 1, 3, 2}

func c34Corner(i int, bb BB) Vector {
	return Vector{[]float64{bb.L, bb.R, bb.L, bb.R}[i], []float64{bb.B, bb.B, bb.T, bb.T}[i]}
}

// c34On: p is on the edge of the cell from corner i to j, where the samples reach the threshold.
func c34On(p Vector, hard bool, t float64, s [4]float64, bb BB, i, j int) bool {
	x := uClose0
	a, b := c34Corner(i, bb), c34Corner(j, bb)
	if hard {
		return vAnd(x(p.X, (a.X+b.X)/2), x(p.Y, (a.Y+b.Y)/2))
	}
	// (p-a)*(sb-sa) = (b-a)*(t-sa)
	d := s[j] - s[i]
	return vAnd(x((p.X-a.X)*d, (b.X-a.X)*(t-s[i])), x((p.Y-a.Y)*d, (b.Y-a.Y)*(t-s[i])))
}

func uClose0(a, b float64) bool { return vAnd(a-b < 1e-9, b-a < 1e-9) }

func c34Check(hard bool, t float64, s [4]float64, bb BB, segs []c34Seg) {
	// crossings of the boundary of the cell
	var in []bool
	inside := 0
	for _, i := range c34Corners {
		in = append(in, s[i] > t)
		if s[i] > t {
			inside++
		}
	}
	var starts, ends [][2]int
	for k := range c34Corners {
		i, j := c34Corners[k], c34Corners[(k+1)%4]
		if in[k] && !in[(k+1)%4] {
			starts = append(starts, [2]int{i, j})
		}
		if !in[k] && in[(k+1)%4] {
			ends = append(ends, [2]int{i, j})
		}
	}
	// the paths
	var paths [][]Vector
	for i := len(segs) - 1; i >= 0; i-- {
		vAssert(segs[i].a != segs[i].b, "segments are not empty")
	}
	center := Vector{(bb.L + bb.R) / 2, (bb.B + bb.T) / 2}
	for i := 0; i < len(segs); i++ {
		p := []Vector{segs[i].a, segs[i].b}
		if hard && segs[i].b == center && i+1 < len(segs) {
			i++
			vAssert(segs[i].a == center, "the segments of a corner follow each other")
			p = append(p, segs[i].b)
		}
		paths = append(paths, p)
	}
	if hard {
		vAssert(len(paths) == len(starts), "there is a line for every change between inside and outside")
	} else {
		vAssert(len(paths) <= len(starts), "there is at most a line for every change between inside and outside")
	}
	usedS, usedE := make([]bool, 2), make([]bool, 2)
	for _, p := range paths {
		ok := false
		for i, e := range starts {
			if !usedS[i] && !ok && c34On(p[0], hard, t, s, bb, e[0], e[1]) {
				usedS[i] = true
				ok = true
			}
		}
		vAssert(ok, "lines begin where the boundary of the cell leaves the inside")
		ok = false
		for i, e := range ends {
			if !usedE[i] && !ok && c34On(p[len(p)-1], hard, t, s, bb, e[0], e[1]) {
				usedE[i] = true
				ok = true
			}
		}
		vAssert(ok, "lines end where the boundary of the cell enters the inside")
		vCover("line")
		for _, q := range p {
			vAssert(vAnd(q.X >= bb.L-1e-9, q.X <= bb.R+1e-9, q.Y >= bb.B-1e-9, q.Y <= bb.T+1e-9), "lines stay within the cell")
		}
	}
	if !hard && len(paths) < len(starts) {
		// a line without length was left out: the outside touches the cell in a corner
		touch := false
		for k, i := range c34Corners {
			if !in[k] && in[(k+1)%4] && in[(k+3)%4] {
				touch = touch || s[i] == t
			}
		}
		vAssert(touch, "only lines without length are left out")
		vCover("empty")
	}
	// the inside is on the left, or the line is on the edge of the cell
	for _, p := range paths {
		for k, i := range c34Corners {
			c := c34Corner(i, bb)
			if in[k] && inside == 1 {
				for n := 1; n < len(p); n++ {
					vAssert(uCross(uSub(p[n], p[n-1]), uSub(c, p[n-1])) >= -1e-9, "the inside is on the left of lines")
				}
			}
			if !in[k] && inside == 3 {
				for n := 1; n < len(p); n++ {
					vAssert(uCross(uSub(p[n], p[n-1]), uSub(c, p[n-1])) <= 1e-9, "the outside is on the right of lines")
				}
			}
			if inside == 2 && len(paths) == 1 {
				x := uCross(uSub(p[len(p)-1], p[0]), uSub(c, p[0]))
				if in[k] {
					vAssert(x >= -1e-9, "the inside is on the left of lines")
				} else {
					vAssert(x <= 1e-9, "the outside is on the right of lines")
				}
			}
		}
	}
	// two lines do not cross
	if len(paths) == 2 {
		a, b := paths[0], paths[1]
		x := uCross(uSub(a[len(a)-1], a[0]), uSub(b[0], a[0]))
		y := uCross(uSub(a[len(a)-1], a[0]), uSub(b[len(b)-1], a[0]))
		vAssert(vOr(vAnd(x >= -1e-9, y >= -1e-9), vAnd(x <= 1e-9, y <= 1e-9)), "lines do not cross each other")
	}
}

// VH_C34_soft: lines of a cell end where the samples, interpolated, reach the threshold.
//
//verif:bounds any 4 samples in [-4,4] and threshold in [-2,2] (different samples differ by 1/64 at edges that are crossed, or are equal to the threshold); 2 cells
//verif:time 100
func VH_C34_soft() {
	t := vFloat("t", -2, 2)
	var s [4]float64
	for i := range s {
		s[i] = vFloat("s", -4, 4)
		vAssume(vOr(s[i] == t, s[i] >= t+1.0/64, s[i] <= t-1.0/64))
	}
	bb := []BB{{0, 0, 1, 1}, {-1, 2, 3, 3}}[vChoose("cell", 2)]
	c34Check(false, t, s, bb, c34Cell(false, t, s, bb))
}

// VH_C34_hard: lines of a cell run between the middles of edges.
//
//verif:bounds any 4 samples and threshold in [-4,4]; any cell with sizes in [1/2,2]
//verif:time 100
func VH_C34_hard() {
	t := vFloat("t", -4, 4)
	var s [4]float64
	for i := range s {
		s[i] = vFloat("s", -4, 4)
	}
	p := uVec("p", 4)
	bb := BB{p.X, p.Y, p.X + vFloat("w", 0.5, 2), p.Y + vFloat("h", 0.5, 2)}
	c34Check(true, t, s, bb, c34Cell(true, t, s, bb))
}

// VH_C34_cells: every vertex of the grid is sampled and every cell gets its samples.
//
//verif:bounds 2 to 4 samples in each direction over any bounding box; any samples
//verif:time 60
func VH_C34_cells() {
	nx, ny := vChoose("nx", 3)+2, vChoose("ny", 3)+2
	p := uVec("p", 4)
	bb := BB{p.X, p.Y, p.X + vFloat("w", 0.5, 8), p.Y + vFloat("h", 0.5, 8)}
	t := vFloat("t", -4, 4)
	var points []Vector
	var values []float64
	var at func(i, j int) Vector
	at = func(i, j int) Vector {
		return Vector{bb.L + (bb.R-bb.L)*float64(i)/float64(nx-1), bb.B + (bb.T-bb.B)*float64(j)/float64(ny-1)}
	}
	sample := func(v Vector) float64 {
		points = append(points, v)
		values = append(values, vFloat("s", -4, 4))
		return values[len(values)-1]
	}
	find := func(i, j int) float64 {
		w := at(i, j)
		for k, v := range points {
			if vAnd(uClose0(v.X, w.X), uClose0(v.Y, w.Y)) {
				return values[k]
			}
		}
		vAssert(false, "every vertex is sampled")
		return 0
	}
	seen := map[[2]int]int{}
	emitted := 0
	emit := func(a, b Vector, set *PolyLineSet) { emitted++ }
	set := MarchCells(bb, int64(nx), int64(ny), t, emit, sample, func(tt, a, b, c, d, x0, x1, y0, y1 float64, f MarchSegmentFunc, set *PolyLineSet) {
		vAssert(tt == t, "cells get the threshold")
		hit := false
		for i := 0; i < nx-1; i++ {
			for j := 0; j < ny-1; j++ {
				v, w := at(i, j), at(i+1, j+1)
				if vAnd(uClose0(v.X, x0), uClose0(v.Y, y0)) {
					hit = true
					seen[[2]int{i, j}]++
					vAssert(vAnd(uClose0(w.X, x1), uClose0(w.Y, y1)), "cells lie between neighbouring vertices")
					vAssert(vAnd(a == find(i, j), b == find(i+1, j), c == find(i, j+1), d == find(i+1, j+1)), "cells get the samples of their corners")
				}
			}
		}
		vAssert(hit, "cells lie between neighbouring vertices")
		vAssert(set != nil, "cells get the lines")
		f(Vector{}, Vector{}, set)
	})
	vAssert(set != nil && len(points) == nx*ny, "every vertex is sampled once")
	vAssert(len(seen) == (nx-1)*(ny-1) && emitted == len(seen), "every cell is visited once")
	for _, n := range seen {
		vAssert(n == 1, "every cell is visited once")
	}
}

// c34Winding counts how often the lines run around p (on a vertex of the grid), counter-clockwise.
func c34Winding(lines []*PolyLine, p Vector) (n int) {
	for _, l := range lines {
		for i := 1; i < len(l.Verts); i++ {
			a, b := l.Verts[i-1], l.Verts[i]
			if (a.Y <= p.Y) == (b.Y <= p.Y) {
				continue
			}
			x := uCross(uSub(b, a), uSub(p, a))
			if a.Y <= p.Y && x > 0 {
				n++
			}
			if a.Y > p.Y && x < 0 {
				n--
			}
		}
	}
	return
}

func c34Grid(hard bool, n int, touch bool) {
	bb := BB{0, 0, float64(n - 1), float64(n - 1)}
	values := make([]float64, n*n)
	for i := 1; i < n-1; i++ {
		for j := 1; j < n-1; j++ {
			x := vFloat("s", 0, 2)
			if !hard {
				vAssume(vOr(vAnd(touch, x == 1), x >= 1+1.0/16, x <= 1-1.0/16))
			}
			values[j*n+i] = x
		}
	}
	sample := func(v Vector) float64 { return values[int(v.Y+0.5)*n+int(v.X+0.5)] }
	var segs []c34Seg
	collect := func(a, b Vector, set *PolyLineSet) {
		segs = append(segs, c34Seg{a, b})
		PolyLineCollectSegment(a, b, set)
	}
	var set *PolyLineSet
	if hard {
		set = MarchHard(bb, int64(n), int64(n), 1, collect, sample)
	} else {
		set = MarchSoft(bb, int64(n), int64(n), 1, collect, sample)
	}
	total := 0
	for _, l := range set.Lines {
		vAssert(l.IsClosed(), "lines are closed if the border is outside")
		total += len(l.Verts) - 1
	}
	vAssert(total == len(segs), "lines consist of the segments")
	for i := 1; i < n-1; i++ {
		for j := 1; j < n-1; j++ {
			if touch && values[j*n+i] == 1 {
				vCover("touch")
				continue
			}
			w := c34Winding(set.Lines, Vector{float64(i), float64(j)})
			if values[j*n+i] > 1 {
				vAssert(w == 1, "lines run around the samples above the threshold, counter-clockwise")
				vCover("inside")
			} else {
				vAssert(w == 0, "lines do not run around the samples below the threshold")
			}
		}
	}
}

// VH_C34_gridhard: the lines of a grid are closed and enclose the samples above the threshold.
//
//verif:bounds grids of 5x5 samples (thorough: 6x6), any interior samples in [0,2], border outside
//verif:time 100
func VH_C34_gridhard() {
	n := 5
	if vThorough() {
		n = 6
	}
	c34Grid(true, n, false)
}

// VH_C34_gridsoft: the lines of a grid are closed and enclose the samples above the threshold.
//
//verif:bounds grids of 4x4 samples (thorough: 5x5), any interior samples in [0,2] that are not within 1/16 of the threshold, border outside
//verif:time 200
func VH_C34_gridsoft() {
	n := 4
	if vThorough() {
		n = 5
	}
	c34Grid(false, n, false)
}

// VH_C34_gridtouch: the same with samples that are equal to the threshold.
//
//verif:bounds grids of 4x4 samples, any interior samples in [0,2] that are equal to the threshold or not within 1/16 of it, border outside
//verif:time 200
func VH_C34_gridtouch() {
	c34Grid(false, 4, true)
}
