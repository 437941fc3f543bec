package cp

type c35Seg struct{ a, b int }

var c35Points = []Vector{{0, 0}, {3, 0}, {3, 2}, {1, 5}, {-2, 1}, {-1, -3}}

func c35Index(v Vector) int {
	for i, p := range c35Points {
		if p == v {
			return i
		}
	}
	return -1
}

// c35Count compares the segments of the lines with those that were collected.
func c35Count(set *PolyLineSet, segs []c35Seg) {
	n := map[c35Seg]int{}
	for _, s := range segs {
		n[s]++
	}
	total := 0
	for _, l := range set.Lines {
		vAssert(len(l.Verts) >= 2, "lines consist of segments")
		for i := 1; i < len(l.Verts); i++ {
			s := c35Seg{c35Index(l.Verts[i-1]), c35Index(l.Verts[i])}
			n[s]--
			vAssert(n[s] >= 0, "lines have no other segments than those collected")
			total++
		}
	}
	vAssert(total == len(segs), "no segment is lost")
}

// VH_C35_collect: lines consist of exactly the collected segments.
//
//verif:bounds every sequence of up to 5 (thorough: 6) segments between up to 4 points, including empty and repeated ones
//verif:time 100
func VH_C35_collect() {
	n := 5
	if vThorough() {
		n = 6
	}
	set := &PolyLineSet{}
	var segs []c35Seg
	used := 0
	pick := func() int {
		k := used + 1
		if k > 4 {
			k = 4
		}
		i := vChoose("point", k)
		if i == used {
			used++
		}
		return i
	}
	for i := 0; i < n; i++ {
		s := c35Seg{pick(), pick()}
		segs = append(segs, s)
		PolyLineCollectSegment(c35Points[s.a], c35Points[s.b], set)
		c35Count(set, segs)
	}
}

// VH_C35_chain: segments of separate chains and loops become one line for each of them.
//
//verif:bounds up to two chains or loops with together up to 6 points, segments in any order (up to 5 segments)
//verif:time 100
func VH_C35_chain() {
	shapes := [][][]int{
		{{0, 1, 2, 3, 4, 5}}, {{0, 1, 2, 3, 4, 0}}, {{0, 1, 2}, {3, 4, 5}}, {{0, 1, 2, 0}, {3, 4, 5}},
		{{0, 1, 2, 0}, {3, 4, 3}}, {{0, 1}, {2, 3, 4, 5}}, {{0, 1, 2, 3}, {4, 5, 4}},
	}
	shape := shapes[vChoose("shape", len(shapes))]
	var segs []c35Seg
	for _, line := range shape {
		for i := 1; i < len(line); i++ {
			segs = append(segs, c35Seg{line[i-1], line[i]})
		}
	}
	set := &PolyLineSet{}
	rest := append([]c35Seg{}, segs...)
	for len(rest) > 0 {
		k := vChoose("next", len(rest))
		PolyLineCollectSegment(c35Points[rest[k].a], c35Points[rest[k].b], set)
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	c35Count(set, segs)
	vAssert(len(set.Lines) == len(shape), "a chain or loop becomes one line")
	for _, line := range shape {
		ok := false
		for _, l := range set.Lines {
			loop := line[0] == line[len(line)-1]
			if len(l.Verts) != len(line) || l.IsClosed() != loop {
				continue
			}
			same := true
			shift := 0
			if loop {
				for shift < len(line) && c35Index(l.Verts[0]) != line[shift] {
					shift++
				}
			}
			for i, v := range l.Verts {
				j := i
				if loop {
					j = (i + shift) % (len(line) - 1)
				}
				same = same && j < len(line) && c35Index(v) == line[j]
			}
			ok = ok || same
		}
		vAssert(ok, "lines follow their segments")
	}
}

// c35Line is an open or closed line of n points, the k-th of which is anywhere.
func c35Line(n, k int, closed bool, r float64) *PolyLine {
	pl := &PolyLine{}
	for i := 0; i < n; i++ {
		p := c35Points[i]
		if i == k {
			p = uVec("p", r)
		}
		pl.Push(p)
	}
	if closed {
		pl.Push(pl.Verts[0])
	}
	return pl
}

// c35Sub finds the points of the reduced line in the line.
func c35Sub(pl, red *PolyLine) (at []int) {
	n := len(pl.Verts)
	first, last := 0, n-1
	if pl.IsClosed() {
		vAssert(red.IsClosed(), "closed lines stay closed")
		// the line may begin anywhere
		n--
		first = -1
		for i := 0; i < n && first < 0; i++ {
			if pl.Verts[i] == red.Verts[0] {
				first = i
			}
		}
		vAssert(first >= 0, "points of the reduced line are points of the line")
		last = first + n
	} else {
		vAssert(vAnd(red.Verts[0] == pl.Verts[0], red.Verts[len(red.Verts)-1] == pl.Verts[n-1]), "lines keep their ends")
	}
	j := first
	at = append(at, first)
	for _, v := range red.Verts[1 : len(red.Verts)-1] {
		j++
		for j < last && !(pl.Verts[j%n] == v) {
			j++
		}
		vAssert(j < last, "points of the reduced line are points of the line, in the same order")
		at = append(at, j)
	}
	at = append(at, last)
	return
}

// VH_C35_curves: simplified curves keep their ends and are as close as the tolerance.
//
//verif:bounds open and closed lines of 2 or 3 points, one of them anywhere in [-6,6] (but not on another one), tolerance in [1/8,4]; of 4 points (one anywhere) or 5 (one on one of 3 lines), tolerance 1/4, 1 or 3
//verif:time 200
func VH_C35_curves() {
	vSteps(300000)
	n := vChoose("points", 4) + 2
	k := vChoose("moved", n)
	closed := vBool("closed")
	var tol float64
	var pl *PolyLine
	if n <= 3 {
		tol = vFloat("tol", 0.125, 4)
		pl = c35Line(n, k, closed, 6)
	} else {
		tol = []float64{0.25, 1, 3}[vChoose("tolerance", 3)]
		pl = c35Line(n, -1, closed, 6)
		if n == 4 {
			pl.Verts[k] = uVec("p", 6)
		} else {
			pl.Verts[k] = Vector{vFloat("x", -6, 6), []float64{0, 1.5, -4}[vChoose("y", 3)]}
		}
		if closed {
			pl.Verts[n] = pl.Verts[0]
		}
	}
	for i := 0; i < n; i++ {
		vAssume(i == k || vNot(pl.Verts[i] == pl.Verts[k]))
	}
	copied := append([]Vector{}, pl.Verts...)
	red := pl.SimplifyCurves(tol)
	for i, v := range copied {
		vAssert(pl.Verts[i] == v, "the line itself stays")
	}
	vAssert(len(red.Verts) >= 2 && len(red.Verts) <= len(pl.Verts)+1, "lines do not get longer")
	at := c35Sub(pl, red)
	m := len(pl.Verts)
	if closed {
		m--
	}
	for i := 1; i < len(at); i++ {
		a, b := pl.Verts[at[i-1]%m], pl.Verts[at[i]%m]
		length := uSub(b, a)
		for j := at[i-1] + 1; j < at[i]; j++ {
			v := pl.Verts[j%m]
			x := uCross(length, uSub(v, a))
			d := uSub(v, a)
			vAssert(vOr(x*x <= tol*tol*uDot(length, length)*(1+1e-6)+1e-6, uDot(d, d) <= tol*tol), "points that are left out are within the tolerance of the line through their neighbours")
			vCover("left out")
		}
	}
}

// VH_C35_short: curves that are shorter than the tolerance are reduced to their ends.
//
//verif:bounds open and closed lines of 3 points within a square of 1/8 of the tolerance, or of 4 points, two of them the same
//verif:time 60
func VH_C35_short() {
	vSteps(300000)
	pl := &PolyLine{}
	n := vChoose("points", 2) + 3
	for i := 0; i < n; i++ {
		switch {
		case i < 2:
			pl.Push(uVec("p", 1.0/16))
		case i == 2:
			pl.Push(Vector{0, 1.0 / 32})
		default:
			pl.Push(pl.Verts[vChoose("same", 2)])
		}
	}
	closed := vBool("closed")
	if closed {
		pl.Push(pl.Verts[0])
	}
	red := pl.SimplifyCurves(1)
	vAssert(vAnd(red.Verts[0] == red.Verts[len(red.Verts)-1]) == pl.IsClosed(), "closed lines stay closed")
	if pl.IsClosed() {
		vAssert(len(red.Verts) == 3, "short curves are reduced to their ends")
		return
	}
	vAssert(len(red.Verts) == 2, "short curves are reduced to their ends")
	vAssert(vAnd(red.Verts[0] == pl.Verts[0], red.Verts[1] == pl.Verts[n-1]), "lines keep their ends")
}

// VH_C35_back: lines that come back to themselves.
//
//verif:bounds open and closed lines of 4 or 5 points, one of which is on or close to another one; tolerance 1/8, 1 or 4
//verif:time 60
func VH_C35_back() {
	vSteps(300000)
	n := vChoose("points", 2) + 4
	k, m := vChoose("moved", n), vChoose("on", n)
	closed := vBool("closed")
	tol := []float64{0.125, 1, 4}[vChoose("tol", 3)]
	pl := &PolyLine{}
	for i := 0; i < n; i++ {
		p := c35Points[i]
		if i == k {
			p = c35Points[m]
			p.X += vFloat("d", -0.5, 0.5)
		}
		pl.Push(p)
	}
	if closed {
		pl.Push(pl.Verts[0])
	}
	red := pl.SimplifyCurves(tol)
	c35Sub(pl, red)
}

// VH_C35_vertexes: joining segments leaves out points where the line turns by less than the tolerance.
//
//verif:bounds open and closed lines of 2 to 5 points, one of them on one of 2 lines through the others with x in [-6,6]; tolerance 1/8, 1/2 or 1
//verif:time 200
func VH_C35_vertexes() {
	n := vChoose("points", 4) + 2
	k := vChoose("moved", n)
	closed := vBool("closed")
	ti := vChoose("tol", 3)
	tol := []float64{0.125, 0.5, 1}[ti]
	cos := []float64{0.992197667229329, 0.8775825618903728, 0.5403023058681398}[ti]
	pl := c35Line(n, -1, closed, 6)
	pl.Verts[k] = Vector{vFloat("x", -6, 6), []float64{0, 1.5}[vChoose("y", 2)]}
	if closed {
		pl.Verts[n] = pl.Verts[0]
	}
	m := len(pl.Verts)
	for i := 0; i < n; i++ {
		vAssume(i == k || vNot(pl.Verts[i] == pl.Verts[k]))
	}
	for i := 1; i < m; i++ {
		d := uSub(pl.Verts[i], pl.Verts[i-1])
		vAssume(uDot(d, d) >= 1.0/16)
	}
	red := pl.SimplifyVertexes(tol)
	vAssert(len(red.Verts) >= 2 && len(red.Verts) <= m, "lines do not get longer")
	at := c35Sub(pl, red)
	if closed {
		m--
	}
	// straight: the line turns by less than the tolerance
	straight := func(a, b, c Vector, margin float64) bool {
		d, e := uSub(b, a), uSub(c, b)
		x := uDot(d, e)
		l := uDot(d, d) * uDot(e, e)
		co := cos + margin
		return vAnd(x >= 0, x*x >= co*co*l)
	}
	// where a closed line begins is looked at last
	wrapped := closed && at[0] != 0
	for i := 1; i < len(at); i++ {
		a := pl.Verts[at[i-1]%m]
		for j := at[i-1] + 1; j < at[i]; j++ {
			next := pl.Verts[(j+1)%m]
			if wrapped && j == m {
				next = pl.Verts[at[i]%m]
			}
			vAssert(straight(a, pl.Verts[j%m], next, -1e-6), "the line does not turn by more than the tolerance where points are left out")
			vCover("left out")
			if wrapped && j == m {
				a = pl.Verts[0]
			}
		}
		if i+1 < len(at) {
			j := at[i]
			vAssert(vNot(straight(a, pl.Verts[j%m], pl.Verts[(j+1)%m], 1e-6)), "the line turns by more than the tolerance at points that are kept")
			vCover("kept")
		}
	}
	if closed && !wrapped {
		vAssert(vNot(straight(pl.Verts[at[len(at)-2]], pl.Verts[0], pl.Verts[at[1]], 1e-6)), "the line turns by more than the tolerance at points that are kept")
	}
}
