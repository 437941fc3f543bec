package cp

type c17Elem struct{ key int }

// c17Set pairs the hash set with a model: model[k] is the element of key k or nil.
type c17Set struct {
	set   *HashSet[int, *c17Elem]
	hash  []HashValue
	model []*c17Elem
}

func c17New(hash []HashValue) *c17Set {
	return &c17Set{NewHashSet[int, *c17Elem](func(k int, e *c17Elem) bool { return k == e.key }), hash, make([]*c17Elem, len(hash))}
}

func (s *c17Set) insert(k int) {
	calls := 0
	e := s.set.Insert(s.hash[k], k, func(k int) *c17Elem {
		calls++
		return &c17Elem{k}
	})
	if s.model[k] == nil {
		vAssert(calls == 1, "a new element is created once")
		vAssert(e != nil && e.key == k, "the new element is returned")
		s.model[k] = e
	} else {
		vAssert(calls == 0 && e == s.model[k], "inserting again returns the element there is")
	}
}

func (s *c17Set) remove(k int) {
	vAssert(s.set.Remove(s.hash[k], k) == s.model[k], "removing returns the element there was")
	s.model[k] = nil
}

// check compares every observation with the model.
func (s *c17Set) check() {
	n := 0
	for k, e := range s.model {
		vAssert(s.set.Find(s.hash[k], k) == e, "find agrees with the model")
		if e != nil {
			n++
		}
	}
	vAssert(s.set.Count() == uint(n), "count agrees with the model")
	seen := make([]int, len(s.model))
	s.set.Each(func(e *c17Elem) {
		vAssert(s.model[e.key] == e, "each visits only elements of the set")
		seen[e.key]++
	})
	for k, e := range s.model {
		vAssert(seen[k] == 0 || e != nil, "each visits no removed element")
		vAssert(seen[k] == 1 || e == nil, "each visits every element once")
	}
	vCover("checked")
}

// filter keeps the keys in the mask.
func (s *c17Set) filter(mask int) {
	seen := make([]int, len(s.model))
	s.set.Filter(func(e *c17Elem) bool {
		seen[e.key]++
		return mask>>uint(e.key)&1 == 1
	})
	for k, e := range s.model {
		vAssert((seen[k] == 1) == (e != nil), "filter visits every element once")
		if mask>>uint(k)&1 == 0 {
			s.model[k] = nil
		}
	}
}

// VH_C17_hashes: short histories under every placement of the keys in bins.
//
//verif:bounds 3 keys (thorough 4) with any 64-bit hashes; 4 operations (thorough 5) out of insert, remove of each key and filter by 3 masks
//verif:time 200
func VH_C17_hashes() {
	n, ops := 3, 4
	if vThorough() {
		n, ops = 4, 5
	}
	hash := make([]HashValue, n)
	for i := range hash {
		hash[i] = HashValue(vUint("h", 0, ^uint(0)))
	}
	s := c17New(hash)
	for i := 0; i < 2; i++ {
		s.insert(i)
	}
	for i := 0; i < ops-2; i++ {
		switch c := vChoose("op", 2*n+3); {
		case c < n:
			s.insert(c)
		case c < 2*n:
			s.remove(c - n)
		default:
			s.filter([]int{1, 6, 0}[c-2*n])
		}
	}
	s.check()
	s.insert(0)
	s.check()
}

// VH_C17_ops: histories of operations with all keys in one bin or in two.
//
//verif:bounds 4 keys in one or two bins; 4 operations (thorough 5) out of insert, remove of each key and filter by 4 masks; checked after each
//verif:time 200
func VH_C17_ops() {
	h := [][]HashValue{{0, 0, 0, 0}, {1, 6, 2, 7}}[vChoose("hashes", 2)]
	s := c17New(h)
	ops := 4
	if vThorough() {
		ops = 5
	}
	for i := 0; i < ops; i++ {
		n := 12
		if i == 0 {
			n = 4 // start with an insertion
		}
		switch c := vChoose("op", n); {
		case c < 4:
			s.insert(c)
		case c < 8:
			s.remove(c - 4)
		default:
			s.filter([]int{5, 10, 15, 8}[c-8])
		}
		s.check()
	}
}

// VH_C17_growth: the table grows while hashes collide, then elements go and come back.
//
//verif:bounds 6 or 13 keys (thorough up to 30, 4 table sizes) with 3 (thorough 5) concrete strides including all equal, one of the hashes (2 or 3 places) anywhere in [0,255]; removals and a filter, then reinsertion
//verif:time 200
func VH_C17_growth() {
	n := []int{6, 13}[vChoose("few", 2)]
	strides, places := []HashValue{0, 5, 4294967291}, 2
	if vThorough() {
		n = []int{4, 5, 6, 12, 13, 30}[vChoose("n", 6)]
		strides, places = []HashValue{0, 1, 5, 13, 4294967291}, 3
	}
	stride := strides[vChoose("stride", len(strides))]
	hash := make([]HashValue, n)
	for k := range hash {
		hash[k] = HashValue(k) * stride
	}
	at := vChoose("at", places)
	hash[(at*n/3+1)%n] = HashValue(vUint("h", 0, 255))
	s := c17New(hash)
	for k := range hash {
		s.insert(k)
		s.insert(k)
	}
	s.check()
	for k := 0; k < n; k += 2 {
		s.remove(k)
	}
	s.remove(0)
	s.check()
	s.filter(0x2c6ec6ec | 2)
	s.check()
	for k := range hash {
		s.insert(k)
	}
	s.check()
}

// VH_C17_each: elements may be removed while they are visited.
//
//verif:bounds 3 keys with any 64-bit hashes in a table of 5; the visited element is removed for any subset of keys
//verif:time 100
func VH_C17_each() {
	hash := make([]HashValue, 3)
	for i := range hash {
		hash[i] = HashValue(vUint("h", 0, ^uint(0)))
	}
	mask := vChoose("mask", 8)
	s := c17New(hash)
	for k := range hash {
		s.insert(k)
	}
	n := 0
	s.set.Each(func(e *c17Elem) {
		n++
		if mask>>uint(e.key)&1 == 1 {
			s.remove(e.key)
		}
	})
	vAssert(n == 3, "each visits every element although the visited one is removed")
	s.check()
}
