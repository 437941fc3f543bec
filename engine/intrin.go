package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, fr *frame, fn *ssa.Function, args []value) value

var stdIntrinsics map[string]intrinsicFn
var harnessIntrinsics map[string]intrinsicFn

func intrinsic(fn *ssa.Function) intrinsicFn {
	if fn.Pkg == nil {
		return nil
	}
	path := fn.Pkg.Pkg.Path()
	if path == cpPath {
		if n := fn.Name(); len(n) > 1 && n[0] == 'v' && n[1] >= 'A' && n[1] <= 'Z' && fn.Signature.Recv() == nil {
			return harnessIntrinsics[n]
		}
		return nil
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) value { return nil }
	}
	if h, ok := stdIntrinsics[fn.String()]; ok {
		return h
	}
	switch path {
	case "fmt", "log":
		return opaqueIO
	}
	return nil
}

func opaqueIO(p *Path, fr *frame, fn *ssa.Function, args []value) value {
	switch fn.Name() {
	case "Sprint", "Sprintf", "Sprintln":
		return "<fmt>"
	case "Errorf":
		return iface{t: types.Typ[types.String], v: "<error>"}
	case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln":
		panic(targetPanic{"log." + fn.Name()})
	}
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	if fn.Signature.Results().Len() == 2 {
		return tuple{uint64(0), iface{}}
	}
	return zero(fn.Signature.Results())
}

func init() {
	f1 := func(g func(p *Path, v value) value) intrinsicFn {
		return func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return g(p, a[0]) }
	}
	f2 := func(g func(p *Path, a, b value) value) intrinsicFn {
		return func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return g(p, a[0], a[1]) }
	}
	cosf := func(p *Path, v value) value { c, _ := p.trig(v); return c }
	sinf := func(p *Path, v value) value { _, s := p.trig(v); return s }
	stdIntrinsics = map[string]intrinsicFn{
		"math.Sqrt":  f1((*Path).fsqrt),
		"math.sqrt":  f1((*Path).fsqrt),
		"math.Abs":   f1((*Path).fabs),
		"math.Floor": f1((*Path).ffloor),
		"math.Trunc": f1((*Path).ftrunc),
		"math.Ceil":  f1(func(p *Path, v value) value { return p.fneg(p.ffloor(p.fneg(v))) }),
		"math.Cos":   f1(cosf),
		"math.Sin":   f1(sinf),
		"math.Tan":   f1(func(p *Path, v value) value { c, s := p.trig(v); return p.fdiv(s, c) }),
		"math.Sincos": f1(func(p *Path, v value) value {
			c, s := p.trig(v)
			return tuple{s, c}
		}),
		"math.Acos":  f1((*Path).facos),
		"math.Exp":   f1((*Path).fexp),
		"math.Min":   f2((*Path).fmin),
		"math.Max":   f2((*Path).fmax),
		"math.Mod":   f2((*Path).fmod),
		"math.Pow":   f2((*Path).fpow),
		"math.Atan2": f2((*Path).fatan2),
		"math.Hypot": f2(func(p *Path, a, b value) value {
			return p.fsqrt(p.fadd(p.fmul(a, a), p.fmul(b, b)))
		}),
		"math.Dim": f2(func(p *Path, a, b value) value { return p.fmax(p.fsub(a, b), 0.0) }),
		"math.FMA": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return p.fadd(p.fmul(a[0], a[1]), a[2])
		},
		"math.Copysign": f2(func(p *Path, a, b value) value {
			if x, ok := a.(float64); ok {
				if y, ok := b.(float64); ok {
					return math.Copysign(x, y)
				}
			}
			m := p.fabs(a)
			if p.branch(p.fcmp("<", b, 0.0)) {
				return p.fneg(m)
			}
			return m
		}),
		"math.Signbit": f1(func(p *Path, v value) value {
			switch v := v.(type) {
			case float64:
				return math.Signbit(v)
			case *Term:
				return &Term{op: "fp.isNegative", args: []*Term{v}}
			}
			return boolVal(p.fcmp("<", v, 0.0))
		}),
		"math.Inf": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return math.Inf(int(int64(a[0].(uint64))))
		},
		"math.NaN": func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return math.NaN() },
		"math.IsNaN": f1(func(p *Path, v value) value {
			switch v := v.(type) {
			case float64:
				return v != v
			case *Term:
				return &Term{op: "fp.isNaN", args: []*Term{v}}
			}
			return false
		}),
		"math.IsInf": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			switch v := a[0].(type) {
			case float64:
				return math.IsInf(v, int(int64(a[1].(uint64))))
			case *Term:
				return &Term{op: "fp.isInfinite", args: []*Term{v}}
			}
			return false
		},
		"math.Float64bits": f1(func(p *Path, v value) value {
			if f, ok := v.(float64); ok {
				return math.Float64bits(f)
			}
			panic(unsupported("Float64bits of a symbolic value"))
		}),
		"math.Float64frombits": f1(func(p *Path, v value) value { return math.Float64frombits(v.(uint64)) }),

		"(*sync.Pool).Get": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			pool := p.nilCheck(a[0].(*value))
			if l := p.pools[pool]; len(l) > 0 {
				v := l[len(l)-1]
				p.pools[pool] = l[:len(l)-1]
				return v
			}
			st := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					f := (*pool).(structure)[i].(*closure)
					if f == nil {
						return iface{}
					}
					return p.call(fr, f, nil, 0)
				}
			}
			return iface{}
		},
		"(*sync.Pool).Put": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			pool := p.nilCheck(a[0].(*value))
			if a[1].(iface).t != nil {
				p.pools[pool] = append(p.pools[pool], a[1])
			}
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC"} {
		stdIntrinsics[n] = func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return nil }
	}

	harnessIntrinsics = map[string]intrinsicFn{
		"vFloat": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return p.inFloat(a[0].(string), a[1].(float64), a[2].(float64), false)
		},
		"vAngle": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			v := p.inFloat(a[0].(string), a[1].(float64), a[2].(float64), true)
			p.trig(v)
			return v
		},
		"vInt":  inInt(64, "int"),
		"vUint": inInt(64, "uint"),
		"vBool": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			n := p.uniq(a[0].(string))
			t := &Term{op: "var", sort: SBool, name: smtName(n)}
			p.vars = append(p.vars, t)
			in := &Input{Name: n, Kind: "bool", term: t}
			p.inputs = append(p.inputs, in)
			for _, pt := range p.pts {
				b, ok := pt.seed[n].(bool)
				if !ok {
					b = p.rng.Intn(2) == 0
				}
				pt.bools[t.name] = b
			}
			return t
		},
		"vChoose": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			n := p.uniq(a[0].(string))
			k := p.choose(int(int64(a[1].(uint64))))
			p.inputs = append(p.inputs, &Input{Name: n, Kind: "choice", val: fmt.Sprint(k)})
			return uint64(int64(k))
		},
		"vAssume": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			switch c := a[0].(type) {
			case bool:
				if !c {
					panic(pathPruned{})
				}
			case *Term:
				p.assume(c)
			}
			return nil
		},
		"vAssert": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			p.check(toBoolTerm(a[0]), a[1].(string))
			return nil
		},
		"vClose": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			p.closeTo(a[0], a[1], a[2].(float64), a[3].(string))
			return nil
		},
		"vCover": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			p.covers = append(p.covers, a[0].(string))
			return nil
		},
		"vTrace": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			p.traceVals = append(p.traceVals, traceEnt{a[0].(string), a[1]})
			return nil
		},
		"vMode": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			switch a[0].(string) {
			case "fp":
				p.fpMode = true
			case "ite":
				p.iteMode = true
			case "fork":
				p.iteMode = false
			default:
				panic(unsupported("mode"))
			}
			return nil
		},
		"vThorough": func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return p.ex.thorough },
		"vAnd": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return boolVal(mkAnd(boolArgs(a)...))
		},
		"vOr": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return boolVal(mkOr(boolArgs(a)...))
		},
		"vNot": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return boolVal(mkNot(toBoolTerm(a[0])))
		},
		"vImplies": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return boolVal(mkOr(mkNot(toBoolTerm(a[0])), toBoolTerm(a[1])))
		},
		"vIff": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return boolVal(mkEqBool(toBoolTerm(a[0]), toBoolTerm(a[1])))
		},
		"vIte": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			return p.fite(toBoolTerm(a[0]), a[1], a[2])
		},
		"vPanics": func(p *Path, fr *frame, fn *ssa.Function, a []value) (res value) {
			d := p.depth
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); ok {
						p.depth = d
						res = true
						return
					}
					panic(r)
				}
			}()
			p.call(fr, a[0], nil, 0)
			return false
		},
		"vSteps": func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
			p.maxSteps = p.steps + int64(a[0].(uint64))
			return nil
		},
		"vSymbolic": func(p *Path, fr *frame, fn *ssa.Function, a []value) value { return true },
	}
}

func sortSlice(p *Path, fr *frame, fn *ssa.Function, a []value) value {
	s := a[0].(iface).v.([]value)
	// stable insertion sort through the caller's less function
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := p.call(fr, a[1], []value{uint64(int64(j)), uint64(int64(j - 1))}, 0)
			if !fr.cond(r) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			store(&s[j], y)
			store(&s[j-1], x)
		}
	}
	return nil
}

func boolArgs(a []value) []*Term {
	var ts []*Term
	for _, x := range a {
		if l, ok := x.([]value); ok {
			for _, e := range l {
				ts = append(ts, toBoolTerm(e))
			}
			continue
		}
		ts = append(ts, toBoolTerm(x))
	}
	return ts
}

type traceEnt struct {
	name string
	v    value
}

func smtName(n string) string {
	var b strings.Builder
	b.WriteString("in_")
	for _, r := range n {
		if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (p *Path) inFloat(name string, lo, hi float64, ang bool) value {
	n := p.uniq(name)
	in := &Input{Name: n, Kind: "float", Lo: lo, Hi: hi, ang: ang}
	p.inputs = append(p.inputs, in)
	if p.fpMode {
		t := &Term{op: "var", sort: SFP, name: smtName(n)}
		in.term = t
		p.vars = append(p.vars, t)
		// lo > hi (NaN bounds) means unconstrained, including NaN
		if lo == lo {
			p.varDefs[t.name] = append(p.varDefs[t.name], mkOp("fp.leq", SBool, 0, mkFPConst(lo), t))
		}
		if hi == hi {
			p.varDefs[t.name] = append(p.varDefs[t.name], mkOp("fp.leq", SBool, 0, t, mkFPConst(hi)))
		}
		return t
	}
	a := p.newAtom("in", smtName(n), ivl{lo, hi})
	a.input = in
	in.atom = a.id
	p.ptAtom(a)
	x := polyAtom(a.id)
	if !math.IsInf(lo, 0) {
		a.defs = append(a.defs, mkRealCmp("le", polyAdd(x.neg(), polyConst(lo))))
	}
	if !math.IsInf(hi, 0) {
		a.defs = append(a.defs, mkRealCmp("le", polyAdd(x, polyConst(-hi))))
	}
	return rv(x)
}

func inInt(w int, kind string) intrinsicFn {
	return func(p *Path, fr *frame, fn *ssa.Function, a []value) value {
		n := p.uniq(a[0].(string))
		t := &Term{op: "var", sort: SBV, w: w, name: smtName(n)}
		in := &Input{Name: n, Kind: kind, term: t}
		p.inputs = append(p.inputs, in)
		p.vars = append(p.vars, t)
		lo, hi := a[1].(uint64), a[2].(uint64)
		op := "bvule"
		if kind == "int" {
			op = "bvsle"
			in.Lo = float64(int64(lo))
		} else {
			in.Lo = float64(lo)
		}
		p.varDefs[t.name] = []*Term{mkOp(op, SBool, 0, mkBVConst(lo, w), t), mkOp(op, SBool, 0, t, mkBVConst(hi, w))}
		return t
	}
}

// closeTo asserts |a-b| <= tol.
func (p *Path) closeTo(a, b value, tol float64, label string) {
	p.traceVals = append(p.traceVals, traceEnt{label, a})
	if p.isFP(a, b) {
		d := mkOp("fp.abs", SFP, 0, p.fpOp("fp.sub", a, b).(*Term))
		p.check(mkOr(mkOp("fp.leq", SBool, 0, d, mkFPConst(tol)), mkOp("fp.eq", SBool, 0, p.toFP(a), p.toFP(b))), label)
		return
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		p.check(mkBool(x == y || math.Abs(x-y) <= tol), label)
		return
	}
	if (xc && (x != x || math.Abs(x) >= hugeConst)) || (yc && (y != y || math.Abs(y) >= hugeConst)) {
		p.check(tFalse, label)
		return
	}
	d := p.fsub(a, b)
	mk := func(tol float64) *Term { return mkAnd(p.fcmp("<=", d, tol), p.fcmp(">=", d, -tol)) }
	var strong []*Term
	for _, k := range []float64{0.1, 1e-3} {
		if k > tol {
			strong = append(strong, p.fcmp(">=", d, k), p.fcmp("<=", d, -k))
		}
	}
	t := mk(tol)
	if !p.inPrefix() && p.noise(d, tol) {
		p.asserts++
		p.ex.assertTriv.Add(1)
		return
	}
	p.check(t, label, strong...)
}

// noise: the difference is bounded by tol by interval arithmetic alone.
func (p *Path) noise(d value, tol float64) bool {
	r, ok := d.(*RealV)
	if !ok {
		return false
	}
	iv := p.realIv(r)
	return iv.lo >= -tol && iv.hi <= tol
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []value) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case []value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		}
	case "append":
		s := args[0].([]value)
		if len(args) == 1 {
			return s
		}
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string:
			for i := 0; i < len(y); i++ {
				add = append(add, uint64(y[i]))
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			cp := make([]value, len(add))
			for i := range add {
				cp[i] = copyVal(add[i])
			}
			for i := range cp {
				r[len(s)+i] = cp[i]
			}
			return r
		}
		// growth as the runtime does it (size classes aside)
		nc := cap(s) * 2
		if cap(s) >= 256 {
			nc = cap(s) + (cap(s)+768)/4
		}
		if nc < n {
			nc = n
		}
		r := make([]value, n, nc)
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i := range add {
			r[len(s)+i] = copyVal(add[i])
		}
		if sl, ok := b.Type().(*types.Signature); ok && sl.Params().Len() > 0 {
			if st, ok := sl.Params().At(0).Type().Underlying().(*types.Slice); ok {
				full := r[:nc]
				for i := n; i < nc; i++ {
					full[i] = zero(st.Elem())
				}
			}
		}
		return r
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		case string:
			for i := 0; i < len(y); i++ {
				src = append(src, uint64(y[i]))
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			d[i] = tmp[i]
		}
		return uint64(n)
	case "delete":
		p.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				*x = mapV{m: map[string]int{}}
			}
		case []value:
			st := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
			for i := range x {
				x[i] = zero(st.Elem())
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			t := b.Type().(*types.Signature).Params().At(0).Type()
			if isFloat(t) {
				if b.Name() == "min" {
					r = p.fmin(r, y)
				} else {
					r = p.fmax(r, y)
				}
				continue
			}
			op := tokLSS
			if b.Name() == "max" {
				op = tokGTR
			}
			if fr.cond(p.binop(op, t, y, r, t)) {
				r = y
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// recover() in a deferred call: the panicking frame is the caller of the deferred function
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			v := fr.caller.panicV
			fr.caller.panicking = false
			fr.caller.panicV = nil
			if i, ok := v.(iface); ok {
				return i
			}
			return iface{t: types.Typ[types.String], v: fmt.Sprint(v)}
		}
		return iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if args[0].(*value) == nil {
			panic(targetPanic{"value method called using nil pointer"})
		}
		return args[0]
	}
	panic(unsupported("builtin " + b.Name()))
}
