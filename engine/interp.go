package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type value interface{}
type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}
type unsafePtr struct{ p *value }
type mapV struct {
	keys []value
	m    map[string]int // encoded key -> index in keys/vals (or -1)
	vals []value
	dead []bool
	n    int
}

type targetPanic struct{ v value }

// Interp holds what is shared by all paths: program, per-function register maps.
type Interp struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	regs    sync.Map // *ssa.Function -> map[ssa.Value]int
	sizes   types.Sizes
	used    sync.Map // *ssa.Function -> bool (functions executed symbolically)
	buildMu sync.Mutex
}

type frame struct {
	p         *Path
	fn        *ssa.Function
	regs      map[ssa.Value]int
	env       []value
	caller    *frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []func()
	result    value
	panicking bool
	panicV    value
}

func (in *Interp) regsOf(fn *ssa.Function) map[ssa.Value]int {
	if r, ok := in.regs.Load(fn); ok {
		return r.(map[ssa.Value]int)
	}
	in.buildMu.Lock()
	defer in.buildMu.Unlock()
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	m := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { m[v] = n; n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.regs.Store(fn, m)
	return m
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// zero returns the zero value of a type.
func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return 0.0
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Map:
		return (*mapV)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Chan:
		return nil
	}
	panic(unsupported("zero value of " + t.String()))
}

// copyVal copies aggregates (structs and arrays have value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

func load(p *value) value {
	return copyVal(*p)
}

// store writes v to *p in place (element-wise for aggregates, so interior pointers stay valid).
func store(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Function:
		return &closure{fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return fr.p.global(v)
	}
	return fr.env[fr.regs[v]]
}

func (p *Path) global(g *ssa.Global) *value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	var v value = zero(deref(g.Type()))
	c := &v
	p.globals[g] = c
	return c
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// type parameter or so
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsInteger != 0:
		if t.Info()&types.IsUnsigned != 0 {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return u
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return uint64(i)
	case t.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	}
	panic(unsupported("constant " + c.String()))
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func normInt(v uint64, w int, signed bool) uint64 {
	if w == 64 {
		return v
	}
	if signed {
		return uint64(sext(v, w))
	}
	return maskW(v, w)
}

// call invokes fn with args; the heart of the interpreter.
func (p *Path) call(caller *frame, fv value, args []value, pos token.Pos) value {
	switch f := fv.(type) {
	case *closure:
		if f == nil {
			panic(targetPanic{"runtime error: invalid memory address or nil pointer dereference (nil func)"})
		}
		return p.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(caller, f, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if h := intrinsic(fn); h != nil {
		return h(p, caller, fn, args)
	}
	in := p.in
	regs := in.regsOf(fn)
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fn.String()))
	}
	if fn.Pkg == in.pkg || (fn.Origin() != nil && fn.Origin().Pkg == in.pkg) || fn.Pkg == nil {
		if _, ok := in.used.Load(fn); !ok {
			in.used.Store(fn, true)
		}
	}
	p.depth++
	if p.depth > 400 {
		panic(pathLimit("recursion"))
	}
	fr := &frame{p: p, fn: fn, regs: regs, env: make([]value, len(regs)), caller: caller}
	for i, a := range args {
		fr.env[i] = a
	}
	for i, a := range env {
		fr.env[len(fn.Params)+i] = a
	}
	fr.run()
	p.depth--
	return fr.result
}

func (fr *frame) run() {
	if fr.fn.Recover == nil && !hasDefer(fr.fn) {
		fr.exec()
		return
	}
	// function with defers: emulate panics/recover
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = true
				fr.panicV = tp.v
			}
		}()
		fr.exec()
	}()
	if fr.panicking {
		fr.runDefers()
		if fr.panicking {
			panic(targetPanic{fr.panicV})
		}
		if fr.fn.Recover != nil {
			fr.prev = nil
			fr.block = fr.fn.Recover
			fr.loop()
		}
	}
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = tp.v
				}
			}()
			d()
		}()
	}
}

func (fr *frame) exec() {
	fr.block = fr.fn.Blocks[0]
	fr.loop()
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.regs[v]] = x }

func (fr *frame) loop() {
	p := fr.p
	for {
		b := fr.block
		instrs := b.Instrs
		// phis first, evaluated in parallel
		i := 0
		if len(instrs) > 0 {
			if _, ok := instrs[0].(*ssa.Phi); ok {
				edge := 0
				for k, pr := range b.Preds {
					if pr == fr.prev {
						edge = k
						break
					}
				}
				var tmp []value
				for ; i < len(instrs); i++ {
					ph, ok := instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					tmp = append(tmp, fr.get(ph.Edges[edge]))
				}
				for k := 0; k < i; k++ {
					fr.set(instrs[k].(*ssa.Phi), tmp[k])
				}
			}
		}
		p.steps += int64(len(instrs))
		if p.steps > p.maxSteps {
			panic(pathLimit("steps"))
		}
		if p.steps&0xffff < int64(len(instrs)) && p.ex.expired() {
			panic(pathLimit("time"))
		}
	body:
		for ; i < len(instrs); i++ {
			switch x := instrs[i].(type) {
			case *ssa.DebugRef:
			case *ssa.If:
				c := fr.cond(fr.get(x.Cond))
				fr.prev = b
				if c {
					fr.block = b.Succs[0]
				} else {
					fr.block = b.Succs[1]
				}
				break body
			case *ssa.Jump:
				fr.prev = b
				fr.block = b.Succs[0]
				break body
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
				case 1:
					fr.result = fr.get(x.Results[0])
				default:
					t := make(tuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = fr.get(r)
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicking {
					panic(targetPanic{fr.panicV})
				}
			case *ssa.Panic:
				panic(targetPanic{fr.get(x.X)})
			default:
				fr.step(instrs[i])
			}
		}
	}
}

// cond turns a boolean value into a concrete branch decision.
func (fr *frame) cond(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return fr.p.branch(v)
	}
	panic(unsupported(fmt.Sprintf("condition %T", v)))
}

func (p *Path) nilCheck(v *value) *value {
	if v == nil {
		panic(targetPanic{"runtime error: invalid memory address or nil pointer dereference"})
	}
	return v
}

func (fr *frame) step(instr ssa.Instruction) {
	p := fr.p
	switch x := instr.(type) {
	case *ssa.Alloc:
		var v value = zero(deref(x.Type()))
		fr.set(x, &v)
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, p.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fv, args := fr.prepare(&x.Call)
		fr.set(x, p.call(fr, fv, args, x.Pos()))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, p.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, p.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.Defer:
		fv, args := fr.prepare(&x.Call)
		fr.defers = append(fr.defers, func() { p.call(fr, fv, args, x.Pos()) })
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(tuple)[x.Index])
	case *ssa.Field:
		fr.set(x, fr.get(x.X).(structure)[x.Field])
	case *ssa.FieldAddr:
		s := p.nilCheck(fr.get(x.X).(*value))
		fr.set(x, &(*s).(structure)[x.Field])
	case *ssa.Index:
		switch a := fr.get(x.X).(type) {
		case array:
			fr.set(x, a[p.index(fr.get(x.Index), x.Index.Type(), len(a))])
		case string:
			fr.set(x, uint64(a[p.index(fr.get(x.Index), x.Index.Type(), len(a))]))
		default:
			panic(unsupported("index"))
		}
	case *ssa.IndexAddr:
		switch a := fr.get(x.X).(type) {
		case []value:
			fr.set(x, &a[p.index(fr.get(x.Index), x.Index.Type(), len(a))])
		case *value:
			arr := (*p.nilCheck(a)).(array)
			fr.set(x, &arr[p.index(fr.get(x.Index), x.Index.Type(), len(arr))])
		default:
			panic(unsupported(fmt.Sprintf("indexaddr %T", a)))
		}
	case *ssa.Lookup:
		switch m := fr.get(x.X).(type) {
		case *mapV:
			v, ok := p.mapGet(m, fr.get(x.Index))
			if !ok {
				v = zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				fr.set(x, tuple{v, ok})
			} else {
				fr.set(x, v)
			}
		case string:
			fr.set(x, uint64(m[p.index(fr.get(x.Index), x.Index.Type(), len(m))]))
		default:
			panic(unsupported("lookup"))
		}
	case *ssa.MakeClosure:
		env := make([]value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(x, &closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		fr.set(x, iface{t: x.X.Type(), v: fr.get(x.X)})
	case *ssa.MakeMap:
		fr.set(x, &mapV{m: map[string]int{}})
	case *ssa.MakeSlice:
		n := int(int64(p.concInt(fr.get(x.Len), x.Len.Type())))
		c := int(int64(p.concInt(fr.get(x.Cap), x.Cap.Type())))
		if n < 0 || c < n || c > 1<<24 {
			panic(targetPanic{"runtime error: makeslice: len out of range"})
		}
		s := make([]value, n, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		full := s[:c]
		for i := range full {
			full[i] = zero(et)
		}
		fr.set(x, s)
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*mapV)
		if m == nil {
			panic(targetPanic{"assignment to entry in nil map"})
		}
		p.mapSet(m, fr.get(x.Key), fr.get(x.Value))
	case *ssa.Next:
		fr.set(x, fr.get(x.Iter).(func() value)())
	case *ssa.Range:
		fr.set(x, p.rangeIter(fr.get(x.X), x.X.Type()))
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Store:
		store(p.nilCheck(fr.get(x.Addr).(*value)), fr.get(x.Val))
	case *ssa.TypeAssert:
		fr.set(x, p.typeAssert(x, fr.get(x.X).(iface)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", instr)))
	}
}

func (fr *frame) prepare(c *ssa.CallCommon) (fv value, args []value) {
	v := fr.get(c.Value)
	if c.Method == nil {
		fv = v
	} else {
		recv := v.(iface)
		if recv.t == nil {
			panic(targetPanic{"runtime error: invalid memory address or nil pointer dereference (nil interface)"})
		}
		f := fr.p.in.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + recv.t.String()))
		}
		fv = &closure{fn: f}
		args = append(args, recv.v)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return
}

func (p *Path) typeAssert(x *ssa.TypeAssert, v iface) value {
	ok := false
	var r value
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
			r = v
		} else {
			ok = types.Identical(v.t, x.AssertedType)
			r = v.v
		}
	}
	if x.CommaOk {
		if !ok {
			r = zero(x.AssertedType)
		}
		return tuple{r, ok}
	}
	if !ok {
		panic(targetPanic{"interface conversion: type assertion failed"})
	}
	return r
}

// index checks bounds and returns a concrete index (forking over feasible values when symbolic).
func (p *Path) index(v value, t types.Type, n int) int {
	switch v := v.(type) {
	case uint64:
		w, signed, _ := intInfo(t)
		_ = w
		if signed {
			if int64(v) < 0 || int64(v) >= int64(n) {
				panic(targetPanic{fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(v), n)})
			}
		} else if v >= uint64(n) {
			panic(targetPanic{fmt.Sprintf("runtime error: index out of range [%d] with length %d", v, n)})
		}
		return int(v)
	case *Term:
		inb := mkOp("bvult", SBool, 0, v, mkBVConst(uint64(n), v.w))
		if !p.branch(inb) {
			panic(targetPanic{"runtime error: index out of range (symbolic)"})
		}
		return int(p.concInt(v, t))
	}
	panic(unsupported("index value"))
}

// concInt makes an integer concrete, forking over its feasible values.
func (p *Path) concInt(v value, t types.Type) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		for tries := 0; tries < 300; tries++ {
			k := p.data(func() int64 {
				nv := p.bvProbe(v)
				return int64(nv)
			})
			c := mkBVConst(uint64(k), v.w)
			if p.branch(mkOp("=", SBool, 0, v, c)) {
				_, signed, _ := intInfo(t)
				return normInt(c.bv, v.w, signed)
			}
		}
		panic(pathLimit("too many values for a symbolic integer"))
	}
	panic(unsupported(fmt.Sprintf("integer %T", v)))
}

// bvProbe asks the solver for a feasible value of a bit-vector term.
func (p *Path) bvProbe(t *Term) uint64 {
	if t.op == "const" {
		return t.bv
	}
	name := fmt.Sprintf("probe_%d", len(p.vars))
	v := &Term{op: "var", sort: SBV, w: t.w, name: name}
	p.vars = append(p.vars, v)
	c := p.build(mkOp("=", SBool, 0, v, t))
	r, m := p.w.solver.Query(c.body, c.names, c.kind, true, 2)
	p.vars = p.vars[:len(p.vars)-1]
	if r != Sat {
		panic(unsupported("no value for symbolic integer"))
	}
	u, _ := bvValue(m[name])
	return u
}

func (fr *frame) unop(x *ssa.UnOp) value {
	p := fr.p
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return load(p.nilCheck(v.(*value)))
	case token.NOT:
		switch v := v.(type) {
		case bool:
			return !v
		case *Term:
			return mkNot(v)
		}
	case token.SUB:
		if isFloat(x.Type()) {
			return p.fneg(v)
		}
		w, s, _ := intInfo(x.Type())
		switch v := v.(type) {
		case uint64:
			return normInt(-v, w, s)
		case *Term:
			return mkOp("bvneg", SBV, w, v)
		}
	case token.XOR:
		w, s, _ := intInfo(x.Type())
		switch v := v.(type) {
		case uint64:
			return normInt(^v, w, s)
		case *Term:
			return mkOp("bvnot", SBV, w, v)
		}
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (p *Path) toBV(v value, w int) *Term {
	switch v := v.(type) {
	case uint64:
		return mkBVConst(v, w)
	case *Term:
		return v
	}
	panic(unsupported("toBV"))
}

func toBoolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return mkBool(v)
	case *Term:
		return v
	}
	panic(unsupported("toBoolTerm"))
}

func boolVal(t *Term) value {
	switch t.op {
	case "true":
		return true
	case "false":
		return false
	}
	return t
}

func (p *Path) binop(op token.Token, t types.Type, a, b value, ty types.Type) value {
	switch op {
	case token.EQL:
		return boolVal(p.equal(a, b, t, ty))
	case token.NEQ:
		return boolVal(mkNot(p.equal(a, b, t, ty)))
	}
	if isFloat(t) {
		var r value
		switch op {
		case token.ADD:
			r = p.fadd(a, b)
		case token.SUB:
			r = p.fsub(a, b)
		case token.MUL:
			r = p.fmul(a, b)
		case token.QUO:
			r = p.fdiv(a, b)
		case token.LSS:
			return boolVal(p.fcmp("<", a, b))
		case token.LEQ:
			return boolVal(p.fcmp("<=", a, b))
		case token.GTR:
			return boolVal(p.fcmp(">", a, b))
		case token.GEQ:
			return boolVal(p.fcmp(">=", a, b))
		}
		if f, ok := r.(float64); ok && t.Underlying().(*types.Basic).Kind() == types.Float32 {
			r = float64(float32(f))
		}
		if r != nil {
			return r
		}
		panic(unsupported("float op " + op.String()))
	}
	if s, ok := a.(string); ok {
		u := b.(string)
		switch op {
		case token.ADD:
			return s + u
		case token.LSS:
			return s < u
		case token.LEQ:
			return s <= u
		case token.GTR:
			return s > u
		case token.GEQ:
			return s >= u
		}
	}
	w, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("binop on " + t.String()))
	}
	x, xc := a.(uint64)
	y, yc := b.(uint64)
	if xc && yc {
		switch op {
		case token.ADD:
			return normInt(x+y, w, signed)
		case token.SUB:
			return normInt(x-y, w, signed)
		case token.MUL:
			return normInt(x*y, w, signed)
		case token.QUO, token.REM:
			if y == 0 {
				panic(targetPanic{"runtime error: integer divide by zero"})
			}
			var r uint64
			if signed {
				if op == token.QUO {
					if int64(y) == -1 {
						r = -x
					} else {
						r = uint64(int64(x) / int64(y))
					}
				} else {
					if int64(y) == -1 {
						r = 0
					} else {
						r = uint64(int64(x) % int64(y))
					}
				}
			} else if op == token.QUO {
				r = x / y
			} else {
				r = x % y
			}
			return normInt(r, w, signed)
		case token.AND:
			return normInt(x&y, w, signed)
		case token.OR:
			return normInt(x|y, w, signed)
		case token.XOR:
			return normInt(x^y, w, signed)
		case token.AND_NOT:
			return normInt(x&^y, w, signed)
		case token.SHL:
			if y >= 64 {
				return uint64(0)
			}
			return normInt(x<<y, w, signed)
		case token.SHR:
			if signed {
				if y >= 63 {
					y = 63
				}
				return uint64(int64(x) >> y)
			}
			if y >= 64 {
				return uint64(0)
			}
			return x >> y
		case token.LSS:
			if signed {
				return int64(x) < int64(y)
			}
			return x < y
		case token.LEQ:
			if signed {
				return int64(x) <= int64(y)
			}
			return x <= y
		case token.GTR:
			if signed {
				return int64(x) > int64(y)
			}
			return x > y
		case token.GEQ:
			if signed {
				return int64(x) >= int64(y)
			}
			return x >= y
		}
		panic(unsupported("int op " + op.String()))
	}
	if op == token.SHL || op == token.SHR {
		wy, _, _ := intInfo(ty)
		ta, tb := p.toBV(a, w), p.toBV(b, wy)
		if wy < w {
			tb = mkOp(fmt.Sprintf("(_ zero_extend %d)", w-wy), SBV, w, tb)
		} else if wy > w {
			panic(unsupported("wide shift"))
		}
		switch {
		case op == token.SHL:
			return mkOp("bvshl", SBV, w, ta, tb)
		case signed:
			return mkOp("bvashr", SBV, w, ta, tb)
		default:
			return mkOp("bvlshr", SBV, w, ta, tb)
		}
	}
	ta, tb := p.toBV(a, w), p.toBV(b, w)
	ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
	if o, ok := ops[op]; ok {
		return bvVal(mkOp(o, SBV, w, ta, tb), signed)
	}
	lt, le := "bvult", "bvule"
	if signed {
		lt, le = "bvslt", "bvsle"
	}
	switch op {
	case token.AND_NOT:
		return mkOp("bvand", SBV, w, ta, mkOp("bvnot", SBV, w, tb))
	case token.QUO, token.REM:
		if p.branch(mkOp("=", SBool, 0, tb, mkBVConst(0, w))) {
			panic(targetPanic{"runtime error: integer divide by zero"})
		}
		o := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
		return mkOp(o, SBV, w, ta, tb)
	case token.LSS:
		return boolVal(mkOp(lt, SBool, 0, ta, tb))
	case token.LEQ:
		return boolVal(mkOp(le, SBool, 0, ta, tb))
	case token.GTR:
		return boolVal(mkOp(lt, SBool, 0, tb, ta))
	case token.GEQ:
		return boolVal(mkOp(le, SBool, 0, tb, ta))
	}
	panic(unsupported("symbolic int op " + op.String()))
}

func bvVal(t *Term, signed bool) value {
	if t.op == "const" {
		return normInt(t.bv, t.w, signed)
	}
	return t
}

// equal builds the truth value of a == b.
func (p *Path) equal(a, b value, t, tb types.Type) *Term {
	switch x := a.(type) {
	case float64, *RealV:
		return p.fcmp("==", a, b)
	case *Term:
		switch x.sort {
		case SFP:
			return p.fcmp("==", a, b)
		case SBool:
			return mkEqBool(x, toBoolTerm(b))
		default:
			return mkOp("=", SBool, 0, x, p.toBV(b, x.w))
		}
	case bool:
		if y, ok := b.(bool); ok {
			return mkBool(x == y)
		}
		return mkEqBool(mkBool(x), b.(*Term))
	case uint64:
		if y, ok := b.(uint64); ok {
			return mkBool(x == y)
		}
		y := b.(*Term)
		return mkOp("=", SBool, 0, mkBVConst(x, y.w), y)
	case string:
		return mkBool(x == b.(string))
	case *value:
		return mkBool(x == b.(*value))
	case unsafePtr:
		return mkBool(x == b.(unsafePtr))
	case structure:
		y := b.(structure)
		var ts []*Term
		st := t.Underlying().(*types.Struct)
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			ft := st.Field(i).Type()
			ts = append(ts, p.equal(x[i], y[i], ft, ft))
		}
		return mkAnd(ts...)
	case array:
		y := b.(array)
		var ts []*Term
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			ts = append(ts, p.equal(x[i], y[i], et, et))
		}
		return mkAnd(ts...)
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(unsupported("mixed interface comparison"))
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return p.equal(x.v, y.v, x.t, y.t)
	case []value:
		return mkBool(x == nil && b.([]value) == nil)
	case *mapV:
		return mkBool(x == nil && b.(*mapV) == nil)
	case *closure:
		y, _ := b.(*closure)
		return mkBool(x == nil && y == nil)
	case nil:
		return mkBool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("equality on %T", a)))
}

func (p *Path) convert(from, to types.Type, v value) value {
	ut := to.Underlying()
	if _, ok := v.(*value); ok {
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return unsafePtr{v.(*value)}
		}
		return v
	}
	if u, ok := v.(unsafePtr); ok {
		if _, ok := ut.(*types.Pointer); ok {
			return u.p
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.Uintptr {
			return p.addrOf(u.p)
		}
		return v
	}
	tb, ok := ut.(*types.Basic)
	if !ok {
		// slices: string <-> []byte
		if s, ok := v.(string); ok {
			if st, ok := ut.(*types.Slice); ok {
				var out []value
				if b, _ := st.Elem().Underlying().(*types.Basic); b != nil && b.Kind() == types.Uint8 {
					for i := 0; i < len(s); i++ {
						out = append(out, uint64(s[i]))
					}
				} else {
					for _, r := range s {
						out = append(out, uint64(int64(r)))
					}
				}
				return out
			}
		}
		return v
	}
	if isFloat(to) {
		switch x := v.(type) {
		case float64:
			if tb.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		case *RealV:
			return x
		case *Term:
			if x.sort == SFP {
				return x
			}
			u := p.concInt(x, from)
			return p.convert(from, to, u)
		case uint64:
			_, signed, _ := intInfo(from)
			if signed {
				return float64(int64(x))
			}
			return float64(x)
		}
	}
	if w, signed, ok := intInfo(to); ok {
		switch x := v.(type) {
		case uint64:
			return normInt(x, w, signed)
		case float64:
			if signed {
				return normInt(uint64(int64(x)), w, signed)
			}
			if x >= 0 {
				return normInt(uint64(x), w, signed)
			}
			return normInt(uint64(int64(x)), w, signed)
		case *RealV:
			f := p.ftrunc(x).(float64)
			return normInt(uint64(int64(f)), w, signed)
		case *Term:
			if x.sort != SBV {
				panic(unsupported("FP to int"))
			}
			_, fs, _ := intInfo(from)
			switch {
			case x.w == w:
				return x
			case x.w > w:
				return mkOp(fmt.Sprintf("(_ extract %d 0)", w-1), SBV, w, x)
			case fs:
				return mkOp(fmt.Sprintf("(_ sign_extend %d)", w-x.w), SBV, w, x)
			default:
				return mkOp(fmt.Sprintf("(_ zero_extend %d)", w-x.w), SBV, w, x)
			}
		}
	}
	if tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case string:
			return x
		case uint64:
			return string(rune(x))
		case []value:
			var b strings.Builder
			for _, e := range x {
				b.WriteByte(byte(e.(uint64)))
			}
			return b.String()
		}
	}
	if tb.Info()&types.IsBoolean != 0 {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

// addrOf gives every object a deterministic address.
func (p *Path) addrOf(v *value) uint64 {
	if v == nil {
		return 0
	}
	if a, ok := p.addrs[v]; ok {
		return a
	}
	p.nextAdr += 0x140
	p.addrs[v] = p.nextAdr
	return p.nextAdr
}

func (fr *frame) slice(x *ssa.Slice) value {
	p := fr.p
	idx := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(int64(p.concInt(fr.get(v), v.Type())))
	}
	bad := func() { panic(targetPanic{"runtime error: slice bounds out of range"}) }
	switch a := fr.get(x.X).(type) {
	case string:
		lo, hi := idx(x.Low, 0), idx(x.High, len(a))
		if lo < 0 || hi < lo || hi > len(a) {
			bad()
		}
		return a[lo:hi]
	case []value:
		lo, hi := idx(x.Low, 0), idx(x.High, len(a))
		mx := idx(x.Max, cap(a))
		if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
			bad()
		}
		return a[lo:hi:mx]
	case *value:
		arr := []value((*p.nilCheck(a)).(array))
		lo, hi := idx(x.Low, 0), idx(x.High, len(arr))
		mx := idx(x.Max, cap(arr))
		if lo < 0 || hi < lo || mx < hi || mx > cap(arr) {
			bad()
		}
		return arr[lo:hi:mx]
	}
	panic(unsupported("slice"))
}

// ---- maps ----

func (p *Path) keyOf(k value) string {
	switch k := k.(type) {
	case uint64:
		return fmt.Sprintf("i%d", k)
	case bool:
		return fmt.Sprintf("b%v", k)
	case string:
		return "s" + k
	case float64:
		if k == 0 {
			k = 0
		}
		return fmt.Sprintf("f%x", math.Float64bits(k))
	case *value:
		return fmt.Sprintf("p%d", p.addrOf(k))
	case unsafePtr:
		return fmt.Sprintf("p%d", p.addrOf(k.p))
	case structure:
		var b strings.Builder
		for _, e := range k {
			b.WriteString(p.keyOf(e) + ",")
		}
		return "{" + b.String() + "}"
	case array:
		var b strings.Builder
		for _, e := range k {
			b.WriteString(p.keyOf(e) + ",")
		}
		return "[" + b.String() + "]"
	case iface:
		if k.t == nil {
			return "nil"
		}
		return k.t.String() + ":" + p.keyOf(k.v)
	}
	panic(unsupported(fmt.Sprintf("symbolic or unhashable map key %T", k)))
}

func (p *Path) mapGet(m *mapV, k value) (value, bool) {
	if m == nil {
		return nil, false
	}
	i, ok := m.m[p.keyOf(k)]
	if !ok {
		return nil, false
	}
	return copyVal(m.vals[i]), true
}

func (p *Path) mapSet(m *mapV, k, v value) {
	ks := p.keyOf(k)
	if i, ok := m.m[ks]; ok {
		m.vals[i] = copyVal(v)
		return
	}
	m.m[ks] = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, copyVal(v))
	m.dead = append(m.dead, false)
	m.n++
}

func (p *Path) mapDelete(m *mapV, k value) {
	if m == nil {
		return
	}
	ks := p.keyOf(k)
	if i, ok := m.m[ks]; ok {
		delete(m.m, ks)
		m.dead[i] = true
		m.n--
	}
}

func (p *Path) rangeIter(v value, t types.Type) value {
	switch v := v.(type) {
	case string:
		rs := []rune(v)
		offs := []int{}
		for i := range v {
			offs = append(offs, i)
		}
		i := 0
		return func() value {
			if i >= len(rs) {
				return tuple{false, uint64(0), uint64(0)}
			}
			i++
			return tuple{true, uint64(offs[i-1]), uint64(int64(rs[i-1]))}
		}
	case *mapV:
		i := 0
		mt := t.Underlying().(*types.Map)
		return func() value {
			for v != nil && i < len(v.keys) {
				k := i
				i++
				if !v.dead[k] {
					return tuple{true, v.keys[k], copyVal(v.vals[k])}
				}
			}
			return tuple{false, zero(mt.Key()), zero(mt.Elem())}
		}
	}
	panic(unsupported("range"))
}
