package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
)

type opnd struct {
	kind opKind
	idx  int
	val  value
	g    *ssa.Global
}

type icode struct {
	ins  ssa.Instruction
	dst  int
	ops  []opnd
	typ  types.Type
	w    uint8 // integer width of operand 0 (or result)
	sgn  bool
	isI  bool
	aux  any
	aux2 int
}

type fcode struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]icode
	phis   []int // number of leading phis per block
	locals bool
	name   string
	intr   intrinsic
	defers bool
	ext    bool // outside the repository
}

// Program is the loaded SSA program shared by all workers.
type Program struct {
	prog    *ssa.Program
	modPath string
	codes   sync.Map // *ssa.Function -> *fcode
	meths   sync.Map
	asserts sync.Map
	types   map[string]types.Type
	rtErr   types.Type // runtime.errorString-like type for run-time panics
	pkgs    map[string]*ssa.Package
	repoPkg map[*ssa.Package]bool
}

type targetPanic struct {
	v     iface
	stack string
	rt    bool
}

type frame struct {
	p         *Path
	fc        *fcode
	caller    *frame
	regs      []value
	block     int
	prev      *ssa.BasicBlock
	defers    []deferred
	panicking bool
	pv        any
	result    value
	callPos   token.Pos
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

func (prg *Program) code(fn *ssa.Function) *fcode {
	if c, ok := prg.codes.Load(fn); ok {
		return c.(*fcode)
	}
	c := prg.compile(fn)
	x, _ := prg.codes.LoadOrStore(fn, c)
	return x.(*fcode)
}

func intrName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (prg *Program) compile(fn *ssa.Function) *fcode {
	fc := &fcode{fn: fn, name: intrName(fn)}
	if in, ok := intrinsics[fc.name]; ok {
		fc.intr = in
		return fc
	}
	if fn.Pkg != nil {
		if in, ok := pkgStubs[fn.Pkg.Pkg.Path()]; ok {
			fc.intr = in
			return fc
		}
	}
	return prg.compileRaw(fn, fc.name)
}

func (prg *Program) compileRaw(fn *ssa.Function, name string) *fcode {
	fc := &fcode{fn: fn, name: name}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) {
		regs[v] = len(regs)
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				fc.defers = true
			}
		}
	}
	if fn.Recover != nil {
		fc.defers = true
	}
	fc.nregs = len(regs)
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{kind: okConst, val: constValue(v)}
		case *ssa.Global:
			return opnd{kind: okGlobal, g: v}
		case *ssa.Function, *ssa.Builtin:
			return opnd{kind: okConst, val: v}
		case nil:
			return opnd{kind: okConst}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return opnd{kind: okReg, idx: i}
	}
	for _, b := range fn.Blocks {
		var out []icode
		nphi := 0
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ic := icode{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ic.dst = regs[v]
				ic.typ = v.Type()
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				nphi++
				for _, e := range x.Edges {
					ic.ops = append(ic.ops, op(e))
				}
			case *ssa.Call:
				ic.ops = prgCallOps(x.Call, op)
			case *ssa.Go:
				ic.ops = prgCallOps(x.Call, op)
			case *ssa.Defer:
				ic.ops = prgCallOps(x.Call, op)
			case *ssa.MakeClosure:
				for _, b := range x.Bindings {
					ic.ops = append(ic.ops, op(b))
				}
			case *ssa.Return:
				for _, r := range x.Results {
					ic.ops = append(ic.ops, op(r))
				}
			case *ssa.Slice:
				ic.ops = []opnd{op(x.X), op(x.Low), op(x.High), op(x.Max)}
				if x.Low == nil {
					ic.ops[1] = opnd{kind: okConst}
				}
				if x.High == nil {
					ic.ops[2] = opnd{kind: okConst}
				}
				if x.Max == nil {
					ic.ops[3] = opnd{kind: okConst}
				}
			case *ssa.Select:
				for _, s := range x.States {
					ic.ops = append(ic.ops, op(s.Chan))
					if s.Send != nil {
						ic.ops = append(ic.ops, op(s.Send))
					} else {
						ic.ops = append(ic.ops, opnd{kind: okConst})
					}
				}
			case *ssa.BinOp:
				ic.ops = []opnd{op(x.X), op(x.Y)}
				ic.w, ic.sgn, ic.isI = intInfo(x.X.Type())
			case *ssa.UnOp:
				ic.ops = []opnd{op(x.X)}
				ic.w, ic.sgn, ic.isI = intInfo(x.X.Type())
			default:
				var rands [8]*ssa.Value
				for _, r := range ins.Operands(rands[:0]) {
					if *r == nil {
						ic.ops = append(ic.ops, opnd{kind: okConst})
					} else {
						ic.ops = append(ic.ops, op(*r))
					}
				}
			}
			out = append(out, ic)
		}
		fc.blocks = append(fc.blocks, out)
		fc.phis = append(fc.phis, nphi)
	}
	return fc
}

func prgCallOps(c ssa.CallCommon, op func(ssa.Value) opnd) []opnd {
	ops := []opnd{op(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, op(a))
	}
	return ops
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(b)
			if w == 0 {
				return c.Int64()
			}
			if s {
				return norm(c.Int64(), w, true)
			}
			return norm(int64(c.Uint64()), w, false)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	// type parameter constants instantiate to a concrete type
	return zero(t)
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.val
	default:
		return fr.p.globalAddr(o.g)
	}
}

// globals -----------------------------------------------------------------

func (p *Path) globalAddr(g *ssa.Global) *value {
	prg := p.ex.prog
	m, st := p.w.stdGlobals, p.w.stdInit
	if prg.repoPkg[g.Pkg] {
		m, st = p.globals, p.initSt
	}
	if a, ok := m[g]; ok && st[g.Pkg] != 0 {
		return a
	}
	if st[g.Pkg] == 0 {
		st[g.Pkg] = 1
		for _, mem := range g.Pkg.Members {
			if gg, ok := mem.(*ssa.Global); ok {
				z := zero(gg.Type().Underlying().(*types.Pointer).Elem())
				m[gg] = &z
			}
		}
		p.runInit(g.Pkg)
		st[g.Pkg] = 2
	}
	a := m[g]
	if a == nil {
		z := zero(g.Type().Underlying().(*types.Pointer).Elem())
		a = &z
		m[g] = a
	}
	return a
}

func (p *Path) runInit(pkg *ssa.Package) {
	if initSkip[pkg.Pkg.Path()] {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	saveSteps := p.steps
	p.callFn(nil, fn, nil, nil)
	p.steps = saveSteps
}

// calls ---------------------------------------------------------------------

func (p *Path) rtPanic(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	panic(&targetPanic{v: iface{t: p.ex.prog.rtErr, v: msg}, rt: true})
}

func (p *Path) call(caller *frame, fnv value, args []value) value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		if fn == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callFn(caller, fn, args, nil)
	case *closure:
		return p.callFn(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return p.callBuiltin(caller, fn, args, nil)
	case native:
		if f, ok := fn.v.(func(*frame, []value) value); ok {
			return f(caller, args)
		}
	}
	panic(fmt.Sprintf("call of %T", fnv))
}

// charge counts the work on long strings as steps, so that a loop which grows a
// string reaches the step limit soon.
func (p *Path) charge(vs ...value) {
	n := 0
	for _, v := range vs {
		switch v := v.(type) {
		case string:
			n += len(v)
		case symStr:
			n += 4 * len(v)
		}
	}
	p.steps += int64(n >> 3)
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fc := p.ex.prog.code(fn)
	if fc.intr != nil {
		fr := &frame{p: p, fc: fc, caller: caller}
		p.charge(args...)
		return fc.intr(fr, fn, args)
	}
	if fn.Blocks == nil {
		p.unsupported("function without body: %s", fc.name)
	}
	if fn.Name() == "init" && caller != nil && fn.Synthetic == "package initializer" {
		return nil // dependencies are initialised lazily
	}
	p.depth++
	if p.depth > p.ex.opts.MaxDepth {
		p.abort(abLimit, "call depth: "+fc.name)
	}
	if !p.w.funcs[fc.name] {
		p.w.funcs[fc.name] = true
	}
	fr := &frame{p: p, fc: fc, caller: caller, regs: make([]value, fc.nregs)}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	if fc.defers {
		for fr.block >= 0 {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	p.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	depth := fr.p.depth
	defer func() {
		if fr.block < 0 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		fr.p.depth = depth
		if tp.stack == "" {
			tp.stack = fr.p.stackOf(fr)
		}
		fr.panicking = true
		fr.pv = tp
		fr.runDefers()
		// recovered
		if fr.fc.fn.Recover != nil {
			fr.block = fr.fc.fn.Recover.Index
			fr.prev = nil
		} else {
			fr.block = -1
			fr.result = zero(fr.fc.fn.Signature.Results())
		}
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := fr.p.depth
			defer func() {
				if !ok {
					r := recover()
					tp, is := r.(*targetPanic)
					if !is {
						panic(r)
					}
					fr.p.depth = depth
					fr.panicking = true
					fr.pv = tp
				}
			}()
			if b, isb := d.fn.(*ssa.Builtin); isb {
				fr.p.callBuiltin(fr, b, d.args, d.call)
			} else {
				fr.p.call(fr, d.fn, d.args)
			}
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (p *Path) stackOf(fr *frame) string {
	var parts []string
	for f := fr; f != nil && len(parts) < 12; f = f.caller {
		parts = append(parts, f.fc.name)
	}
	return strings.Join(parts, " < ")
}

func (p *Path) methodOf(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if f, ok := p.ex.prog.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := p.ex.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f != nil {
		p.ex.prog.meths.Store(k, f)
	}
	return f
}

func (fr *frame) prepareCall(c *ssa.CallCommon, ops []opnd) (value, []value) {
	v := fr.get(&ops[0])
	if c.IsInvoke() {
		recv, ok := v.(iface)
		if !ok {
			fr.p.unsupported("invoke on %T in %s", v, fr.fc.name)
		}
		if recv.t == nil {
			fr.p.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]value, 1, len(ops))
		args[0] = copyVal(recv.v)
		for i := 1; i < len(ops); i++ {
			args = append(args, fr.get(&ops[i]))
		}
		if nt, ok := recv.v.(native); ok {
			if im, ok := nt.v.(invoker); ok {
				return native{func(f *frame, a []value) value { return im.invoke(f, c.Method.Name(), a[1:]) }}, args
			}
		}
		fn := fr.p.methodOf(recv.t, c.Method)
		if fn == nil {
			fr.p.unsupported("no method %s on %v", c.Method.Name(), recv.t)
		}
		return fn, args
	}
	args := make([]value, 0, len(ops)-1)
	for i := 1; i < len(ops); i++ {
		args = append(args, fr.get(&ops[i]))
	}
	return v, args
}

type invoker interface {
	invoke(fr *frame, name string, args []value) value
}

func (fr *frame) run() {
	p := fr.p
	fn := fr.fc.fn
	for {
		if fr.block < 0 {
			return
		}
		code := fr.fc.blocks[fr.block]
		bb := fn.Blocks[fr.block]
		i := 0
		if n := fr.fc.phis[fr.block]; n > 0 {
			k := -1
			for j, pr := range bb.Preds {
				if pr == fr.prev {
					k = j
					break
				}
			}
			if n == 1 {
				fr.regs[code[0].dst] = fr.get(&code[0].ops[k])
			} else {
				tmp := make([]value, n)
				for j := 0; j < n; j++ {
					tmp[j] = fr.get(&code[j].ops[k])
				}
				for j := 0; j < n; j++ {
					fr.regs[code[j].dst] = tmp[j]
				}
			}
			i = n
		}
		p.steps += int64(len(code))
		if p.steps > p.ex.opts.MaxSteps {
			p.abort(abLimit, "steps in "+fr.fc.name)
		}
		if p.steps-p.timeAt > 1<<15 {
			p.timeAt = p.steps
			if time.Now().After(p.ex.deadline.Add(time.Second)) {
				p.abort(abLimit, "time in "+fr.fc.name)
			}
		}
		next := -2
		for ; i < len(code); i++ {
			ic := &code[i]
			switch ins := ic.ins.(type) {
			case *ssa.If:
				c := fr.get(&ic.ops[0])
				if p.truth(c) {
					next = bb.Succs[0].Index
				} else {
					next = bb.Succs[1].Index
				}
			case *ssa.Jump:
				next = bb.Succs[0].Index
			case *ssa.Return:
				switch len(ic.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ic.ops[0])
				default:
					r := make(tuple, len(ic.ops))
					for j := range ic.ops {
						r[j] = fr.get(&ic.ops[j])
					}
					fr.result = r
				}
				fr.block = -1
				return
			case *ssa.Panic:
				v := fr.get(&ic.ops[0]).(iface)
				panic(&targetPanic{v: v, stack: p.stackOf(fr)})
			case *ssa.RunDefers:
				fr.runDefers()
			default:
				fr.exec(ic, ins)
			}
		}
		if next == -2 {
			panic("fell off block in " + fr.fc.name)
		}
		fr.prev = bb
		fr.block = next
	}
}

func (fr *frame) deref(v value) *value {
	a, ok := v.(*value)
	if !ok {
		fr.p.unsupported("deref of %T in %s", v, fr.fc.name)
	}
	if a == nil {
		fr.p.rtPanic("invalid memory address or nil pointer dereference")
	}
	return a
}

func (fr *frame) exec(ic *icode, ins ssa.Instruction) {
	p := fr.p
	switch ins := ins.(type) {
	case *ssa.Alloc:
		z := zero(ins.Type().Underlying().(*types.Pointer).Elem())
		a := new(value)
		*a = z
		fr.regs[ic.dst] = a
	case *ssa.UnOp:
		fr.regs[ic.dst] = fr.unop(ic, ins)
	case *ssa.BinOp:
		fr.regs[ic.dst] = p.binop(ins.Op, ins.X.Type(), ic, fr.get(&ic.ops[0]), fr.get(&ic.ops[1]), ins.Y.Type())
	case *ssa.Call:
		f, args := fr.prepareCall(&ins.Call, ic.ops)
		fr.callPos = ins.Pos()
		var r value
		if b, ok := f.(*ssa.Builtin); ok {
			r = p.callBuiltin(fr, b, args, &ins.Call)
		} else {
			r = p.call(fr, f, args)
		}
		fr.regs[ic.dst] = r
	case *ssa.ChangeInterface:
		fr.regs[ic.dst] = fr.get(&ic.ops[0])
	case *ssa.ChangeType:
		fr.regs[ic.dst] = fr.get(&ic.ops[0])
	case *ssa.Convert:
		fr.regs[ic.dst] = p.convert(ins.Type(), ins.X.Type(), fr.get(&ic.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ic.dst] = p.convert(ins.Type(), ins.X.Type(), fr.get(&ic.ops[0]))
	case *ssa.SliceToArrayPointer:
		p.unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		v := fr.get(&ic.ops[0])
		fr.regs[ic.dst] = iface{t: ins.X.Type(), v: copyVal(v)}
	case *ssa.MakeClosure:
		env := make([]value, len(ic.ops))
		for i := range ic.ops {
			env[i] = fr.get(&ic.ops[i])
		}
		fr.regs[ic.dst] = &closure{ins.Fn.(*ssa.Function), env}
	case *ssa.MakeMap:
		fr.regs[ic.dst] = newMap(ins.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		n := p.concretize(fr.get(&ic.ops[0]), 64, true)
		fr.regs[ic.dst] = &channel{cap: int(n)}
	case *ssa.MakeSlice:
		n := p.concretize(fr.get(&ic.ops[0]), 64, true)
		c := p.concretize(fr.get(&ic.ops[1]), 64, true)
		if n < 0 || n > 1<<24 {
			p.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			p.rtPanic("makeslice: cap out of range")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make([]value, n, c)
		full := s[:c]
		z := zero(et)
		switch z.(type) {
		case structure, array:
			for i := range full {
				full[i] = zero(et)
			}
		default:
			for i := range full {
				full[i] = z
			}
		}
		fr.regs[ic.dst] = s
	case *ssa.Slice:
		fr.regs[ic.dst] = fr.slice(ic, ins)
	case *ssa.FieldAddr:
		a := fr.deref(fr.get(&ic.ops[0]))
		s, ok := (*a).(structure)
		if !ok {
			p.unsupported("field access on %T in %s", *a, fr.fc.name)
		}
		fr.regs[ic.dst] = &s[ins.Field]
	case *ssa.Field:
		s, ok := fr.get(&ic.ops[0]).(structure)
		if !ok {
			p.unsupported("field access on %T in %s", fr.get(&ic.ops[0]), fr.fc.name)
		}
		fr.regs[ic.dst] = s[ins.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ic.ops[0])
		idx := fr.get(&ic.ops[1])
		var elems []value
		switch x := x.(type) {
		case []value:
			elems = x
		case *value:
			if x == nil {
				p.rtPanic("invalid memory address or nil pointer dereference")
			}
			elems = []value((*x).(array))
		default:
			p.unsupported("IndexAddr on %T", x)
		}
		if t, ok := idx.(*Term); ok {
			// symbolic index into a constant table: read-only lookup
			w, _, _ := intInfo(ins.Index.Type())
			if v, ok := fr.tableLookup(t, w, elems, ins); ok {
				cell := new(value)
				*cell = v
				fr.regs[ic.dst] = cell
				return
			}
		}
		k := fr.index(idx, ins.Index.Type(), len(elems))
		fr.regs[ic.dst] = &elems[k]
	case *ssa.Index:
		x := fr.get(&ic.ops[0])
		idx := fr.get(&ic.ops[1])
		switch x := x.(type) {
		case array:
			if t, ok := idx.(*Term); ok {
				w, _, _ := intInfo(ins.Index.Type())
				if v, ok := fr.tableLookup(t, w, []value(x), nil); ok {
					fr.regs[ic.dst] = v
					return
				}
			}
			k := fr.index(idx, ins.Index.Type(), len(x))
			fr.regs[ic.dst] = x[k]
		case string, symStr:
			if t, ok := idx.(*Term); ok {
				bs := toSb(x)
				el := make([]value, len(bs))
				for i := range bs {
					el[i] = sbVal(bs[i])
				}
				w, _, _ := intInfo(ins.Index.Type())
				if v, ok := fr.tableLookup(t, w, el, nil); ok {
					fr.regs[ic.dst] = v
					return
				}
			}
			k := fr.index(idx, ins.Index.Type(), strLen(x))
			fr.regs[ic.dst] = strAt(x, k)
		default:
			p.unsupported("Index on %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ic.ops[0])
		k := fr.get(&ic.ops[1])
		switch x := x.(type) {
		case *hmap:
			var v value
			i := x.find(p, k)
			if i >= 0 {
				v = copyVal(x.ents[i].v)
			} else {
				v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				v = tuple{v, i >= 0}
			}
			fr.regs[ic.dst] = v
		case string, symStr:
			fr.regs[ic.dst] = strAt(x, fr.index(k, ins.Index.Type(), strLen(x)))
		default:
			p.unsupported("Lookup on %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(&ic.ops[0]).(*hmap)
		if m == nil {
			panic(&targetPanic{v: iface{t: p.ex.prog.rtErr, v: "assignment to entry in nil map"}, rt: true})
		}
		m.set(p, fr.get(&ic.ops[1]), copyVal(fr.get(&ic.ops[2])))
	case *ssa.Range:
		x := fr.get(&ic.ops[0])
		switch x := x.(type) {
		case *hmap:
			fr.regs[ic.dst] = native{p.mapIter(x)}
		case string, symStr:
			fr.regs[ic.dst] = native{&strIter{s: x}}
		default:
			p.unsupported("Range on %T", x)
		}
	case *ssa.Next:
		it := fr.get(&ic.ops[0]).(native)
		switch it := it.v.(type) {
		case *mapIter:
			fr.regs[ic.dst] = it.next(ins)
		case *strIter:
			fr.regs[ic.dst] = fr.strNext(it)
		}
	case *ssa.Store:
		a := fr.deref(fr.get(&ic.ops[0]))
		storeTo(a, fr.get(&ic.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[ic.dst] = fr.typeAssert(ins, fr.get(&ic.ops[0]))
	case *ssa.Extract:
		t, ok := fr.get(&ic.ops[0]).(tuple)
		if !ok {
			p.unsupported("extract from %T in %s", fr.get(&ic.ops[0]), fr.fc.name)
		}
		fr.regs[ic.dst] = t[ins.Index]
	case *ssa.Defer:
		f, args := fr.prepareCall(&ins.Call, ic.ops)
		for i := range args {
			args[i] = copyVal(args[i])
		}
		fr.defers = append(fr.defers, deferred{f, args, &ins.Call})
	case *ssa.Go:
		f, args := fr.prepareCall(&ins.Call, ic.ops)
		p.goStart(f, args)
	case *ssa.Send:
		ch, _ := fr.get(&ic.ops[0]).(*channel)
		p.chanSend(ch, fr.get(&ic.ops[1]))
	case *ssa.Select:
		fr.regs[ic.dst] = fr.selectStmt(ic, ins)
	default:
		p.unsupported("instruction %T", ins)
	}
}

func (fr *frame) index(idx value, it types.Type, n int) int {
	p := fr.p
	if t, ok := idx.(*Term); ok {
		w, signed, _ := intInfo(it)
		var inb *Term
		if signed && w < 64 && uint64(n) > 1<<(w-1)-1 {
			inb = tNot(tSlt(t, bvc(w, 0)))
		} else if !signed && w < 64 && uint64(n) >= 1<<w {
			inb = boolc(true)
		} else if signed {
			inb = tAnd(tNot(tSlt(t, bvc(w, 0))), tSlt(t, bvc(w, uint64(n))))
		} else {
			inb = tUlt(t, bvc(w, uint64(n)))
		}
		if !p.truth(fromBool(inb)) {
			p.rtPanic("index out of range [symbolic] with length %d", n)
		}
		return int(p.concretize(t, w, signed))
	}
	k := idx.(int64)
	if k < 0 || k >= int64(n) {
		p.rtPanic("index out of range [%d] with length %d", k, n)
	}
	return int(k)
}

// tableLookup turns a read at a symbolic index into an ite over the table when
// the table holds only scalars.
func (fr *frame) tableLookup(t *Term, w uint8, elems []value, ia *ssa.IndexAddr) (value, bool) {
	if len(elems) == 0 || len(elems) > 300 {
		return nil, false
	}
	if ia != nil {
		// only when every use is a load
		for _, r := range *ia.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					return nil, false
				}
			}
		}
	}
	var et types.Type
	if ia != nil {
		et = ia.Type().Underlying().(*types.Pointer).Elem()
	}
	ew := uint8(0)
	signed := false
	isBool := false
	switch elems[0].(type) {
	case bool:
		isBool = true
	case int64:
		if et == nil {
			ew, signed = 8, false // strings
		} else {
			var ok bool
			ew, signed, ok = intInfo(et)
			if !ok {
				return nil, false
			}
		}
	case *Term:
		ew = elems[0].(*Term).w
		isBool = ew == 0
	default:
		return nil, false
	}
	p := fr.p
	if (w == 64 || uint64(len(elems)) < 1<<w) && !p.truth(fromBool(tUlt(t, bvc(w, uint64(len(elems)))))) {
		p.rtPanic("index out of range [symbolic] with length %d", len(elems))
	}
	lo, hi, ok := rangeOf(t)
	if !ok || hi >= uint64(len(elems)) {
		hi = uint64(len(elems) - 1)
	}
	var one *Var = t.one
	get := func(i uint64) *Term {
		switch e := elems[i].(type) {
		case bool:
			return boolc(e)
		case int64:
			return bvc(ew, uint64(e))
		case *Term:
			return e
		}
		return nil
	}
	_ = one
	res := get(hi)
	if res == nil {
		return nil, false
	}
	i := int64(hi) - 1
	for ; i >= int64(lo); i-- {
		e := get(uint64(i))
		if e == nil {
			return nil, false
		}
		// group runs of equal constants
		if e.isConst() {
			j := i
			for j-1 >= int64(lo) {
				f := get(uint64(j - 1))
				if f == nil || !f.isConst() || f.val != e.val {
					break
				}
				j--
			}
			if res.isConst() && res.val == e.val && i == int64(hi)-1 {
				i = j
				continue
			}
			c := tUlt(t, bvc(w, uint64(i+1)))
			res = tIte(c, e, res)
			i = j
			continue
		}
		res = tIte(tEq(t, bvc(w, uint64(i))), e, res)
	}
	if isBool {
		return fromBool(res), true
	}
	return fromTerm(res, signed), true
}

func (fr *frame) slice(ic *icode, ins *ssa.Slice) value {
	p := fr.p
	x := fr.get(&ic.ops[0])
	var ln, cp int
	var s []value
	isStr := false
	switch x := x.(type) {
	case string, symStr:
		isStr = true
		ln = strLen(x)
		cp = ln
	case []value:
		s, ln, cp = x, len(x), cap(x)
	case *value:
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = []value((*x).(array))
		ln, cp = len(s), len(s)
	default:
		p.unsupported("slice of %T", x)
	}
	lo, hi, mx := int64(0), int64(ln), int64(cp)
	get := func(k int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		val := fr.get(&ic.ops[k])
		if t, ok := val.(*Term); ok {
			w, sg, _ := intInfo(v.Type())
			// out-of-range values form one alternative
			lim := bvc(w, uint64(cp))
			if !p.truth(fromBool(tUle(t, lim))) {
				p.rtPanic("slice bounds out of range [symbolic] with capacity %d", cp)
			}
			return p.concretize(t, w, sg), true
		}
		return val.(int64), true
	}
	if v, ok := get(1, ins.Low); ok {
		lo = v
	}
	if v, ok := get(2, ins.High); ok {
		hi = v
	}
	if v, ok := get(3, ins.Max); ok {
		mx = v
	}
	if isStr {
		if hi < 0 || hi > int64(ln) {
			p.rtPanic("slice bounds out of range [:%d] with length %d", hi, ln)
		}
		if lo < 0 || lo > hi {
			p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return strSlice(x, int(lo), int(hi))
	}
	if mx < 0 || mx > int64(cp) {
		p.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cp)
	}
	if hi < 0 || hi > mx {
		p.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cp)
	}
	if lo < 0 || lo > hi {
		p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
	if s == nil {
		return []value(nil)
	}
	return s[lo:hi:mx]
}

func (p *Path) mapIter(m *hmap) *mapIter {
	it := &mapIter{m: m}
	if m != nil && p.mapOrder && m.live > 1 {
		var live []int
		for i, e := range m.ents {
			if !e.dead {
				live = append(live, i)
			}
		}
		n := len(live)
		if n <= 3 {
			var order []int
			for len(live) > 0 {
				k := p.choice(len(live))
				order = append(order, live[k])
				live = append(append([]int{}, live[:k]...), live[k+1:]...)
			}
			it.order = order
		} else if p.choice(2) == 1 {
			for i := n - 1; i >= 0; i-- {
				it.order = append(it.order, live[i])
			}
		}
	}
	return it
}

func (it *mapIter) next(ins *ssa.Next) value {
	if it.m == nil {
		return tuple{false, nil, nil}
	}
	if it.order != nil {
		for it.i < len(it.order) {
			e := it.m.ents[it.order[it.i]]
			it.i++
			if !e.dead {
				return tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		return tuple{false, nil, nil}
	}
	for it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if !e.dead {
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return tuple{false, nil, nil}
}

func (fr *frame) strNext(it *strIter) value {
	n := strLen(it.s)
	if it.i >= n {
		return tuple{false, int64(0), int64(0)}
	}
	p := fr.p
	pos := int64(it.i)
	b := strAt(it.s, it.i)
	switch b := b.(type) {
	case int64:
		if b < 0x80 {
			it.i++
			return tuple{true, pos, b}
		}
	case *Term:
		if p.truth(fromBool(tUlt(b, bvc(8, 0x80)))) {
			it.i++
			return tuple{true, pos, fromTerm(tZext(b, 32), true)}
		}
	}
	r := p.decodeRune(fr, strSlice(it.s, it.i, n))
	size := p.concretize(r[1], 64, true)
	it.i += int(size)
	return tuple{true, pos, r[0]}
}

func (p *Path) decodeRune(fr *frame, s value) tuple {
	fn := p.ex.prog.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	return p.callFn(fr, fn, []value{s}, nil).(tuple)
}

func (fr *frame) unop(ic *icode, ins *ssa.UnOp) value {
	p := fr.p
	x := fr.get(&ic.ops[0])
	switch ins.Op {
	case token.MUL:
		a := fr.deref(x)
		return copyVal(*a)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return fromBool(tNot(x))
		}
	case token.SUB:
		switch x := x.(type) {
		case int64:
			return norm(-x, ic.w, ic.sgn)
		case float64:
			return -x
		case *Term:
			return fromTerm(tBin(OpSub, bvc(x.w, 0), x), ic.sgn)
		}
	case token.XOR:
		switch x := x.(type) {
		case int64:
			return norm(^x, ic.w, ic.sgn)
		case *Term:
			return fromTerm(tBin(OpBxor, x, bvc(x.w, mask(x.w))), ic.sgn)
		}
	case token.ARROW:
		ch, _ := x.(*channel)
		v, ok := p.chanRecv(ch, ins.X.Type().Underlying().(*types.Chan).Elem())
		if ins.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	p.unsupported("unop %v on %T", ins.Op, x)
	return nil
}

func (p *Path) binop(op token.Token, t types.Type, ic *icode, x, y value, yt types.Type) value {
	switch op {
	case token.EQL:
		return p.equals(t, x, y)
	case token.NEQ:
		switch r := p.equals(t, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return fromBool(tNot(r))
		}
	}
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return p.intOp(op, a, b, ic.w, ic.sgn, yt)
		}
		return p.termOp(op, x, y, ic.w, ic.sgn, yt)
	case *Term:
		if a.w == 0 {
			b := boolTerm(y)
			switch op {
			case token.AND, token.LAND:
				return fromBool(tAnd(a, b))
			case token.OR, token.LOR:
				return fromBool(tOr(a, b))
			}
			p.unsupported("bool op %v", op)
		}
		return p.termOp(op, x, y, ic.w, ic.sgn, yt)
	case string, symStr:
		switch op {
		case token.ADD:
			p.charge(x, y)
			return strCat(x, y)
		case token.LSS:
			return strLess(x, y)
		case token.GTR:
			return strLess(y, x)
		case token.LEQ:
			return notVal(strLess(y, x))
		case token.GEQ:
			return notVal(strLess(x, y))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool:
		b, ok := y.(bool)
		if !ok {
			bt := y.(*Term)
			switch op {
			case token.AND:
				return fromBool(tAnd(boolc(a), bt))
			case token.OR:
				return fromBool(tOr(boolc(a), bt))
			}
		}
		switch op {
		case token.AND:
			return a && b
		case token.OR:
			return a || b
		}
	}
	p.unsupported("binop %v on %T", op, x)
	return nil
}

func notVal(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return fromBool(tNot(v))
	}
	panic("notVal")
}

func (p *Path) intOp(op token.Token, a, b int64, w uint8, sgn bool, yt types.Type) value {
	switch op {
	case token.ADD:
		return norm(a+b, w, sgn)
	case token.SUB:
		return norm(a-b, w, sgn)
	case token.MUL:
		return norm(a*b, w, sgn)
	case token.QUO:
		if b == 0 {
			p.rtPanic("integer divide by zero")
		}
		if sgn {
			if b == -1 {
				return norm(-a, w, sgn)
			}
			return norm(a/b, w, sgn)
		}
		return int64(uint64(a) / uint64(b))
	case token.REM:
		if b == 0 {
			p.rtPanic("integer divide by zero")
		}
		if sgn {
			if b == -1 {
				return int64(0)
			}
			return norm(a%b, w, sgn)
		}
		return int64(uint64(a) % uint64(b))
	case token.AND:
		return norm(a&b, w, sgn)
	case token.OR:
		return norm(a|b, w, sgn)
	case token.XOR:
		return norm(a^b, w, sgn)
	case token.AND_NOT:
		return norm(a&^b, w, sgn)
	case token.SHL, token.SHR:
		_, ysgn, _ := intInfo(yt)
		if ysgn && b < 0 {
			p.rtPanic("negative shift amount")
		}
		ub := uint64(b)
		if op == token.SHL {
			if ub >= 64 {
				return int64(0)
			}
			return norm(a<<ub, w, sgn)
		}
		if sgn {
			if ub > 63 {
				ub = 63
			}
			return norm(a>>ub, w, sgn)
		}
		if ub > 63 {
			return int64(0)
		}
		return int64(uint64(a) >> ub)
	case token.LSS:
		if sgn {
			return a < b
		}
		return uint64(a) < uint64(b)
	case token.LEQ:
		if sgn {
			return a <= b
		}
		return uint64(a) <= uint64(b)
	case token.GTR:
		if sgn {
			return a > b
		}
		return uint64(a) > uint64(b)
	case token.GEQ:
		if sgn {
			return a >= b
		}
		return uint64(a) >= uint64(b)
	}
	p.unsupported("int op %v", op)
	return nil
}

func (p *Path) termOp(op token.Token, x, y value, w uint8, sgn bool, yt types.Type) value {
	a := intTerm(x, w)
	lt := tUlt
	if sgn {
		lt = tSlt
	}
	switch op {
	case token.SHL, token.SHR:
		yw, ysgn, _ := intInfo(yt)
		b := intTerm(y, yw)
		if ysgn && p.truth(fromBool(tSlt(b, bvc(yw, 0)))) {
			p.rtPanic("negative shift amount")
		}
		if yw > w {
			b = tIte(tUlt(b, bvc(yw, uint64(w))), tTrunc(b, w), bvc(w, mask(w)))
		} else {
			b = tZext(b, w)
		}
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if sgn {
				o = OpAshr
			}
		}
		return fromTerm(tBin(o, a, b), sgn)
	}
	b := intTerm(y, w)
	switch op {
	case token.ADD:
		return fromTerm(tBin(OpAdd, a, b), sgn)
	case token.SUB:
		return fromTerm(tBin(OpSub, a, b), sgn)
	case token.MUL:
		return fromTerm(tBin(OpMul, a, b), sgn)
	case token.QUO, token.REM:
		if p.truth(fromBool(tEq(b, bvc(w, 0)))) {
			p.rtPanic("integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && sgn:
			o = OpSdiv
		case op == token.QUO:
			o = OpUdiv
		case sgn:
			o = OpSrem
		default:
			o = OpUrem
		}
		return fromTerm(tBin(o, a, b), sgn)
	case token.AND:
		return fromTerm(tBin(OpBand, a, b), sgn)
	case token.OR:
		return fromTerm(tBin(OpBor, a, b), sgn)
	case token.XOR:
		return fromTerm(tBin(OpBxor, a, b), sgn)
	case token.AND_NOT:
		return fromTerm(tBin(OpBand, a, tBin(OpBxor, b, bvc(w, mask(w)))), sgn)
	case token.LSS:
		return fromBool(lt(a, b))
	case token.LEQ:
		return fromBool(tNot(lt(b, a)))
	case token.GTR:
		return fromBool(lt(b, a))
	case token.GEQ:
		return fromBool(tNot(lt(a, b)))
	}
	p.unsupported("term op %v", op)
	return nil
}

// equals compares two values of static type t; the result is bool or *Term.
func (p *Path) equals(t types.Type, x, y value) value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return fromBool(tEq(boolTerm(x), boolTerm(y)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		bt := y.(*Term)
		return fromBool(tEq(bvc(bt.w, uint64(a)), bt))
	case *Term:
		if a.w == 0 {
			return fromBool(tEq(a, boolTerm(y)))
		}
		return fromBool(tEq(a, intTerm(y, a.w)))
	case float64:
		return a == y.(float64)
	case string, symStr:
		return strEq(x, y)
	case *value:
		if b, ok := y.(*value); ok {
			return a == b
		}
		return false
	case *hmap:
		b, _ := y.(*hmap)
		return a == b
	case *channel:
		b, _ := y.(*channel)
		return a == b
	case []value:
		b, _ := y.([]value)
		return a == nil && b == nil
	case *ssa.Function:
		if b, ok := y.(*ssa.Function); ok {
			return a == b
		}
		return false
	case *closure:
		if b, ok := y.(*closure); ok {
			return a == b
		}
		return false
	case native:
		if b, ok := y.(native); ok {
			return a.v == b.v
		}
		return false
	case iface:
		b, ok := y.(iface)
		if !ok {
			p.unsupported("compare iface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t && !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			p.rtPanic("comparing uncomparable type %v", a.t)
		}
		return p.equals(a.t, a.v, b.v)
	case structure:
		b := y.(structure)
		r := tTrue
		st, _ := t.Underlying().(*types.Struct)
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = tAnd(r, boolTerm(p.equals(ft, a[i], b[i])))
			if r == tFalse {
				return false
			}
		}
		return fromBool(r)
	case array:
		b := y.(array)
		r := tTrue
		for i := range a {
			r = tAnd(r, boolTerm(p.equals(nil, a[i], b[i])))
			if r == tFalse {
				return false
			}
		}
		return fromBool(r)
	}
	p.unsupported("equals on %T", x)
	return nil
}

func (p *Path) convert(to, from types.Type, x value) value {
	ut, uf := to.Underlying(), from.Underlying()
	if tw, ts, ok := intInfo(to); ok {
		if fw, fs, ok := intInfo(from); ok {
			switch x := x.(type) {
			case int64:
				return norm(x, tw, ts)
			case *Term:
				switch {
				case tw == fw:
					return x
				case tw < fw:
					return fromTerm(tTrunc(x, tw), ts)
				case fs:
					return fromTerm(tSext(x, tw), ts)
				default:
					return fromTerm(tZext(x, tw), ts)
				}
			}
		}
		if f, ok := x.(float64); ok {
			if ts {
				return norm(int64(f), tw, ts)
			}
			return norm(int64(uint64(f)), tw, ts)
		}
		if _, ok := x.(*value); ok {
			return native{x} // uintptr(unsafe.Pointer)
		}
		p.unsupported("convert %v to %v", from, to)
	}
	switch ut := ut.(type) {
	case *types.Basic:
		switch {
		case ut.Info()&types.IsFloat != 0:
			switch x := x.(type) {
			case int64:
				if _, s, _ := intInfo(from); !s {
					return float64(uint64(x))
				}
				return float64(x)
			case float64:
				if ut.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
			p.unsupported("symbolic int to float")
		case ut.Info()&types.IsString != 0:
			switch x := x.(type) {
			case string, symStr:
				return x
			case []value:
				if sl, ok := uf.(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						bs := make([]sb, len(x))
						for i := range x {
							bs[i] = valSb(x[i])
						}
						return mkStr(bs)
					}
				}
				var r value = ""
				for _, e := range x {
					r = strCat(r, p.runeToStr(e))
				}
				return r
			case int64, *Term:
				return p.runeToStr(x)
			}
		case ut.Kind() == types.UnsafePointer:
			return x
		}
	case *types.Slice:
		switch x.(type) {
		case string, symStr:
			b, _ := ut.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				bs := toSb(x)
				r := make([]value, len(bs))
				for i := range bs {
					r[i] = sbVal(bs[i])
				}
				return r
			}
			it := &strIter{s: x}
			r := []value{}
			fr := &frame{p: p, fc: &fcode{name: "convert"}}
			for {
				t := fr.strNext(it).(tuple)
				if t[0] == false {
					break
				}
				r = append(r, t[2])
			}
			return r
		case []value:
			return x
		}
	case *types.Pointer:
		return x
	case *types.Array, *types.Struct, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return x
	}
	p.unsupported("convert %v to %v (%T)", from, to, x)
	return nil
}

func (p *Path) runeToStr(v value) value {
	switch v := v.(type) {
	case int64:
		return string(rune(v))
	case *Term:
		if p.truth(fromBool(tUlt(v, bvc(v.w, 0x80)))) {
			return mkStr([]sb{{t: tTrunc(v, 8)}})
		}
		c := p.concretize(v, v.w, true)
		return string(rune(c))
	}
	panic("runeToStr")
}

func (fr *frame) typeAssert(ins *ssa.TypeAssert, x value) value {
	p := fr.p
	v, ok := x.(iface)
	if !ok {
		p.unsupported("type assert on %T", x)
	}
	var res value
	good := false
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && p.ex.prog.implements(v.t, it) {
			good = true
			res = v
		}
	} else if v.t != nil && (v.t == ins.AssertedType || types.Identical(v.t, ins.AssertedType)) {
		good = true
		res = copyVal(v.v)
	}
	if ins.CommaOk {
		if !good {
			res = zero(ins.AssertedType)
		}
		return tuple{res, good}
	}
	if !good {
		p.rtPanic("interface conversion: interface is %v, not %v", v.t, ins.AssertedType)
	}
	return res
}

func (prg *Program) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if r, ok := prg.asserts.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it)
	prg.asserts.Store(k, r)
	return r
}

func (p *Path) callBuiltin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, symStr:
			return int64(strLen(x))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *hmap:
			if x == nil {
				return int64(0)
			}
			return int64(x.live)
		case *channel:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *channel:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "append":
		x, _ := args[0].([]value)
		if len(args) == 1 {
			return x
		}
		switch y := args[1].(type) {
		case []value:
			if len(y) == 0 {
				return x
			}
			need := len(x) + len(y)
			if need <= cap(x) {
				r := x[:need]
				for i, e := range y {
					// in-place store keeps aliasing of struct elements
					r[len(x)+i] = copyVal(e)
				}
				return r
			}
			nc := cap(x) * 2
			if nc < need {
				nc = need
			}
			r := make([]value, need, nc)
			copy(r, x)
			for i, e := range y {
				r[len(x)+i] = copyVal(e)
			}
			// struct elements of the old backing array must not be shared
			if len(x) > 0 {
				switch x[0].(type) {
				case structure, array:
					for i := range x {
						r[i] = copyVal(x[i])
					}
				}
			}
			if nc > need {
				full := r[:nc]
				var z value
				if call != nil {
					et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
					for i := need; i < nc; i++ {
						z = zero(et)
						full[i] = z
					}
				}
			}
			return r
		case string, symStr:
			bs := toSb(y)
			r := x
			for _, c := range bs {
				r = append(r, sbVal(c))
			}
			if r == nil && len(bs) == 0 {
				return x
			}
			if cap(r) > len(r) {
				full := r[:cap(r)]
				for i := len(r); i < len(full); i++ {
					if full[i] == nil {
						full[i] = int64(0)
					}
				}
			}
			return r
		}
	case "copy":
		dst := args[0].([]value)
		switch src := args[1].(type) {
		case []value:
			n := len(src)
			if len(dst) < n {
				n = len(dst)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				storeTo(&dst[i], tmp[i])
			}
			return int64(n)
		case string, symStr:
			bs := toSb(src)
			n := len(bs)
			if len(dst) < n {
				n = len(dst)
			}
			for i := 0; i < n; i++ {
				dst[i] = sbVal(bs[i])
			}
			return int64(n)
		}
	case "delete":
		m := args[0].(*hmap)
		if m != nil {
			m.del(p, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents = nil
				x.idx = map[any]int{}
				x.live, x.nsym = 0, 0
			}
		case []value:
			for i := range x {
				switch e := x[i].(type) {
				case int64, *Term:
					x[i] = int64(0)
				case string, symStr:
					x[i] = ""
				default:
					et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
					_ = e
					x[i] = zero(et)
				}
			}
		}
		return nil
	case "close":
		ch := args[0].(*channel)
		if ch == nil {
			p.rtPanic("close of nil channel")
		}
		if ch.closed {
			p.rtPanic("close of closed channel")
		}
		ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{v: args[0].(iface), stack: p.stackOf(fr)})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking one
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			tp := c.pv.(*targetPanic)
			p.side["lastpanic"] = tp
			return tp.v
		}
		return iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case int64:
				bb, ok := y.(int64)
				if !ok {
					p.unsupported("symbolic min/max")
				}
				if (b.Name() == "min") == (bb < a) {
					r = bb
				}
			case float64:
				if b.Name() == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			case *Term:
				p.unsupported("symbolic min/max")
			}
		}
		return r
	case "ssa:wrapnilchk":
		a, _ := args[0].(*value)
		if a == nil {
			p.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		if a, ok := args[0].(*value); ok {
			n := args[1].(int64)
			if n == 0 {
				return ""
			}
			return unsafeStr(a, int(n))
		}
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &s[:1][0]
	case "StringData":
		bs := toSb(args[0])
		r := make([]value, len(bs)+1)
		for i := range bs {
			r[i] = sbVal(bs[i])
		}
		return &r[0]
	case "Slice":
		if a, ok := args[0].(*value); ok {
			n := args[1].(int64)
			if n == 0 {
				return []value{}
			}
			return unsafeSlice(a, int(n))
		}
	}
	p.unsupported("builtin %s", b.Name())
	return nil
}
