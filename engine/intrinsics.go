package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, fn *ssa.Function, args []value) value

var intrinsics map[string]intrinsic
var pkgStubs = map[string]intrinsic{}
var initSkip = map[string]bool{
	"runtime": true, "reflect": true, "syscall": true, "internal/poll": true, "os": false,
	"internal/cpu": true, "internal/godebug": true, "net": true, "os/exec": true, "os/signal": true,
	"internal/syscall/unix": true, "math/rand": true, "encoding/json": false,
	"github.com/peterh/liner": true,
}
var debugPanics = false

const vndPkg = "github.com/innerr/ticat/pkg/zzverif/vnd"

func nop(fr *frame, fn *ssa.Function, args []value) value {
	return zeroResult(fn)
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (fr *frame) cstr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case symStr:
		p := fr.p
		bs := make([]byte, len(v))
		for i, b := range v {
			if b.t != nil {
				bs[i] = byte(p.concretize(b.t, 8, false))
			} else {
				bs[i] = b.c
			}
		}
		return string(bs)
	}
	panic(fmt.Sprintf("cstr %T", v))
}

func (fr *frame) cint(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return fr.p.concretize(v, v.w, true)
	}
	panic(fmt.Sprintf("cint %T", v))
}

func strSl(v value) []value { s, _ := v.([]value); return s }

// matchAt: does sub occur in s at i?
func matchAt(s, sub []sb, i int) *Term { return bytesEq(s[i:i+len(sub)], sub) }

func (p *Path) indexOf(s, sub value) int {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return strings.Index(a, b)
		}
	}
	a, b := toSb(s), toSb(sub)
	for i := 0; i+len(b) <= len(a); i++ {
		if p.truth(fromBool(matchAt(a, b, i))) {
			return i
		}
	}
	return -1
}

func (p *Path) lastIndexOf(s, sub value) int {
	a, b := toSb(s), toSb(sub)
	for i := len(a) - len(b); i >= 0; i-- {
		if p.truth(fromBool(matchAt(a, b, i))) {
			return i
		}
	}
	return -1
}

func containsT(s, sub value) *Term {
	a, b := toSb(s), toSb(sub)
	var cs []*Term
	for i := 0; i+len(b) <= len(a); i++ {
		cs = append(cs, matchAt(a, b, i))
	}
	return tOr(cs...)
}

func anyOf(c sb, set string) *Term {
	var cs []*Term
	for i := 0; i < len(set); i++ {
		cs = append(cs, sbEq(c, sb{c: set[i]}))
	}
	return tOr(cs...)
}

func asciiSet(s value) (string, bool) {
	str, ok := s.(string)
	if !ok {
		return "", false
	}
	for i := 0; i < len(str); i++ {
		if str[i] >= 0x80 {
			return "", false
		}
	}
	return str, true
}

const asciiWS = "\t\n\v\f\r "

// allASCII reports whether all bytes are known to be < 0x80.
func allASCII(s value) bool {
	for _, b := range toSb(s) {
		if b.t == nil {
			if b.c >= 0x80 {
				return false
			}
			continue
		}
		_, hi, ok := rangeOf(b.t)
		if !ok || hi >= 0x80 {
			return false
		}
	}
	return true
}

// interp runs the ordinary body of fn although it has an intrinsic.
func (fr *frame) interp(fn *ssa.Function, args []value) value {
	prg := fr.p.ex.prog
	key := bodyKey{fn}
	c, ok := prg.meths.Load(key)
	if !ok {
		save := fr.fc.intr
		_ = save
		cc := prg.compileBody(fn)
		c, _ = prg.meths.LoadOrStore(key, cc)
	}
	fc := c.(*fcode)
	if fn.Blocks == nil {
		fr.p.unsupported("function without body: %s", fn.String())
	}
	p := fr.p
	p.depth++
	f2 := &frame{p: p, fc: fc, caller: fr.caller, regs: make([]value, fc.nregs)}
	copy(f2.regs, args)
	if fc.defers {
		for f2.block >= 0 {
			f2.runProtected()
		}
	} else {
		f2.run()
	}
	p.depth--
	return f2.result
}

type bodyKey struct{ fn *ssa.Function }

func (prg *Program) compileBody(fn *ssa.Function) *fcode {
	name := intrName(fn)
	fc := prg.compileRaw(fn, name)
	return fc
}

func (p *Path) mkErr(msg value) value {
	fn := p.ex.prog.pkgs["errors"].Func("New")
	return p.callFn(nil, fn, []value{msg}, nil)
}

func (p *Path) strList(ss []value) value { return ss }

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics
	v := func(n string) string { return vndPkg + "." + n }

	// ---- nondeterminism ----
	I[v("Choice")] = func(fr *frame, fn *ssa.Function, a []value) value {
		n := int(a[0].(int64))
		k := fr.p.choice(n)
		fr.p.inputs = append(fr.p.inputs, Input{Kind: "choice", Val: int64(k)})
		return int64(k)
	}
	mkset := func(alpha string) *[256]bool {
		var s [256]bool
		for i := 0; i < len(alpha); i++ {
			s[alpha[i]] = true
		}
		return &s
	}
	newStr := func(p *Path, alpha string, n int) value {
		bs := make([]sb, n)
		in := Input{Kind: "str"}
		set := mkset(alpha)
		for i := range bs {
			vr := p.newVar(8, set)
			in.vars = append(in.vars, vr)
			bs[i] = sb{t: mkVar(vr)}
		}
		p.inputs = append(p.inputs, in)
		return mkStr(bs)
	}
	// StrOf(alphabet, min, max)
	I[v("StrOf")] = func(fr *frame, fn *ssa.Function, a []value) value {
		lo, hi := int(a[1].(int64)), int(a[2].(int64))
		n := lo + fr.p.choice(hi-lo+1)
		return newStr(fr.p, a[0].(string), n)
	}
	I[v("Bytes")] = func(fr *frame, fn *ssa.Function, a []value) value { // any byte 0..255
		lo, hi := int(a[0].(int64)), int(a[1].(int64))
		n := lo + fr.p.choice(hi-lo+1)
		var all [256]byte
		for i := range all {
			all[i] = byte(i)
		}
		return newStr(fr.p, string(all[:]), n)
	}
	I[v("Bool")] = func(fr *frame, fn *ssa.Function, a []value) value {
		vr := fr.p.newVar(0, nil)
		fr.p.inputs = append(fr.p.inputs, Input{Kind: "bool", vars: []*Var{vr}})
		return mkVar(vr)
	}
	I[v("Int")] = func(fr *frame, fn *ssa.Function, a []value) value {
		lo, hi := a[0].(int64), a[1].(int64)
		isNew := len(fr.p.model) <= len(fr.p.vars)
		vr := fr.p.newVar(64, nil)
		vr.v0(lo, hi)
		if isNew {
			fr.p.model[vr.id] = uint64(lo)
		}
		fr.p.inputs = append(fr.p.inputs, Input{Kind: "int", vars: []*Var{vr}})
		t := mkVar(vr)
		if lo < 0 {
			fr.p.addPC(tNot(tSlt(t, bvc(64, uint64(lo)))))
			fr.p.addPC(tNot(tSlt(bvc(64, uint64(hi)), t)))
		}
		return t
	}
	I[v("Assume")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.assume(a[0])
		return nil
	}
	I[v("Assert")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.assert(a[0], fr.cstr(a[1]))
		return nil
	}
	I[v("Reach")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.reached[a[0].(string)] = true
		return nil
	}
	I[v("Note")] = func(fr *frame, fn *ssa.Function, a []value) value {
		if len(fr.p.notes) < 40 {
			fr.p.notes = append(fr.p.notes, a[0])
		}
		return nil
	}
	I[v("MapOrder")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.mapOrder = a[0].(bool)
		return nil
	}
	I[v("Preempt")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.preempt = int(a[0].(int64))
		return nil
	}
	I[v("Symbolic")] = func(fr *frame, fn *ssa.Function, a []value) value { return true }
	I[v("Yield")] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.yield(); return nil }
	I[v("Thorough")] = func(fr *frame, fn *ssa.Function, a []value) value { return thoroughTier }
	I[v("TempDir")] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.getFS().mkdirAll("/scratch")
		return "/scratch"
	}
	I[v("IsRuntimeError")] = func(fr *frame, fn *ssa.Function, a []value) value {
		i := a[0].(iface)
		return i.t != nil && i.t == fr.p.ex.prog.rtErr
	}
	I[v("PanicText")] = func(fr *frame, fn *ssa.Function, a []value) value {
		i := a[0].(iface)
		if i.t != nil && i.t != fr.p.ex.prog.rtErr {
			if text, ok := fr.callStringer(i); ok {
				return text
			}
			if isString(i.v) {
				return i.v
			}
		}
		return fr.p.panicText(i)
	}
	I[v("Crash")] = crashIntr
	I[v("Quiesce")] = func(fr *frame, fn *ssa.Function, a []value) value {
		// let every other goroutine run until none of them can continue
		p := fr.p
		me := p.sch.cur
		for {
			var rs []*gor
			for _, g := range p.runnable() {
				if g != me {
					rs = append(rs, g)
				}
			}
			if len(rs) == 0 {
				return nil
			}
			p.switchTo(rs[p.choice(len(rs))])
		}
	}

	// ---- strings ----
	// sort.Slice: the package's own sort with a swap of the engine
	for name, fnName := range map[string]string{"sort.Slice": "pdqsort_func", "sort.SliceStable": "stable_func"} {
		fnName := fnName
		I[name] = func(fr *frame, fn *ssa.Function, a []value) value {
			p := fr.p
			ifc := a[0].(iface)
			sl, _ := ifc.v.([]value)
			swap := native{func(fr *frame, a []value) value {
				i, j := fr.cint(a[0]), fr.cint(a[1])
				x, y := copyVal(sl[i]), copyVal(sl[j])
				storeTo(&sl[i], y)
				storeTo(&sl[j], x)
				return nil
			}}
			f := fn.Pkg.Func(fnName)
			n := int64(len(sl))
			args := []value{structure{a[1], swap}, int64(0), n}
			if fnName == "stable_func" {
				args = []value{structure{a[1], swap}, n}
			} else {
				lim := int64(0)
				for x := n; x > 0; x >>= 1 {
					lim++
				}
				args = append(args, lim)
			}
			return p.callFn(fr, f, args, nil)
		}
	}
	I["strings.Index"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(fr.p.indexOf(a[0], a[1])) }
	I["strings.LastIndex"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.lastIndexOf(a[0], a[1]))
	}
	I["strings.Contains"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fromBool(containsT(a[0], a[1]))
	}
	idxByte := func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.indexOf(a[0], mkStr([]sb{valSb(a[1])})))
	}
	I["strings.IndexByte"] = idxByte
	I["internal/bytealg.IndexByteString"] = idxByte
	I["internal/stringslite.IndexByte"] = idxByte
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["strings.LastIndexByte"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.lastIndexOf(a[0], mkStr([]sb{valSb(a[1])})))
	}
	I["internal/bytealg.LastIndexByteString"] = I["strings.LastIndexByte"]
	bts := func(v value) value { // []byte -> string value
		s := v.([]value)
		bs := make([]sb, len(s))
		for i := range s {
			bs[i] = valSb(s[i])
		}
		return mkStr(bs)
	}
	I["internal/bytealg.IndexByte"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.indexOf(bts(a[0]), mkStr([]sb{valSb(a[1])})))
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.LastIndexByte"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.lastIndexOf(bts(a[0]), mkStr([]sb{valSb(a[1])})))
	}
	I["bytes.Index"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(fr.p.indexOf(bts(a[0]), bts(a[1])))
	}
	I["bytes.Contains"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fromBool(containsT(bts(a[0]), bts(a[1])))
	}
	I["bytes.Equal"] = func(fr *frame, fn *ssa.Function, a []value) value { return strEq(bts(a[0]), bts(a[1])) }
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["internal/bytealg.Compare"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x, y := bts(a[0]), bts(a[1])
		if fr.p.truth(strEq(x, y)) {
			return int64(0)
		}
		if fr.p.truth(strLess(x, y)) {
			return int64(-1)
		}
		return int64(1)
	}
	cmpStr := func(fr *frame, fn *ssa.Function, a []value) value {
		if fr.p.truth(strEq(a[0], a[1])) {
			return int64(0)
		}
		if fr.p.truth(strLess(a[0], a[1])) {
			return int64(-1)
		}
		return int64(1)
	}
	I["internal/bytealg.CompareString"] = cmpStr
	I["strings.Compare"] = cmpStr
	count := func(fr *frame, s, sub value) value {
		if strLen(sub) == 0 {
			return int64(strLen(s) + 1)
		}
		n := int64(0)
		for {
			i := fr.p.indexOf(s, sub)
			if i < 0 {
				return n
			}
			n++
			s = strSlice(s, i+strLen(sub), strLen(s))
		}
	}
	I["strings.Count"] = func(fr *frame, fn *ssa.Function, a []value) value { return count(fr, a[0], a[1]) }
	I["internal/bytealg.CountString"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return count(fr, a[0], mkStr([]sb{valSb(a[1])}))
	}
	I["internal/bytealg.Count"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return count(fr, bts(a[0]), mkStr([]sb{valSb(a[1])}))
	}
	I["strings.genSplit"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s, sep := a[0], a[1]
		save := int(a[2].(int64))
		n := int(a[3].(int64))
		if n == 0 {
			return []value(nil)
		}
		if strLen(sep) == 0 {
			return fr.interp(fn, a)
		}
		var out []value
		for n < 0 || len(out) < n-1 {
			i := fr.p.indexOf(s, sep)
			if i < 0 {
				break
			}
			out = append(out, strSlice(s, 0, i+save))
			s = strSlice(s, i+strLen(sep), strLen(s))
		}
		return append(out, s)
	}
	I["strings.IndexAny"] = func(fr *frame, fn *ssa.Function, a []value) value {
		set, ok := asciiSet(a[1])
		if !ok {
			return fr.interp(fn, a)
		}
		for i, c := range toSb(a[0]) {
			if fr.p.truth(fromBool(anyOf(c, set))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	I["strings.ContainsAny"] = func(fr *frame, fn *ssa.Function, a []value) value {
		set, ok := asciiSet(a[1])
		if !ok {
			return fr.interp(fn, a)
		}
		var cs []*Term
		for _, c := range toSb(a[0]) {
			cs = append(cs, anyOf(c, set))
		}
		return fromBool(tOr(cs...))
	}
	trimL := func(fr *frame, s value, set string) value {
		bs := toSb(s)
		i := 0
		for i < len(bs) && fr.p.truth(fromBool(anyOf(bs[i], set))) {
			i++
		}
		return strSlice(s, i, len(bs))
	}
	trimR := func(fr *frame, s value, set string) value {
		bs := toSb(s)
		n := len(bs)
		for n > 0 && fr.p.truth(fromBool(anyOf(bs[n-1], set))) {
			n--
		}
		return strSlice(s, 0, n)
	}
	I["strings.TrimSpace"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if !allASCII(a[0]) {
			return fr.interp(fn, a)
		}
		return trimR(fr, trimL(fr, a[0], asciiWS), asciiWS)
	}
	I["bytes.TrimSpace"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := a[0].([]value)
		str := bts(s)
		if !allASCII(str) {
			return fr.interp(fn, a)
		}
		l := trimL(fr, str, asciiWS)
		off := len(s) - strLen(l)
		r := trimR(fr, l, asciiWS)
		if strLen(r) == 0 {
			return []value(nil)
		}
		return s[off : off+strLen(r)]
	}
	I["strings.Trim"] = func(fr *frame, fn *ssa.Function, a []value) value {
		set, ok := asciiSet(a[1])
		if !ok || !allASCII(a[0]) {
			return fr.interp(fn, a)
		}
		return trimR(fr, trimL(fr, a[0], set), set)
	}
	I["strings.TrimLeft"] = func(fr *frame, fn *ssa.Function, a []value) value {
		set, ok := asciiSet(a[1])
		if !ok || !allASCII(a[0]) {
			return fr.interp(fn, a)
		}
		return trimL(fr, a[0], set)
	}
	I["strings.TrimRight"] = func(fr *frame, fn *ssa.Function, a []value) value {
		set, ok := asciiSet(a[1])
		if !ok || !allASCII(a[0]) {
			return fr.interp(fn, a)
		}
		return trimR(fr, a[0], set)
	}
	I["strings.Fields"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if !allASCII(a[0]) {
			return fr.interp(fn, a)
		}
		bs := toSb(a[0])
		out := []value{}
		st := -1
		for i := 0; i <= len(bs); i++ {
			ws := i == len(bs) || fr.p.truth(fromBool(anyOf(bs[i], asciiWS)))
			if ws && st >= 0 {
				out = append(out, strSlice(a[0], st, i))
				st = -1
			} else if !ws && st < 0 {
				st = i
			}
		}
		return out
	}
	caseMap := func(lo, hi byte, delta int) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []value) value {
			if !allASCII(a[0]) {
				return fr.interp(fn, a)
			}
			bs := toSb(a[0])
			out := make([]sb, len(bs))
			for i, b := range bs {
				if b.t == nil {
					c := b.c
					if c >= lo && c <= hi {
						c = byte(int(c) + delta)
					}
					out[i].c = c
					continue
				}
				in := tAnd(tNot(tUlt(b.t, bvc(8, uint64(lo)))), tNot(tUlt(bvc(8, uint64(hi)), b.t)))
				t := tIte(in, tBin(OpAdd, b.t, bvc(8, uint64(delta))), b.t)
				if t.isConst() {
					out[i].c = byte(t.val)
				} else {
					out[i].t = t
				}
			}
			return mkStr(out)
		}
	}
	I["strings.ToLower"] = caseMap('A', 'Z', 32)
	I["strings.ToUpper"] = caseMap('a', 'z', -32)
	I["strings.Clone"] = func(fr *frame, fn *ssa.Function, a []value) value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["strings.Join"] = func(fr *frame, fn *ssa.Function, a []value) value {
		var out []sb
		for i, s := range strSl(a[0]) {
			if i > 0 {
				out = append(out, toSb(a[1])...)
			}
			out = append(out, toSb(s)...)
		}
		return mkStr(out)
	}
	I["strings.Repeat"] = func(fr *frame, fn *ssa.Function, a []value) value {
		n := fr.cint(a[1])
		if n < 0 {
			panic(&targetPanic{v: iface{t: types.Typ[types.String], v: "strings: negative Repeat count"}})
		}
		var out []sb
		s := toSb(a[0])
		for i := int64(0); i < n; i++ {
			out = append(out, s...)
		}
		return mkStr(out)
	}
	I["(*strings.Builder).copyCheck"] = nop
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, fn *ssa.Function, a []value) value {
		n := fr.cint(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	I["internal/abi.NoEscape"] = func(fr *frame, fn *ssa.Function, a []value) value { return a[0] }
	I["strings.noescape"] = I["internal/abi.NoEscape"]
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["strings.EqualFold"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if !allASCII(a[0]) || !allASCII(a[1]) {
			return fr.interp(fn, a)
		}
		lw := I["strings.ToLower"]
		return strEq(lw(fr, fn, []value{a[0]}), lw(fr, fn, []value{a[1]}))
	}

	// ---- strconv / misc ----
	I["strconv.Quote"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return fr.interp(fn, a)
	}
	I["strconv.Itoa"] = func(fr *frame, fn *ssa.Function, a []value) value { return strconv.FormatInt(fr.cint(a[0]), 10) }
	I["strconv.ParseFloat"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := fr.cstr(a[0])
		f, err := strconv.ParseFloat(s, int(fr.cint(a[1])))
		if err != nil {
			return tuple{f, fr.p.mkErr(err.Error())}
		}
		return tuple{f, iface{}}
	}

	// ---- runtime-ish ----
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock",
		"runtime/debug.PrintStack", "os/signal.Notify", "os/signal.Stop", "os/signal.Ignore", "internal/runtime/sys.GetCallerPC"} {
		I[n] = nop
	}
	I["runtime.Gosched"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.yield(); return nil }
	I["runtime.NumGoroutine"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(len(fr.p.sch.gs)) }
	I["runtime.NumCPU"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(8) }
	I["runtime.Stack"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := fmt.Sprintf("goroutine %d [running]:", fr.p.sch.cur.id+1)
		dst := a[0].([]value)
		n := 0
		for n < len(s) && n < len(dst) {
			dst[n] = int64(s[n])
			n++
		}
		return int64(n)
	}
	I["runtime/debug.Stack"] = func(fr *frame, fn *ssa.Function, a []value) value { return []value{} }
	I["runtime.Caller"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return tuple{int64(0), "file.go", int64(1), true}
	}
	I["runtime.Callers"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(0) }
	I["(runtime.errorString).Error"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return strCat("runtime error: ", a[0])
	}
	I["(runtime.errorString).RuntimeError"] = nop

	// ---- reflect (function identity, type names) ----
	I["reflect.ValueOf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		z := zeroResult(fn).(structure)
		z[0] = native{&a[0]}
		return z
	}
	I["(reflect.Value).Pointer"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := a[0].(structure)
		x := (*s[0].(native).v.(*value)).(iface)
		return fr.p.funcID(x.v)
	}
	I["(reflect.Value).UnsafePointer"] = I["(reflect.Value).Pointer"]
	I["(reflect.Value).IsNil"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := a[0].(structure)
		x := (*s[0].(native).v.(*value)).(iface)
		return isNilVal(x.v)
	}
	I["reflect.TypeOf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return iface{}
		}
		return iface{t: types.Typ[types.Int], v: native{rtype{x.t}}}
	}
	I["reflect.DeepEqual"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.p.deepEq(a[0], a[1])
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["errors.As"] = func(fr *frame, fn *ssa.Function, a []value) value {
		// walk the Unwrap chain, comparing dynamic types with the target's element
		err := a[0].(iface)
		tgt := a[1].(iface)
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			fr.p.unsupported("errors.As target")
		}
		for err.t != nil {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if fr.p.ex.prog.implements(err.t, it) {
					storeTo(tgt.v.(*value), err)
					return true
				}
			} else if types.Identical(err.t, pt.Elem()) {
				storeTo(tgt.v.(*value), err.v)
				return true
			}
			m := fr.p.findMethod(err.t, "Unwrap")
			if m == nil {
				return false
			}
			r := fr.p.callFn(fr, m, []value{err.v}, nil)
			e, ok := r.(iface)
			if !ok {
				return false
			}
			err = e
		}
		return false
	}

	// ---- sync ----
	lockOf := func(p *Path, a value) *lockState {
		k := lockKey{a.(*value)}
		if l, ok := p.side[k]; ok {
			return l.(*lockState)
		}
		l := &lockState{}
		p.side[k] = l
		return l
	}
	lock := func(fr *frame, fn *ssa.Function, a []value) value {
		p := fr.p
		l := lockOf(p, a[0])
		p.yield()
		p.block(func() bool { return !l.w && l.r == 0 })
		l.w = true
		l.owner = p.sch.cur
		return nil
	}
	unlock := func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		if !l.w {
			fr.p.candidate("panic", "fatal error: sync: unlock of unlocked mutex", fr.p.stackOf(fr))
		}
		l.w = false
		fr.p.yield()
		return nil
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.RWMutex).Lock"] = lock
	I["(*sync.RWMutex).Unlock"] = unlock
	try := func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		fr.p.yield()
		if l.w || l.r > 0 {
			return false
		}
		l.w = true
		return true
	}
	I["(*sync.Mutex).TryLock"] = try
	I["(*sync.RWMutex).TryLock"] = try
	I["(*sync.RWMutex).RLock"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		fr.p.yield()
		fr.p.block(func() bool { return !l.w })
		l.r++
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		if l.r <= 0 {
			fr.p.candidate("panic", "fatal error: sync: RUnlock of unlocked RWMutex", fr.p.stackOf(fr))
		}
		l.r--
		fr.p.yield()
		return nil
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		l.n += fr.cint(a[1])
		if l.n < 0 {
			fr.p.rtPanic("sync: negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		l.n--
		if l.n < 0 {
			fr.p.rtPanic("sync: negative WaitGroup counter")
		}
		fr.p.yield()
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		fr.p.yield()
		fr.p.block(func() bool { return l.n <= 0 })
		return nil
	}
	I["(*sync.Once).Do"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := lockOf(fr.p, a[0])
		if !l.w {
			l.w = true
			fr.p.call(fr, a[1], nil)
		}
		return nil
	}
	I["(*sync.Pool).Get"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := (*a[0].(*value)).(structure)
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		f := s[fieldIdx(st, "New")]
		if isNilVal(f) {
			return iface{}
		}
		return fr.p.call(fr, f, nil)
	}
	I["(*sync.Pool).Put"] = nop
	I["sync.runtime_registerPoolCleanup"] = nop
	// sync.Map as an association list
	smap := func(p *Path, a value) *hmap {
		k := smapKey{a.(*value)}
		if m, ok := p.side[k]; ok {
			return m.(*hmap)
		}
		m := newMap(types.NewInterfaceType(nil, nil))
		p.side[k] = m
		return m
	}
	I["(*sync.Map).Load"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := smap(fr.p, a[0])
		fr.p.yield()
		if i := m.find(fr.p, a[1]); i >= 0 {
			return tuple{m.ents[i].v, true}
		}
		return tuple{iface{}, false}
	}
	I["(*sync.Map).Store"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.yield()
		smap(fr.p, a[0]).set(fr.p, a[1], a[2])
		return nil
	}
	I["(*sync.Map).Delete"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.yield()
		smap(fr.p, a[0]).del(fr.p, a[1])
		return nil
	}

	atomics(I)
	fmtIntrinsics(I)
	osIntrinsics(I)
	timeIntrinsics(I)
}

func (v *Var) v0(lo, hi int64) {
	if lo >= 0 {
		v.lo, v.hi, v.rng = uint64(lo), uint64(hi), true
	}
}

type lockKey struct{ a *value }
type smapKey struct{ a *value }
type lockState struct {
	w     bool
	r     int
	n     int64
	owner *gor
}
type rtype struct{ t types.Type }

func (r rtype) invoke(fr *frame, name string, args []value) value {
	switch name {
	case "String", "Name":
		return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
	case "Comparable":
		return types.Comparable(r.t)
	}
	fr.p.unsupported("reflect.Type.%s", name)
	return nil
}

func isNilVal(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return v == nil
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *hmap:
		return v == nil
	case iface:
		return v.t == nil
	case *channel:
		return v == nil
	}
	return false
}

func (p *Path) funcID(v value) value {
	var k any
	switch f := v.(type) {
	case *ssa.Function:
		if f == nil {
			return int64(0)
		}
		k = f
	case *closure:
		k = f.fn
	case *value:
		if f == nil {
			return int64(0)
		}
		k = f
	default:
		p.unsupported("reflect pointer of %T", v)
	}
	type idk struct{ k any }
	if id, ok := p.side[idk{k}]; ok {
		return id.(int64)
	}
	id := int64(0x400000 + 64*len(p.side))
	p.side[idk{k}] = id
	return id
}

func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	type key struct {
		t types.Type
		n string
	}
	if f, ok := p.ex.prog.meths.Load(key{t, name}); ok {
		return f.(*ssa.Function)
	}
	ms := p.ex.prog.prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			f = p.ex.prog.prog.MethodValue(sel)
		}
	}
	p.ex.prog.meths.Store(key{t, name}, f)
	return f
}

func (p *Path) deepEq(x, y value) value {
	switch a := x.(type) {
	case iface:
		b, ok := y.(iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		if a.t == nil {
			return true
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return p.deepEq(a.v, b.v)
	case []value:
		b := y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		r := tTrue
		for i := range a {
			r = tAnd(r, boolTerm(p.deepEq(a[i], b[i])))
		}
		return fromBool(r)
	case structure:
		b := y.(structure)
		r := tTrue
		for i := range a {
			r = tAnd(r, boolTerm(p.deepEq(a[i], b[i])))
		}
		return fromBool(r)
	case array:
		b := y.(array)
		r := tTrue
		for i := range a {
			r = tAnd(r, boolTerm(p.deepEq(a[i], b[i])))
		}
		return fromBool(r)
	case *value:
		b := y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return p.deepEq(*a, *b)
	case *hmap:
		b := y.(*hmap)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		if a.live != b.live {
			return false
		}
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			i := b.find(p, e.k)
			if i < 0 {
				return false
			}
			if !p.truth(p.deepEq(e.v, b.ents[i].v)) {
				return false
			}
		}
		return true
	}
	return p.equals(nil, x, y)
}

// describe renders a value for notes (using the current model).
func describe(p *Path, v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "nil"
		}
		return describe(p, v.v)
	case string:
		return strconv.Quote(v)
	case symStr:
		return strconv.Quote(showSym(p, v))
	case *Term:
		if v.w == 0 {
			return fmt.Sprint(p.evalT(v) != 0)
		}
		return fmt.Sprint(sext(p.evalT(v), v.w))
	case []value:
		var ps []string
		for _, e := range v {
			ps = append(ps, describe(p, e))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case structure:
		var ps []string
		for _, e := range v {
			ps = append(ps, describe(p, e))
		}
		return "{" + strings.Join(ps, " ") + "}"
	case *hmap:
		if v == nil {
			return "map[]"
		}
		var ps []string
		for _, e := range v.ents {
			if !e.dead {
				ps = append(ps, describe(p, e.k)+":"+describe(p, e.v))
			}
		}
		sort.Strings(ps)
		return "map[" + strings.Join(ps, " ") + "]"
	}
	return fmt.Sprint(v)
}

func atomics(I map[string]intrinsic) {
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		I["sync/atomic.Load"+ty] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.yield(); return copyVal(*fr.deref(a[0])) }
		I["sync/atomic.Store"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			*fr.deref(a[0]) = a[1]
			return nil
		}
		I["sync/atomic.Swap"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			ad := fr.deref(a[0])
			old := *ad
			*ad = a[1]
			return old
		}
		I["sync/atomic.Add"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			ad := fr.deref(a[0])
			w, s, _ := intInfo(fn.Signature.Results().At(0).Type())
			*ad = norm((*ad).(int64)+a[1].(int64), w, s)
			return *ad
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			ad := fr.deref(a[0])
			if fr.p.truth(fr.p.equals(nil, *ad, a[1])) {
				*ad = a[2]
				return true
			}
			return false
		}
	}
	// typed atomics: field "v" of the struct
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Pointer", "Uintptr"} {
		rec := "(*sync/atomic." + ty + ")."
		if ty == "Pointer" {
			rec = "(*sync/atomic.Pointer[T])."
		}
		cell := func(fr *frame, fn *ssa.Function, a value) *value {
			s := (*fr.deref(a)).(structure)
			st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
			return &s[fieldIdx(st, "v")]
		}
		isB := ty == "Bool"
		conv := func(v value) value {
			if isB {
				if b, ok := v.(bool); ok {
					if b {
						return int64(1)
					}
					return int64(0)
				}
			}
			return v
		}
		back := func(v value) value {
			if isB {
				return v.(int64) != 0
			}
			return v
		}
		I[rec+"Load"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.yield(); return back(*cell(fr, fn, a[0])) }
		I[rec+"Store"] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			*cell(fr, fn, a[0]) = conv(a[1])
			return nil
		}
		I[rec+"Swap"] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			c := cell(fr, fn, a[0])
			old := *c
			*c = conv(a[1])
			return back(old)
		}
		I[rec+"Add"] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			c := cell(fr, fn, a[0])
			w, s, _ := intInfo(fn.Signature.Results().At(0).Type())
			*c = norm((*c).(int64)+a[1].(int64), w, s)
			return *c
		}
		I[rec+"CompareAndSwap"] = func(fr *frame, fn *ssa.Function, a []value) value {
			fr.p.yield()
			c := cell(fr, fn, a[0])
			if fr.p.truth(fr.p.equals(nil, *c, conv(a[1]))) {
				*c = conv(a[2])
				return true
			}
			return false
		}
	}
}

func isString(v value) bool {
	switch v.(type) {
	case string, symStr:
		return true
	}
	return false
}
