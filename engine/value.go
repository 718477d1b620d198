package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//
//	bool | *Term(w=0)         booleans
//	int64 | *Term(w>0)        integers (normalised to their Go type)
//	float64                   floats (never symbolic)
//	string | symStr           strings (concrete length, maybe symbolic bytes)
//	*value                    pointers
//	[]value                   slices
//	array, structure, tuple   aggregates
//	*hmap                     maps
//	*ssa.Function, *closure, *ssa.Builtin   functions
//	iface                     interfaces
//	*channel                  channels
//	native                    opaque engine objects
type value = any

type array []value
type structure []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type native struct{ v any }

type sb struct {
	c byte
	t *Term
}

type symStr []sb

func mkStr(bs []sb) value {
	for _, b := range bs {
		if b.t != nil {
			return symStr(bs)
		}
	}
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = b.c
	}
	return string(out)
}

func toSb(v value) []sb {
	switch v := v.(type) {
	case string:
		r := make([]sb, len(v))
		for i := 0; i < len(v); i++ {
			r[i].c = v[i]
		}
		return r
	case symStr:
		return []sb(v)
	}
	panic(fmt.Sprintf("toSb: %T", v))
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case symStr:
		return len(v)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func sbVal(b sb) value {
	if b.t != nil {
		return b.t
	}
	return int64(b.c)
}

func valSb(v value) sb {
	switch v := v.(type) {
	case int64:
		return sb{c: byte(v)}
	case *Term:
		if v.isConst() {
			return sb{c: byte(v.val)}
		}
		if v.w != 8 {
			return valSb(fromTerm(tTrunc(v, 8), false))
		}
		return sb{t: v}
	}
	panic(fmt.Sprintf("valSb: %T", v))
}

func sbTerm(b sb) *Term {
	if b.t != nil {
		return b.t
	}
	return bvc(8, uint64(b.c))
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return int64(v[i])
	case symStr:
		return sbVal(v[i])
	}
	panic("strAt")
}

func strSlice(v value, i, j int) value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case symStr:
		return mkStr(v[i:j:j])
	}
	panic("strSlice")
}

func strCat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if len(a) == 0 {
			return y
		}
	}
	if b, ok := y.(string); ok && len(b) == 0 {
		return x
	}
	a, b := toSb(x), toSb(y)
	r := make([]sb, 0, len(a)+len(b))
	r = append(r, a...)
	r = append(r, b...)
	return mkStr(r)
}

func sbEq(a, b sb) *Term {
	if a.t == nil && b.t == nil {
		return boolc(a.c == b.c)
	}
	return tEq(sbTerm(a), sbTerm(b))
}

func bytesEq(a, b []sb) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	var cs []*Term
	for i := range a {
		c := sbEq(a[i], b[i])
		if c == tFalse {
			return tFalse
		}
		if c != tTrue {
			cs = append(cs, c)
		}
	}
	return tAnd(cs...)
}

func strEq(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	return fromBool(bytesEq(toSb(x), toSb(y)))
}

// strLess: x < y lexicographically.
func strLess(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := toSb(x), toSb(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := boolc(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		lt := tUlt(sbTerm(a[i]), sbTerm(b[i]))
		eq := sbEq(a[i], b[i])
		r = tOr(lt, tAnd(eq, r))
	}
	return fromBool(r)
}

func fromBool(t *Term) value {
	if t.isConst() {
		return t.val != 0
	}
	return t
}

func boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return boolc(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm: %T", v))
}

func fromTerm(t *Term, signed bool) value {
	if t.isConst() {
		if t.w == 0 {
			return t.val != 0
		}
		if signed {
			return sext(t.val, t.w)
		}
		return int64(t.val)
	}
	return t
}

func intTerm(v value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return bvc(w, uint64(v))
	case *Term:
		return v
	}
	panic(fmt.Sprintf("intTerm: %T", v))
}

func norm(v int64, w uint8, signed bool) int64 {
	if w >= 64 {
		return v
	}
	if signed {
		return sext(uint64(v)&mask(w), w)
	}
	return int64(uint64(v) & mask(w))
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return iface{}
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		a := make(array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case array, structure:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*hmap)(nil)
	case *types.Chan:
		return (*channel)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero %v", t)))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case array:
		r := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func storeTo(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*addr).(structure); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if dst, ok := (*addr).(array); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---- maps ----

type ment struct {
	k, v value
	dead bool
}

type hmap struct {
	kt   types.Type
	ents []*ment
	idx  map[any]int
	nsym int
	live int
}

func newMap(kt types.Type) *hmap {
	return &hmap{kt: kt, idx: map[any]int{}}
}

type ikey struct {
	t string
	k any
}

// hkey gives a canonical native key for concrete keys.
func hkey(v value) (any, bool) {
	switch v := v.(type) {
	case string, int64, bool, float64, *value, *hmap, *channel, *ssa.Function:
		return v, true
	case iface:
		if v.t == nil {
			return ikey{}, true
		}
		k, ok := hkey(v.v)
		return ikey{v.t.String(), k}, ok
	case structure:
		var sbd strings.Builder
		for _, x := range v {
			k, ok := hkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sbd, "%T:%v\x00", k, k)
		}
		return ikey{"struct", sbd.String()}, true
	case array:
		var sbd strings.Builder
		for _, x := range v {
			k, ok := hkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sbd, "%T:%v\x00", k, k)
		}
		return ikey{"array", sbd.String()}, true
	}
	return nil, false
}

// find returns the index of the entry equal to k on this path, or -1. It may
// fork the path when keys are symbolic.
func (m *hmap) find(p *Path, k value) int {
	if m == nil {
		return -1
	}
	hk, conc := hkey(k)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := hkey(e.k); ec {
				continue
			}
		}
		if p.truth(p.equals(m.kt, k, e.k)) {
			return i
		}
	}
	return -1
}

func (m *hmap) set(p *Path, k, v value) {
	i := m.find(p, k)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, &ment{k: copyVal(k), v: v})
	m.live++
	if hk, ok := hkey(k); ok {
		m.idx[hk] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (m *hmap) del(p *Path, k value) {
	i := m.find(p, k)
	if i < 0 {
		return
	}
	e := m.ents[i]
	e.dead = true
	m.live--
	if hk, ok := hkey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
}

type mapIter struct {
	m     *hmap
	order []int // remaining snapshot order, nil: natural order
	i     int
}

type strIter struct {
	s value
	i int
}

// ---- channels ----

type channel struct {
	buf    []value
	cap    int
	closed bool
	// for unbuffered channels: number of receivers waiting
	recvWaiting int
	taken       int
	sent        int
}

type unsupported string

// findField returns the index of a named field of a struct type.
func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
