package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// callStringer calls Error or String when the dynamic type has it.
func (fr *frame) callStringer(v iface) (value, bool) {
	p := fr.p
	if n, ok := v.v.(native); ok {
		if im, ok := n.v.(invoker); ok {
			return im.invoke(fr, "String", nil), true
		}
	}
	for _, name := range []string{"Error", "String"} {
		m := p.findMethod(v.t, name)
		if m == nil {
			continue
		}
		sg := m.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			continue
		}
		if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if a, ok := v.v.(*value); ok && a == nil {
			return "<nil>", true
		}
		return p.callFn(fr, m, []value{copyVal(v.v)}, nil), true
	}
	return nil, false
}

// fmtV renders v like fmt's %v (plus: %+v, sharp: treated as %v).
func (fr *frame) fmtV(t types.Type, v value, plus bool, top bool, depth int) value {
	p := fr.p
	if ifc, ok := v.(iface); ok {
		if ifc.t == nil {
			return "<nil>"
		}
		return fr.fmtV(ifc.t, ifc.v, plus, top, depth)
	}
	if t != nil {
		if s, ok := fr.callStringer(iface{t, v}); ok {
			return s
		}
	}
	var ut types.Type
	if t != nil {
		ut = t.Underlying()
	}
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case string, symStr:
		return x
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case int64:
		if w, s, ok := intInfo(ut); ok && w == 64 && !s {
			return strconv.FormatUint(uint64(x), 10)
		}
		return strconv.FormatInt(x, 10)
	case *Term:
		if x.w == 0 {
			return strconv.FormatBool(p.truth(x))
		}
		_, s, _ := intInfo(ut)
		c := p.concretize(x, x.w, s)
		return fr.fmtV(t, c, plus, top, depth)
	case []value:
		var et types.Type
		if st, ok := ut.(*types.Slice); ok {
			et = st.Elem()
		}
		var r value = "["
		for i, e := range x {
			if i > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, fr.fmtV(et, e, plus, false, depth+1))
		}
		return strCat(r, "]")
	case array:
		var et types.Type
		if st, ok := ut.(*types.Array); ok {
			et = st.Elem()
		}
		var r value = "["
		for i, e := range x {
			if i > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, fr.fmtV(et, e, plus, false, depth+1))
		}
		return strCat(r, "]")
	case structure:
		st, _ := ut.(*types.Struct)
		var r value = "{"
		for i, e := range x {
			if i > 0 {
				r = strCat(r, " ")
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if plus {
					r = strCat(r, st.Field(i).Name()+":")
				}
			}
			r = strCat(r, fr.fmtV(ft, e, plus, false, depth+1))
		}
		return strCat(r, "}")
	case *value:
		if x == nil {
			return "<nil>"
		}
		if pt, ok := ut.(*types.Pointer); ok && depth == 0 {
			switch (*x).(type) {
			case structure, array, []value:
				return strCat("&", fr.fmtV(pt.Elem(), *x, plus, false, depth+1))
			}
		}
		return "0xc000010000"
	case *hmap:
		if x == nil {
			return "map[]"
		}
		mt, _ := ut.(*types.Map)
		type kv struct{ k, v value }
		var kvs []kv
		for _, e := range x.ents {
			if !e.dead {
				kvs = append(kvs, kv{e.k, e.v})
			}
		}
		sort.SliceStable(kvs, func(i, j int) bool {
			switch a := kvs[i].k.(type) {
			case int64:
				if b, ok := kvs[j].k.(int64); ok {
					return a < b
				}
			case string, symStr:
				return p.truth(strLess(kvs[i].k, kvs[j].k))
			}
			return false
		})
		var r value = "map["
		for i, e := range kvs {
			if i > 0 {
				r = strCat(r, " ")
			}
			var kt, vt types.Type
			if mt != nil {
				kt, vt = mt.Key(), mt.Elem()
			}
			r = strCat(r, fr.fmtV(kt, e.k, plus, false, depth+1))
			r = strCat(r, ":")
			r = strCat(r, fr.fmtV(vt, e.v, plus, false, depth+1))
		}
		return strCat(r, "]")
	case *ssa.Function, *closure:
		return "0x400000"
	case native:
		return "native"
	case *channel:
		return "0xc000020000"
	}
	p.unsupported("fmt of %T", v)
	return nil
}

func pad(s value, width int, minus bool, zero bool) value {
	n := strLen(s)
	if c, ok := s.(string); ok {
		n = utf8.RuneCountInString(c)
	}
	if n >= width {
		return s
	}
	fill := strings.Repeat(" ", width-n)
	if minus {
		return strCat(s, fill)
	}
	if zero {
		fill = strings.Repeat("0", width-n)
	}
	return strCat(fill, s)
}

// sprintf interprets a concrete format string.
func (fr *frame) sprintf(format value, args []value) value {
	p := fr.p
	fsb := toSb(format)
	var out value = ""
	argi := 0
	reordered := false
	i := 0
	for i < len(fsb) {
		st := i
		for i < len(fsb) && (fsb[i].t != nil || fsb[i].c != '%') {
			if fsb[i].t != nil && p.truth(fromBool(sbEq(fsb[i], sb{c: '%'}))) {
				// a symbolic '%' in a format string
				fsb = append([]sb(nil), fsb...)
				fsb[i] = sb{c: '%'}
				break
			}
			i++
		}
		if i > st {
			out = strCat(out, mkStr(fsb[st:i:i]))
		}
		if i >= len(fsb) {
			break
		}
		i++
		var plus, minus, sharp, zeroF, space bool
	flags:
		for i < len(fsb) {
			if fsb[i].t != nil {
				fsb = append([]sb(nil), fsb...)
				fsb[i] = sb{c: byte(p.concretize(fsb[i].t, 8, false))}
			}
			switch fsb[i].c {
			case '+':
				plus = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '0':
				zeroF = true
			case ' ':
				space = true
			default:
				break flags
			}
			i++
		}
		badIdx := false
		argNo := func() {
			if i >= len(fsb) || fsb[i].t != nil || fsb[i].c != '[' {
				return
			}
			n, j := 0, i+1
			for j < len(fsb) && fsb[j].t == nil && fsb[j].c >= '0' && fsb[j].c <= '9' {
				n = n*10 + int(fsb[j].c-'0')
				j++
			}
			if j >= len(fsb) || fsb[j].t != nil || fsb[j].c != ']' {
				p.unsupported("argument index in a format string")
			}
			i = j + 1
			reordered = true
			if n < 1 || n > len(args) {
				badIdx = true
				return
			}
			argi = n - 1
		}
		num := func() (int, bool) {
			argNo()
			if i < len(fsb) && fsb[i].t == nil && fsb[i].c == '*' {
				i++
				if argi < len(args) {
					n := fr.cint(args[argi].(iface).v)
					argi++
					return int(n), true
				}
				return 0, false
			}
			n, ok := 0, false
			for i < len(fsb) && fsb[i].t == nil && fsb[i].c >= '0' && fsb[i].c <= '9' {
				n = n*10 + int(fsb[i].c-'0')
				ok = true
				i++
			}
			return n, ok
		}
		width, hasW := num()
		if width < 0 {
			minus = true
			width = -width
		}
		prec, hasP := 0, false
		if i < len(fsb) && fsb[i].t == nil && fsb[i].c == '.' {
			i++
			prec, hasP = num()
			hasP = true
		}
		argNo()
		if i >= len(fsb) {
			out = strCat(out, "%!(NOVERB)")
			break
		}
		if fsb[i].t != nil {
			fsb = append([]sb(nil), fsb...)
			fsb[i] = sb{c: byte(p.concretize(fsb[i].t, 8, false))}
		}
		verb := fsb[i].c
		i++
		if verb == '%' {
			out = strCat(out, "%")
			continue
		}
		if badIdx {
			out = strCat(out, "%!"+string(rune(verb))+"(BADINDEX)")
			continue
		}
		if argi >= len(args) {
			out = strCat(out, "%!"+string(rune(verb))+"(MISSING)")
			continue
		}
		arg := args[argi].(iface)
		argi++
		var r value
		switch verb {
		case 'v', 's', 'w':
			if arg.t == nil {
				if verb == 'v' {
					r = "<nil>"
				} else {
					r = "%!" + string(rune(verb)) + "(<nil>)"
				}
			} else {
				if verb == 's' {
					switch arg.v.(type) {
					case int64:
						if _, ok := fr.callStringer(arg); !ok {
							r = fmt.Sprintf("%%!s(%s=%d)", arg.t, arg.v)
						}
					case bool:
						r = fmt.Sprintf("%%!s(bool=%v)", arg.v)
					case []value:
						if sl, ok := arg.t.Underlying().(*types.Slice); ok {
							if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
								r = p.convert(types.Typ[types.String], arg.t, arg.v)
							}
						}
					}
				}
				if r == nil {
					if sharp {
						if s, ok := arg.v.(string); ok {
							r = strconv.Quote(s)
						}
					}
					if f, ok := arg.v.(float64); ok && hasP {
						r = strconv.FormatFloat(f, 'g', prec, 64)
						hasP = false
					}
				}
				if r == nil {
					r = fr.fmtV(arg.t, arg.v, plus, true, 0)
				}
			}
			if hasP && strLen(r) > prec {
				r = strSlice(r, 0, prec)
			}
			_ = space
		case 'd':
			switch x := arg.v.(type) {
			case int64, *Term:
				if tt, ok := x.(*Term); ok && tt.w == 0 {
					r = "%!d(bool)"
				} else {
					_, s, _ := intInfo(arg.t)
					n := int64(0)
					if tt, ok := x.(*Term); ok {
						n = p.concretize(tt, tt.w, s)
					} else {
						n = x.(int64)
					}
					if w, s, ok := intInfo(arg.t); ok && w == 64 && !s {
						r = strconv.FormatUint(uint64(n), 10)
					} else {
						r = strconv.FormatInt(n, 10)
					}
					if plus && n >= 0 {
						r = "+" + r.(string)
					}
					if hasW && zeroF && !minus && n < 0 && len(r.(string)) < width {
						r = "-" + strings.Repeat("0", width-len(r.(string))) + r.(string)[1:]
					}
				}
			default:
				r = strCat(strCat("%!d("+fmt.Sprint(arg.t)+"=", fr.fmtV(arg.t, arg.v, plus, true, 0)), ")")
			}
		case 'c':
			r = p.runeToStr(arg.v)
		case 't':
			r = fr.fmtV(arg.t, arg.v, false, true, 0)
		case 'q':
			if _, ok := arg.v.(int64); ok {
				r = strconv.QuoteRune(rune(arg.v.(int64)))
			} else {
				s := fr.fmtV(arg.t, arg.v, false, true, 0)
				r = strconv.Quote(fr.cstr(s))
			}
		case 'x', 'X', 'o', 'b':
			switch x := arg.v.(type) {
			case int64:
				r = fmt.Sprintf("%"+map[bool]string{true: "#"}[sharp]+string(rune(verb)), x)
			case string:
				r = fmt.Sprintf("%"+string(rune(verb)), x)
			default:
				p.unsupported("fmt %%%c of %T", verb, x)
			}
		case 'f', 'g', 'e', 'F':
			f, ok := arg.v.(float64)
			if !ok {
				r = "%!" + string(rune(verb)) + "(?)"
			} else {
				pr := 6
				if hasP {
					pr = prec
				} else if verb == 'g' {
					pr = -1
				}
				r = strconv.FormatFloat(f, verb|32, pr, 64)
			}
		case 'T':
			if arg.t == nil {
				r = "<nil>"
			} else {
				r = types.TypeString(arg.t, func(p *types.Package) string { return p.Name() })
			}
		case 'p':
			r = "0xc000010000"
		default:
			r = "%!" + string(rune(verb)) + "(?)"
		}
		if hasW {
			r = pad(r, width, minus, zeroF)
		}
		out = strCat(out, r)
	}
	if !reordered && argi < len(args) {
		var ex value = "%!(EXTRA "
		for k := argi; k < len(args); k++ {
			a := args[k].(iface)
			if k > argi {
				ex = strCat(ex, ", ")
			}
			if a.t == nil {
				ex = strCat(ex, "<nil>")
				continue
			}
			ex = strCat(ex, types.TypeString(a.t, func(p *types.Package) string { return p.Name() })+"=")
			ex = strCat(ex, fr.fmtV(a.t, a.v, false, true, 0))
		}
		out = strCat(out, strCat(ex, ")"))
	}
	return out
}

func isStringIface(v value) bool {
	switch v.(iface).v.(type) {
	case string, symStr:
		return true
	}
	return false
}

func (fr *frame) sprint(args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, a := range args {
		isS := isStringIface(a)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = strCat(out, " ")
		}
		ifc := a.(iface)
		if ifc.t == nil {
			out = strCat(out, "<nil>")
		} else {
			out = strCat(out, fr.fmtV(ifc.t, ifc.v, false, true, 0))
		}
		prevStr = isS
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

// writeTo calls w.Write([]byte(s)).
func (fr *frame) writeTo(w value, s value) value {
	p := fr.p
	ifc := w.(iface)
	if ifc.t == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	bs := toSb(s)
	sl := make([]value, len(bs))
	for i := range bs {
		sl[i] = sbVal(bs[i])
	}
	m := p.findMethod(ifc.t, "Write")
	if m == nil {
		p.unsupported("no Write on %v", ifc.t)
	}
	return p.callFn(fr, m, []value{copyVal(ifc.v), sl}, nil)
}

func fmtIntrinsics(I map[string]intrinsic) {
	I["fmt.Sprintf"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.sprintf(a[0], strSl(a[1])) }
	I["fmt.Sprint"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.sprint(strSl(a[0]), false) }
	I["fmt.Sprintln"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.sprint(strSl(a[0]), true) }
	I["fmt.Fprintf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.writeTo(a[0], fr.sprintf(a[1], strSl(a[2])))
	}
	I["fmt.Fprint"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.writeTo(a[0], fr.sprint(strSl(a[1]), false))
	}
	I["fmt.Fprintln"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.writeTo(a[0], fr.sprint(strSl(a[1]), true))
	}
	stdout := func(fr *frame, s value) value {
		// A harness may have put a file in the place of os.Stdout
		if v := fr.p.ex.prog.pkgs["os"].Var("Stdout"); v != nil {
			if f, _ := (*fr.p.globalAddr(v)).(*value); f != nil && fr.p.getFS().open[f] != nil {
				return I["(*os.File).WriteString"](fr, nil, []value{f, s})
			}
		}
		fr.p.stdout = append(fr.p.stdout, toSb(s)...)
		return tuple{int64(strLen(s)), iface{}}
	}
	I["fmt.Printf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return stdout(fr, fr.sprintf(a[0], strSl(a[1])))
	}
	I["fmt.Print"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return stdout(fr, fr.sprint(strSl(a[0]), false))
	}
	I["fmt.Println"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return stdout(fr, fr.sprint(strSl(a[0]), true))
	}
	I["fmt.Errorf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		args := strSl(a[1])
		msg := fr.sprintf(a[0], args)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				ifc := x.(iface)
				if ifc.t == nil {
					continue
				}
				if fr.p.findMethod(ifc.t, "Error") != nil {
					wt := fr.p.ex.prog.pkgs["fmt"].Type("wrapError").Type()
					cell := new(value)
					*cell = structure{msg, ifc}
					return iface{t: types.NewPointer(wt), v: cell}
				}
			}
		}
		return fr.p.mkErr(msg)
	}
}
