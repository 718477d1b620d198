package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json over strings, integers, booleans, slices and structs: texts
// become concrete, one value per path.

func jsonName(st *types.Struct, i int) string {
	if n := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; n != "" {
		return n
	}
	return st.Field(i).Name()
}

func (fr *frame) toJSON(t types.Type, v value) string {
	enc := func(x any) string {
		b, _ := json.Marshal(x)
		return string(b)
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return enc(fr.cstr(v))
		case t.Info()&types.IsInteger != 0:
			return enc(fr.cint(v))
		case t.Info()&types.IsBoolean != 0:
			if b, ok := v.(bool); ok {
				return enc(b)
			}
		}
	case *types.Slice:
		l, _ := v.([]value)
		if l == nil {
			return "null"
		}
		var parts []string
		for _, it := range l {
			parts = append(parts, fr.toJSON(t.Elem(), it))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case *types.Struct:
		s := v.(structure)
		var parts []string
		for i := range s {
			if t.Field(i).Exported() {
				parts = append(parts, enc(jsonName(t, i))+":"+fr.toJSON(t.Field(i).Type(), s[i]))
			}
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	fr.p.unsupported("encoding/json of %v", t)
	return ""
}

func (fr *frame) fromJSON(t types.Type, raw json.RawMessage, old value) (value, error) {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			var s string
			err := json.Unmarshal(raw, &s)
			return s, err
		case t.Info()&types.IsInteger != 0:
			var n int64
			err := json.Unmarshal(raw, &n)
			return n, err
		case t.Info()&types.IsBoolean != 0:
			var b bool
			err := json.Unmarshal(raw, &b)
			return b, err
		}
	case *types.Slice:
		var parts []json.RawMessage
		if err := json.Unmarshal(raw, &parts); err != nil {
			return old, err
		}
		if parts == nil {
			return []value(nil), nil
		}
		out := make([]value, len(parts))
		for i, it := range parts {
			e, err := fr.fromJSON(t.Elem(), it, zero(t.Elem()))
			if err != nil {
				return old, err
			}
			out[i] = e
		}
		return out, nil
	case *types.Struct:
		var parts map[string]json.RawMessage
		if err := json.Unmarshal(raw, &parts); err != nil {
			return old, err
		}
		s := copyVal(old).(structure)
		for name, it := range parts {
			for i := range s {
				if t.Field(i).Exported() && strings.EqualFold(jsonName(t, i), name) {
					e, err := fr.fromJSON(t.Field(i).Type(), it, s[i])
					if err != nil {
						return old, err
					}
					s[i] = e
				}
			}
		}
		return s, nil
	}
	fr.p.unsupported("encoding/json into %v", t)
	return nil, fmt.Errorf("unsupported")
}

func init() {
	I := intrinsics
	I["encoding/json.Marshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		it := a[0].(iface)
		s := fr.toJSON(it.t, it.v)
		out := make([]value, len(s))
		for i := range out {
			out[i] = int64(s[i])
		}
		return tuple{out, iface{}}
	}
	I["encoding/json.Unmarshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		bs := a[0].([]value)
		sbs := make([]sb, len(bs))
		for i, b := range bs {
			sbs[i] = valSb(b)
		}
		s := fr.cstr(mkStr(sbs))
		it := a[1].(iface)
		ptr, ok := it.t.Underlying().(*types.Pointer)
		if !ok {
			return fr.p.mkErr("json: Unmarshal(non-pointer)")
		}
		if !json.Valid([]byte(s)) {
			var x any
			return fr.p.mkErr(json.Unmarshal([]byte(s), &x).Error())
		}
		cell := it.v.(*value)
		v, err := fr.fromJSON(ptr.Elem(), json.RawMessage(s), *cell)
		if err != nil {
			return fr.p.mkErr(err.Error())
		}
		storeTo(cell, v)
		return iface{}
	}
}
