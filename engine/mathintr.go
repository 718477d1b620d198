package main

import (
	"math"

	"golang.org/x/tools/go/ssa"
)

// Floats are never symbolic, so their bits and functions are the host's.
func init() {
	I := intrinsics
	I["math.Float64bits"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(math.Float64bits(a[0].(float64))) }
	I["math.Float64frombits"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return math.Float64frombits(uint64(fr.cint(a[0])))
	}
	I["math.Float32bits"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return int64(math.Float32bits(float32(a[0].(float64))))
	}
	I["math.Float32frombits"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return float64(math.Float32frombits(uint32(fr.cint(a[0]))))
	}
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round,
		"RoundToEven": math.RoundToEven, "Abs": math.Abs, "Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10} {
		f := f
		I["math."+name] = func(fr *frame, fn *ssa.Function, a []value) value { return f(a[0].(float64)) }
	}
	for name, f := range map[string]func(a, b float64) float64{"Mod": math.Mod, "Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Remainder": math.Remainder} {
		f := f
		I["math."+name] = func(fr *frame, fn *ssa.Function, a []value) value { return f(a[0].(float64), a[1].(float64)) }
	}
}
