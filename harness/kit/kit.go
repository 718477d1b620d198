// Package kit holds helpers shared by the harnesses.
package kit

import "github.com/innerr/ticat/pkg/zzverif/vnd"

// Outcome of a guarded call.
type Outcome struct {
	Panicked bool
	Runtime  bool // an internal (index, nil, ...) runtime error
	Text     string
	Val      interface{}
}

// Try runs f and reports how it ended.
func Try(f func()) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.Panicked = true
			o.Runtime = vnd.IsRuntimeError(r)
			o.Text = vnd.PanicText(r)
			o.Val = r
		}
	}()
	f()
	return
}

// SameMap reports whether two string maps are equal.
func SameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

// SameStrs reports whether two string lists are equal.
func SameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
