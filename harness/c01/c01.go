// C01: layered environment.
package c01

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

var keys = []string{"k", "sys.k", "session", "k.sub"}

var types = []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerPersisted, model.EnvLayerSession, model.EnvLayerCmd}

// state is the reference: one plain map per layer, bottom first.
type state []map[string]string

func (s state) get(top int, k string) (string, bool) {
	for i := top; i >= 0; i-- {
		if v, ok := s[i][k]; ok {
			return v, true
		}
	}
	return "", false
}

// build makes an environment of n layers whose contents are arbitrary: each of
// nk keys is present or not in each layer, with an arbitrary value.
func build(n, nk int) ([]*model.Env, state) {
	envs := []*model.Env{model.NewEnv()}
	for i := 1; i < n; i++ {
		envs = append(envs, envs[i-1].NewLayer(types[i]))
	}
	st := state{}
	for i := 0; i < n; i++ {
		st = append(st, map[string]string{})
	}
	// top first: setting a value that is already visible below would be skipped
	for i := n - 1; i >= 0; i-- {
		for j := 0; j < nk; j++ {
			if vnd.Choice(2) == 1 {
				v := vnd.StrOf("xy", 0, 1)
				envs[i].Set(keys[j], v)
				st[i][keys[j]] = v
			}
		}
	}
	return envs, st
}

// same compares every read through every layer with the reference.
func same(envs []*model.Env, st state, nk int, what string) {
	for i, e := range envs {
		flat := map[string]string{}
		for l := 0; l <= i; l++ {
			for k, v := range st[l] {
				flat[k] = v
			}
		}
		for j := 0; j < nk; j++ {
			want, ok := st.get(i, keys[j])
			got, gok := e.GetEx(keys[j])
			vnd.Assert(ok == gok, what+": presence of a key")
			vnd.Assert(got.Raw == want, what+": value of a key")
			vnd.Assert(e.GetRaw(keys[j]) == want, what+": GetRaw")
			vnd.Assert(e.Get(keys[j]).Raw == want, what+": Get")
			vnd.Assert(e.Has(keys[j]) == ok, what+": Has")
		}
		vnd.Assert(kit.SameMap(e.FlattenAll(), flat), what+": flattened view")
		ks, vs := e.Pairs()
		vnd.Assert(len(ks) == len(st[i]) && len(vs) == len(ks), what+": number of pairs in a layer")
		for x, k := range ks {
			v, ok := st[i][k]
			vnd.Assert(ok && vs[x].Raw == v, what+": pairs of a layer")
		}
	}
}

// set is what storing a value means: nothing is stored when it is visible already.
func (s state) set(i int, k, v string) {
	if old, ok := s.get(i, k); ok && old == v {
		return
	}
	s[i][k] = v
}

// HStep: one operation from an arbitrary state, any layer, any key.
func HStep() {
	n, nk := 3, 2
	envs, st := build(n, nk)
	same(envs, st, nk, "built")
	l := vnd.Choice(n)
	k := keys[vnd.Choice(nk)]
	e := envs[l]
	switch vnd.Choice(9) {
	case 0:
		vnd.Reach("set")
		v := vnd.StrOf("xyz", 0, 1)
		before, _ := st.get(l, k)
		old := e.Set(k, v)
		vnd.Assert(old.Raw == before, "set: returns the previous value")
		st.set(l, k, v)
		same(envs, st, nk, "set")
		vnd.Assert(e.GetRaw(k) == v, "set: reads back")
	case 1:
		vnd.Reach("set-if-empty")
		v := vnd.StrOf("xyz", 0, 1)
		e.SetIfEmpty(k, v)
		if _, ok := st.get(l, k); !ok {
			st[l][k] = v
		}
		same(envs, st, nk, "set-if-empty")
	case 2:
		vnd.Reach("delete")
		e.Delete(k)
		for i := 0; i <= l; i++ {
			delete(st[i], k)
		}
		same(envs, st, nk, "delete")
		vnd.Assert(!e.Has(k), "delete: gone")
	case 3:
		vnd.Reach("delete-self")
		e.DeleteInSelfLayer(k)
		delete(st[l], k)
		same(envs, st, nk, "delete in own layer")
	case 4:
		vnd.Reach("delete-ex")
		stop := vnd.Choice(n)
		e.DeleteEx(k, types[stop])
		if stop > l {
			stop = -1
		}
		for i := l; i > stop; i-- {
			delete(st[i], k)
		}
		same(envs, st, nk, "delete down to a layer")
	case 5:
		vnd.Reach("clean")
		e.CleanCurrLayer()
		st[l] = map[string]string{}
		same(envs, st, nk, "clean layer")
	case 6:
		vnd.Reach("dedup")
		e.Deduplicate()
		if l > 0 {
			for x, v := range st[l] {
				if low, ok := st.get(l-1, x); ok && low == v {
					delete(st[l], x)
				}
			}
		}
		same(envs, st, nk, "deduplicate")
	case 7:
		vnd.Reach("clear")
		rec := vnd.Choice(2) == 1
		e.Clear(rec)
		for i := l; i >= 0; i-- {
			for x := range st[i] {
				if x != "session" && !strings.HasPrefix(x, "sys.") {
					delete(st[i], x)
				}
			}
			if !rec {
				break
			}
		}
		same(envs, st, nk, "clear")
	case 8:
		vnd.Reach("write-to")
		t := vnd.Choice(n)
		e.WriteCurrLayerTo(envs[t])
		if t != l {
			for x, v := range st[l] {
				st.set(t, x, v)
			}
		}
		same(envs, st, nk, "write layer to another")
	}
}

// HClear: which keys survive a clear, for every key text.
func HClear() {
	e := model.NewEnv()
	k := vnd.StrOf("sy.eion", 1, 7)
	e.Set(k, "v")
	e.Clear(true)
	keep := strings.HasPrefix(k, "sys.") || k == "session"
	if keep {
		vnd.Reach("kept")
	} else {
		vnd.Reach("cleared")
	}
	vnd.Assert(e.Has(k) == keep, "clear keeps exactly the process keys")
}

// HCloneMerge: copies are independent of their source; merge overwrites.
func HCloneMerge() {
	envs, st := build(2, 2)
	top := envs[1]
	c := top.Clone()
	cl := []*model.Env{c.Parent(), c}
	same(cl, st, 2, "clone")
	vnd.Assert(c.LayerType() == top.LayerType() && c.Parent().LayerType() == envs[0].LayerType(), "clone keeps layer types")
	k := keys[vnd.Choice(2)]
	l := vnd.Choice(2)
	v := vnd.StrOf("xyz", 0, 1)
	switch vnd.Choice(4) {
	case 0:
		cl[l].Set(k, v)
		same(envs, st, 2, "writing to a clone leaves the source")
	case 1:
		cl[l].Delete(k)
		same(envs, st, 2, "deleting in a clone leaves the source")
	case 2:
		envs[l].Set(k, v)
		same(cl, st, 2, "writing to the source leaves the clone")
	case 3:
		vnd.Reach("merge")
		x := model.NewEnvEx(model.EnvLayerTmp)
		has := vnd.Choice(2) == 1
		if has {
			x.Set(k, v)
		}
		envs[l].Merge(x)
		if has {
			st[l][k] = v
		}
		same(envs, st, 2, "merge")
		_, ok := x.GetEx(k)
		vnd.Assert(ok == has, "merge leaves its argument")
	}
}

// HLayers: finding layers by type, dropping a layer, layer listing.
func HLayers() {
	envs, st := build(3, 2)
	top := envs[2]
	for i := range envs {
		vnd.Assert(top.GetLayer(types[i]) == envs[i], "layer found by type")
		vnd.Assert(top.GetOrNewLayer(types[i]) == envs[i], "existing layer reused")
	}
	o := kit.Try(func() { top.GetLayer(model.EnvLayerSubFlow) })
	vnd.Assert(o.Panicked && !o.Runtime, "missing layer is reported")
	a, b := types[vnd.Choice(4)], types[vnd.Choice(4)]
	o = kit.Try(func() {
		r := top.GetOneOfLayers(a, b)
		want := a
		if a == model.EnvLayerCmd {
			want = b
		}
		vnd.Assert(r == top.GetLayer(want), "first present layer wins")
	})
	vnd.Assert(o.Panicked == (a == model.EnvLayerCmd && b == model.EnvLayerCmd), "none of the layers present")
	// a new layer sees everything, and dropping it restores
	n := top.NewLayer(model.EnvLayerTmp)
	k := keys[vnd.Choice(2)]
	want, ok := st.get(2, k)
	vnd.Assert(n.GetRaw(k) == want && n.Has(k) == ok, "new layer inherits")
	v := vnd.StrOf("xyz", 0, 1)
	n.Set(k, v)
	vnd.Assert(n.GetRaw(k) == v, "new layer overrides")
	vnd.Assert(n.Parent() == top, "parent")
	same(envs, st, 2, "writes to a dropped layer leave the others")
	nl := top.NewLayers(model.EnvLayerSubFlow, model.EnvLayerTmp)
	vnd.Assert(nl.LayerType() == model.EnvLayerTmp && nl.Parent().LayerType() == model.EnvLayerSubFlow && nl.Parent().Parent() == top, "several layers")
	vnd.Assert(nl.GetOrNewLayer(model.EnvLayerCmd).Parent() == nl, "missing layer created on top")
	vnd.Reach("end")
}

// HFlatten: flattened views with filters.
func HFlatten() {
	e := model.NewEnv()
	s := e.NewLayer(model.EnvLayerSession)
	k1 := vnd.StrOf("ab.", 1, 3)
	k2 := vnd.StrOf("ab.", 1, 3)
	f := vnd.StrOf("ab.", 0, 3)
	e.Set(k1, "1")
	isArg := vnd.Choice(2) == 1
	s.SetEx(k2, "2", isArg, false)
	inclDef := vnd.Choice(2) == 1
	noArgs := vnd.Choice(2) == 1
	want := map[string]string{}
	pass := func(k string) bool { return len(f) == 0 || !strings.HasPrefix(k, f) }
	if inclDef && pass(k1) {
		want[k1] = "1"
	}
	if pass(k2) && !(noArgs && isArg) {
		want[k2] = "2"
	}
	if len(want) == 2 {
		vnd.Reach("both")
	}
	if len(want) == 0 {
		vnd.Reach("none")
	}
	vnd.Assert(kit.SameMap(s.Flatten(inclDef, []string{f}, noArgs), want), "flatten with filters")
}

// HTyped: typed accessors agree with the text.
func HTyped() {
	e := model.NewEnv().NewLayer(model.EnvLayerSession)
	switch vnd.Choice(3) {
	case 0:
		a, b := vnd.Int(-3, 12), vnd.Int(-2, 2)
		e.SetInt("n", a)
		vnd.Assert(e.GetInt("n") == a, "int round trip")
		e.PlusInt("n", b)
		vnd.Assert(e.GetInt("n") == a+b, "plus")
		vnd.Reach("int")
	case 1:
		b := vnd.Bool()
		e.SetBool("b", b)
		vnd.Assert(e.GetBool("b") == b, "bool round trip")
		old := e.SetBool("b", !b)
		vnd.Assert(old == b, "SetBool returns the old value")
		vnd.Reach("bool")
	case 2:
		s := vnd.StrOf("0123456789-x", 0, 4)
		e.Set("n", s)
		o := kit.Try(func() { e.GetInt("n") })
		vnd.Assert(!o.Runtime, "a malformed number is a reported error")
		if o.Panicked {
			vnd.Reach("malformed")
		}
	}
}

// HArgv: argument values by precedence given > default, and their position.
func HArgv() {
	cmd := kit.NewTree().GetOrAddSub("cmd", "sub").RegCmd(kit.Nop, "help", "")
	cmd.AddArg("x", "dx", "ax").AddArg("y", "dy")
	args := cmd.Args()
	e := model.NewEnv()
	s := e.NewLayer(model.EnvLayerSession)
	c := s.NewLayer(model.EnvLayerCmd)
	where := vnd.Choice(4)
	v := vnd.StrOf("pq", 0, 2)
	switch where {
	case 1:
		e.Set("cmd.sub.x", v)
	case 2:
		s.Set("cmd.sub.x", v)
	case 3:
		c.Set("cmd.sub.x", v)
	}
	argv := c.GetArgv([]string{"cmd", "sub"}, ".", 1, args)
	if where == 0 {
		vnd.Assert(argv["x"].Raw == "dx" && !argv["x"].Provided, "default used when not given")
		vnd.Reach("default")
	} else {
		vnd.Assert(argv["x"].Raw == v && argv["x"].Provided, "given value used")
	}
	vnd.Assert(argv["y"].Raw == "dy" && !argv["y"].Provided, "other argument keeps its default")
	vnd.Assert(argv["x"].Index == 0 && argv["y"].Index == 1 && len(argv) == 2, "argument positions")
}
