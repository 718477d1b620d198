// C02: environment save/load round trip.
package c02

import (
	"os"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func newEnv() *model.Env {
	return model.NewEnvEx(model.EnvLayerDefault).NewLayers(model.EnvLayerPersisted, model.EnvLayerSession)
}

func reload(path string, defaults *model.Env) *model.Env {
	e := newEnv()
	if defaults != nil {
		defaults.WriteCurrLayerTo(e.GetLayer(model.EnvLayerDefault))
	}
	model.LoadEnvFromFile(e.GetLayer(model.EnvLayerPersisted), path, "=", "--")
	return e
}

// check asserts a round trip of one value, with the values the line format is
// known not to hold kept apart (see known_findings.json).
func check(ok bool, v string, what string) {
	switch {
	case strings.Contains(v, "\n"):
		vnd.Assert(ok, "[KF-C02-1] value with a newline: "+what)
	case strings.HasSuffix(v, "\r"):
		vnd.Assert(ok, "[KF-C02-2] value ending in a carriage return: "+what)
	default:
		vnd.Assert(ok, what)
	}
}

// HValue: one key, any value bytes.
func HValue() {
	n := 3
	if vnd.Thorough() {
		n = 5
	}
	v := vnd.Bytes(0, n)
	vnd.Assume(v != "--") // the deletion mark is not a value
	e := newEnv()
	e.Set("some.key", v)
	p := vnd.TempDir() + "/env"
	model.SaveEnvToFile(e, p, "=", vnd.Choice(2) == 1)
	var got string
	o := kit.Try(func() { got = reload(p, nil).GetRaw("some.key") })
	check(!o.Panicked, v, "the saved file loads")
	check(got == v, v, "value read back")
	vnd.Note(got)
	vnd.Reach("checked")
}

// HKey: any key text, including separators of the key syntax.
func HKey() {
	k := vnd.StrOf("ab.-_ \"'{}:%^@\t", 1, 4)
	v := vnd.StrOf("=x \"", 0, 2)
	e := newEnv()
	e.Set(k, v)
	p := vnd.TempDir() + "/env"
	model.SaveEnvToFile(e, p, "=", false)
	r := reload(p, nil)
	val, ok := r.GetEx(k)
	vnd.Assert(ok && val.Raw == v, "value under this key read back")
	vnd.Assert(len(r.FlattenAll()) == 1, "nothing invented")
}

// HLayers: several keys over all layers; nothing lost, mixed or invented.
func HLayers() {
	vnd.MapOrder(true)
	ks := []string{"a", "a.b", "ab"}
	vals := "x=-"
	e := newEnv()
	d, ps, s := e.GetLayer(model.EnvLayerDefault), e.GetLayer(model.EnvLayerPersisted), e
	n := 2
	for i := 0; i < n; i++ {
		if vnd.Choice(2) == 1 {
			s.Set(ks[i], vnd.StrOf(vals, 0, 1))
		}
		if vnd.Choice(2) == 1 {
			ps.Set(ks[i], vnd.StrOf(vals, 0, 1))
		}
	}
	if vnd.Choice(2) == 1 {
		d.Set(ks[vnd.Choice(3)], vnd.StrOf(vals, 0, 1))
	}
	p := vnd.TempDir() + "/env"
	skip := vnd.Choice(2) == 1
	model.SaveEnvToFile(e, p, "=", skip)
	r := reload(p, d)
	for _, k := range ks {
		vnd.Assert(r.GetRaw(k) == e.GetRaw(k), "every value read back")
		if !skip {
			vnd.Assert(r.Has(k) == e.Has(k), "no key lost or invented")
		}
		if r.Has(k) {
			vnd.Assert(e.Has(k), "no key invented")
		}
	}
	b, err := os.ReadFile(p)
	vnd.Assert(err == nil, "file exists")
	// saving what was loaded gives the same file
	model.SaveEnvToFile(r, p+"2", "=", skip)
	b2, err := os.ReadFile(p + "2")
	vnd.Assert(err == nil && string(b) == string(b2), "saving what was loaded writes the same file")
	_, err = os.Stat(p + ".tmp")
	vnd.Assert(os.IsNotExist(err), "no temporary file left")
	vnd.Reach("end")
}

// HLong: long values, with another key after them.
func HLong() {
	sizes := []int{100, 4094, 4095, 4096, 65529, 65530, 65531, 65535, 65536, 65537, 140000}
	n := sizes[vnd.Choice(len(sizes))]
	v := strings.Repeat("x", n) + vnd.StrOf("yz=", 1, 1)
	e := newEnv()
	e.Set("a", "1")
	e.Set("k", v)
	e.Set("z", "2")
	p := vnd.TempDir() + "/env"
	model.SaveEnvToFile(e, p, "=", true)
	var r *model.Env
	o := kit.Try(func() { r = reload(p, nil) })
	vnd.Assert(!o.Panicked, "a long value loads")
	got := r.GetRaw("k")
	vnd.Assert(len(got) == len(v), "a long value keeps its length")
	vnd.Assert(got == v, "a long value is read back")
	vnd.Assert(r.GetRaw("a") == "1" && r.GetRaw("z") == "2", "keys around a long value")
	vnd.Reach("end")
}

// HOverwrite: saving again replaces the whole content (no remains of a longer file).
func HOverwrite() {
	p := vnd.TempDir() + "/env"
	e := newEnv()
	e.Set("k", vnd.StrOf("ab=", 0, 4))
	e.Set("other", "1")
	model.SaveEnvToFile(e, p, "=", true)
	e2 := newEnv()
	v := vnd.StrOf("ab=", 0, 2)
	e2.Set("k", v)
	model.SaveEnvToFile(e2, p, "=", true)
	r := reload(p, nil)
	vnd.Assert(r.GetRaw("k") == v, "second save wins")
	vnd.Assert(!r.Has("other"), "nothing of the first save remains")
}

// HText: any file text either loads, entry by entry, or is reported.
func HText() {
	n := 5
	if vnd.Thorough() {
		n = 7
	}
	t := vnd.StrOf("a=-\n\r", 0, n)
	p := vnd.TempDir() + "/env"
	os.WriteFile(p, []byte(t), 0644)
	var r *model.Env
	o := kit.Try(func() { r = reload(p, nil) })
	vnd.Assert(!o.Runtime, "no internal error on a malformed file")
	if o.Panicked {
		vnd.Reach("reported")
		return
	}
	// reference reading: the last line for a key wins, the mark deletes
	want := map[string]string{}
	for _, l := range strings.Split(t, "\n") {
		l = strings.TrimSuffix(l, "\r")
		i := strings.Index(l, "=")
		if i < 0 {
			vnd.Assert(len(l) == 0, "a line without separator is reported")
			continue
		}
		if l[i+1:] == "--" {
			delete(want, l[:i])
			vnd.Reach("deleted")
		} else {
			want[l[:i]] = l[i+1:]
		}
	}
	vnd.Assert(kit.SameMap(r.FlattenAll(), want), "lines read as written")
	vnd.Reach("loaded")
}

func cli(env *model.Env) (*model.Cli, *model.ParsedCmds) {
	cc := kit.NewCli(kit.NewTree())
	env.GetLayer(model.EnvLayerDefault).Set("sys.paths.data", vnd.TempDir())
	env.GetLayer(model.EnvLayerDefault).Set("sys.paths.env.snapshot", vnd.TempDir()+"/snap")
	env.GetLayer(model.EnvLayerDefault).Set("display.color", "false")
	return cc, &model.ParsedCmds{GlobalEnv: model.ParsedEnv{}, Cmds: []model.ParsedCmd{{}}, GlobalCmdIdx: -1}
}

// HCommands: the save and load commands, in two runs.
func HCommands() {
	e := kit.NewEnv()
	cc, flow := cli(e)
	k := vnd.StrOf("ab.", 1, 2)
	v := vnd.StrOf("x= ", 0, 2)
	def := vnd.Choice(2) == 1
	if def {
		e.GetLayer(model.EnvLayerDefault).Set(k, "dflt")
	}
	persisted := vnd.Choice(2) == 1
	if persisted {
		e.GetLayer(model.EnvLayerPersisted).Set(k, "old")
	}
	e.Set(k, v)
	_, ok := builtin.SaveEnvToLocal(model.ArgVals{}, cc, e, flow, 0)
	vnd.Assert(ok, "save succeeds")

	e2 := kit.NewEnv()
	cc2, flow2 := cli(e2)
	if def {
		e2.GetLayer(model.EnvLayerDefault).Set(k, "dflt")
	}
	_, ok = builtin.LoadLocalEnv(model.ArgVals{}, cc2, e2, flow2, 0)
	vnd.Assert(ok, "load succeeds")
	vnd.Assert(e2.GetRaw(k) == v, "value survives to the next run")
	vnd.Reach("end")
}

// HRemove: a removed key stays removed after saving.
func HRemove() {
	e := kit.NewEnv()
	cc, flow := cli(e)
	e.GetLayer(model.EnvLayerPersisted).Set("k", vnd.StrOf("xy", 1, 1))
	e.GetLayer(model.EnvLayerPersisted).Set("kk", "keep")
	if vnd.Choice(2) == 1 {
		e.Set("k", vnd.StrOf("xyz", 1, 1))
	}
	argv := model.ArgVals{"key": model.ArgVal{"k", true, 0}}
	_, ok := builtin.RemoveEnvValAndSaveToLocal(argv, cc, e, flow, 0)
	vnd.Assert(ok && !e.Has("k"), "removed now")
	e2 := kit.NewEnv()
	cc2, flow2 := cli(e2)
	builtin.LoadLocalEnv(model.ArgVals{}, cc2, e2, flow2, 0)
	vnd.Assert(!e2.Has("k"), "removed in the next run")
	vnd.Assert(e2.GetRaw("kk") == "keep", "other keys kept")
}

// HSnapshot: snapshots restore the values, into an environment that has others.
func HSnapshot() {
	e := kit.NewEnv()
	cc, flow := cli(e)
	v := vnd.StrOf("x= ", 1, 2)
	e.Set("k", v)
	e.GetLayer(model.EnvLayerPersisted).Set("p", "1")
	name := model.ArgVals{"snapshot-name": model.ArgVal{"one", true, 0}, "overwrite": model.ArgVal{"false", false, 1}}
	_, ok := builtin.EnvSaveToSnapshot(name, cc, e, flow, 0)
	vnd.Assert(ok, "snapshot saved")

	e2 := kit.NewEnv()
	cc2, flow2 := cli(e2)
	has := vnd.Choice(2) == 1
	if has {
		e2.Set("k", "mine")
	}
	e2.Set("own", "2")
	if vnd.Choice(2) == 0 {
		vnd.Reach("load")
		builtin.EnvLoadFromSnapshot(name, cc2, e2, flow2, 0)
		vnd.Assert(e2.GetRaw("k") == v, "snapshot value loaded")
	} else {
		vnd.Reach("load-non-exist")
		builtin.EnvLoadNonExistFromSnapshot(name, cc2, e2, flow2, 0)
		if has {
			vnd.Assert(e2.GetRaw("k") == "mine", "existing value kept")
		} else {
			vnd.Assert(e2.GetRaw("k") == v, "missing value loaded")
		}
	}
	vnd.Assert(e2.GetRaw("p") == "1" && e2.GetRaw("own") == "2", "other values")
	// a second snapshot under the same name needs the overwrite flag
	o := kit.Try(func() { builtin.EnvSaveToSnapshot(name, cc2, e2, flow2, 0) })
	vnd.Assert(o.Panicked && !o.Runtime, "an existing snapshot is not overwritten silently")
}
