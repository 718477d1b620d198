// C04: a crash while saving leaves the old or the new file.
package c04

import (
	"io/ioutil"
	"os"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func env(vals ...string) *model.Env {
	e := model.NewEnvEx(model.EnvLayerDefault).NewLayers(model.EnvLayerPersisted, model.EnvLayerSession)
	ks := []string{"a", "b", "c"}
	for i, v := range vals {
		if v != "" {
			e.Set(ks[i], v)
		}
	}
	return e
}

func load(path string) map[string]string {
	e := model.NewEnvEx(model.EnvLayerDefault)
	model.LoadEnvFromFile(e, path, "=", "--")
	return e.FlattenAll()
}

// value is any text a line of the file can hold.
func value(n int) string {
	v := vnd.Bytes(0, n)
	for i := 0; i < len(v); i++ {
		vnd.Assume(v[i] != '\n' && v[i] != '\r')
	}
	vnd.Assume(v != "--")
	return v
}

// stale leaves remains of an earlier interrupted save.
func stale(path string) {
	switch vnd.Choice(3) {
	case 1:
		ioutil.WriteFile(path+".tmp", []byte("zz=zzzzzzzzzzzzzzzzzzzzzzzz\nyy=y\n"), 0644)
	case 2:
		ioutil.WriteFile(path+".tmp", []byte("a"), 0644)
	}
}

// HEnv: saving the environment over an existing file (or none), stopped anywhere.
func HEnv() {
	p := vnd.TempDir() + "/env"
	var old map[string]string
	had := vnd.Choice(2) == 1
	if had {
		o := env(value(2), value(1), "o")
		model.SaveEnvToFile(o, p, "=", true)
		old = o.FlattenAll()
	}
	stale(p)
	n := env(value(2), value(1))
	new := n.FlattenAll()
	crashed := vnd.Crash(func() { model.SaveEnvToFile(n, p, "=", true) })
	var got map[string]string
	o := kit.Try(func() { got = load(p) })
	vnd.Assert(!o.Panicked, "the env file loads after a crash")
	if crashed {
		vnd.Assert(kit.SameMap(got, old) || kit.SameMap(got, new), "old or new environment after a crash")
		if had {
			_, err := os.Stat(p)
			vnd.Assert(err == nil, "the env file exists after a crash")
		}
		vnd.Reach("crashed")
	} else {
		vnd.Assert(kit.SameMap(got, new), "new environment after a complete save")
		vnd.Reach("complete")
	}
	// the next run can save again
	model.SaveEnvToFile(n, p, "=", true)
	vnd.Assert(kit.SameMap(load(p), new), "the next save works")
}

// HEnvTwice: two crashes in a row.
func HEnvTwice() {
	p := vnd.TempDir() + "/env"
	o := env("1", "2", "3")
	model.SaveEnvToFile(o, p, "=", true)
	a := env("4", "5", "66")
	b := env("7")
	vnd.Crash(func() { model.SaveEnvToFile(a, p, "=", true) })
	vnd.Crash(func() { model.SaveEnvToFile(b, p, "=", true) })
	got := load(p)
	vnd.Assert(kit.SameMap(got, o.FlattenAll()) || kit.SameMap(got, a.FlattenAll()) || kit.SameMap(got, b.FlattenAll()),
		"one of the three environments after two crashes")
	vnd.Reach("end")
}

func repo(i int, onoff string) hub_meta.RepoInfo {
	names := []string{"u/a", "u/b", "u/c"}
	return hub_meta.RepoInfo{Addr: hub_meta.RepoAddr{Addr: names[i]}, AddReason: "r" + names[i], Path: "/h/" + names[i], HelpStr: "help", OnOff: onoff}
}

func same(a, b []hub_meta.RepoInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func list() []hub_meta.RepoInfo {
	var r []hub_meta.RepoInfo
	onoff := []string{"on", "disabled"}
	n := vnd.Choice(3)
	for i := 0; i < n; i++ {
		r = append(r, repo(i, onoff[vnd.Choice(2)]))
	}
	return r
}

// HHub: saving the repository list.
func HHub() {
	dir := vnd.TempDir() + "/hub"
	p := dir + "/repos"
	var old []hub_meta.RepoInfo
	if vnd.Choice(2) == 1 {
		old = append([]hub_meta.RepoInfo{repo(2, "on")}, list()...)
		hub_meta.WriteReposInfoFile("/h", p, old, "\t")
		stale(p)
	}
	new := list()
	crashed := vnd.Crash(func() { hub_meta.WriteReposInfoFile("/h", p, new, "\t") })
	var got []hub_meta.RepoInfo
	o := kit.Try(func() { got, _ = hub_meta.ReadReposInfoFile("/h", p, true, "\t") })
	vnd.Assert(!o.Panicked, "the repository list loads after a crash")
	if crashed {
		vnd.Assert(same(got, old) || same(got, new), "old or new repository list after a crash")
		vnd.Reach("crashed")
	} else {
		vnd.Assert(same(got, new), "new repository list after a complete save")
		vnd.Reach("complete")
	}
	hub_meta.WriteReposInfoFile("/h", p, new, "\t")
	got, _ = hub_meta.ReadReposInfoFile("/h", p, false, "\t")
	vnd.Assert(same(got, new), "the next save works")
}

type flow struct {
	lines []string
	help  string
}

func loadFlow(path string) (f flow) {
	if _, err := os.Stat(path); err != nil {
		return
	}
	f.lines, f.help, _, _, _, _ = flow_file.LoadFlowFile(path)
	return
}

func sameFlow(a, b flow) bool { return kit.SameStrs(a.lines, b.lines) && a.help == b.help }

// HFlow: saving a flow over an older one (or none), or changing its help text.
func HFlow() {
	p := vnd.TempDir() + "/f.tiflow"
	var old flow
	if vnd.Choice(2) == 1 {
		old = flow{[]string{"a " + vnd.StrOf("bc", 1, 2), "d"}, "h" + vnd.StrOf("12", 0, 1)}
		flow_file.SaveFlowFile(p, old.lines, old.help, "", "0", "", "")
		stale(p)
	}
	new := flow{[]string{vnd.StrOf("xy", 1, 2)}, "n" + vnd.StrOf("34", 0, 1)}
	save := func() { flow_file.SaveFlowFile(p, new.lines, new.help, "", "0", "", "") }
	if old.help != "" && vnd.Choice(2) == 1 {
		new.lines = old.lines
		save = func() { flow_file.SetFlowFileHelpStr(p, new.help) }
	}
	crashed := vnd.Crash(save)
	var got flow
	o := kit.Try(func() { got = loadFlow(p) })
	vnd.Assert(!o.Panicked, "the flow loads after a crash")
	if crashed {
		vnd.Assert(sameFlow(got, old) || sameFlow(got, new), "old or new flow after a crash")
		vnd.Reach("crashed")
	} else {
		vnd.Assert(sameFlow(got, new), "new flow after a complete save")
		vnd.Reach("complete")
	}
	flow_file.SaveFlowFile(p, new.lines, new.help, "", "0", "", "")
	vnd.Assert(sameFlow(loadFlow(p), new), "the next save works")
}
