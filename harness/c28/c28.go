// C28: the env commands change exactly what they name, and snapshots give back
// what was saved.
package c28

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

var layers = []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerPersisted, model.EnvLayerSession}

// world is an environment with its commands, and what it has to hold.
type world struct {
	cc  *model.Cli
	env *model.Env
	dir string
	d   []map[string]string // the values of each layer
}

func start() *world {
	return startIn(vnd.TempDir())
}

func startIn(dir string) *world {
	t := kit.NewTree()
	builtin.RegisterEnvManageCmds(t)
	builtin.RegisterEnvSnapshotManageCmds(t.GetSub("env"))
	w := &world{dir: dir}
	w.cc, w.env = kit.NewExec(t)
	d := w.env.GetLayer(model.EnvLayerDefault)
	d.Set("sys.paths.data", w.dir)
	d.Set("sys.paths.env.snapshot", filepath.Join(w.dir, "env"))
	d.Set("strs.env-snapshot-ext", ticat.EnvSnapshotExt)
	d.Set("strs.env-file-name", "bootstrap.env")
	d.Set("strs.env-kv-sep", "=")
	d.Set("strs.list-sep", ",")
	d.SetBool("display.tip", false)
	for range layers {
		w.d = append(w.d, map[string]string{})
	}
	return w
}

func (w *world) set(layer int, key, val string) {
	w.env.GetLayer(layers[layer]).Set(key, val)
	w.put(layer, key, val)
}

// put is a value of a layer, one that is seen already isn't kept twice.
func (w *world) put(layer int, key, val string) {
	for i := layer; i >= 0; i-- {
		if v, ok := w.d[i][key]; ok {
			if v == val {
				return
			}
			break
		}
	}
	w.d[layer][key] = val
}

// own are the keys the program keeps for itself.
func own(key string) bool {
	for _, it := range []string{"sys.", "display.", "strs.", "session"} {
		if strings.HasPrefix(key, it) {
			return true
		}
	}
	return false
}

// now is what each layer of the environment holds.
func (w *world) now() (res []map[string]string) {
	for _, it := range layers {
		m := map[string]string{}
		layer := w.env.GetLayer(it)
		keys, _ := layer.Pairs()
		for _, k := range keys {
			if !own(k) {
				m[k] = layer.GetRaw(k)
			}
		}
		res = append(res, m)
	}
	return
}

func (w *world) has(key string) bool {
	_, ok := w.get(key)
	return ok
}

func (w *world) get(key string) (string, bool) {
	for i := len(w.d) - 1; i >= 0; i-- {
		if v, ok := w.d[i][key]; ok {
			return v, true
		}
	}
	return "", false
}

func (w *world) run(input ...string) (ok bool, o kit.Outcome) {
	vnd.Note(strings.Join(input, " "))
	o = kit.Try(func() { ok = w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, input...) })
	vnd.Assert(!o.Runtime, "an env command ends in an internal error: "+o.Text)
	return ok && !o.Panicked, o
}

func (w *world) check(ok, want bool, what string) {
	vnd.Assert(ok == want, what+" does not end as it has to")
	now := w.now()
	for i := range layers {
		vnd.Assert(kit.SameMap(now[i], w.d[i]), what+" leaves other values than it has to")
	}
}

var keys = []string{"a", "a.b", "b"}

func (w *world) setup() {
	for i, key := range keys {
		switch vnd.Choice(3) {
		case 1:
			w.set((i+vnd.Choice(2))%3, key, "v"+key)
		case 2:
			w.set(0, key, "d")
			w.set(1+i%2, key, "s")
		}
	}
}

func key() string { return keys[vnd.Choice(len(keys))] }

// op runs one command and follows what it has to do.
func (w *world) op() bool {
	session := w.d[2]
	switch vnd.Choice(9) {
	case 0:
		k, v := key(), vnd.StrOf("x=' ", 0, 2)
		vnd.Assume(v != "'" && v != "''" && strings.TrimSpace(v) == v && !strings.Contains(v, "' '"))
		ok, _ := w.run("env.set", "key="+k, "value="+v)
		if v != "" {
			w.put(2, k, v)
		}
		w.check(ok, v != "", "env.set")
	case 1:
		k := key()
		ok, _ := w.run("env.add", k, "n")
		had := w.has(k)
		if !had {
			w.put(2, k, "n")
		}
		w.check(ok, !had, "env.add")
		return ok
	case 2:
		k := key()
		ok, _ := w.run("env.update", "k="+k, "v=u")
		had := w.has(k)
		if had {
			w.put(2, k, "u")
		}
		w.check(ok, had, "env.update")
		return ok
	case 3:
		from, to := key(), key()
		v, had := w.get(from)
		vnd.Assume(had)
		w.put(2, to, v)
		ok, _ := w.run("env.map", "from="+from, "to="+to)
		w.check(ok, true, "env.map")
	case 4:
		k := key()
		delete(w.d[1], k)
		delete(session, k)
		ok, _ := w.run("env.rm", k)
		w.check(ok, true, "env.remove")
	case 5:
		pre := []string{"a", "a.", "b", "c"}[vnd.Choice(4)]
		for _, k := range keys {
			if strings.HasPrefix(k, pre) {
				delete(w.d[1], k)
				delete(session, k)
			}
		}
		ok, _ := w.run("env.rm.prefix", pre)
		w.check(ok, true, "env.remove.prefix")
	case 6:
		list := [][]string{nil, {"a"}, {"b", "a.b"}}[vnd.Choice(3)]
		input := []string{"env.reset-session"}
		kept := map[string]string{}
		if len(list) > 0 {
			input = append(input, strings.Join(list, ","))
		}
		for _, k := range list {
			if v, ok := w.get(k); ok {
				kept[k] = v
			}
		}
		ok, _ := w.run(input...)
		vnd.Assert(ok, "env.reset-session fails")
		for k := range session {
			delete(session, k)
		}
		// The values to keep are the ones seen, in whichever layer they are
		now := w.now()
		vnd.Assert(kit.SameMap(now[0], w.d[0]) && kit.SameMap(now[1], w.d[1]), "env.reset-session changes more than the session")
		for k, v := range kept {
			vnd.Assert(w.env.GetRaw(k) == v, "env.reset-session loses a key to keep")
		}
		for k, v := range now[2] {
			old, ok := kept[k]
			vnd.Assert(ok && old == v, "env.reset-session leaves or makes a value in the session: "+k)
			session[k] = v
		}
	case 7:
		k, v := key(), []string{"va", "s", "x"}[vnd.Choice(3)]
		old, _ := w.get(k)
		ok, _ := w.run("env.assert.equal", "k="+k, "v="+v)
		w.check(ok, old == v, "env.assert.equal")
		return ok
	case 8:
		k := key()
		ok, _ := w.run("env.assert.not-exists", k)
		w.check(ok, !w.has(k), "env.assert.not-exists")
		return ok
	}
	return true
}

// HEnv: sequences of env commands.
func HEnv() {
	w := start()
	w.setup()
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		w.op()
	}
	vnd.Reach("env")
}

// HTwo: two commands in a row, on less.
func HTwo() {
	w := start()
	w.set(vnd.Choice(3), "a", "va")
	w.op()
	w.op()
	vnd.Reach("two")
}

// saved is what a snapshot has to hold.
func (w *world) saved() map[string]string {
	m := map[string]string{}
	for k := range w.d[2] {
		m[k], _ = w.get(k)
	}
	for k := range w.d[1] {
		m[k], _ = w.get(k)
	}
	return m
}

func (w *world) list() []string {
	path := filepath.Join(w.dir, "stdout")
	f, err := os.Create(path)
	if err != nil {
		panic("harness")
	}
	old := os.Stdout
	os.Stdout = f
	ok, _ := w.run("env.snapshot.list")
	os.Stdout = old
	f.Close()
	vnd.Assert(ok, "listing the snapshots fails")
	data, err := ioutil.ReadFile(path)
	if err != nil {
		panic("harness")
	}
	names := strings.Split(string(data), "\n")
	return names[:len(names)-1]
}

// flow adds a command with args of its own that is the given commands.
func (w *world) flow(name string, cmds ...string) {
	w.cc.Cmds.AddSub(name).RegFlowCmd(cmds, "f", "").AddArg("x", "", "X").AddArg("y", "dy")
}

// restart is the environment of the next run.
func (w *world) restart() *world {
	next := startIn(w.dir)
	d := next.env.GetLayer(model.EnvLayerDefault)
	for k, v := range w.d[0] {
		d.Set(k, v)
		next.d[0][k] = v
	}
	next.cc.Cmds.AddSub("load").RegPowerCmd(builtin.LoadLocalEnv, "load")
	ok, _ := next.run("load")
	vnd.Assert(ok, "the saved values can't be loaded")
	return next
}

// HSaved: what is saved is there in the next run, and is what was set, also by
// commands that are run by a command with args.
func HSaved() {
	w := start()
	for i, key := range []string{"a", "f.x"} {
		switch vnd.Choice(5) {
		case 1:
			w.set(i, key, "v")
		case 2:
			w.set(2, key, "s")
		case 3:
			w.set(0, key, "d")
			w.set(1+vnd.Choice(2), key, []string{"d", "p", ""}[vnd.Choice(3)])
		case 4:
			w.set(1, key, "p")
			w.set(2, key, []string{"d", "p", ""}[vnd.Choice(3)])
		}
	}
	direct := []string{"env.save"}
	snap := vnd.Bool()
	if snap {
		direct = []string{"env.snapshot.save", "n"}
	}
	w.flow("f", strings.Join(direct, " "))
	var inputs []string
	switch vnd.Choice(4) {
	case 0:
		inputs = direct
	case 1:
		inputs = []string{"f"}
	case 2:
		inputs = []string{"f", "x=1"}
	case 3:
		inputs = []string{"f", "X=s", "y=q"}
	}
	want := w.saved()
	ok, _ := w.run(inputs...)
	w.check(ok, true, "saving")
	next := w.restart()
	if snap {
		vnd.Assert(len(next.now()[1]) == 0, "a snapshot changes what is saved")
		ok, _ := next.run("env.snapshot.load", "n")
		vnd.Assert(ok, "the snapshot can't be loaded")
	}
	for k, v := range want {
		vnd.Assert(next.env.Has(k) && next.env.GetRaw(k) == v, "a saved value is lost: "+k)
	}
	layers := next.now()
	for _, layer := range layers[1:] {
		for k, v := range layer {
			old, ok := want[k]
			vnd.Assert(ok && old == v, "a value that was not set is saved: "+k)
		}
	}
	if vnd.Bool() {
		ok, _ := next.run("env.clear")
		vnd.Assert(ok, "clearing the saved values fails")
		last := next.restart()
		vnd.Assert(len(last.now()[1]) == 0 && len(last.now()[2]) == 0, "values are left after clearing the saved ones")
		vnd.Reach("cleared")
	}
	vnd.Reach("saved")
}

// HSnapshots: sequences of snapshot commands with changes in between.
func HSnapshots() {
	w := start()
	snaps := map[string]map[string]string{}
	w.set(0, "a", "da")
	if vnd.Bool() {
		w.set(1, "b", "pb")
	}
	names := []string{"n", "m", "n.x"}
	cur := func() string { return names[vnd.Choice(len(names))] }
	vals := []string{"1", "a b", "x=y", " s ", "'q'", ""}
	// The first one is saved for sure
	step := func(kind int) {
		switch kind {
		case 0:
			name := cur()
			var extra []string
			switch vnd.Choice(3) {
			case 1:
				extra = []string{"overwrite=false"}
			case 2:
				extra = []string{"ow=true"}
			}
			ok, _ := w.run(append([]string{"env.snapshot.save", "snapshot-name=" + name}, extra...)...)
			_, had := snaps[name]
			refused := had && len(extra) == 1 && extra[0] == "overwrite=false"
			if !refused {
				snaps[name] = w.saved()
			}
			w.check(ok, !refused, "saving a snapshot")
		case 1:
			w.set(2, "a", vals[vnd.Choice(len(vals))])
		case 2:
			w.set(2, []string{"b", "c"}[vnd.Choice(2)], []string{"z", ""}[vnd.Choice(2)])
		case 3:
			name := cur()
			snap, had := snaps[name]
			ok, _ := w.run("env.snapshot.load", "name="+name)
			for k, v := range snap {
				w.put(2, k, v)
			}
			w.check(ok, ok || had, "loading a snapshot")
			vnd.Reach("loaded")
		case 4:
			name := cur()
			snap, had := snaps[name]
			ok, _ := w.run("env.snapshot.load.non-exist", name)
			for k, v := range snap {
				if !w.has(k) {
					w.put(2, k, v)
				}
			}
			w.check(ok, had || ok, "loading what is missing from a snapshot")
		case 5:
			name := cur()
			_, had := snaps[name]
			ok, _ := w.run("env.snapshot.rm", name)
			delete(snaps, name)
			w.check(ok, had || ok, "removing a snapshot")
		case 6:
			k := []string{"a", "b", "c"}[vnd.Choice(3)]
			w.env.DeleteEx(k, model.EnvLayerDefault)
			delete(w.d[1], k)
			delete(w.d[2], k)
		}
	}
	step(1)
	step(0)
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		step(vnd.Choice(7))
	}
	var want []string
	for name := range snaps {
		want = append(want, name)
	}
	sort.Strings(want)
	got := w.list()
	sort.Strings(got)
	vnd.Assert(kit.SameStrs(got, want), "the list of snapshots is "+strings.Join(got, " "))
	// Each one still gives back what was saved, in a new session
	for _, name := range want {
		w.env.GetLayer(model.EnvLayerSession).Clear(false)
		w.env.GetLayer(model.EnvLayerPersisted).Clear(false)
		w.d[1], w.d[2] = map[string]string{}, map[string]string{}
		for k, v := range snaps[name] {
			w.put(2, k, v)
		}
		ok, _ := w.run("env.snapshot.load", name)
		w.check(ok, true, "loading a snapshot in a new session")
	}
	vnd.Reach("snapshots")
}
