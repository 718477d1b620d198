// C27: the flow commands change only the flow they name and lose none.
package c27

import (
	"bytes"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type saved struct{ flow, help string }

type world struct {
	dir, root string
	cc        *model.Cli
	env       *model.Env
	tree      *model.CmdTree
	ask       bool
	out       *bytes.Buffer
	flows     map[string]saved // in the directory of saved flows
	moved     map[string]saved // in the directory flows are moved to
}

func start() *world {
	w := &world{dir: vnd.TempDir(), ask: true, flows: map[string]saved{}, moved: map[string]saved{}}
	w.root = filepath.Join(w.dir, "flows")
	os.MkdirAll(w.dest(), 0755)
	w.boot()
	return w
}

func (w *world) dest() string { return filepath.Join(w.dir, "dest") }

// boot is a new run of the program, it loads the saved flows.
func (w *world) boot() {
	t := kit.NewTree()
	builtin.RegisterFlowManageCmds(t)
	t.AddSub("c").RegCmd(kit.Nop, "", "").AddArg("x", "")
	t.AddSub("dir").AddSub("sub").RegCmd(kit.Nop, "", "")
	t.AddSub("loadall").RegPowerCmd(builtin.LoadFlows, "")
	w.tree = t
	w.cc, w.env = kit.NewExec(t)
	w.out = &bytes.Buffer{}
	w.cc.Screen = model.NewStdScreen(w.out, w.out)
	d := w.env.GetLayer(model.EnvLayerDefault)
	d.Set("sys.paths.flows", w.root)
	d.Set("sys.paths.hub", filepath.Join(w.dir, "hub"))
	d.Set("strs.hub-file-name", ticat.HubFileName)
	d.SetBool("sys.confirm.ask", w.ask)
	vnd.Assert(w.run("loadall"), "loading the saved flows fails")
}

func (w *world) run(input ...string) (ok bool) {
	o := kit.Try(func() {
		ok = w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, input...)
	})
	vnd.Assert(!o.Runtime, "a flow command ends with an internal error")
	return ok && !o.Panicked
}

// answer is what the user types.
func (w *world) answer(text string) {
	path := filepath.Join(w.dir, "stdin")
	os.WriteFile(path, []byte(text), 0644)
	file, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	os.Stdin = file
}

func (w *world) sub(name string) *model.CmdTree {
	node := w.tree
	for _, seg := range strings.Split(name, ".") {
		node = node.GetSub(seg)
		if node == nil {
			return nil
		}
	}
	return node
}

func names(flows map[string]saved) (list []string) {
	for name := range flows {
		list = append(list, name)
	}
	sort.Strings(list)
	return
}

func compare(dir string, want map[string]saved, what string) {
	entries, _ := os.ReadDir(dir)
	var got []string
	for _, it := range entries {
		vnd.Assert(strings.HasSuffix(it.Name(), ticat.FlowExt), "a file which isn't a flow is in the directory "+what)
		got = append(got, strings.TrimSuffix(it.Name(), ticat.FlowExt))
	}
	sort.Strings(got)
	list := names(want)
	vnd.Assert(len(got) >= len(list), "a flow is lost from the directory "+what)
	vnd.Assert(kit.SameStrs(got, list), "other flows than the saved ones are in the directory "+what)
	for _, name := range list {
		text, help, _, _, _, _ := flow_file.LoadFlowFile(filepath.Join(dir, name+ticat.FlowExt))
		vnd.Assert(kit.SameStrs(text, []string{want[name].flow}), "a flow has other commands than saved")
		vnd.Assert(help == want[name].help, "a flow has another help text than saved")
	}
}

// check compares the directories and the commands of a new run with what
// should be there.
func (w *world) check() {
	compare(w.root, w.flows, "of saved flows")
	compare(w.dest(), w.moved, "flows are moved to")
	w.boot()
	vnd.Assert(len(w.cc.TolerableErrs.ConflictedWithBuiltin) == 0 && len(w.cc.TolerableErrs.Uncatalogeds) == 0 &&
		len(w.cc.TolerableErrs.Conflicteds) == 0, "a saved flow conflicts with another command in the next run")
	for _, name := range names(w.flows) {
		sub := w.sub(name)
		vnd.Assert(sub != nil && sub.Cmd() != nil && sub.Cmd().Type() == model.CmdTypeFlow, "a saved flow is no command in the next run")
		vnd.Assert(kit.SameStrs(sub.Cmd().FlowStrs(), []string{w.flows[name].flow}), "a saved flow runs something else")
		vnd.Assert(sub.Cmd().Help() == w.flows[name].help, "a saved flow shows another help text")
	}
	w.out.Reset()
	vnd.Assert(w.run("flow.list"), "saved flows can't be listed")
	for _, name := range names(w.flows) {
		vnd.Assert(strings.Contains(w.out.String(), "["+name+"]"), "a saved flow isn't listed")
	}
}

// What the user types for a name, and the command that means.
var spelled = [][2]string{
	{"p", "p"}, {"q", "q"}, {"p.q", "p.q"}, {"p..q", "p.q"}, {"f.z", "flow.z"},
	{"c", "c"}, {"flow.list", "flow.list"}, {"dir", "dir"}, {"dir.sub", "dir.sub"}, {"p/q", ""}, {"../p", ""},
}

func (w *world) spell(n int) (string, string) {
	it := spelled[vnd.Choice(n)]
	return it[0], it[1]
}

// taken tells if a name belongs to a command which isn't a saved flow.
func (w *world) taken(name string) bool {
	if _, ok := w.flows[name]; ok {
		return false
	}
	if name == "" {
		return true // not a name at all
	}
	return w.sub(name) != nil
}

func (w *world) step(kind int) string {
	switch kind {
	case 0: // save
		typed, name := w.spell(len(spelled))
		it := saved{"c x=" + vnd.StrOf("12", 1, 1), ""}
		args := []string{"flow.save", "cmd=" + typed}
		if vnd.Bool() {
			it.help = "h" + vnd.StrOf("34", 1, 1)
			args = append(args, "help="+it.help)
		}
		quiet := vnd.Bool()
		if quiet {
			args = append(args, "quiet=true")
		}
		yes := vnd.Bool()
		if yes {
			w.answer("n\ny\n")
		} else {
			w.answer("\nn\n")
		}
		_, has := w.flows[name]
		agreed := !has || quiet || w.ask && yes
		able := !w.taken(name) && agreed
		ok := w.run(append(args, ":", "c", "x="+it.flow[4:])...)
		if able {
			w.flows[name] = it
			if has {
				vnd.Reach("overwritten")
			} else {
				vnd.Reach("saved")
			}
		} else {
			vnd.Reach("refused")
		}
		vnd.Assert(ok == able || name != "" && w.sub(name) != nil && w.sub(name).Cmd() == nil, "saving fails, or reports success without saving")
		return strings.Join(args, " ")
	case 1: // rename
		styped, src := w.spell(6)
		dtyped, dest := w.spell(len(spelled))
		it, has := w.flows[src]
		_, old := w.flows[dest]
		yes := vnd.Bool()
		if yes {
			w.answer("n\ny\n")
		} else {
			w.answer("\nn\n")
		}
		able := has && !w.taken(dest) && (!old || src == dest || w.ask && yes)
		ok := w.run("flow.rename", styped, dtyped)
		if has && src == dest {
			return "rename to itself"
		}
		vnd.Assert(ok == able, "renaming fails, or reports success without renaming")
		if able {
			delete(w.flows, src)
			w.flows[dest] = it
			vnd.Reach("renamed")
		}
		return "rename " + styped + " " + dtyped
	case 2: // remove
		typed, name := w.spell(len(spelled))
		_, has := w.flows[name]
		vnd.Assert(w.run("flow.remove", typed) == has, "removing fails, or reports success without removing")
		delete(w.flows, name)
		return "remove " + typed
	case 3: // help
		typed, name := w.spell(len(spelled))
		it, has := w.flows[name]
		it.help = "h" + vnd.StrOf("56", 1, 1)
		vnd.Assert(w.run("flow.help", typed, it.help) == has, "setting a help text fails, or reports success without doing it")
		if has {
			w.flows[name] = it
			vnd.Reach("help")
		}
		return "help " + typed
	case 4: // move
		able := true
		for name := range w.flows {
			if _, has := w.moved[name]; has {
				able = false
			}
		}
		ok := w.run("flow.move.all", w.dest())
		vnd.Assert(ok == able, "moving the flows fails, or goes over flows of the same name")
		if able {
			for name, it := range w.flows {
				w.moved[name] = it
			}
			w.flows = map[string]saved{}
			vnd.Reach("moved")
		} else {
			vnd.Reach("not moved")
		}
		return "move"
	}
	vnd.Assert(w.run("flow.clear"), "flows can't be cleared")
	w.flows = map[string]saved{}
	return "clear"
}

func (w *world) add(name, x string) {
	w.answer("")
	vnd.Assert(w.run("flow.save", name, ":", "c", "x="+x), "a flow can't be saved")
	w.flows[name] = saved{"c x=" + x, ""}
	w.check()
}

func history(steps int) {
	w := start()
	w.add("p", "7")
	w.add("p.q", "8")
	w.ask = vnd.Bool()
	w.boot()
	notes := ""
	for i := 0; i < steps; i++ {
		notes += w.step(vnd.Choice(6)) + "; "
		w.check()
	}
	vnd.Note(notes)
	vnd.Reach("history")
}

// HHistory: every sequence of commands.
func HHistory() {
	history(1)
}

// HMove: flows are moved to a directory which already has some.
func HMove() {
	w := start()
	w.add("p", "7")
	w.step(4)
	w.check()
	if vnd.Bool() {
		w.add("p", vnd.StrOf("89", 1, 1))
	} else {
		w.add("q", vnd.StrOf("89", 1, 1))
	}
	w.step(4)
	w.check()
}

// HDeepHistory: every longer sequence of commands.
func HDeepHistory() {
	history(2)
}

// plain is the command a typed name means, or nothing.
func plain(typed string) string {
	var segs []string
	for _, seg := range strings.Split(typed, ".") {
		if strings.Contains(seg, "/") {
			return ""
		}
		if seg != "" {
			segs = append(segs, seg)
		}
	}
	return strings.Join(segs, ".")
}

// HNames: any name is given to a new flow, or to a flow which is renamed.
func HNames() {
	w := start()
	w.add("p", "7")
	typed := vnd.StrOf("pq./", 1, 3)
	name := plain(typed)
	w.answer("")
	if vnd.Bool() {
		ok := w.run("flow.save", "cmd="+typed, ":", "c", "x=8")
		able := name != "" && name != "p"
		vnd.Assert(ok == able, "a flow can't be saved under a good name, or can under a bad one")
		if able {
			w.flows[name] = saved{"c x=8", ""}
			vnd.Reach("saved")
		}
	} else {
		ok := w.run("flow.rename", "src=p", "dest="+typed)
		vnd.Assert(ok == (name != ""), "a flow can't be renamed to a good name, or can to a bad one")
		if ok {
			w.flows[name] = w.flows["p"]
			if name != "p" {
				delete(w.flows, "p")
			}
			vnd.Reach("renamed")
		}
	}
	vnd.Note(name)
	w.check()
}
