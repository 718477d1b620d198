// C03: runtime-only keys are never written to the saved environment.
package c03

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// Keys that only describe the running process: these and, except for
// "session", everything under them.
var runtimeKeys = []string{
	"session",
	"display.height",
	"display.width.max",
	"display.executor.displayed",
	"sys.stack",
	"sys.stack-depth",
	"sys.interact",
	"sys.breakpoint",
	"sys.execute-wait-sec",
}

var runtimeTrees = []string{"strs.", "sys.session.", "sys.event.", "sys.paths."}

// Keys the program itself stores while running.
var actual = []string{
	"session",
	"strs.list-sep", "strs.env-kv-sep",
	"display.height", "display.width.max", "display.executor.displayed",
	"sys.stack", "sys.stack-depth",
	"sys.session.id", "sys.session.id.full", "sys.session.id.ip",
	"sys.interact", "sys.interact.inside", "sys.interact.leaving",
	"sys.breakpoint.at-next", "sys.breakpoint.here.now", "sys.breakpoint.status.step-in",
	"sys.execute-wait-sec", "sys.execute-wait-sec.at-end",
	"sys.event.hook.exit", "sys.event.hook.done", "sys.event.hook.error",
	"sys.paths.data", "sys.paths.hub", "sys.paths.work-dir", "sys.paths.sessions",
}

func isRuntime(k string) bool {
	for _, r := range runtimeKeys {
		if k == r || (r != "session" && strings.HasPrefix(k, r+".")) {
			return true
		}
	}
	for _, r := range runtimeTrees {
		if strings.HasPrefix(k, r) {
			return true
		}
	}
	return false
}

// undecided: keys inside the program's own name spaces about which the
// property says nothing (e.g. "sys.stacks").
func undecided(k string) bool {
	for _, r := range runtimeKeys {
		if r != "session" && strings.HasPrefix(k, r) {
			return true
		}
	}
	return strings.HasPrefix(k, "session.")
}

func layers() *model.Env {
	return model.NewEnvEx(model.EnvLayerDefault).NewLayers(model.EnvLayerPersisted, model.EnvLayerSession)
}

func saved(e *model.Env, skipDefault bool) *model.Env {
	p := vnd.TempDir() + "/env"
	model.SaveEnvToFile(e, p, "=", skipDefault)
	r := layers()
	model.LoadEnvFromFile(r.GetLayer(model.EnvLayerPersisted), p, "=", "--")
	return r
}

func judge(e *model.Env, k string, skip bool) {
	r := saved(e, skip)
	switch {
	case isRuntime(k):
		vnd.Assert(!r.Has(k), "runtime key is not saved")
	case undecided(k):
	case strings.HasPrefix(k, "session"):
		vnd.Assert(r.Has(k), "[KF-C03-1] user key whose name starts with 'session' is kept")
	default:
		vnd.Assert(r.Has(k), "user key is kept")
	}
	vnd.Assert(r.Has("keep") && r.GetRaw("keep") == "1", "the other key is kept")
}

func put(e *model.Env, k string, v string) {
	switch vnd.Choice(3) {
	case 0:
		e.Set(k, v)
	case 1:
		e.GetLayer(model.EnvLayerPersisted).Set(k, v)
	case 2:
		e.GetLayer(model.EnvLayerDefault).Set(k, "d")
		e.Set(k, v)
	}
}

// HActual: every runtime key the program stores, in any layer.
func HActual() {
	k := actual[vnd.Choice(len(actual))]
	e := layers()
	e.Set("keep", "1")
	put(e, k, vnd.StrOf("x1", 0, 1))
	judge(e, k, vnd.Choice(2) == 1)
	vnd.Reach("end")
}

// HNear: every key made of a prefix of a runtime key and any further text.
func HNear() {
	base := actual[vnd.Choice(len(actual))]
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	k := base[:vnd.Choice(len(base)+1)] + vnd.StrOf("as.-", 0, n)
	vnd.Assume(k != "" && k != "keep")
	e := layers()
	e.Set("keep", "1")
	e.Set(k, "v")
	judge(e, k, vnd.Choice(2) == 1)
}

// HAny: every short key over the letters of the runtime keys.
func HAny() {
	n := 5
	if vnd.Thorough() {
		n = 8
	}
	k := vnd.StrOf("sytren.-", 1, n)
	e := layers()
	e.Set("keep", "1")
	e.Set(k, "v")
	judge(e, k, true)
	if isRuntime(k) {
		vnd.Reach("runtime")
	} else {
		vnd.Reach("user")
	}
}

func has(e *model.Env, k string) bool {
	ks, _ := e.Pairs()
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// HCommand: the save and the remove command, and the load of the next run.
func HCommand() {
	e := kit.NewEnv()
	e.GetLayer(model.EnvLayerDefault).Set("sys.paths.data", vnd.TempDir())
	e.GetLayer(model.EnvLayerDefault).Set("display.color", "false")
	k := actual[vnd.Choice(len(actual))]
	vnd.Assume(k != "sys.paths.data")
	e.Set(k, "=")
	e.Set("keep", "1")
	cc := kit.NewCli(kit.NewTree())
	flow := &model.ParsedCmds{GlobalEnv: model.ParsedEnv{}, Cmds: []model.ParsedCmd{{}}, GlobalCmdIdx: -1}
	del := vnd.Choice(2) == 1
	if del {
		e.Set("gone", "1")
		tree := kit.NewTree()
		cmd := tree.GetOrAddSub("x").RegCmd(kit.Nop, "", "")
		cmd.AddArg("key", "")
		argv := model.ArgVals{"key": model.ArgVal{Raw: "gone", Provided: true}}
		builtin.RemoveEnvValAndSaveToLocal(argv, cc, e, flow, 0)
	} else {
		builtin.SaveEnvToLocal(model.ArgVals{}, cc, e, flow, 0)
	}
	r := kit.NewEnv()
	r.GetLayer(model.EnvLayerDefault).Set("sys.paths.data", vnd.TempDir())
	builtin.LoadLocalEnv(model.ArgVals{}, cc, r, flow, 0)
	p := r.GetLayer(model.EnvLayerPersisted)
	vnd.Assert(!has(p, k), "command does not save a runtime key")
	vnd.Assert(r.GetRaw("keep") == "1", "command keeps a user key")
	vnd.Assert(!r.Has("gone"), "a removed key is not saved")
	vnd.Reach("end")
}
