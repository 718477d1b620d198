// C16: dependency collection covers every reachable command and terminates.
package c16

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// graph is a program: what each flow calls, and what each command needs.
type graph struct {
	calls map[string]string
	deps  map[string]string
	ran   []string
}

func (g *graph) leaf(name string) model.NormalCmd {
	return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		g.ran = append(g.ran, name)
		return true
	}
}

func osCmd(c byte) string { return "no-such-os-cmd-" + string(rune(c)) }

// lines writes the calls of a flow in one of the ways a flow can be written.
func lines(calls string, split bool) []string {
	var names []string
	for i := range calls {
		names = append(names, calls[i:i+1])
	}
	if split {
		return names
	}
	return []string{strings.Join(names, " : ")}
}

func pick(vals ...string) string { return vals[vnd.Choice(len(vals))] }

// build registers leaves a, b and flows f, g, h with arbitrary calls; g is
// also a program of its own, h makes up its calls when run.
func build(f, gg, h string, withDeps string) (*graph, *model.CmdTree) {
	g := &graph{map[string]string{"f": f, "g": gg, "h": h}, map[string]string{}, nil}
	for _, c := range withDeps {
		g.deps[string(c)] = pick("x", "y", "xy")
	}
	t := kit.NewTree()
	cmds := map[string]*model.Cmd{
		"a": t.AddSub("a").RegCmd(g.leaf("a"), "", ""),
		"b": t.AddSub("b").RegFileCmd("/no/such/file", "", ""),
		"f": t.AddSub("f").RegFlowCmd(lines(g.calls["f"], false), "", ""),
		"g": t.AddSub("g").RegFileNFlowCmd(lines(g.calls["g"], true), "/no/such/file", "", ""),
	}
	cmds["h"] = t.AddSub("h").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return lines(g.calls["h"], true), nil, true
	}, "")
	for c, deps := range g.deps {
		for i := 0; i < len(deps); i++ {
			cmds[c].AddDepend(osCmd(deps[i]), "why")
		}
	}
	return g, t
}

// walk collects what is reachable; ok is false when a flow calls itself.
func (g *graph) walk(calls string, path string, seen map[string]bool) (ok bool) {
	ok = true
	for i := range calls {
		c := calls[i : i+1]
		if strings.Contains(path, c) {
			return false
		}
		seen[c] = true
		if sub, isFlow := g.calls[c]; isFlow {
			ok = g.walk(sub, path+c, seen) && ok
		}
	}
	return
}

func (g *graph) check(line string) {
	vnd.Note(line + " f=" + g.calls["f"] + " g=" + g.calls["g"] + " h=" + g.calls["h"])
}

// HGraph: every call graph without recursion of three flows and two commands
// (which flow is which kind of flow is covered by the order of calls).
func HGraph() {
	switch vnd.Choice(3) {
	case 0:
		collect(vnd.StrOf("bgh", 1, 2), vnd.StrOf("bh", 1, 1), "ab", "bg")
		vnd.Reach("collected")
	case 1:
		collect("a", vnd.StrOf("bf", 1, 2), vnd.StrOf("bfg", 1, 2), "g")
		vnd.Reach("collected")
	case 2:
		collect(vnd.StrOf("bgh", 1, 1), vnd.StrOf("ab", 1, 1), vnd.StrOf("bg", 1, 2), "b")
		vnd.Reach("collected")
	}
}

func HDeepGraph() {
	collect(vnd.StrOf("abgh", 1, 2), vnd.StrOf("abh", 1, 2), vnd.StrOf("ab", 1, 2), "bg")
	vnd.Reach("collected")
}

// HRecursive: any flow may call any.
func HRecursive() {
	recursive(vnd.StrOf("afgh", 1, 1), vnd.StrOf("abfgh", 1, 1), vnd.StrOf("afgh", 1, 1))
}

func HDeepRecursive() {
	recursive(pick("h", "g", "f", "bf", "bh", "bg"), pick("f", "h", "g"), pick("f", "g", "a"))
}

func recursive(f, gg, h string) {
	if collect(f, gg, h, "") {
		vnd.Reach("no recursion")
	} else {
		vnd.Reach("recursive")
	}
}

func collect(f, gg, h string, withDeps string) (ok bool) {
	g, t := build(f, gg, h, withDeps)
	line := vnd.StrOf("fh", 1, 1) + vnd.StrOf("ag", 0, 1)
	g.check(line)
	cc := kit.NewCli(t)
	env := kit.NewEnv()
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, strings.Split(lines(line, false)[0], " ")...)
	res := model.Depends{}
	before := env.FlattenAll()
	o := kit.Try(func() {
		model.CollectDepends(cc, env, flow, 0, res, vnd.Bool(), builtin.EnvOpCmds())
	})
	seen := map[string]bool{}
	ok = g.walk(line, "", seen)
	vnd.Assert(!o.Runtime, "no internal error")
	vnd.Assert(o.Panicked == !ok, "a flow that calls itself is reported, and no other is")
	vnd.Assert(kit.SameMap(env.FlattenAll(), before), "collecting changes nothing")
	if !ok {
		return
	}
	want := map[string]string{}
	for c, deps := range g.deps {
		if !seen[c] {
			continue
		}
		for i := 0; i < len(deps); i++ {
			if !strings.Contains(want[osCmd(deps[i])], c) {
				want[osCmd(deps[i])] += c
			}
		}
	}
	vnd.Assert(len(res) == len(want), "as many needed os commands as are declared by reachable commands")
	for dep, users := range want {
		vnd.Assert(len(res[dep]) == len(users), "as many users of an os command as there are")
		for cmd, info := range res[dep] {
			vnd.Assert(strings.Contains(users, cmd.Owner().Name()), "the users of an os command")
			vnd.Assert(info.Reason == "why" && info.Cmd.LastCmd() == cmd, "how it is used")
		}
	}
	return
}

// HRefuse: a flow with a missing os command anywhere below it does not start.
func HRefuse() {
	g := &graph{map[string]string{"f": vnd.StrOf("agb", 1, 2), "g": vnd.StrOf("ac", 1, 2)}, map[string]string{}, nil}
	// Commands may be marked as trivial, for the display
	mark := []string{"", "^", "^^"}[vnd.Choice(3)]
	marked := func(calls string, split bool) (res []string) {
		for _, line := range lines(calls, split) {
			words := strings.Fields(line)
			for i, w := range words {
				if w != ":" {
					words[i] = mark + w
				}
			}
			res = append(res, strings.Join(words, " "))
		}
		return
	}
	t := kit.NewTree()
	cmds := []*model.Cmd{}
	for _, c := range []string{"a", "b", "c"} {
		cmds = append(cmds, t.AddSub(c).RegCmd(g.leaf(c), "", ""))
	}
	needs := vnd.Choice(3)
	cmds[needs].AddDepend(osCmd('x'), "")
	t.AddSub("f").RegFlowCmd(marked(g.calls["f"], false), "", "")
	t.AddSub("g").RegFlowCmd(marked(g.calls["g"], true), "", "")
	line := "a" + vnd.StrOf("bf", 1, 1)
	g.check(mark + line)
	cc, env := kit.NewExec(t)
	seen := map[string]bool{}
	g.walk(line, "", seen)
	missing := seen[string(rune('a'+needs))]
	var ok bool
	o := kit.Try(func() {
		ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Split(marked(line, false)[0], " ")...)
	})
	vnd.Assert(!o.Panicked, "no error")
	vnd.Assert(ok == !missing, "a flow is executed exactly when nothing it needs is missing")
	vnd.Assert((len(g.ran) == 0) == missing, "a flow that is refused does not start")
	vnd.Reach("refuse")
}

// HLate: a command with a missing os command which is only known to be called
// when the flow runs does not start either, tolerated or not.
func HLate() {
	ran := ""
	t := kit.NewTree()
	vnd.OnExec(func(args []string) error {
		ran += "m"
		return nil
	})
	dir := vnd.TempDir()
	script := filepath.Join(dir, "m.sh")
	os.WriteFile(script, []byte("touch "+dir+"/ran\n"), 0755)
	t.AddSub("m").RegFileCmd(script, "", "").SetUnLog()
	for _, c := range []string{"a", "b"} {
		c := c
		t.AddSub(c).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			ran += c
			return true
		}, "", "")
	}
	if vnd.Bool() {
		// One that is there
		t.GetSub("m").Cmd().AddDepend("sh", "")
	}
	t.GetSub("m").Cmd().AddDepend(osCmd('m'), "")
	inside, outside := vnd.Bool(), vnd.Bool()
	mark := func(on bool) string {
		if on {
			return " %err=ok"
		}
		return ""
	}
	t.AddSub("s").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		env.GetLayer(model.EnvLayerSession).Set("k", "m")
		return true
	}, "", "")
	deep := vnd.Bool()
	t.AddSub("f").RegFlowCmd([]string{"[[k]]" + mark(deep)}, "", "")
	t.AddSub("h").RegFlowCmd([]string{"a : s : f" + mark(inside) + " : b"}, "", "")
	line := "h" + mark(outside) + " : b"
	vnd.Note(fmt.Sprint(inside, outside))
	cc, env := kit.NewExec(t)
	cc.CmdIO = model.NewCmdIO(nil, nil, nil)
	session := env.GetLayer(model.EnvLayerSession)
	session.Set("session", dir)
	session.Set("strs.session-env-file", "env")
	session.Set("k", "b")
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Fields(line)...) })
	if _, err := os.Stat(dir + "/ran"); err == nil {
		ran += "m"
	}
	vnd.Assert(!o.Runtime, "no internal error: "+o.Text)
	vnd.Note(ran)
	vnd.Assert(!strings.Contains(ran, "m"), "a command with a missing os command runs")
	vnd.Assert(strings.HasPrefix(ran, "a"), "the flow starts")
	if !inside && !outside && !deep {
		vnd.Assert(!ok || o.Panicked, "a missing os command is not reported")
	}
	vnd.Reach("late")
}

// HTemplate: which command a flow calls depends on the environment at that
// point of the line.
func HTemplate() {
	t := kit.NewTree()
	a := t.AddSub("a").RegCmd(kit.Nop, "", "").AddDepend(osCmd('a'), "")
	b := t.AddSub("b").RegCmd(kit.Nop, "", "").AddDepend(osCmd('b'), "")
	t.AddSub("v").RegEmptyCmd("").AddVal2Env("k", "a")
	t.AddSub("m").RegEmptyCmd("").AddArg("x", "").AddArg2Env("k", "x")
	t.AddSub("f").RegFlowCmd([]string{"[[k]]"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"[[y]]"}, "", "").AddArg("y", "b")
	t.AddSub("h").RegFlowCmd([]string{"{k=b} f"}, "", "")
	forms := []struct{ line, want string }{
		{"f", ""}, {"v : f", "a"}, {"m x=b : f", "b"}, {"f : v", ""}, {"v : : {k=b} f", "b"}, {": {k=b} f : f", "b"},
		{"g", "b"}, {"g y=a", "a"}, {"g y=a : g", "ab"}, {"h", "b"}, {"v : h : f", "ab"}, {"{k=a} f : h", "ab"}, {"h : f", "b"},
	}
	form := forms[vnd.Choice(len(forms))]
	vnd.Note(form.line)
	cc := kit.NewCli(t)
	env := kit.NewEnv()
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, strings.Split(form.line, " ")...)
	flow.GlobalEnv.WriteNotArgTo(env.GetLayer(model.EnvLayerSession), cc.Cmds.Strs.EnvValDelAllMark)
	res := model.Depends{}
	o := kit.Try(func() { model.CollectDepends(cc, env, flow, 0, res, true, builtin.EnvOpCmds()) })
	vnd.Assert(!o.Panicked, "no error")
	_, hasA := res[osCmd('a')][a]
	_, hasB := res[osCmd('b')][b]
	vnd.Assert(hasA == strings.Contains(form.want, "a") && hasB == strings.Contains(form.want, "b"), "the commands called with the values of that point")
	vnd.Reach("template")
}
