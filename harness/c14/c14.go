// C14: command-local environment never leaks, and command results do reach
// the session.
package c14

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// saw is what the commands that ran read.
type saw struct {
	ks []string
	xs []string
}

func (s *saw) read(argv model.ArgVals, env *model.Env) {
	s.ks = append(s.ks, env.GetRaw("k"))
	s.xs = append(s.xs, argv.GetRaw("x"))
}

// tree: commands that read, write the session, write their own environment,
// switches, a command with a mapped argument, and flows of them.
func (s *saw) tree() *model.CmdTree {
	t := kit.NewTree()
	t.AddSub("r").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", "d")
	t.AddSub("w").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		env.GetLayer(model.EnvLayerSession).Set("k", "w")
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", "")
	t.AddSub("l").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		env.Set("k", "l")
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", "")
	t.AddSub("v").RegEmptyCmd("").AddVal2Env("k", "v")
	t.AddSub("m").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", "n").AddArg2Env("k", "x")
	t.AddSub("f").RegFlowCmd([]string{"r : w : r 2"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"{k=g} r", "w : r"}, "", "").AddArg("x", "")
	t.AddSub("h").RegFlowCmd([]string{"r : {k=h} r", "f : r"}, "", "")
	t.AddSub("u").RegFlowCmd([]string{"v : r : m 5 : r"}, "", "")
	t.AddSub("q").RegPowerCmd(builtin.SetForestMode, "")
	t.AddSub("p").RegFlowCmd([]string{"q : w : r : f : r"}, "", "")
	return t
}

// step is one command of a program; set is the value given to k for it.
type step struct {
	name string
	arg  string
	set  string
}

var flows = map[string][]step{
	"f": {{"r", "", ""}, {"w", "", ""}, {"r", "2", ""}},
	"g": {{"r", "", "g"}, {"w", "", ""}, {"r", "", ""}},
	"h": {{"r", "", ""}, {"r", "", "h"}, {"f", "", ""}, {"r", "", ""}},
	"u": {{"v", "", ""}, {"r", "", ""}, {"m", "5", ""}, {"r", "", ""}},
	"p": {{"q", "", ""}, {"w", "", ""}, {"r", "", ""}, {"f", "", ""}, {"r", "", ""}},
}

// ref is the documented environment: layers above the session, the session.
type ref struct {
	ks, xs  []string
	session string
	has     bool
}

func (e *ref) get(layers []string) string {
	for i := len(layers) - 1; i >= 0; i-- {
		if layers[i] != "" {
			return layers[i]
		}
	}
	return e.session
}

func (e *ref) do(prog []step, layers []string, top bool, leading bool) {
	forest := false
	for i, c := range prog {
		session, has := e.session, e.has
		own := append(append([]string{}, layers...), "")
		if c.set != "" {
			if i == 0 && !leading {
				// In front of the flow: for the rest of it
				if top {
					e.session, e.has = c.set, true
				} else {
					vnd.Assume(c.set != e.get(layers))
					layers = append(append([]string{}, layers...), c.set)
				}
				own = append(append([]string{}, layers...), "")
			} else {
				// A setting that changes nothing is not kept apart from what it repeats
				vnd.Assume(c.set != e.get(layers))
				own[len(own)-1] = c.set
			}
		}
		switch c.name {
		case "r":
			e.saw(own, c.arg, "d")
		case "w":
			e.session, e.has = "w", true
			e.saw(own, c.arg, "")
		case "l":
			own[len(own)-1] = "l"
			e.saw(own, c.arg, "")
		case "v":
			e.session, e.has = "v", true
		case "m":
			// Given, then what the session has, then the default
			if c.arg != "" {
				e.session, e.has = c.arg, true
			} else if !e.has {
				e.session, e.has = "n", true
			}
			e.saw(own, c.arg, "n")
		case "q":
			forest = true
			continue
		default:
			e.do(flows[c.name], own, false, false)
		}
		if forest {
			e.session, e.has = session, has
		}
	}
}

func (e *ref) saw(layers []string, arg string, def string) {
	e.ks = append(e.ks, e.get(layers))
	if arg == "" {
		arg = def
	}
	e.xs = append(e.xs, arg)
}

func program(kinds string, n int) {
	s := &saw{}
	cc, env := kit.NewExec(s.tree())
	e := &ref{}
	if vnd.Bool() {
		e.session, e.has = "s", true
		env.GetLayer(model.EnvLayerSession).Set("k", "s")
	}
	var prog []step
	var input []string
	leading := vnd.Bool()
	if leading {
		input = append(input, ":")
	}
	cnt := 1 + vnd.Choice(n)
	for i := 0; i < cnt; i++ {
		if i > 0 {
			input = append(input, ":")
		}
		c := step{name: vnd.StrOf(kinds, 1, 1)}
		if vnd.Bool() {
			c.set = vnd.StrOf("12", 1, 1)
			input = append(input, "{k="+c.set+"}")
		}
		input = append(input, c.name)
		if strings.Contains("rwlm", c.name) && vnd.Bool() {
			c.arg = vnd.StrOf("34", 1, 1)
			input = append(input, "x="+c.arg)
		}
		prog = append(prog, c)
	}
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(strings.Join(input, " "))
	vnd.Note(strings.Join(s.ks, " "))
	vnd.Note(strings.Join(s.xs, " "))
	e.do(prog, nil, true, leading)
	vnd.Assert(!o.Panicked && ok, "the program runs")
	vnd.Assert(kit.SameStrs(s.xs, e.xs), "each command gets the arguments given to it and no others")
	vnd.Assert(kit.SameStrs(s.ks, e.ks), "each command reads the settings of its own layers")
	session := env.GetLayer(model.EnvLayerSession)
	val, has := session.GetEx("k")
	vnd.Assert(has == e.has && val.Raw == e.session, "the session ends with what the commands wrote to it")
	for key := range session.FlattenAll() {
		vnd.Assert(!strings.HasSuffix(key, ".x"), "no argument stays in the session")
	}
	vnd.Reach("program")
}

func HProgram() { program("rwvmfg", 2) }

func HLayers() { program("rlghu", 2) }

func HForest() { program("rpf", 2) }

func HDeepProgram() { program("rwlvmfghp", 3) }

// HArgs: where the value of an argument and of the key it is mapped to comes
// from.
func HArgs() {
	vals := "12"
	s := &saw{}
	def := vnd.StrOf("d", 0, 1)
	t := kit.NewTree()
	t.AddSub("m").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", def).AddArg("y", "").AddArg2Env("k", "x").AddArg2Env("j", "y").AddVal2Env("i", "v")
	t.AddSub("n").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		s.read(argv, env)
		return true
	}, "", "").AddArg("x", "z")
	cc, env := kit.NewExec(t)
	session := env.GetLayer(model.EnvLayerSession)
	x, k := def, ""
	hasK := false
	if vnd.Bool() {
		k, hasK = vnd.StrOf("3", 0, 1), true
		layer := []model.EnvLayerType{model.EnvLayerSession, model.EnvLayerPersisted, model.EnvLayerDefault}[vnd.Choice(3)]
		env.GetLayer(layer).Set("k", k)
	}
	given := false
	if vnd.Bool() {
		// The argument is a key of the environment
		x, given = vnd.StrOf("4", 0, 1), true
		session.Set("m.x", x)
	}
	input := []string{"m"}
	if vnd.Bool() {
		x, given = vnd.StrOf(vals, 1, 2), true
		input = append(input, "x="+x)
	}
	y, givenY := "", false
	if vnd.Bool() {
		y, givenY = vnd.StrOf(vals, 1, 2), true
		input = append(input, "y="+y)
	}
	if given || (!hasK && x != "") {
		k, hasK = x, true
	}
	input = append(input, ":", "n")
	o := kit.Try(func() { cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(strings.Join(input, " "))
	vnd.Assert(!o.Panicked, "the program runs")
	vnd.Assert(kit.SameStrs(s.xs, []string{x, "z"}), "given, then existing, then default")
	vnd.Assert(kit.SameStrs(s.ks, []string{k, k}), "the mapped key: given, then existing, then default")
	got, ok := session.GetEx("k")
	vnd.Assert(ok == hasK && got.Raw == k, "the mapped key is in the session")
	j, okJ := session.GetEx("j")
	vnd.Assert(okJ == givenY && j.Raw == y, "an argument that is neither given nor has a default is not mapped")
	vnd.Assert(session.GetRaw("i") == "v", "a value mapping is always applied")
	vnd.Reach("args")
}

// HFile: another program gets the session and the arguments, and what it
// writes to the environment file reaches the session, nothing else.
func HFile() {
	dir := vnd.TempDir()
	script := filepath.Join(dir, "c.sh")
	val := vnd.StrOf("12 =", 0, 2)
	wr := vnd.Bool()
	text := "echo \"$2,$3\" > " + dir + "/args\ncp $1/env " + dir + "/seen\n"
	if wr {
		text += "echo 'k=" + val + "' >> $1/env\n"
	}
	os.WriteFile(script, []byte(text), 0755)
	vnd.OnExec(func(a []string) error {
		data, _ := os.ReadFile(filepath.Join(a[2], "env"))
		os.WriteFile(dir+"/args", []byte(strings.Join(a[3:], ",")+"\n"), 0644)
		os.WriteFile(dir+"/seen", data, 0644)
		if wr {
			os.WriteFile(filepath.Join(a[2], "env"), []byte(string(data)+"k="+val+"\n"), 0644)
		}
		return nil
	})
	s := &saw{}
	t := s.tree()
	t.AddSub("c").RegFileCmd(script, "", "").AddArg("x", "").AddArg("z", "y").SetUnLog()
	cc, env := kit.NewExec(t)
	cc.CmdIO = model.NewCmdIO(nil, nil, nil)
	session := env.GetLayer(model.EnvLayerSession)
	session.Set("session", dir)
	session.Set("strs.session-env-file", "env")
	session.Set("k", "s")
	input := []string{"c"}
	t.AddSub("i").RegFlowCmd([]string{"c x=[[x]]"}, "", "").AddArg("x", "5")
	t.AddSub("j").RegFlowCmd([]string{"i x=6 : r"}, "", "")
	own := vnd.Bool()
	inner := ""
	if own {
		input = []string{":", "{k=o}", "c"}
	} else if inner = []string{"", "i", "j"}[vnd.Choice(3)]; inner != "" {
		input = []string{inner}
	}
	x := map[string]string{"i": "5", "j": "6"}[inner]
	if inner != "j" && vnd.Bool() {
		x = vnd.StrOf("3 4", 1, 2)
		vnd.Assume(strings.TrimSpace(x) == x)
		input = append(input, "x="+x)
	}
	input = append(input, ":", "r")
	o := kit.Try(func() { cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(strings.Join(input, " "))
	vnd.Assert(!o.Panicked, "the program runs")
	args, _ := os.ReadFile(dir + "/args")
	vnd.Assert(string(args) == x+",y\n", "the program gets its arguments")
	k := "s"
	if wr {
		k = val
	}
	reads := []string{k}
	if inner == "j" {
		reads = append(reads, k)
	}
	vnd.Assert(kit.SameStrs(s.ks, reads), "what the program writes reaches the session")
	vnd.Assert(session.GetRaw("k") == k, "the session has what the program wrote")
	for key := range session.FlattenAll() {
		vnd.Assert(!strings.HasSuffix(key, ".x"), "no argument stays in the session")
	}
	data, _ := os.ReadFile(dir + "/seen")
	want := "k=s"
	if own {
		want = "k=o"
	}
	seen := strings.Contains("\n"+string(data), "\n"+want+"\n")
	if own {
		vnd.Assert(seen, "[KF-C14-1] a program sees the settings given to it alone")
	} else {
		vnd.Assert(seen, "a program sees the session")
	}
	vnd.Reach("file")
}

// HDelete: a deleted key is gone for everyone after, wherever it was set.
func HDelete() {
	s := &saw{}
	t := s.tree()
	t.AddSub("i").RegFlowCmd([]string{"{k=--} r : r"}, "", "")
	t.AddSub("j").RegFlowCmd([]string{"r : {k=--} r : r"}, "", "")
	t.AddSub("n").RegFlowCmd([]string{"i : r"}, "", "")
	forms := []struct{ line, before, after string }{
		{"r : {k=--} r : r", "k", "--"}, {"{k=--} r : r", "", "--"}, {"r : i : r", "k", "---"},
		{"r : j : r", "kk", "---"}, {"r : n : r", "k", "----"}, {"{k=1} r : {k=--} r : r", "1", "--"},
	}
	f := forms[vnd.Choice(len(forms))]
	cc, env := kit.NewExec(t)
	layer := []model.EnvLayerType{model.EnvLayerSession, model.EnvLayerPersisted, model.EnvLayerDefault}[vnd.Choice(3)]
	env.GetLayer(layer).Set("k", "k")
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Fields(f.line)...) })
	vnd.Note(f.line)
	vnd.Assert(!o.Panicked && ok, "the program runs")
	var want []string
	for _, c := range f.before {
		want = append(want, string(c))
	}
	for range f.after {
		want = append(want, "")
	}
	vnd.Assert(kit.SameStrs(s.ks, want), "a deleted key is read: "+strings.Join(s.ks, ","))
	vnd.Assert(!env.Has("k"), "a deleted key stays")
	vnd.Reach("deleted")
}

// HForestEnd: a flow whose commands don't see what the others write stops being
// so for its callers, however it ends.
func HForestEnd() {
	s := &saw{}
	t := s.tree()
	at, how := vnd.Choice(3), vnd.Choice(3)
	n := 0
	t.AddSub("b").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		n++
		if n-1 != at {
			return true
		}
		if how == 2 {
			panic(fmt.Errorf("failed"))
		}
		return how == 0
	}, "", "")
	t.AddSub("o").RegFlowCmd([]string{"v : r : q : b : w : b : r : b"}, "", "")
	t.AddSub("oo").RegFlowCmd([]string{"o : w : r"}, "", "")
	cc, env := kit.NewExec(t)
	session := env.GetLayer(model.EnvLayerSession)
	session.Set("k", "s")
	nested := vnd.Bool()
	input := []string{"o", "%err=ok", ":", "r", ":", "w", ":", "r", ":", "o", ":", "w"}
	if nested {
		input[0] = "oo"
	}
	vnd.Note(fmt.Sprint(input, at, how))
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Assert(!o.Panicked && ok, "the program runs")
	want := []string{"v"}
	fails := how != 0
	if !fails || at > 0 {
		want = append(want, "w")
	}
	if !fails || at > 1 {
		want = append(want, "v")
	}
	k := "v"
	if nested && !fails {
		want = append(want, "w", "w")
		k = "w"
	}
	want = append(want, k, "w", "w", "v", "w", "v", "w")
	vnd.Assert(kit.SameStrs(s.ks, want), "each command reads the settings of its own layers")
	vnd.Assert(session.GetRaw("k") == "w", "the session ends with what the commands wrote to it")
	vnd.Reach("forest end")
}

// HQuiet: a flow that runs quietly does so for its own commands only, however
// it ends.
func HQuiet() {
	t := kit.NewTree()
	out := vnd.Choice(3)
	var in, after string
	t.AddSub("r").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		in = env.GetRaw("display.executor")
		if out == 2 {
			panic("broken")
		}
		return out == 0
	}, "", "")
	t.AddSub("n").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		after = env.GetRaw("display.executor")
		return true
	}, "", "")
	t.AddSub("f").RegFlowCmd([]string{"r"}, "", "").SetQuietSubFlow()
	cc, env := kit.NewExec(t)
	session := env.GetLayer(model.EnvLayerSession)
	was := vnd.StrOf("onf", 1, 2)
	session.Set("display.executor", was)
	vnd.Assume(was != "on" && was != "n")
	input := []string{"f", "%err=ok", ":", "n"}
	o := kit.Try(func() { cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Assert(!o.Panicked, "the error is tolerated")
	vnd.Assert(in == "false", "the flow runs quietly")
	vnd.Assert(after == was, "the next command runs as before")
	vnd.Reach("quiet")
}
