// C10: a saved flow parses back to the same commands and arguments.
package c10

import (
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type cmdView struct {
	path    []string
	env     map[string]string
	args    map[string]bool
	trivial int
}

// view is what a parsed command line means: for every command its path, its
// level, its settings and which of them are arguments. Commands without any
// text do nothing and are left out.
func view(flow *model.ParsedCmds) (res []cmdView) {
	for _, cmd := range flow.Cmds {
		if cmd.IsEmpty() && cmd.TrivialLvl == 0 {
			continue
		}
		v := cmdView{env: map[string]string{}, args: map[string]bool{}, trivial: cmd.TrivialLvl}
		for _, seg := range cmd.Segments {
			if seg.Matched.Cmd != nil {
				v.path = append(v.path, seg.Matched.Cmd.Name())
			}
			for k, it := range seg.Env {
				v.env[k] = it.Val
				v.args[k] = it.IsArg
			}
		}
		res = append(res, v)
	}
	return
}

// clean reports whether a line is accepted, and sets no key made of separators
// only (such a key is taken as empty).
func clean(flow *model.ParsedCmds) bool {
	for _, cmd := range flow.Cmds {
		for _, seg := range cmd.Segments {
			for k := range seg.Env {
				if strings.Trim(k, ".") == "" {
					return false
				}
			}
		}
		if cmd.ParseResult.Error != nil {
			return false
		}
	}
	return true
}

func save(flow *model.ParsedCmds) string {
	return model.SaveFlowToStr(flow, ticat.CmdPathSep, ticat.TrivialMark, kit.NewEnv())
}

// again saves a flow and parses the saved text as a flow is parsed when run.
func again(flow *model.ParsedCmds) (*model.ParsedCmds, string) {
	text := save(flow)
	var words []string
	o := kit.Try(func() { words = model.FlowStrToStrs(text) })
	vnd.Assert(!o.Panicked, "the saved text can be read")
	return kit.Parse(words...), text
}

func compare(flow *model.ParsedCmds) {
	kf := ""
	for _, cmd := range flow.Cmds {
		for _, seg := range cmd.Segments {
			for k, it := range seg.Env {
				if strings.ContainsAny(k+it.Val, "{}") {
					kf = "[KF-C10-1] "
				}
			}
		}
	}
	back, text := again(flow)
	vnd.Note(text)
	vnd.Assert(back.FirstErr() == nil, kf+"the saved text has no error")
	a, b := view(flow), view(back)
	vnd.Assert(len(a) == len(b), kf+"number of commands")
	for i := range a {
		vnd.Assert(kit.SameStrs(a[i].path, b[i].path), "command path")
		vnd.Assert(a[i].trivial == b[i].trivial, "trivial level")
		vnd.Assert(kit.SameMap(a[i].env, b[i].env), kf+"arguments and settings")
		for k, v := range a[i].args {
			vnd.Assert(b[i].args[k] == v, "what is an argument stays one")
		}
	}
	vnd.Assert(kit.SameMap(global(flow), global(back)), "settings of the whole line")
	third, _ := again(back)
	vnd.Assert(len(view(third)) == len(a), "saving again keeps the commands")
}

func global(flow *model.ParsedCmds) map[string]string {
	res := map[string]string{}
	for k, v := range flow.GlobalEnv {
		res[k] = v.Val
	}
	return res
}

// HValue: one argument with a value of any text.
func HValue() {
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	v := vnd.StrOf("a \\:\"'(;|", 1, n)
	pre := []string{"", "http"}[vnd.Choice(2)]
	flow := kit.Parse("c", "x="+pre+v)
	vnd.Assume(clean(flow))
	compare(flow)
	vnd.Reach("end")
}

// HBytes: any printable bytes in a value.
func HBytes() {
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	v := vnd.Bytes(1, n)
	for i := 0; i < len(v); i++ {
		vnd.Assume(v[i] >= 0x20 && v[i] < 0x7f || v[i] == '\t' || v[i] == '\n')
		vnd.Assume(v[i] != '{' && v[i] != '}')
	}
	flow := kit.Parse("c", "x=p"+v+"q", "y=1")
	vnd.Assume(clean(flow))
	compare(flow)
	vnd.Reach("end")
}

// HShapes: lines of several commands, every way to write settings and
// arguments, with a free value.
func HShapes() {
	l := 2
	if vnd.Thorough() {
		l = 3
	}
	v := vnd.StrOf("a,:\"$ \\", 1, l)
	one := func() []string {
		switch vnd.Choice(17) {
		case 0:
			return []string{"c", "x=" + v}
		case 1:
			return []string{"k", "X=" + v, "y=1"}
		case 2:
			return []string{"c", "{x=" + v + "}"}
		case 3:
			return []string{"c{x=" + v + "}.d"}
		case 4:
			return []string{"c.d"}
		case 5:
			return []string{"k.D"}
		case 6:
			return []string{"e.f", v}
		case 7:
			return []string{"e{z=" + v + "}.f", "x=2"}
		case 8:
			return []string{"{z=" + v + "}", "c"}
		case 9:
			return []string{"{V.W=" + v + "}"}
		case 10:
			return []string{"^^c", "x=" + v}
		case 11:
			return []string{"c", "%delay=1", "x=" + v}
		case 12:
			return []string{"E{V.W=" + v + "}"}
		case 13:
			return []string{"c{x=" + v, "y=2}.d"}
		case 14:
			return []string{"^c{x=" + v, "z=2}"}
		case 15:
			return []string{"e{V.W=" + v, "e.f.x=2}.f", "x=3"}
		}
		return nil
	}
	var line []string
	if vnd.Bool() {
		line = append(line, ":")
	}
	line = append(line, one()...)
	line = append(line, ":")
	if vnd.Bool() {
		line = append(line, []string{"c", "e.f"}[vnd.Choice(2)], "1")
		if vnd.Bool() {
			line = append(line, ":")
		}
	} else {
		line = append(line, one()...)
	}
	flow := kit.Parse(line...)
	vnd.Assume(clean(flow))
	compare(flow)
	vnd.Reach("end")
}

// HTokens: lines of free syntax.
func HTokens() {
	n := 5
	if vnd.Thorough() {
		n = 6
	}
	heads := []string{"", "c", "e", ":", "c{"}
	argv := []string{heads[vnd.Choice(len(heads))], vnd.StrOf("cdx{}=.^: ", 0, n)}
	var flow *model.ParsedCmds
	o := kit.Try(func() { flow = kit.Parse(argv...) })
	vnd.Assume(!o.Panicked && clean(flow))
	compare(flow)
	vnd.Reach("end")
}

// HSaved: the flow.save command drops itself from the line and saves the rest.
func HSaved() {
	l := 2
	if vnd.Thorough() {
		l = 3
	}
	v := vnd.StrOf("a:\"; ", 1, l)
	rest := [][]string{{"c", "x=" + v}, {"e.f", v, ":", "c", "y=" + v}, {"{z=" + v + "}", ":", "c"}, {"c{x=" + v + "}", ":"}}
	line := append([]string{"c.d", ":"}, rest[vnd.Choice(len(rest))]...)
	flow := kit.Parse(line...)
	vnd.Assume(clean(flow))
	flow.RemoveLeadingCmds(1)
	a := view(flow)
	back, _ := again(flow)
	vnd.Assert(back.FirstErr() == nil, "the saved text has no error")
	b := view(back)
	vnd.Assert(len(a) == len(b), "number of commands")
	for i := range a {
		vnd.Assert(kit.SameStrs(a[i].path, b[i].path) && kit.SameMap(a[i].env, b[i].env), "the same command")
	}
	vnd.Assert(len(flow.Cmds) == 1 || len(back.GlobalEnv) == 0, "the first saved command keeps its settings to itself")
	vnd.Reach("end")
}

// HKey: a setting with any key.
func HKey() {
	l := 3
	if vnd.Thorough() {
		l = 4
	}
	k := vnd.StrOf("aV.:\";&\\", 1, l)
	form := vnd.Choice(3)
	in := []string{"{" + k + "=1}"}
	if form == 1 {
		in = []string{"e{" + k + "=1}.f"}
	} else if form == 2 {
		in = []string{"c", ":", "{" + k + "=1 z=2}"}
	}
	flow := kit.Parse(in...)
	vnd.Assume(clean(flow))
	compare(flow)
	vnd.Reach("end")
}

// HPartKey: a setting behind a directory, whose key is an abbreviation, a
// registered key, or starts with one.
func HPartKey() {
	l := 3
	if vnd.Thorough() {
		l = 4
	}
	t, abbrs := kit.CmdsAndAbbrs()
	e := abbrs.GetOrAddSub("e")
	e.AddSub("v", "V").AddSub("w", "W")
	k := vnd.StrOf("vVw.", 1, l)
	vnd.Assume(strings.Trim(k, ".") != "")
	in := [][]string{{"e{" + k + "=1}.f", "2"}, {"e{" + k + "=1}"}, {"{e." + k + "=1}"}}[vnd.Choice(3)]
	flow := kit.NewParser().Parse(t, abbrs, in...)
	vnd.Assume(clean(flow))
	text := save(flow)
	back := kit.NewParser().Parse(t, abbrs, model.FlowStrToStrs(text)...)
	vnd.Note(text)
	a, b := view(flow), view(back)
	vnd.Assert(back.FirstErr() == nil && len(a) == 1 && len(b) == 1, "one command")
	vnd.Assert(kit.SameStrs(a[0].path, b[0].path), "the same command")
	vnd.Assert(kit.SameMap(a[0].env, b[0].env), "the same settings")
	vnd.Reach("end")
}

// HSaveCommand: the whole way, from a typed line that ends in the save command
// through the executor and the flow file to the commands run later.
func HSaveCommand() {
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	v := vnd.StrOf("a:", 1, n)
	one := func() []string {
		return [][]string{
			{"c", "x=" + v},
			{"c", "w"},
			{"{v=" + v + "}", "e.f", "x=1"},
			{"k.d"},
			{"{v=1}"},
			{"e", "{v.w=" + v + "}", "f"},
		}[vnd.Choice(6)]
	}
	var line []string
	if vnd.Bool() {
		line = append(line, ":")
	}
	line = append(line, one()...)
	if vnd.Bool() {
		line = append(line, ":")
		line = append(line, one()...)
	}
	want := kit.Parse(line...)
	vnd.Assume(clean(want))

	dir := vnd.TempDir()
	tree, abbrs := kit.CmdsAndAbbrs()
	tree.AddSub("s").RegPowerCmd(builtin.SaveFlow, "").
		SetAllowTailModeCall().SetQuiet().SetIgnoreFollowingDeps().SetPriority().
		AddArg("new-cmd-path", "").AddArg("help-str", "").AddArg("unfold-trivial", "").
		AddArg("auto-args", "").AddArg("to-dir", "").AddArg("pack-subflow", "").AddArg("quiet-overwrite", "false")
	cc, env := kit.NewExec(tree)
	cc.EnvAbbrs = abbrs
	env.GetLayer(model.EnvLayerDefault).Set("sys.paths.flows", dir)
	input := line
	input = append(input, ":")
	if vnd.Bool() {
		input = append(input, ":")
	}
	input = append(input, "s", "p.q")
	ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
	vnd.Assert(ok, "the flow is saved")
	lines, _, _, _, _, _ := flow_file.LoadFlowFile(filepath.Join(dir, "p.q") + ticat.FlowExt)
	words := model.FlowStrToStrs(model.FlowStrsToStr(model.StripFlowForExecute(lines, ticat.SequenceSep)))
	back := kit.Parse(words...)
	vnd.Assert(back.FirstErr() == nil, "the saved flow has no error")
	a, b := view(want), view(back)
	vnd.Assert(len(a) == len(b), "number of commands of the saved flow")
	for i := range a {
		vnd.Assert(kit.SameStrs(a[i].path, b[i].path), "command path of the saved flow")
		vnd.Assert(kit.SameMap(a[i].env, b[i].env), "arguments and settings of the saved flow")
	}
	if len(a) > 1 {
		vnd.Assert(kit.SameMap(global(want), global(back)), "settings of the whole saved line")
	}
	vnd.Reach("end")
}
