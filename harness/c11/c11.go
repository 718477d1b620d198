// C11: flow and meta files keep what is saved in them.
package c11

import (
	"io/ioutil"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/mods/persist/meta_file"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func load(path string) *meta_file.MetaFile {
	metas := meta_file.NewMetaFile(path)
	vnd.Assert(len(metas) == 1, "one file")
	return metas[0].Meta
}

// holds reports whether the file format has a way to write a value: it keeps
// no blanks around a line and no blank first or last line.
func holds(v string) bool {
	lines := strings.Split(v, "\n")
	for i, l := range lines {
		if l != strings.TrimSpace(l) {
			return false
		}
		if len(lines) > 1 && l == "" && (i == 0 || i == len(lines)-1) {
			return false
		}
	}
	return true
}

func tag(v string) string {
	if strings.HasSuffix(v, "\\") {
		return "[KF-C11-1] "
	}
	for i, l := range strings.Split(v, "\n") {
		if i > 0 && strings.HasPrefix(l, "###") {
			return "[KF-C11-2] "
		}
	}
	return ""
}

// HPairs: values in the global section and in a named one.
func HPairs() {
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	path := filepath.Join(vnd.TempDir(), "f")
	v := vnd.StrOf("a\\\n\"'#[]= ", 0, n)
	vnd.Assume(holds(v))
	kf := tag(v)
	meta := meta_file.CreateMetaFile(path)
	named := vnd.Bool()
	if named {
		meta.NewOrGetSection("s").Set("p", "1")
	}
	g := meta.GetGlobalSection()
	g.Set("one", "1")
	g.Set("two", v)
	g.Set("three", "3")
	s := meta.NewOrGetSection("s")
	s.Set("four", v)
	s.Set("five", "5")
	g.Set("six", "6")
	meta.Save()
	back := load(path)
	bg := back.GetGlobalSection()
	vnd.Assert(bg.GetUnTrim("one") == "1", kf+"the value before")
	vnd.Assert(bg.GetUnTrim("two") == v, kf+"the value")
	vnd.Assert(bg.GetUnTrim("three") == "3", kf+"the value behind")
	vnd.Assert(bg.GetUnTrim("six") == "6", kf+"a value added later")
	bs := back.GetSection("s")
	vnd.Assert(bs != nil, kf+"the section")
	vnd.Assert(bs.GetUnTrim("four") == v, kf+"the value in a section")
	vnd.Assert(bs.GetUnTrim("five") == "5", kf+"the value behind in a section")
	vnd.Assert(kit.SameStrs(bg.Keys(), []string{"one", "two", "three", "six"}), kf+"the keys in their order")
	vnd.Assert(len(bs.Keys()) == len(s.Keys()), kf+"the keys of a section")
	// a file that was read can be written again
	back.Save()
	third := load(path)
	vnd.Assert(third.GetGlobalSection().GetUnTrim("two") == v && third.GetGlobalSection().GetUnTrim("six") == "6", kf+"written again: the value")
	vnd.Assert(third.GetSection("s") != nil && third.GetSection("s").GetUnTrim("four") == v, kf+"written again: the value in a section")
	vnd.Reach("end")
}

// HFlow: a saved flow file.
func HFlow() {
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	path := filepath.Join(vnd.TempDir(), "f")
	help := vnd.StrOf("h \\'=", 0, 2)
	vnd.Assume(holds(help))
	line := vnd.StrOf("a:\\\"'# =", 0, n)
	vnd.Assume(holds(line) && line != "")
	flow := [][]string{{line}, {"x", line}, {line, "y"}, {"x", line, "y"}, {"x", "", line}, {line, ""}, {"x", line, ""}, {line, "", "[b]", "z = 1"}}[vnd.Choice(8)]
	last := len(flow) - 1
	if flow[last] == "" {
		last--
	}
	kf := tag(help)
	kfFlow, kfHelp := kf, kf
	if kfFlow == "" {
		kfFlow = tag(strings.Join(flow[:last+1], "\n"))
	}
	if help != strings.Trim(help, "'\"") {
		kfHelp = "[KF-C11-3] "
	}
	abbrs := []string{"", "f|g"}[vnd.Choice(2)]
	trivial := []string{"", "2"}[vnd.Choice(2)]
	auto := []string{"", "x,y"}[vnd.Choice(2)]
	pack := []string{"", "true"}[vnd.Choice(2)]
	flow_file.SaveFlowFile(path, flow, help, abbrs, trivial, auto, pack)
	gotFlow, gotHelp, gotAbbrs, gotTrivial, gotAuto, gotPack := flow_file.LoadFlowFile(path)
	want := flow
	if want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	vnd.Assert(kit.SameStrs(gotFlow, want), kfFlow+"the flow")
	vnd.Assert(gotHelp == help, kfHelp+"the help")
	vnd.Assert(gotAbbrs == abbrs, kf+"the abbreviations")
	vnd.Assert(gotTrivial == trivial, kf+"the trivial level")
	if auto == "" {
		auto = "*"
	}
	vnd.Assert(gotAuto == auto, kf+"the automatic arguments")
	vnd.Assert(gotPack == pack, kf+"the packed mark")
	vnd.Reach("end")
}

// HText: hand written text; every key is read, with the lines that belong to it.
func HText() {
	path := filepath.Join(vnd.TempDir(), "f")
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	var text []string
	global := map[string]string{}
	sections := map[string]map[string]string{}
	cur := ""
	set := func(k, v string) {
		if cur == "" {
			global[k] = v
			return
		}
		if sections[cur] == nil {
			sections[cur] = map[string]string{}
		}
		sections[cur][k] = v
	}
	val := vnd.StrOf("a=#] ", 1, 2)
	val = strings.TrimSpace(val)
	vnd.Assume(val != "")
	keys := []string{"k", "l", "m", "n"}
	for i := 0; i < n; i++ {
		k := keys[i]
		switch vnd.Choice(8) {
		case 0:
			text = append(text, k+" = "+val)
			set(k, val)
		case 1:
			text = append(text, "  "+k+"="+val+"  ")
			set(k, val)
		case 2:
			text = append(text, k+" = "+val+" \\", "  "+val+"\\", "", "  x")
			set(k, val+"\n"+val+"\nx")
		case 3:
			text = append(text, k+" = \\", "  # "+val+" \\", "[x]")
			set(k, "# "+val+"\n[x]")
		case 4:
			text = append(text, "# "+val, "", "#k = 2")
		case 5:
			text = append(text, "[s]", k+" = 1")
			cur = "s"
			set(k, "1")
		case 6:
			text = append(text, "[t]", "", k+" = "+val)
			cur = "t"
			set(k, val)
		case 7:
			// always a key of the whole file
			text = append(text, "["+k+"/]", "", "# "+val, val, "", "x = 1", "", "[/"+k+"]")
			global[k] = "# " + val + "\n" + val + "\n\nx = 1"
		}
	}
	open := vnd.Choice(3)
	if open == 1 {
		text = append(text, "z = 1 \\", "2")
		set("z", "1\n2")
	} else if open == 2 {
		text = append(text, "z = 1 \\")
		set("z", "1")
	}
	end := []string{"", "\n"}[vnd.Choice(2)]
	err := ioutil.WriteFile(path, []byte(strings.Join(text, "\n")+end), 0644)
	vnd.Assert(err == nil, "written")
	meta := load(path)
	check := func(sec *meta_file.Section, want map[string]string) {
		vnd.Assert(sec != nil, "the section is read")
		vnd.Assert(len(sec.Keys()) == len(want), "number of keys")
		for k, v := range want {
			vnd.Assert(sec.GetUnTrim(k) == v, "the value of a key")
			vnd.Assert(strings.Join(sec.GetMultiLineVal(k, false), "\n") == v, "the lines of a key")
		}
	}
	check(meta.GetGlobalSection(), global)
	for _, name := range []string{"s", "t"} {
		if sections[name] != nil {
			check(meta.GetSection(name), sections[name])
		} else {
			vnd.Assert(meta.GetSection(name) == nil, "no other section")
		}
	}
	vnd.Reach("end")
}

// HAny: any text is read or rejected with a message.
func HAny() {
	path := filepath.Join(vnd.TempDir(), "f")
	n := 5
	if vnd.Thorough() {
		n = 6
	}
	text := vnd.StrOf("a=\\\n[]/#", 0, n)
	err := ioutil.WriteFile(path, []byte(text), 0644)
	vnd.Assert(err == nil, "written")
	o := kit.Try(func() { meta_file.NewMetaFile(path) })
	vnd.Assert(!o.Runtime, "no internal error while reading")
	vnd.Reach("end")
}

// HCombined: a file of several flows is split at its marks.
func HCombined() {
	path := filepath.Join(vnd.TempDir(), "f")
	v := vnd.StrOf("a#= ", 1, 3)
	v = strings.TrimSpace(v)
	vnd.Assume(v != "")
	mark := []string{"### file : ", "###file:", "  ### file :"}[vnd.Choice(3)]
	// Blank and comment lines before the first mark are not a flow
	head := []string{"", "x = 1\n", "# c\n", "\n# c\nx = 1\n"}[vnd.Choice(4)]
	text := head + mark + "p.q\nflow = " + v + "\n" + mark + "r\nflow = \\\n" + v + "\\\n b\n"
	err := ioutil.WriteFile(path, []byte(text), 0644)
	vnd.Assert(err == nil, "written")
	metas := meta_file.NewMetaFile(path)
	k := 0
	if strings.Contains(head, "x") {
		vnd.Assert(len(metas) == 3 && metas[0].NotVirtual && metas[0].VirtualPath == path, "the text before the first mark")
		k = 1
	}
	vnd.Assert(len(metas) == k+2, "number of flows")
	vnd.Assert(metas[k].VirtualPath == "p.q" && !metas[k].NotVirtual, "name of a flow")
	vnd.Assert(metas[k+1].VirtualPath == "r" && !metas[k+1].NotVirtual, "name of the next flow")
	vnd.Assert(metas[k].Meta.GetGlobalSection().GetUnTrim("flow") == v, "text of a flow")
	vnd.Assert(metas[k+1].Meta.GetGlobalSection().GetUnTrim("flow") == v+"\nb", "text of the next flow")
	vnd.Reach("end")
}

// HMark: a line of a value that looks like the mark of a combined file.
func HMark() {
	path := filepath.Join(vnd.TempDir(), "f")
	name := vnd.StrOf("ab", 1, 2)
	flow := []string{"x", "### file : " + name, "y"}
	flow_file.SaveFlowFile(path, flow, "", "", "", "", "")
	var got []string
	o := kit.Try(func() { got, _, _, _, _, _ = flow_file.LoadFlowFile(path) })
	vnd.Assert(!o.Runtime, "[KF-C11-2] no internal error")
	vnd.Assert(!o.Panicked && kit.SameStrs(got, flow), "[KF-C11-2] the flow")
}

// HHelp: flow.set-help-str changes the help text of a saved flow and nothing else.
func HHelp() {
	dir := vnd.TempDir()
	path := filepath.Join(dir, "p.tiflow")
	v := vnd.StrOf("a,:", 1, 2)
	extra := [][]string{
		{"args.auto = " + v},
		{"tags = " + v},
		{"[args]", "x = " + v},
		{"[env]", "k = write"},
		{"trivial = 1", "pack-subflow = true"},
		{"abbr = q"},
		{},
	}[vnd.Choice(7)]
	old := []string{"help = old", ""}[vnd.Choice(2)]
	text := append([]string{old, "flow = c \\", " : " + v}, extra...)
	err := ioutil.WriteFile(path, []byte(strings.Join(text, "\n")+"\n"), 0644)
	vnd.Assert(err == nil, "written")
	before := load(path)

	tree := kit.NewTree()
	tree.AddSub("p").RegFlowCmd([]string{"c"}, "old", "")
	cmd := tree.AddSub("h").RegPowerCmd(builtin.SetFlowHelpStr, "")
	cmd.AddArg("cmd-path", "").AddArg("help-str", "")
	cc := kit.NewCli(tree)
	env := kit.NewEnv()
	d := env.GetLayer(model.EnvLayerDefault)
	d.Set("sys.paths.flows", dir)
	d.Set("display.width", "80")
	d.Set("display.width.max", "80")
	d.Set("display.color", "false")
	d.Set("display.utf8.symbols", "false")
	help := vnd.StrOf("hi ", 1, 3)
	vnd.Assume(help == strings.TrimSpace(help))
	flow := kit.NewParser().Parse(tree, nil, "h", "cmd-path=p", "help-str="+help)
	cenv, argv := flow.Cmds[0].ApplyMappingGenEnvAndArgv(env, "--", ".", 1)
	builtin.SetFlowHelpStr(argv, cc, cenv, flow, 0)

	after := load(path)
	vnd.Assert(after.Get("help") == help, "the help text is set")
	n := 0
	for name, sec := range before.GetAll() {
		got := after.GetSection(name)
		vnd.Assert(got != nil, "a section is kept")
		for _, k := range sec.Keys() {
			if name == "" && k == "help" {
				continue
			}
			n++
			vnd.Assert(got.GetUnTrim(k) == sec.GetUnTrim(k), "everything else is kept")
		}
	}
	m := 0
	for _, sec := range after.GetAll() {
		m += len(sec.Keys())
	}
	vnd.Assert(m == n+1, "nothing else is added")
	vnd.Reach("end")
}

// HBlock: a value written as a block keeps its lines, also blank ones and comments.
func HBlock() {
	path := filepath.Join(vnd.TempDir(), "f")
	pool := []string{"", "a", "  ", "# c", " b ", "[x]", "k = v", "a \\", "\"q\"", "[[r]]"}
	var lines, want []string
	n := 1 + vnd.Choice(3)
	if vnd.Thorough() {
		n += vnd.Choice(3)
	}
	for i := 0; i < n; i++ {
		line := pool[vnd.Choice(len(pool))]
		lines = append(lines, line)
		line = strings.TrimSpace(line)
		if line != "" || len(want) > 0 {
			want = append(want, line)
		}
	}
	for len(want) > 0 && want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	key := vnd.StrOf("fg-", 1, 2)
	closed := vnd.Bool()
	text := "one = 1\n[" + key + "/]\n" + strings.Join(lines, "\n") + "\n"
	if closed {
		text += "[/" + key + "]\ntwo = 2\n[s]\nthree = 3\n"
	}
	vnd.Note(text)
	if ioutil.WriteFile(path, []byte(text), 0644) != nil {
		panic("harness")
	}
	var meta *meta_file.MetaFile
	o := kit.Try(func() { meta = load(path) })
	vnd.Assert(!o.Panicked, "a block cannot be read: "+o.Text)
	g := meta.GetGlobalSection()
	got := g.GetMultiLineVal(key, false)
	vnd.Assert(kit.SameStrs(got, want), "the lines of a block")
	vnd.Assert(g.GetUnTrim("one") == "1", "the value before a block")
	if closed {
		vnd.Assert(g.GetUnTrim("two") == "2" && meta.GetSection("s") != nil && meta.GetSection("s").GetUnTrim("three") == "3", "what is behind a block")
	}
	// It is kept when the file is written
	if len(want) > 0 && tag(strings.Join(want, "\n")) == "" {
		back := meta
		o := kit.Try(func() { back.Save(); back = load(path) })
		vnd.Assert(!o.Panicked, "a block cannot be written: "+o.Text)
		lossy := false
		for _, l := range want {
			lossy = lossy || strings.HasSuffix(l, "\\")
		}
		vnd.Assert(lossy || kit.SameStrs(back.GetGlobalSection().GetMultiLineVal(key, false), want), "the lines of a block, written again")
	}
	vnd.Reach("block")
}
