// C25: a module's meta file registers exactly what it declares.
package c25

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/mods/persist/mod_meta"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const src = "https://github.com/x/y"

type world struct {
	dir, file string
	t         *model.CmdTree
	cc        *model.Cli
	env       *model.Env
}

func start() *world {
	t := kit.NewTree()
	t.AddSub("old", "o").RegCmd(kit.Nop, "old help", "")
	cc, env := kit.NewExec(t)
	dir := vnd.TempDir()
	return &world{dir, filepath.Join(dir, "m.sh.ticat"), t, cc, env}
}

// load writes the meta file and registers it; path "" is no executable.
func (w *world) load(text string, exe string, isDir bool, isFlow bool, path ...string) kit.Outcome {
	os.WriteFile(w.file, []byte(text), 0644)
	return w.reg(exe, isDir, isFlow, path...)
}

func (w *world) reg(exe string, isDir bool, isFlow bool, path ...string) kit.Outcome {
	o := kit.Try(func() {
		mod_meta.RegMod(w.cc, w.file, exe, isDir, isFlow, path, ".tiflow", "|", ".", src, true)
	})
	vnd.Assert(!o.Panicked, "registering a module ends with an error that stops the program")
	return o
}

// errs are the reported errors; each has to name the meta file.
func (w *world) errs() int {
	n := 0
	check := func(list []model.TolerableErr) {
		for _, it := range list {
			vnd.Assert(it.File == w.file && it.Source == src, "an error of a module is reported without its file")
			vnd.Assert(!vnd.IsRuntimeError(it.Err), "a module ends in an internal error")
			n++
		}
	}
	check(w.cc.TolerableErrs.Uncatalogeds)
	for _, list := range w.cc.TolerableErrs.ConflictedWithBuiltin {
		check(list)
	}
	for _, m := range w.cc.TolerableErrs.Conflicteds {
		for _, list := range m {
			check(list)
		}
	}
	return n
}

func (w *world) ok() { vnd.Assert(w.errs() == 0, "a valid declaration is reported as an error") }

// cmd finds a command by its real names.
func (w *world) cmd(path ...string) *model.Cmd {
	node := w.t
	for _, name := range path {
		has := false
		for _, sub := range node.SubNames() {
			has = has || sub == name
		}
		if !has {
			return nil
		}
		node = node.GetSub(name)
	}
	return node.Cmd()
}

func trimmed(s string) string { return strings.Trim(strings.TrimSpace(s), "'\"") }

var flags = [][]string{
	{"nolog", "unlog", "interact", "interactive"},
	{"quiet-error", "quiet-err", "silent-error", "silent-err"},
	{"no-session"},
	{"quiet"},
	{"hide-in-sessions-last", "hide-in-session-last", "hide-in-last"},
	{"pack-subflow", "pack-sub"},
	{"unbreak-file-n-flow", "unbreak-file&flow", "unbreak-file+flow", "unbreak-filenflow", "unbreak-fnf"},
}

var yes = []string{"1", "t", "T", "true", "TRUE", "True"}
var no = []string{"0", "f", "F", "false", "FALSE", "False"}

func has(list []string, s string) bool {
	for _, it := range list {
		if it == s {
			return true
		}
	}
	return false
}

// HFlags: every flag by each of its names with every value.
func HFlags() {
	w := start()
	kind := vnd.Choice(len(flags))
	key := flags[kind][vnd.Choice(len(flags[kind]))]
	var val string
	k := vnd.Choice(6)
	if k == 0 {
		val = vnd.StrOf("01tfTFy' ", 0, 2)
	} else {
		val = []string{"true", "False", "'TRUE'", "yes", "on"}[k-1]
	}
	w.load("flow = old\n"+key+" = "+val+"\nhelp = h\n", "", false, true, "a")
	vnd.Note(key + "=" + val)
	cmd := w.cmd("a")
	v := trimmed(val)
	on := has(yes, v)
	if v != "" && !on && !has(no, v) {
		vnd.Assert(w.errs() == 1, "a value that is no boolean is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	vnd.Assert(cmd != nil && cmd.Help() == "h" && cmd.Type() == model.CmdTypeFlow && kit.SameStrs(cmd.FlowStrs(), []string{"old"}), "the command is not the declared one")
	vnd.Assert(cmd.IsNoSessionCmd() == (on && kind == 2), "no-session is not as declared")
	vnd.Assert(cmd.IsQuiet() == (on && kind == 3), "quiet is not as declared")
	vnd.Assert(cmd.IsHideInSessionsLast() == (on && kind == 4), "hide-in-last is not as declared")
	vnd.Assert(cmd.HasSubFlow(false) == !(on && kind == 5), "pack-subflow is not as declared")
	vnd.Assert(cmd.ShouldUnbreakFileNFlow() == (on && kind == 6), "unbreak-file-n-flow is not as declared")
	vnd.Assert(cmd.MetaFile() == w.file && cmd.Owner().Source() == src, "a command does not know where it comes from")
	if on {
		vnd.Reach("on")
	} else {
		vnd.Reach("off")
	}
}

// HQuietError: the error of a command is hidden only when declared.
func HQuietError() {
	w := start()
	exe := filepath.Join(w.dir, "m.sh")
	os.WriteFile(exe, []byte("exit 1\n"), 0755)
	vnd.OnExec(func(a []string) error { return failed })
	text := ""
	log := vnd.Choice(3)
	if log > 0 {
		text = flags[0][vnd.Choice(4)] + " = " + []string{"false", "true"}[log-1] + "\n"
	}
	logs := filepath.Join(w.dir, "logs")
	os.Mkdir(logs, 0755)
	w.env.GetLayer(model.EnvLayerSession).Set("session", logs)
	quiet := vnd.Choice(3)
	if quiet > 0 {
		text += flags[1][vnd.Choice(4)] + " = " + []string{"false", "true"}[quiet-1] + "\n"
	}
	name := vnd.StrOf("ab", 1, 2)
	w.load(text, exe, false, false, name)
	w.ok()
	ran := 0
	w.t.AddSub("next").RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
		ran++
		return i, true
	}, "")
	w.env.GetLayer(model.EnvLayerDefault).Set("sys.ext.exec.sh", "sh")
	ok := false
	o := kit.Try(func() {
		ok = w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, name, ":", "next")
	})
	vnd.Assert(!o.Runtime, "a run ends in an internal error")
	vnd.Assert(!ok && ran == 0, "a failure does not stop the run")
	vnd.Assert(o.Panicked == (quiet != 2), "the error of a command is quiet without a declaration, or shown in spite of it")
	files, _ := os.ReadDir(logs)
	found := false
	for _, it := range files {
		found = found || strings.Contains(it.Name(), "_"+name+"_")
	}
	vnd.Assert(found == (log != 2), "the output of a command is not logged, or logged in spite of its declaration")
	vnd.Reach("run")
}

type execErr struct{}

func (self execErr) Error() string { return "exit status 1" }

var failed = execErr{}

// HArgs: arguments with abbreviations, defaults and enumerations.
func HArgs() {
	w := start()
	sec := []string{"args", "arg"}[vnd.Choice(2)]
	names := []string{"a", "c"}
	val := "x"
	enums := vnd.Choice(5)
	if enums == 0 || vnd.Thorough() {
		max := 3
		if vnd.Thorough() {
			max = 4
		}
		names = []string{vnd.StrOf("ab| ", 1, max), vnd.StrOf("ac|", 1, 2)}
	} else {
		val = vnd.StrOf("x'( )", 0, 3)
	}
	vals := []string{val, "2"}
	vals[0] += []string{"", "(p|q)", " (enum: p|q)", "( p | q )", "(p)"}[enums]
	text := "help = 'h e'\n[" + sec + "]\n"
	for i, it := range names {
		vnd.Assume(strings.TrimSpace(it) != "")
		text += it + " = " + vals[i] + "\n"
	}
	vnd.Assume(strings.TrimSpace(names[0]) != names[1])
	deps := []string{"bash", "Curl"}
	text += []string{"[dep]", "[deps]"}[vnd.Choice(2)] + "\nbash = to run 'it'\nCurl = x\n"
	w.load(text, filepath.Join(w.dir, "m.sh"), false, false, "a", "b")
	vnd.Note(text)

	bad := false
	var taken []string
	var lists [][]string
	for _, it := range names {
		fields := strings.Split(it, "|")
		list := []string{}
		for i, s := range fields {
			s = strings.TrimSpace(s)
			if s == "" {
				bad = bad || i == 0
				continue
			}
			bad = bad || has(taken, s)
			taken = append(taken, s)
			list = append(list, s)
		}
		lists = append(lists, list)
	}
	if bad {
		vnd.Assert(w.errs() == 1, "a conflict of arguments is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	cmd := w.cmd("a", "b")
	vnd.Assert(cmd != nil && cmd.Type() == model.CmdTypeFile && cmd.CmdLine() == filepath.Join(w.dir, "m.sh") && cmd.Help() == "h e", "the command is not the declared one")
	args := cmd.Args()
	vnd.Assert(kit.SameStrs(args.Names(), []string{lists[0][0], lists[1][0]}), "the arguments are not the declared ones")
	for _, list := range lists {
		for _, it := range list {
			vnd.Assert(args.Realname(it) == list[0], "an abbreviation of an argument is not registered")
		}
	}
	vnd.Assume(enums > 0 || !strings.HasSuffix(val, ")"))
	def := trimmed(val)
	var want []string
	switch enums {
	case 0:
	case 4:
		want = []string{"p"}
	default:
		want = []string{"p", "q"}
	}
	if enums > 0 {
		def = strings.TrimSpace(strings.TrimLeft(strings.TrimSpace(val), "'\""))
	}
	vnd.Assert(args.RawDefVal(lists[0][0]) == def && args.RawDefVal(lists[1][0]) == "2", "the default of an argument is not the declared one")
	vnd.Assert(kit.SameStrs(args.EnumVals(lists[0][0]), want) && len(args.EnumVals(lists[1][0])) == 0, "the enumeration of an argument is not the declared one")
	got := cmd.GetDepends()
	vnd.Assert(len(got) == 2 && got[0].OsCmd == deps[0] && got[0].Reason == "to run 'it'" && got[1].OsCmd == deps[1] && got[1].Reason == "x", "the dependencies are not the declared ones")
	vnd.Reach("args")
}

// HAuto: own arguments together with taken over ones, macros and timer keys.
func HAuto() {
	w := start()
	w.t.AddSub("src").RegCmd(kit.Nop, "", "").AddArg("p", "d", "pp").AddArg2Env("k.p", "p")
	var got [][2]string
	w.t.AddSub("see").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		got = append(got, [2]string{argv.GetRaw("x"), env.GetRaw("k.p")})
		return true
	}, "", "").AddArg("x", "")
	autoKey := []string{"args.auto", "arg.auto", "arg2env.auto-map", "arg2env.auto", "arg2env.map"}[vnd.Choice(5)]
	auto := []string{"p", "p, y = 2", "y=2,p", "*"}[vnd.Choice(4)]
	own := []string{"", "[args]\nx = 1\n", "[args]\nx = 1\nz = 3\n"}[vnd.Choice(3)]
	begin := []string{"", "begin-ts-key", "begin-key"}[vnd.Choice(3)]
	end := []string{"end-ts-key", "end-key", ""}[vnd.Choice(3)]
	dur := []string{"duration-key", "dur-key", ""}[vnd.Choice(3)]
	vnd.Assume(own == "" || begin == "")
	text := "flow = [[mac]]\n[[mac]] = see x=m : src\n" + autoKey + " = " + auto + "\n"
	for _, it := range []string{begin, end, dur} {
		if it != "" {
			text += it + " = t." + it[:1] + "\n"
		}
	}
	w.load(text+own, "", false, false, "a")
	w.ok()
	vnd.Note(text + own)
	w.cc.Arg2EnvAutoMapCmds.AutoMapArg2Env(w.cc, w.env, nil, 0)
	cmd := w.cmd("a")
	var want []string
	if own != "" {
		want = append(want, "x")
	}
	if strings.Contains(own, "z") {
		want = append(want, "z")
	}
	switch auto {
	case "p", "*":
		want = append(want, "p")
	case "y=2,p":
		want = append(want, "y", "p")
	default:
		want = append(want, "p", "y")
	}
	vnd.Assert(kit.SameStrs(args(cmd), want), "the arguments are not the own ones and those taken over: "+strings.Join(args(cmd), " "))
	val := vnd.StrOf("vw", 1, 1)
	ok := w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, "a", "p="+val)
	vnd.Assert(ok && len(got) == 1 && got[0] == [2]string{"m", val}, "a macro or an argument taken over is not what is declared")
	ops := cmd.EnvOps()
	for _, it := range []string{"begin-ts-key", "end-ts-key", "duration-key"} {
		key := "t." + it[:1]
		declared := it[:1] == "b" && begin != "" || it[:1] == "e" && end != "" || it[:1] == "d" && dur != ""
		vnd.Assert(w.env.Has(key) == declared && ops.MatchWriteKey(key) == declared, "a run does not write the declared timer keys: "+key)
	}
	if begin != "" && end != "" && dur != "" {
		b, e, d := w.env.GetInt("t.b"), w.env.GetInt("t.e"), w.env.GetInt("t.d")
		vnd.Assert(b <= e && d >= 0 && d <= e-b+1 && d >= e-b-1, "the times of a run are not in order")
	}
	vnd.Reach("auto")
}

// ops reads the operations of a key: known ones, or bad.
func ops(text string) (list []uint, bad bool) {
	seps := ":"
	if strings.Contains(text, "|") {
		seps = "|"
	}
	for _, it := range strings.Split(text, seps) {
		op := strings.ToLower(strings.TrimSpace(it))
		may := false
		for _, pre := range []string{"may-", "may", "opt-", "opt"} {
			if !may && strings.HasPrefix(op, pre) {
				may = true
				op = op[len(pre):]
			}
		}
		var n uint
		switch op {
		case "r", "rd", "read":
			n = model.EnvOpTypeRead
		case "w", "wr", "wt", "write":
			n = model.EnvOpTypeWrite
		default:
			bad = true
		}
		if may {
			n = n * 4
		}
		list = append(list, n)
	}
	return
}

// HEnvOps: what a module reads and writes.
func HEnvOps() {
	w := start()
	var text string
	k := vnd.Choice(11)
	if k == 0 {
		text = vnd.StrOf("rwo: ", 1, 3)
	} else {
		text = []string{"read", "write", "may-read", "may-write", "read : write", "read:may-write", "write|read", "rd", "Opt-Read", "may-read : read : write"}[k-1]
	}
	vnd.Assume(strings.TrimSpace(text) != "")
	for _, it := range strings.Split(text, ":") {
		vnd.Assume(k != 0 || !strings.Contains(strings.TrimSpace(it), " "))
	}
	key := []string{"k.a", "k|kk.a|x|y", "k:kk . a"}[vnd.Choice(3)]
	w.load("[env]\n"+key+" = "+text+"\nother = read\n", filepath.Join(w.dir, "m.sh"), false, false, "a")
	vnd.Note(text)
	want, bad := ops(strings.TrimSpace(text))
	if bad {
		vnd.Assert(w.errs() == 1, "an unknown operation on an env key is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	cmd := w.cmd("a")
	got := cmd.EnvOps().Ops("k.a")
	vnd.Assert(len(got) == len(want), "an operation on an env key is lost or added")
	for i := range want {
		vnd.Assert(got[i] == want[i], "an operation on an env key is not the declared one")
	}
	vnd.Assert(kit.SameStrs(cmd.EnvOps().RawEnvKeys(), []string{"k.a", "other"}), "the env keys are not the declared ones")
	alias := "k.a"
	if key != alias {
		alias = []string{"kk.a", "kk.y"}[vnd.Choice(2)]
		vnd.Assume(alias != "kk.y" || strings.Contains(key, "y"))
	}
	path, matched := w.cc.EnvAbbrs.TryMatch(alias, ".")
	vnd.Assert(matched && strings.Join(path, ".") == "k.a", "an abbreviation of an env key is not registered")
	vnd.Reach("ops")
}

// HEnvMap: keys written from values and from arguments.
func HEnvMap() {
	w := start()
	val := vnd.StrOf("v =", 0, 3)
	vnd.Assume(!strings.HasSuffix(strings.TrimSpace(val), "\\"))
	vsec := []string{"env.write", "val2env"}[vnd.Choice(2)]
	asec := []string{"env.from-arg", "env.arg", "arg2env"}[vnd.Choice(3)]
	vk := vnd.StrOf("ab", 1, 1)
	ak := vnd.StrOf("ab", 1, 1)
	second := []string{"arg1", "arg2"}[vnd.Choice(2)]
	text := "[args]\narg1 = d1\narg2 = d2\n[" + vsec + "]\nv." + vk + " = " + val + "\nv|w.c = 1\n[" + asec + "]\nk." + ak + " = arg1\nk.c|d = " + second + "\n"
	w.load(text, "", false, false, "a")
	vnd.Note(text)
	if second == "arg1" {
		vnd.Assert(w.errs() == 1, "an argument declared for two keys is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	cmd := w.cmd("a")
	vnd.Assert(cmd.Type() == model.CmdTypeMetaOnly, "the command is not the declared one")
	v2e := cmd.GetVal2Env()
	vnd.Assert(kit.SameStrs(v2e.EnvKeys(), []string{"v." + vk, "v.c"}), "the keys written from values are not the declared ones")
	vnd.Assert(v2e.Val("v."+vk) == strings.TrimSpace(val) && v2e.Val("v.c") == "1", "a value to be written is not the declared one")
	a2e := cmd.GetArg2Env()
	vnd.Assert(kit.SameStrs(a2e.EnvKeys(), []string{"k." + ak, "k.c"}), "the keys written from arguments are not the declared ones")
	vnd.Assert(a2e.GetArgName(cmd, "k."+ak, false) == "arg1" && a2e.GetArgName(cmd, "k.c", false) == "arg2", "a key is written from another argument")
	// And a run writes them
	w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, "a", "arg1=z")
	vnd.Assert(w.env.GetRaw("k."+ak) == "z" && w.env.GetRaw("k.c") == "d2" && w.env.GetRaw("v.c") == "1" && w.env.GetRaw("v."+vk) == strings.TrimSpace(val), "a run does not write the declared keys")
	vnd.Reach("mapped")
}

// HAbbrs: abbreviations of a command and, for a flow, of each part of its path.
func HAbbrs() {
	w := start()
	isFlow := vnd.Choice(2) == 1
	text := vnd.StrOf("po|. ", 1, 4)
	vnd.Assume(strings.TrimSpace(text) != "" && (isFlow || !strings.Contains(text, ".")))
	key := []string{"abbrs", "abbr"}[vnd.Choice(2)]
	w.t.AddSub("a").AddSub("x", "p")
	body := key + " = " + text + "\nflow = old\n"
	path := []string{"a", "b"}
	if vnd.Choice(2) == 1 {
		path = []string{"n"}
	}
	exe := filepath.Join(w.dir, "m.sh")
	if isFlow {
		exe = ""
	}
	w.load(body, exe, false, isFlow, path...)
	vnd.Note(strings.Join(path, ".") + " " + text)
	segs := strings.Split(strings.TrimSpace(text), ".")
	if !isFlow {
		segs = append(make([]string, len(path)-1), segs...)
	}
	vnd.Assume(len(segs) <= len(path))
	bad := false
	for i, seg := range segs {
		var others []string
		if i == 0 {
			others = []string{"old", "o"}
		} else {
			others = []string{"x", "p"}
		}
		for _, it := range strings.Split(seg, "|") {
			bad = bad || has(others, strings.TrimSpace(it))
		}
	}
	cmd := w.cmd(path...)
	vnd.Assert(cmd != nil && cmd.Owner().DisplayPath() == strings.Join(path, "."), "the command is not at the declared path")
	vnd.Assert(w.t.GetSub("o").DisplayPath() == "old" && w.t.GetSub("a", "p").DisplayPath() == "a.x", "an abbreviation of another command is taken over")
	if bad {
		vnd.Assert(w.errs() == 1, "a conflict of abbreviations is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	for i, seg := range segs {
		for _, it := range strings.Split(seg, "|") {
			it = strings.TrimSpace(it)
			if it == "" {
				continue
			}
			p := append(append([]string{}, path[:i]...), it)
			p = append(p, path[i+1:]...)
			got := w.t.GetSub(p...)
			vnd.Assert(got != nil && got.Cmd() == cmd, "an abbreviation of a command is not registered")
		}
	}
	vnd.Reach("abbrs")
}

// HKinds: files, directories, flows and their combinations.
func HKinds() {
	w := start()
	os.Mkdir(filepath.Join(w.dir, "d"), 0755)
	os.WriteFile(filepath.Join(w.dir, "m.sh"), []byte("x\n"), 0755)
	os.WriteFile(filepath.Join(w.dir, "t.sh"), []byte("x\n"), 0755)
	os.WriteFile(filepath.Join(w.dir, "d", "t.sh"), []byte("x\n"), 0755)
	tag := vnd.StrOf("tu ", 0, 3)
	tagKey := []string{"tags", "tag"}[vnd.Choice(2)]
	flow := vnd.Choice(3)
	cmdLine := []string{"", "t.sh", "gone.sh", "d"}[vnd.Choice(4)]
	text := "help = h\n" + tagKey + " = " + tag + "\n"
	want := []string{}
	switch flow {
	case 1:
		text += "flow = old x=1 : old\n"
		want = []string{"old x=1 : old"}
	case 2:
		text += "[flow/]\nold\n# y\n: old\n[/flow]\n"
		want = []string{"old", "# y", ": old"}
	}
	if cmdLine != "" {
		text += "cmd = " + cmdLine + "\n"
	}
	kind := vnd.Choice(3)
	exe := []string{"", filepath.Join(w.dir, "m.sh"), filepath.Join(w.dir, "d")}[kind]
	w.load(text, exe, kind == 2, false, "a")
	vnd.Note(text)
	base := w.dir
	if kind == 2 {
		base = exe
	}
	bad := kind != 0 && (cmdLine == "gone.sh" || cmdLine == "d")
	bad = bad || kind == 2 && cmdLine != "" && flow != 0
	// A command line without a file it belongs to is left open
	vnd.Assume(kind != 0 || cmdLine == "")
	cmd := w.cmd("a")
	if bad {
		vnd.Assert(w.errs() == 1 && (cmd == nil || cmd.IsTotallyEmpty()), "a command that points to no file is not reported")
		vnd.Reach("bad")
		return
	}
	w.ok()
	ty := model.CmdTypeMetaOnly
	line := ""
	switch {
	case kind == 0 && flow != 0:
		ty = model.CmdTypeFlow
	case kind == 1 && flow != 0:
		ty, line = model.CmdTypeFileNFlow, exe
	case kind == 1:
		ty, line = model.CmdTypeFile, exe
	case kind == 2 && flow != 0:
		ty = model.CmdTypeFlow
	case kind == 2 && cmdLine != "":
		ty = model.CmdTypeDirWithCmd
	case kind == 2:
		ty, line = model.CmdTypeEmptyDir, exe
	}
	if cmdLine != "" {
		line = filepath.Join(base, cmdLine)
	}
	vnd.Assert(cmd != nil && cmd.Type() == ty, "the command is not of the declared kind")
	vnd.Assert(cmd.CmdLine() == line || ty == model.CmdTypeEmptyDir, "the command runs another file")
	vnd.Assert(cmd.Help() == "h" && kit.SameStrs(cmd.FlowStrs(), want), "the help or flow of a command is not the declared one")
	vnd.Assert(kit.SameStrs(cmd.Owner().Tags(), strings.Fields(tag)), "the tags of a command are not the declared ones")
	vnd.Reach("kind")
}

// HBad: malformed, unreadable and conflicting modules leave the others alone.
func HBad() {
	w := start()
	w.load("help = first\n[args]\nx = 1\n", filepath.Join(w.dir, "m.sh"), false, false, "a")
	w.ok()
	first := w.cmd("a")
	var o kit.Outcome
	switch vnd.Choice(5) {
	case 0:
		line := vnd.StrOf("a=[]# ", 1, 3)
		t := strings.TrimSpace(line)
		vnd.Assume(t != "")
		o = w.load(line+"\nhelp = h\n", filepath.Join(w.dir, "m.sh"), false, false, "b")
		vnd.Note(line)
		if t[0] != '#' && !strings.Contains(t, "=") && !(t[0] == '[' && t[len(t)-1] == ']' && len(t) > 1) {
			vnd.Assert(w.errs() == 1 && w.cmd("b") == nil, "a malformed line is not reported")
			vnd.Reach("malformed")
		} else {
			vnd.Assert(w.errs() == 0, "a valid line is reported as an error")
		}
	case 1:
		os.Remove(w.file)
		o = w.reg(filepath.Join(w.dir, "m.sh"), false, false, "b")
		vnd.Assert(w.errs() == 1 && w.cmd("b") == nil, "a file that cannot be read is not reported")
		vnd.Reach("unreadable")
	case 2:
		o = w.load("help = second\n[args]\ny = 2\n", filepath.Join(w.dir, "t.sh"), false, false, "a")
		vnd.Assert(w.errs() == 1, "two modules with one path are not reported")
		vnd.Reach("conflict")
	case 3:
		o = w.load("help = second\n", "", false, true, "old")
		vnd.Assert(w.errs() == 1, "a module with the path of a builtin command is not reported")
		vnd.Assert(w.cmd("old").Help() == "old help", "a builtin command is replaced")
	case 4:
		val := vnd.StrOf("1-x", 1, 2)
		o = w.load("trivial = "+val+"\nhelp = h\n", "", false, false, "b")
		isNum := has([]string{"1", "11", "-1"}, val)
		vnd.Assert((w.errs() == 0) == isNum, "a trivial level that is no number is not reported, or a number is")
		if isNum {
			vnd.Assert(w.cmd("b").Owner().Trivial() == map[string]int{"1": 1, "11": 11, "-1": -1}[val], "the trivial level is not the declared one")
		}
	}
	_ = o
	cmd := w.cmd("a")
	vnd.Assert(cmd == first && cmd.Help() == "first" && kit.SameStrs(args(cmd), []string{"x"}), "a module that is refused changes another one")
	vnd.Reach("end")
}

func args(cmd *model.Cmd) []string {
	it := cmd.Args()
	return it.Names()
}

// HCombined: a flow file that holds several flows.
func HCombined() {
	w := start()
	n := vnd.Choice(2) + 1
	head := []string{"", "\n", "# text\n"}[vnd.Choice(3)]
	text := head
	names := []string{}
	for i := 0; i < n; i++ {
		name := vnd.StrOf("ab.", 1, 3)
		vnd.Assume(name[0] != '.' && name[len(name)-1] != '.' && !strings.Contains(name, ".."))
		vnd.Assume(i == 0 || !strings.HasPrefix(name+".", names[0]+".") && !strings.HasPrefix(names[0]+".", name+"."))
		names = append(names, name)
		text += []string{"### file : ", "###file:"}[i] + "dir/" + name + ".tiflow\nflow = old n=" + name + "\n\n"
	}
	w.file = filepath.Join(w.dir, "all.tiflow")
	w.load(text, "", false, true, "all")
	w.ok()
	vnd.Note(text)
	for _, name := range names {
		cmd := w.cmd(strings.Split(name, ".")...)
		vnd.Assert(cmd != nil && cmd.Type() == model.CmdTypeFlow && kit.SameStrs(cmd.FlowStrs(), []string{"old n=" + name}), "a flow of a combined file is not the declared one")
	}
	vnd.Assert(w.cmd("all") == nil, "a combined file registers a command of its own")
	vnd.Reach("combined")
}

// HWalk: the files of a directory become commands by their path.
func HWalk() {
	w := start()
	root := filepath.Join(w.dir, []string{"repo", ".repo"}[vnd.Choice(2)])
	name := vnd.StrOf("ab.", 1, 3)
	vnd.Assume(!strings.HasSuffix(name, ".") && !strings.Contains(name, ".."))
	sub := []string{"", "s", "s.d", ".h", "s/u"}[vnd.Choice(5)]
	os.MkdirAll(filepath.Join(root, sub), 0755)
	kind := vnd.Choice(4)
	file := filepath.Join(root, sub, name)
	switch kind {
	case 0: // an executable with its meta file
		os.WriteFile(file, []byte("x\n"), 0755)
		os.WriteFile(file+".ticat", []byte("help = h\n"), 0644)
	case 1: // a meta file alone
		os.WriteFile(file+".ticat", []byte("flow = old\n"), 0644)
	case 2:
		os.WriteFile(file+".tiflow", []byte("flow = old\n"), 0644)
	case 3: // no module
		os.WriteFile(file, []byte("flow = old\n"), 0644)
	}
	hub := filepath.Join(w.dir, "hub")
	list := filepath.Join(hub, ticat.HubFileName)
	state := []string{"on", "disabled"}[vnd.Choice(2)]
	meta.WriteReposInfoFile(hub, list, []meta.RepoInfo{{meta.ParseRepoAddr(src), "x", root, "h", state}}, ticat.ProtoSep)
	d := w.env.GetLayer(model.EnvLayerDefault)
	d.Set("sys.paths.hub", hub)
	d.Set("strs.hub-file-name", ticat.HubFileName)
	d.Set("strs.repos-file-name", ticat.ReposFileName)
	d.Set("strs.meta-ext", ticat.MetaExt)
	d.Set("strs.flow-ext", ticat.FlowExt)
	d.Set("strs.help-ext", ticat.HelpExt)
	d.Set("sys.panic.recover", "true")
	vnd.Note(sub + " " + name + " " + state)
	flow := w.cc.Parser.Parse(w.cc.Cmds, w.cc.EnvAbbrs, "old")
	o := kit.Try(func() { builtin.LoadModsFromHub(nil, w.cc, w.env, flow, 0) })
	vnd.Assert(!o.Panicked && len(w.cc.TolerableErrs.Uncatalogeds) == 0, "loading a directory fails")
	if state != "on" || sub == ".h" || kind == 3 || name[0] == '.' {
		vnd.Assert(kit.SameStrs(w.t.SubNames(), []string{"old"}), "something is registered from a file that declares nothing")
		vnd.Reach("none")
		return
	}
	path := []string{}
	if kind == 2 {
		path = strings.Split(name, ".")
	} else {
		for _, it := range append(strings.Split(sub, "/"), name) {
			it = strings.Split(it, ".")[0]
			if it != "" {
				path = append(path, it)
			}
		}
	}
	cmd := w.cmd(path...)
	vnd.Assert(cmd != nil && cmd.Owner().Source() == src, "a module is not registered at the path of its file")
	parsed := w.cc.Parser.Parse(w.cc.Cmds, w.cc.EnvAbbrs, strings.Join(path, "."))
	vnd.Assert(parsed.Cmds[0].LastCmd() == cmd, "a module cannot be called by its path")
	if kind == 0 {
		vnd.Assert(cmd.Type() == model.CmdTypeFile && cmd.CmdLine() == file && cmd.MetaFile() == file+".ticat", "a module runs another file")
	} else {
		vnd.Assert(cmd.Type() == model.CmdTypeFlow && kit.SameStrs(cmd.FlowStrs(), []string{"old"}), "a module is not of the declared kind")
	}
	vnd.Reach("walk")
}
