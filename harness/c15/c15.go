// C15: the env read/write check reports every read-before-write and nothing
// else.
package c15

import (
	"strings"

	"github.com/innerr/ticat/pkg/cli/display"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const (
	opRead = iota
	opWrite
	opMayRead
	opMayWrite
)

var ops = []uint{model.EnvOpTypeRead, model.EnvOpTypeWrite, model.EnvOpTypeMayRead, model.EnvOpTypeMayWrite}

// decl is one declared operation.
type decl struct {
	op  int
	key string
}

// leaf is one command: what it declares, in order, and the setting it gets.
type leaf struct {
	name  string
	decls []decl
	set   bool
}

// found is what is said about one read.
type found struct {
	cmd, key string
	fatal    bool
	may      bool
	written  bool
}

// ref walks the commands in the order in which they run.
type ref struct {
	have    map[string]bool // in the session
	written map[string]bool
	may     map[string]bool
	out     []found
}

func (r *ref) do(l leaf, own bool) {
	for _, d := range l.decls {
		switch d.op {
		case opWrite:
			r.written[d.key] = true
		case opMayWrite:
			r.may[d.key] = true
		default:
			if r.written[d.key] || r.have[d.key] || own && d.key == "k" {
				continue
			}
			r.out = append(r.out, found{l.name, d.key, d.op == opRead && !r.may[d.key], d.op == opMayRead, r.may[d.key]})
		}
	}
}

func results(res []model.EnvOpsCheckResult) (out []found) {
	for _, it := range res {
		f := found{it.Cmd.Name(), it.Key, it.ReadNotExist, it.MayReadNotExist || it.MayReadMayWrite, it.ReadMayWrite || it.MayReadMayWrite}
		n := 0
		for _, on := range []bool{it.ReadNotExist, it.MayReadNotExist, it.ReadMayWrite, it.MayReadMayWrite} {
			if on {
				n++
			}
		}
		vnd.Assert(n == 1, "one kind of finding at a time")
		vnd.Assert((len(it.MayWriteCmdsBefore) != 0) == f.written, "the commands that may provide the key are given")
		out = append(out, f)
	}
	return
}

func same(a, b []found) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func decls(max int, keys string) (out []decl) {
	n := vnd.Choice(max + 1)
	for i := 0; i < n; i++ {
		out = append(out, decl{vnd.Choice(4), vnd.StrOf(keys, 1, 1)})
	}
	return
}

// grouped: the operations of a command are kept by key, in the order in which
// the keys are first named.
func grouped(ds []decl) (out []decl) {
	for i, d := range ds {
		first := true
		for _, x := range ds[:i] {
			if x.key == d.key {
				first = false
			}
		}
		if !first {
			continue
		}
		for _, x := range ds[i:] {
			if x.key == d.key {
				out = append(out, x)
			}
		}
	}
	return
}

// check runs a program of declared commands in one of the shapes of a line.
func check(n, max, maxLast int, keys string, shapes int) {
	var cmds []leaf
	for i := 0; i < n; i++ {
		m := max
		if i == n-1 {
			m = maxLast
		}
		cmds = append(cmds, leaf{decls: decls(m, keys)})
	}
	checkCmds(cmds, shapes, true)
}

func checkCmds(cmds []leaf, shapes int, settings bool) {
	t := kit.NewTree()
	n := len(cmds)
	for i := range cmds {
		l := &cmds[i]
		l.name = string(rune('a' + i))
		cmd := t.AddSub(l.name).RegCmd(kit.Nop, "", "")
		for _, d := range l.decls {
			cmd.AddEnvOp(d.key, ops[d.op])
		}
		l.decls = grouped(l.decls)
	}
	t.AddSub("v").RegEmptyCmd("").AddVal2Env("k", "1")
	t.AddSub("m").RegEmptyCmd("").AddArg("x", "").AddArg2Env("k", "x")
	t.AddSub("f").RegFlowCmd([]string{"a : b"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"{k=2} a", "b"}, "", "")
	t.AddSub("h").RegFlowCmd([]string{"f : v"}, "", "")
	cc := kit.NewCli(t)
	env := kit.NewEnv()
	r := &ref{map[string]bool{}, map[string]bool{}, map[string]bool{}, nil}
	if settings && vnd.Bool() {
		layer := []model.EnvLayerType{model.EnvLayerSession, model.EnvLayerDefault}[vnd.Choice(2)]
		env.GetLayer(layer).Set("k", "0")
		r.have["k"] = true
	}
	last := cmds[n-1]
	var input []string
	shape := vnd.Choice(shapes)
	own := settings && vnd.Bool()
	set := "{k=1}"
	if !own {
		set = ""
	}
	switch shape {
	case 0: // one after the other, the last with a setting of its own
		for i, l := range cmds {
			if i == n-1 {
				input = append(input, set)
			}
			input = append(input, l.name, ":")
			r.do(l, own && i == n-1)
		}
	case 1: // the first with a setting of its own
		input = append(input, ":", set)
		for i, l := range cmds {
			input = append(input, l.name, ":")
			r.do(l, own && i == 0)
		}
	case 2: // a value switch in front of the last
		for _, l := range cmds[:n-1] {
			input = append(input, l.name, ":")
			r.do(l, false)
		}
		input = append(input, "v", ":", last.name)
		r.have["k"] = true
		r.do(last, false)
	case 3: // an argument mapping in front of the last, with or without the argument
		for _, l := range cmds[:n-1] {
			input = append(input, l.name, ":")
			r.do(l, false)
		}
		input = append(input, "m")
		if own {
			input = append(input, "x=1")
			r.have["k"] = true
		}
		input = append(input, ":", last.name)
		r.do(last, false)
	case 4: // a flow, then the last
		input = append(input, ":", set, "f", ":", last.name)
		r.do(cmds[0], own)
		r.do(cmds[1], own)
		r.do(last, false)
	case 5: // a flow with a setting at its start, after the last
		input = append(input, last.name, ":", set, "g")
		r.do(last, false)
		r.do(cmds[0], true)
		r.do(cmds[1], true)
	case 6: // a flow of a flow and a switch, then the last
		input = append(input, "h", ":", last.name)
		r.do(cmds[0], false)
		r.do(cmds[1], false)
		r.have["k"] = true
		r.do(last, false)
	}
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	flow.GlobalEnv.WriteNotArgTo(env.GetLayer(model.EnvLayerSession), cc.Cmds.Strs.EnvValDelAllMark)
	if shape == 0 && n == 1 && own {
		r.have["k"] = true
	}
	vnd.Note(strings.Join(input, " "))
	for _, l := range cmds {
		for _, d := range l.decls {
			vnd.Note(l.name + " " + d.key + " " + model.EnvOpStr(ops[d.op]))
		}
	}
	before := env.FlattenAll()
	var res, strict []model.EnvOpsCheckResult
	o := kit.Try(func() {
		model.CheckEnvOps(cc, flow, env, &model.EnvOpsChecker{}, false, builtin.EnvOpCmds(), &res)
		model.CheckEnvOps(cc, flow, env, &model.EnvOpsChecker{}, true, builtin.EnvOpCmds(), &strict)
	})
	vnd.Assert(!o.Panicked, "the check ends")
	vnd.Assert(same(results(res), r.out), "each read that is not provided is reported, and nothing else")
	var fatal []found
	for _, f := range r.out {
		if f.fatal {
			fatal = append(fatal, f)
		}
	}
	vnd.Assert(same(results(strict), fatal), "without the risks, exactly the fatal ones are reported")
	vnd.Assert(kit.SameMap(env.FlattenAll(), before), "checking changes nothing")
	fs, rs, _ := display.AggEnvOpsCheckResult(res)
	for _, f := range r.out {
		in := 0
		for _, it := range fs.Result {
			for _, c := range it.Cmds {
				if c == f.cmd && it.Key == f.key && f.fatal {
					in++
				}
			}
		}
		for _, it := range rs.Result {
			for _, c := range it.Cmds {
				if c == f.cmd && it.Key == f.key && !f.fatal && (it.MayReadNotExist || it.MayReadMayWrite) == f.may && (it.ReadMayWrite || it.MayReadMayWrite) == f.written {
					in++
				}
			}
		}
		vnd.Assert(in == 1, "the report lists the finding")
	}
	vnd.Reach("checked")
}

// HOps: several operations of several keys in one or two commands.
func HOps() { check(2, 2, 1, "kj", 1) }

// HFlows: three commands, one key, every shape of a line.
func HFlows() { check(3, 1, 1, "k", 7) }

// HMiddle: what a command between two others does to several keys.
func HMiddle() {
	max := 1
	if vnd.Thorough() {
		max = 2
	}
	checkCmds([]leaf{{decls: decls(1, "k")}, {decls: decls(2, "kj")}, {decls: decls(max, "k")}}, 1, false)
}

// HDeepOps: as HOps, with two operations in the last one too.
func HDeepOps() { check(2, 2, 2, "kj", 2) }

func HDeepFlows() { check(3, 2, 1, "kj", 7) }

// HBuiltin: what the check says of flows of builtin environment commands is
// what happens when they run.
func HBuiltin() {
	t := kit.NewTree()
	sawEmpty, ran := false, false
	t.AddSub("r").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		ran = true
		if env.GetRaw("key") == "" {
			sawEmpty = true
		}
		return true
	}, "", "").AddEnvOp("key", model.EnvOpTypeRead)
	t.AddSub("w").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		env.GetLayer(model.EnvLayerSession).Set("key", "w")
		return true
	}, "", "").AddEnvOp("key", model.EnvOpTypeWrite)
	t.AddSub("set").RegPowerCmd(builtin.SetEnvKeyValue, "").AddArg("key", "").AddArg("value", "").AddEnvOp("[[key]]", model.EnvOpTypeWrite)
	t.AddSub("map").RegPowerCmd(builtin.MapEnvKeyValueToAnotherKey, "").AddArg("src-key", "").AddArg("dest-key", "").AddEnvOp("[[dest-key]]", model.EnvOpTypeWrite)
	t.AddSub("time").RegPowerCmd(builtin.MarkTime, "").AddArg("write-to-key", "").AddEnvOp("[[write-to-key]]", model.EnvOpTypeWrite)
	t.AddSub("rm").RegPowerCmd(builtin.RemoveEnvValNotSave, "").AddArg("key", "")
	t.AddSub("rmp").RegPowerCmd(builtin.RemoveEnvValHavePrefixNotSave, "").AddArg("prefix", "")
	t.AddSub("reset").RegPowerCmd(builtin.ResetSessionEnv, "").AddArg("exclude-keys", "")
	t.AddSub("clear").RegPowerCmd(builtin.ResetLocalEnv, "")
	cc, env := kit.NewExec(t)
	env.GetLayer(model.EnvLayerDefault).Set("strs.env-file-name", "env")
	env.GetLayer(model.EnvLayerDefault).Set("sys.paths.data", vnd.TempDir())
	switch vnd.Choice(4) {
	case 1:
		env.GetLayer(model.EnvLayerSession).Set("key", "s")
	case 2:
		env.GetLayer(model.EnvLayerPersisted).Set("key", "p")
	case 3:
		env.GetLayer(model.EnvLayerDefault).Set("key", "d")
	}
	forms := []string{"w", "set key=key value=v", "set key=oth value=v", "map src-key=strs.env-file-name dest-key=key",
		"time write-to-key=key", "rm key=key", "rm key=oth", "rmp prefix=ke", "rmp prefix=kx", "reset", "reset exclude-keys=key",
		"reset exclude-keys=oth", "clear"}
	var input []string
	n := 1 + vnd.Choice(2)
	if vnd.Thorough() {
		n = 1 + vnd.Choice(3)
	}
	for i := 0; i < n; i++ {
		input = append(input, strings.Split(forms[vnd.Choice(len(forms))], " ")...)
		input = append(input, ":")
	}
	input = append(input, "r")
	vnd.Note(strings.Join(input, " "))
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	var res []model.EnvOpsCheckResult
	model.CheckEnvOps(cc, flow, env, &model.EnvOpsChecker{}, true, builtin.EnvOpCmds(), &res)
	ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
	vnd.Assert(ok == (len(res) == 0), "a flow is executed exactly when the check accepts it")
	if !ok {
		vnd.Assert(!ran, "a flow that was not accepted does not start")
		// See what would have happened
		cc.Executor.Execute(kit.EntryName, true, cc, env, nil, input...)
	}
	vnd.Assert(ran, "the flow runs")
	vnd.Assert(sawEmpty == (len(res) != 0), "the read is reported exactly when it finds nothing")
	vnd.Reach("builtin")
}
