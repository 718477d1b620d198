// C22: the values of sensitive keys are never shown: what is displayed does not
// depend on them.
package c22

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/cli/display"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const other = "Zz"

// flag reports whether a value is one of those of a switch, which are shown.
func flag(v string) bool {
	switch strings.ToLower(v) {
	case "true", "t", "1", "on", "y", "yes", "false", "f", "0", "off", "n", "no":
		return true
	}
	return false
}

var words = []string{"pwd", "password", "passphrase", "secret", "private"}

// HKey: any key with a sensitive word in it, in any case, and any value.
func HKey() {
	word := words[vnd.Choice(len(words))]
	// Any letter may be a capital one
	w := ""
	for _, c := range word {
		w += vnd.StrOf(string(c)+strings.ToUpper(string(c)), 1, 1)
	}
	key := vnd.StrOf("a.Z_", 0, 2) + w + vnd.StrOf("0Z.", 0, 2)
	max := 5
	if vnd.Thorough() {
		max = 8
	}
	val := vnd.StrOf("nNoOfFaAlLyYtT10eEsSrRuU*'= x", 1, max)
	vnd.Assume(!flag(val))
	_, env := kit.NewExec(kit.NewTree())
	info := model.NewEnvKeysInfo()
	a := display.KeyValueDisplayStr(key, val, env)
	b := display.KeyValueDisplayStr(key, other, env)
	vnd.Assert(a == b, "the value of a sensitive key is shown")
	a, _ = display.KeyValueDisplayStrEx(key, val, env, info)
	b, _ = display.KeyValueDisplayStrEx(key, other, env, info)
	vnd.Assert(a == b, "the value of a sensitive key is shown")
	env.GetLayer(model.EnvLayerSession).SetBool("display.sensitive", true)
	vnd.Assert(strings.Contains(display.KeyValueDisplayStr(key, other, env), other), "a value is masked although masking is off")
	vnd.Reach("key")
}

// HPlain: the values of other keys are shown as they are.
func HPlain() {
	key := vnd.StrOf("pwds.r", 1, 4)
	low := strings.ToLower(key)
	for _, w := range words {
		vnd.Assume(!strings.Contains(low, w))
	}
	val := vnd.StrOf("ab\"'", 1, 2)
	_, env := kit.NewExec(kit.NewTree())
	vnd.Assert(strings.Contains(display.KeyValueDisplayStr(key, val, env), val), "the value of a key that is not sensitive is masked")
	vnd.Reach("plain")
}

const places = 19

// show makes one of the displays of the program with v as the value of
// sensitive keys.
func show(place int, v string, dir string) string {
	out := bytes.NewBuffer(nil)
	t := kit.NewTree()
	builtin.RegisterEnvManageCmds(t)
	nop := func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		s := env.GetLayer(model.EnvLayerSession)
		if !s.Has("new.Secret") {
			s.Set("new.Secret", v)
		} else {
			s.Set("new.Secret", v+"!")
			s.Delete("db.pwd")
		}
		if place == 18 {
			panic(fmt.Errorf("failed"))
		}
		return true
	}
	t.AddSub("a").RegCmd(nop, "help", "").AddArg("db.Password", v).AddArg2Env("db.password", "db.Password").AddArg("my-secret", v).AddVal2Env("x.private-key", v)
	t.AddSub("b").RegCmd(nop, "help", "").AddArg("PASSPHRASE", "").AddArg2Env("db.passphrase", "PASSPHRASE").AddArg("k.pwd", "")
	t.AddSub("f").RegFlowCmd([]string{"a : b PASSPHRASE=[[db.pwd]]"}, "help", "")
	cc, env := kit.NewExec(t)
	cc.Screen = model.NewStdScreen(out, out)
	session := env.GetLayer(model.EnvLayerSession)
	session.Set("db.pwd", v)
	session.Set("db.user", "me")
	d := env.GetLayer(model.EnvLayerDefault)
	d.SetBool("display.tip", true)
	run := func(input ...string) {
		o := kit.Try(func() { cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
		if err, ok := o.Val.(error); ok {
			display.PrintError(cc, env, err)
		}
	}
	boxes := func() {
		for _, k := range []string{"display.executor", "display.stack", "display.env", "display.env.layer", "display.executor.end", "display.one-cmd"} {
			d.SetBool(k, true)
		}
		d.SetInt("display.max-cmd-cnt", 7)
	}
	dump := func(args *display.DumpFlowArgs, input ...string) {
		flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
		display.DumpFlow(cc, env, flow, 0, args, builtin.EnvOpCmds())
	}
	switch place {
	case 0:
		display.DumpEnvFlattenVals(cc.Screen, env)
	case 1:
		display.DumpEnvTree(cc.Screen, env, 4)
	case 2:
		display.DumpEssentialEnvFlattenVals(cc.Screen, env)
	case 3:
		display.DumpCmds(t, cc.Screen, env, display.NewDumpCmdArgs())
	case 4:
		display.DumpCmds(t, cc.Screen, env, display.NewDumpCmdArgs().SetSkeleton().SetShowUsage())
	case 5:
		dump(display.NewDumpFlowArgs(), "a")
	case 6:
		dump(display.NewDumpFlowArgs(), "b", "PASSPHRASE="+v, "k.pwd="+v)
	case 7:
		dump(display.NewDumpFlowArgs().SetSimple(), "a", "my-secret="+v)
	case 8:
		dump(display.NewDumpFlowArgs().SetSkeleton(), "b", "k.pwd="+v, ":", "f")
	case 9:
		dump(display.NewDumpFlowArgs(), "{x.secret="+v+"}", "f", ":", "b", "{db.private="+v+"}")
	case 10:
		boxes()
		run("a", "my-secret="+v, ":", "b", "PASSPHRASE="+v, ":", "f")
	case 11:
		boxes()
		d.SetBool("display.env.layer", false)
		run("f", ":", "{db.password="+v+"}", "a")
	case 12:
		run("env.set", "key=x.Secret", "value="+v, ":", "env.update", "key=x.Secret", "value=a"+v)
	case 13:
		run("env.add", "key=x.Secret", "value="+v, ":", "env.map", "src-key=x.Secret", "dest-key=y.Secret")
	case 14:
		run("env.assert.equal", "key=db.pwd", "value=_"+v)
	default:
		flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, "a", ":", "f")
		path := filepath.Join(dir, fmt.Sprint("status-", v == other))
		cc.SetFlowStatusWriter(model.NewExecutingFlow(path, flow, env))
		run("a", ":", "f")
		cc.FlowStatus.OnFlowFinish(env, place != 18)
		_, executed := model.ParseExecutedFlow(model.ExecutedStatusFilePath{dir, ".", filepath.Base(path)})
		executed.DirName = "x"
		os.Remove(path)
		args := display.NewDumpFlowArgs()
		switch place {
		case 15:
			args.SetShowExecutedEnvFull()
		case 16:
			args.SetSkeleton().SetShowExecutedModifiedEnv()
		case 17:
			args.SetSimple().SetShowExecutedEnvFull()
			args.SetShowExecutedModifiedEnv()
		}
		display.DumpFlowEx(cc, env, flow, 0, args, executed, false, builtin.EnvOpCmds())
	}
	return out.String()
}

// HPlaces: what the displays of the program show does not depend on the values
// of sensitive keys.
func HPlaces() {
	place := vnd.Choice(places)
	v := vnd.StrOf("xY1", 1, 2)
	vnd.Assume(!flag(v))
	v = strings.Repeat("Long", []int{0, 10, 50}[vnd.Choice(3)]) + v
	dir := vnd.TempDir()
	a := mask(show(place, v, dir))
	b := mask(show(place, other, dir))
	vnd.Note(fmt.Sprint(place))
	vnd.Assert(len(b) > 0 && !strings.Contains(b, other), "a display shows the value of a sensitive key")
	vnd.Assert(a == b, "a display depends on the value of a sensitive key")
	vnd.Reach("places")
}

// mask removes what differs between runs: times, and the blanks around them.
func mask(s string) string {
	var b []byte
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		digit := c >= '0' && c <= '9'
		if digit || in && (c == '.' || c == 'm' || c == 'u' || c == 'n' || c == 's' || c == 'h') {
			if !in {
				b = append(b, '#')
			}
			in = true
			continue
		}
		in = false
		if c != ' ' || len(b) == 0 || b[len(b)-1] != ' ' {
			b = append(b, c)
		}
	}
	return string(b)
}
