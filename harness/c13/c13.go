// C13: commands run in order, once each, and nothing runs after a failure.
package c13

import (
	"errors"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const (
	outOk = iota
	outFalse
	outErr
	outText
)

// run is one run of a program: what happened, and how each leaf ends.
type run struct {
	got    []string
	stacks []string
	outs   []int
	kinds  int
}

var broken = errors.New("broken")

func (r *run) leaf(name string, argv model.ArgVals, env *model.Env) bool {
	r.got = append(r.got, name+argv.GetRaw("x"))
	r.stacks = append(r.stacks, env.GetRaw("sys.stack"))
	out := vnd.Choice(r.kinds)
	r.outs = append(r.outs, out)
	switch out {
	case outFalse:
		return false
	case outErr:
		panic(broken)
	case outText:
		panic("broken")
	}
	return true
}

// tree: a normal and a power command, flows of them and of each other, and a
// command that makes up its flow when run.
func (r *run) tree() *model.CmdTree {
	t := kit.NewTree()
	t.AddSub("a").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		return r.leaf("a", argv, env)
	}, "", "").AddArg("x", "")
	t.AddSub("w").RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
		return i, r.leaf("w", argv, env)
	}, "").AddArg("x", "")
	t.AddSub("f").RegFlowCmd([]string{"a 1 : w 2"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"a 3", "f", "a 4"}, "", "")
	t.AddSub("t").RegFlowCmd([]string{"f %err=ok : a 5"}, "", "")
	t.AddSub("h").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return []string{"w 6", "f"}, nil, true
	}, "")
	t.AddSub("d").AddSub("s").RegCmd(kit.Nop, "", "")
	return t
}

var flows = map[string][]string{
	"f": {"a1", "w2"},
	"g": {"a3", "f", "a4"},
	"t": {"f!", "a5"},
	"h": {"w6", "f"},
	"d": {},
}

// want follows a program with the ends the leaves had: what must have run,
// with which callers, and how it ends.
type want struct {
	r      *run
	i      int
	got    []string
	stacks []string
}

func (w *want) do(cmds []string, stack string) int {
	for _, cmd := range cmds {
		tolerated := strings.HasSuffix(cmd, "!")
		name := strings.TrimSuffix(cmd, "!")
		var end int
		if sub, ok := flows[name]; ok {
			end = w.do(sub, stack+","+name)
		} else {
			w.got = append(w.got, name)
			w.stacks = append(w.stacks, stack)
			if w.i >= len(w.r.outs) {
				return -1 // it did not run
			}
			end = w.r.outs[w.i]
			w.i++
		}
		if end != outOk && !tolerated {
			return end
		}
	}
	return outOk
}

func (r *run) check(status bool, allow bool, kinds string, n int) {
	var input, cmds []string
	cnt := 1 + vnd.Choice(n)
	for i := 0; i < cnt; i++ {
		if i > 0 {
			input = append(input, ":")
		}
		name := vnd.StrOf(kinds, 1, 1)
		input = append(input, name)
		if name == "a" || name == "w" {
			arg := string(rune('p' + i))
			input = append(input, "x="+arg)
			name += arg
		}
		if allow && vnd.Bool() {
			input = append(input, "%err=ok")
			name += "!"
		}
		cmds = append(cmds, name)
	}
	cc, env := kit.NewExec(r.tree())
	if status {
		path := filepath.Join(vnd.TempDir(), "status")
		cc.SetFlowStatusWriter(model.NewExecutingFlow(path, cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...), env))
	}
	session := env.GetLayer(model.EnvLayerSession)
	if vnd.Bool() {
		session.Set("sys.stack", "outer")
		session.Set("sys.stack-depth", "7")
	}
	stack, depth := env.GetRaw("sys.stack"), env.GetInt("sys.stack-depth")
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(strings.Join(input, " "))
	vnd.Note(strings.Join(r.got, " "))
	top := kit.EntryName
	if stack != "" {
		top = stack + "," + top
	}
	w := &want{r: r}
	end := w.do(cmds, top)
	vnd.Assert(kit.SameStrs(r.got, w.got), "commands in order, once each, none after a failure")
	vnd.Assert(kit.SameStrs(r.stacks, w.stacks), "commands run under their callers")
	vnd.Assert(!o.Runtime, "no internal error")
	switch end {
	case outOk:
		vnd.Assert(!o.Panicked && ok, "a run without failure succeeds")
	case outFalse:
		vnd.Assert(!o.Panicked && !ok, "a failure is reported")
	case outErr:
		vnd.Assert(o.Panicked && o.Val == error(broken), "an error is handed to the caller")
	case outText:
		vnd.Assert(o.Panicked && o.Text == "broken", "a failure message is handed to the caller")
	}
	vnd.Assert(env.GetRaw("sys.stack") == stack, "the call stack is as before")
	vnd.Assert(env.GetInt("sys.stack-depth") == depth, "the call depth is as before")
}

// HRun: without a session.
func HRun() {
	r := &run{kinds: 3}
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	r.check(false, false, "awfghtd", n)
	vnd.Reach("end")
}

// HSession: with the status of the run recorded.
func HSession() {
	r := &run{kinds: 4}
	n := 2
	r.check(true, false, "awfght", n)
	vnd.Reach("end")
}

// HTolerate: commands whose errors are tolerated.
func HTolerate() {
	r := &run{kinds: 3}
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	r.check(true, true, "awfg", n)
	vnd.Reach("end")
}

// HAbort: what the user aborts is never tolerated, and a command with a flow
// and a program runs the program only after its flow.
func HAbort() {
	r := &run{kinds: 1}
	var ends []int
	leaf := func(name string, status bool) func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			r.got = append(r.got, name)
			end := vnd.Choice(4)
			ends = append(ends, end)
			switch end {
			case 1:
				return false
			case 2:
				panic(broken)
			case 3:
				panic(model.NewAbortByUserErr())
			}
			return true
		}
	}
	t := kit.NewTree()
	t.AddSub("a").RegCmd(leaf("a", false), "", "")
	t.AddSub("q").RegCmd(leaf("q", false), "", "").SetQuietError()
	t.AddSub("f").RegFlowCmd([]string{"a : q"}, "", "")
	dir := vnd.TempDir()
	os.WriteFile(filepath.Join(dir, "p.sh"), []byte("echo ran >> "+dir+"/prog\n"), 0755)
	vnd.OnExec(func(args []string) error {
		old, _ := os.ReadFile(filepath.Join(dir, "prog"))
		os.WriteFile(filepath.Join(dir, "prog"), []byte(string(old)+"ran\n"), 0644)
		return nil
	})
	t.AddSub("p").RegFileNFlowCmd([]string{"a"}, filepath.Join(dir, "p.sh"), "", "")
	cc, env := kit.NewExec(t)
	cc.CmdIO = model.NewCmdIO(nil, nil, nil)
	env.GetLayer(model.EnvLayerSession).Set("session", dir)
	env.GetLayer(model.EnvLayerDefault).Set("strs.session-env-file", "env")
	var input []string
	var cmds []string
	cnt := 1 + vnd.Choice(3)
	if !vnd.Thorough() {
		vnd.Assume(cnt <= 2)
	}
	for i := 0; i < cnt; i++ {
		if i > 0 {
			input = append(input, ":")
		}
		name := vnd.StrOf("aqfp", 1, 1)
		input = append(input, name)
		if vnd.Bool() {
			input = append(input, "%err=ok")
			name += "!"
		}
		cmds = append(cmds, name)
	}
	if vnd.Bool() {
		cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...), env))
	}
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(strings.Join(input, " "))
	vnd.Note(strings.Join(r.got, " "))
	var want []string
	progs := 0
	at := 0
	var follow func(list []string) int
	follow = func(list []string) int {
		for _, it := range list {
			name := strings.TrimSuffix(it, "!")
			end := 0
			switch name {
			case "f":
				end = follow([]string{"a", "q"})
			case "p":
				end = follow([]string{"a"})
				if end == 0 {
					progs++
				}
			default:
				want = append(want, name)
				if at >= len(ends) {
					return -1
				}
				end = ends[at]
				at++
			}
			if end == 3 || end != 0 && it == name {
				// The error of a quiet command is not shown, but ends the run
				if end == 2 && name == "q" {
					end = 1
				}
				return end
			}
		}
		return 0
	}
	end := follow(cmds)
	vnd.Assert(kit.SameStrs(r.got, want), "commands in order, once each, none after a failure or an abort")
	data, _ := os.ReadFile(filepath.Join(dir, "prog"))
	vnd.Assert(strings.Count(string(data), "\n") == progs, "a program does not run once after its flow, or runs although its flow failed")
	_, abort := o.Val.(*model.AbortByUserErr)
	vnd.Assert(!o.Runtime && abort == (end == 3) && (end == 0) == (ok && !o.Panicked), "the run does not end as its commands did")
	vnd.Assert(o.Panicked == (end == 2 || end == 3), "an error is not handed to the caller, or is although it is quiet")
	vnd.Reach("end")
}

// HTolerateNoSession: the same when nothing is recorded.
func HTolerateNoSession() {
	r := &run{kinds: 3}
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	r.check(false, true, "awf", n)
	vnd.Reach("end")
}
