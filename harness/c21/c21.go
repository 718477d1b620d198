// C21: blenders change exactly the commands of a flow they were asked to.
package c21

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type op struct {
	kind   int
	target string
	dest   string
	cnt    int
}

const (
	replace = iota
	remove
	insert
	after
)

// blend is what the operations should make of a flow. Operations on the same
// command: either the first one that has turns left is done, or all are done
// one by one.
func blend(ops []op, flow []string, all bool) (out []string) {
	for _, cmd := range flow {
		var before, behind []string
		name := strings.Fields(cmd)[0]
		here := []string{cmd}
		for i := range ops {
			o := &ops[i]
			if o.target != name || o.cnt == 0 {
				continue
			}
			if o.cnt > 0 {
				o.cnt--
			}
			switch o.kind {
			case replace:
				here = []string{o.dest}
			case remove:
				here = nil
			case insert:
				before = append(before, o.dest)
			case after:
				behind = append([]string{o.dest}, behind...)
			}
			if o.kind == replace || o.kind == remove || !all {
				break
			}
		}
		out = append(out, before...)
		out = append(out, here...)
		out = append(out, behind...)
	}
	return
}

func texts(cc *model.Cli, env *model.Env, flow *model.ParsedCmds) (list []string) {
	for i := range flow.Cmds {
		one := flow.CloneOne(i)
		list = append(list, model.SaveFlowToStr(one, cc.Cmds.Strs.PathSep, "^", env))
	}
	return
}

// HApply: every list of up to two operations over every short flow, and over
// the flow that follows.
func HApply() {
	t := kit.NewTree()
	for _, name := range []string{"a", "b", "c", "d"} {
		t.AddSub(name).RegCmd(kit.Nop, "", "").AddArg("x", "")
	}
	t.GetSub("a").AddSub("b").RegCmd(kit.Nop, "", "")
	cc, env := kit.NewExec(t)
	max := 2
	if vnd.Thorough() {
		max = 3
	}
	flow := func() (list []string) {
		n := vnd.Choice(max) + 1
		for i := 0; i < n; i++ {
			name := vnd.StrOf("ab?", 1, 1)
			if name == "a" {
				name += []string{"", " x=1", ".b"}[vnd.Choice(3)]
			}
			list = append(list, name)
		}
		return
	}
	var ops []op
	n := vnd.Choice(2) + 1
	for i := 0; i < n; i++ {
		o := op{kind: vnd.Choice(4), target: []string{"a", "b", "a.b"}[vnd.Choice(3)], dest: "a", cnt: []int{1, -1, 2}[vnd.Choice(4-n)]}
		if o.target == "a" {
			o.dest = "d"
		}
		ops = append(ops, o)
		target, _ := cc.ParseCmd(true, o.target)
		dest, _ := cc.ParseCmd(true, o.dest)
		switch o.kind {
		case replace:
			cc.Blender.AddReplace(target, dest, o.cnt)
		case remove:
			cc.Blender.AddRemove(target, o.cnt)
		case insert:
			cc.Blender.AddInsert(target, dest, o.cnt)
		case after:
			cc.Blender.AddInsertAfter(target, dest, o.cnt)
		}
	}
	in := [][]string{flow(), {"a", "b", "a.b", "a"}}
	vnd.Note(fmt.Sprint(ops, in[0]))
	other := append([]op{}, ops...)
	check := cc.Blender.Clone()
	same := [2]bool{true, true}
	for i, list := range in {
		parsed := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, strings.Fields(strings.Join(list, " : "))...)
		if i == 0 {
			// What a check of the flow does has no effect on the run
			check.Invoke(cc, env, parsed)
			parsed = cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, strings.Fields(strings.Join(list, " : "))...)
		}
		global := parsed.GlobalCmdIdx
		cc.Blender.Invoke(cc, env, parsed)
		got := texts(cc, env, parsed)
		w1, w2 := blend(ops, list, false), blend(other, list, true)
		same[0] = same[0] && kit.SameStrs(got, w1)
		same[1] = same[1] && kit.SameStrs(got, w2)
		vnd.Assert(same[0] || same[1], "the blended flow is not the one asked for")
		if global == 0 && parsed.GlobalCmdIdx >= 0 {
			vnd.Assert(parsed.GlobalCmdIdx < len(got) && got[parsed.GlobalCmdIdx] == list[0], "another command is taken for the global one")
		}
	}
	vnd.Reach("apply")
}

// HRun: command lines that replace commands, and what is run.
func HRun() {
	ran := ""
	t := kit.NewTree()
	builtin.RegisterBlenderCmds(t.AddSub("flow"))
	for _, name := range []string{"a", "b", "c"} {
		name := name
		t.AddSub(name).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			ran += name + argv.GetRaw("x") + " "
			return true
		}, "", "").AddArg("x", "")
	}
	t.AddSub("f").RegFlowCmd([]string{"a 1 : b 2 : a 3"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"a 4 : f : a 5"}, "", "")
	t.AddSub("h").RegFlowCmd([]string{"flow.replace.all a c : a 6 : b 7 : a 8"}, "", "")
	words := []string{"a 9", "b 9", "f", "g", "flow.replace src=a dest=c", "flow.replace.all src=a dest=c", "flow.replace.all src=b dest=a", "flow.replace src=f dest=b", "h"}
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	var list []string
	for i := 0; i < n; i++ {
		k := vnd.Choice(len(words) + 1)
		if k == len(words) {
			break
		}
		list = append(list, words[k])
	}
	vnd.Assume(len(list) > 0)
	text := strings.Join(list, " : ")
	vnd.Note(text)
	cc, env := kit.NewExec(t)
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Fields(text)...) })
	vnd.Assert(!o.Panicked && ok, "a flow with replaced commands fails: "+o.Text)
	vnd.Reach("run")
	// The flows that run, and what the replacements leave of them
	var want string
	var ops []op
	flows := map[string][]string{
		"f": {"a 1", "b 2", "a 3"}, "g": {"a 4", "f", "a 5"}, "h": {"flow.replace.all src=a dest=c", "a 6", "b 7", "a 8"}}
	var walk func(list []string)
	walk = func(list []string) {
		var rest []string
		for _, cmd := range list {
			if strings.HasPrefix(cmd, "flow.") {
				w := strings.Fields(cmd)
				o := op{replace, w[1][4:], w[2][5:], 1}
				if w[0] == "flow.replace.all" {
					o.cnt = -1
				}
				ops = append(ops, o)
				continue
			}
			rest = append(rest, blend(ops, []string{cmd}, false)...)
		}
		for _, cmd := range rest {
			if sub, ok := flows[cmd]; ok {
				walk(sub)
			} else {
				want += strings.Replace(cmd, " ", "", 1) + " "
			}
		}
	}
	walk(list)
	vnd.Assert(ran == want, "other commands were run than the replaced flow has")
}
