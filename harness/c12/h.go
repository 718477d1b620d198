// C12: arranging a flow by its marks keeps every command exactly once.
package c12

import (
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type run struct{ got []string }

// tree has two unmarked commands, two marked ones and one that accepts a
// call from the end of the line.
func (r *run) tree() *model.CmdTree {
	t := kit.NewTree()
	normal := func(name string) *model.Cmd {
		return t.AddSub(name).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			r.got = append(r.got, name+argv.GetRaw("x"))
			return true
		}, "", "").AddArg("x", "")
	}
	power := func(name string) *model.Cmd {
		return t.AddSub(name).RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
			r.got = append(r.got, name+argv.GetRaw("x"))
			return i, true
		}, "").AddArg("x", "")
	}
	normal("a")
	power("w")
	normal("p").SetPriority()
	power("q").SetPriority()
	t.AddSub("d").AddSub("s").RegCmd(kit.Nop, "", "")
	return t
}

type item struct {
	name   string
	arg    string
	marked bool // by the flag of the command
}

func (i item) shown() string { return i.name + i.arg }

// HOrder: every flow of marked and unmarked commands, with empty commands
// (tail marks) anywhere.
func HOrder() {
	n := 5
	if vnd.Thorough() {
		n = 6
	}
	cnt := 1 + vnd.Choice(n)
	var input []string
	var items []item
	for i := 0; i < cnt; i++ {
		if i > 0 {
			input = append(input, ":")
		}
		name := vnd.StrOf("awpqd", 0, 1)
		if name == "" { // nothing between the separators
			items = append(items, item{})
			continue
		}
		if name == "d" { // a directory: nothing to run, but not empty
			items = append(items, item{name, "", false})
			input = append(input, name)
			continue
		}
		arg := string(rune('1' + i))
		items = append(items, item{name, arg, name == "p" || name == "q"})
		input = append(input, name, arg)
	}
	for len(items) > 0 && items[len(items)-1].name == "" {
		items = items[:len(items)-1]
	}
	// what is expected: commands marked at the end of the line, by their flag
	// or by an empty command before them, come first, the last one foremost;
	// the others keep their order
	rest := items
	var want []string
	for len(rest) > 1 {
		last := rest[len(rest)-1]
		if rest[len(rest)-2].name == "" {
			rest = rest[:len(rest)-2]
		} else if last.marked {
			rest = rest[:len(rest)-1]
		} else {
			break
		}
		if last.name != "" && last.name != "d" {
			want = append(want, last.shown())
		}
		for len(rest) > 0 && rest[len(rest)-1].name == "" {
			rest = rest[:len(rest)-1]
		}
	}
	for _, it := range rest {
		if it.name != "" && it.name != "d" {
			want = append(want, it.shown())
		}
	}
	count := 0
	marked := 0
	for _, it := range items {
		if it.name != "" {
			count++
		}
		if it.marked {
			marked++
		}
	}
	r := &run{}
	cc, env := kit.NewExec(r.tree())
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Note(o.Text)
	vnd.Assert(!o.Panicked || len(r.got) == 0, "a rejected flow runs nothing")
	if o.Panicked {
		vnd.Assert(!o.Runtime, "no internal error")
		vnd.Assert(count == 2 && len(items) > 2, "only a call from the end of the line is rejected")
		vnd.Reach("rejected")
		return
	}
	vnd.Assert(ok, "the flow succeeds")
	vnd.Assert(kit.SameStrs(r.got, want), "every command once, marked ones first, the others in their order")
	vnd.Reach("end")
}

// HCall: a command that takes the one command before it as its input gets it
// and runs alone; behind more commands it is a marked one.
func HCall() {
	r := &run{}
	t := r.tree()
	var input []string
	call := false
	cmd := t.AddSub("t").RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
		r.got = append(r.got, "t")
		call = flow.TailModeCall
		if call {
			for _, c := range flow.Cmds[i+1:] {
				r.got = append(r.got, c.ParseResult.Input...)
			}
		}
		return i, true
	}, "").SetAllowTailModeCall()
	marked := vnd.Bool()
	if marked {
		cmd.SetPriority()
	}
	names := vnd.StrOf("awpqz", 0, 3)
	n := 0
	var want []string
	for i := 0; i < len(names); i++ {
		name := names[i : i+1]
		if len(names) > 1 {
			vnd.Assume(name != "z") // an unknown word is input only
		}
		arg := string(rune('1' + i))
		input = append(input, name, arg, ":")
		n++
	}
	mark := vnd.Bool()
	if mark {
		input = append(input, ":")
	}
	input = append(input, "t")
	if len(names) == 1 && (mark || marked) {
		want = []string{"t", names, "1"}
	} else {
		vnd.Assume(names != "z")
		var front, rest []string
		k := n
		if mark || marked {
			front = append(front, "t")
			for k > 0 && n > 1 && (names[k-1] == 'p' || names[k-1] == 'q') && k > 1 {
				k--
				front = append(front, names[k:k+1]+string(rune('1'+k)))
			}
		}
		for i := 0; i < k; i++ {
			rest = append(rest, names[i:i+1]+string(rune('1'+i)))
		}
		want = append(front, rest...)
		if !(mark || marked) {
			want = append(want, "t")
		}
	}
	cc, env := kit.NewExec(t)
	ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
	vnd.Assert(ok, "the flow succeeds")
	vnd.Assert(kit.SameStrs(r.got, want), "a call takes the command before it, others run once")
	vnd.Assert(call == (n <= 1 && (mark || marked) && n+b(mark) > 0), "it is told whether it is a call")
	vnd.Reach("end")
}

func b(x bool) int {
	if x {
		return 1
	}
	return 0
}
