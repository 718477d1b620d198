// C17: template rendering substitutes each reference exactly once and ends.
package c17

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// lookup gives the value a reference stands for.
type lookup func(key string) (string, bool)

// single replaces every [[key]] of a line, in one pass.
func single(in string, get lookup) (out string, missing bool) {
	for {
		i := strings.Index(in, "[[")
		if i < 0 {
			return out + in, missing
		}
		j := strings.Index(in[i+2:], "]]")
		if j < 0 {
			return out + in, missing
		}
		val, ok := get(in[i+2 : i+2+j])
		if !ok {
			missing = true
			val = in[i : i+2+j+2]
		}
		out += in[:i] + val
		in = in[i+2+j+2:]
	}
}

func cmdOf(args string) (*model.Cmd, *model.Env) {
	t := kit.NewTree()
	cmd := t.AddSub("f").RegFlowCmd([]string{"x"}, "", "")
	for i := range args {
		cmd.AddArg(args[i:i+1], "")
	}
	return cmd, kit.NewEnv()
}

// HLine: every line over an alphabet with the brackets, rendered with a value
// that may hold brackets itself.
func HLine() {
	max := 8
	if vnd.Thorough() {
		max = 10
	}
	line(vnd.StrOf("[]ab", 0, max), vnd.StrOf("[a", 0, 2))
}

// HValue: short lines, longer values.
func HValue() {
	max := 5
	lines := []string{"[[a]]", "x[[a]]", "[[a]]]]", "[[[a]]", "[[a]][[a]]", "[[b]] [[a]]", "[[a]] [[b]] [[a]]", "[[a]]a]]"}
	line(lines[vnd.Choice(len(lines))], vnd.StrOf("[]ab", 0, max))
}

func line(in string, val string) {
	cmd, env := cmdOf("a")
	argv := model.ArgVals{}
	form := vnd.Choice(3)
	switch form {
	case 0:
		env.Set("a", val)
	case 1:
		argv["a"] = model.ArgVal{val, len(val) != 0, 0}
	case 2:
		env.Set("a", val)
		argv["a"] = model.ArgVal{"other", true, 0}
	}
	lenient := vnd.Bool()
	vnd.Note(in)
	vnd.Note(val)
	get := func(key string) (string, bool) {
		if key != "a" || (form == 1 && len(val) == 0) {
			return "", false
		}
		return val, true
	}
	want, missing := single(in, get)
	var out []string
	var full bool
	o := kit.Try(func() {
		out, full = model.RenderTemplateStrLines([]string{in}, "flow", cmd, argv, env, lenient)
	})
	vnd.Assert(!o.Runtime, "no internal error")
	vnd.Assert(o.Panicked == (missing && !lenient), "an unknown key is reported, unless asked not to, and nothing else is")
	if o.Panicked {
		vnd.Reach("reported")
		return
	}
	vnd.Assert(full == !missing, "whether every reference is replaced is known")
	vnd.Assert(len(out) == 1 && out[0] == want, "every reference is replaced by its value, once, and the rest stays")
	if strings.Contains(val, "[[") {
		vnd.Reach("brackets in the value")
	}
	vnd.Reach("rendered")
}

// HMultiply: a part of a line repeated for every element of a list.
func HMultiply() {
	max := 2
	if vnd.Thorough() {
		max = 3
	}
	cmd, env := cmdOf("")
	var head, pre, post, tail string
	key := "k"
	if vnd.Bool() {
		head = vnd.StrOf("*x", 0, 2)
		pre = vnd.StrOf("*[ ", 0, 2)
	} else {
		key = vnd.StrOf("k* ", 0, 2)
		post = vnd.StrOf("*] ", 0, 1)
		tail = vnd.StrOf("*x", 0, 2)
	}
	ref := "[[*" + key + "*]]"
	if key == "*" {
		ref = "[[*]]"
	}
	in := head + "**" + pre + ref + post + "**" + tail
	val := vnd.StrOf("v,", 0, max)
	vnd.Note(in)
	vnd.Note(val)
	env.Set("k", val)
	lenient := vnd.Bool()
	var out []string
	var full bool
	o := kit.Try(func() {
		out, full = model.RenderTemplateStrLines([]string{in}, "flow", cmd, model.ArgVals{}, env, lenient)
	})
	vnd.Assert(!o.Runtime, "no internal error")
	// a plain layout, where nothing is ambiguous
	if strings.Trim(head, "x") != "" || strings.Trim(tail, "x") != "" || strings.Trim(pre, " ") != "" || strings.Trim(post, " ") != "" {
		vnd.Reach("odd layout")
		return
	}
	if strings.Trim(key, " ") != "k" {
		if !strings.Contains(key, "*") {
			vnd.Assert(o.Panicked == !lenient, "an unknown list is reported")
			vnd.Assert(o.Panicked || !full, "an unknown list is not counted as replaced")
			vnd.Reach("unknown list")
		}
		return
	}
	vnd.Assert(!o.Panicked && full, "a known list is used")
	var want []string
	if len(head) != 0 {
		want = append(want, head)
	}
	want = append(want, strings.Split(val, ",")...)
	if len(tail) != 0 {
		want = append(want, tail)
	}
	vnd.Assert(kit.SameStrs(out, want), "one line for each element of the list, in order")
	vnd.Reach("multiplied")
}

// HMultiplyRefs: the repeated part and the text around it hold references.
func HMultiplyRefs() {
	cmd, env := cmdOf("")
	ref := func() string { return []string{"", "[[a]]", "[[u]]", "z"}[vnd.Choice(4)] }
	head, pre, post, tail := ref(), ref(), ref(), ref()
	in := head + " ** " + pre + " [[*k*]] " + post + " ** " + tail
	env.Set("k", "v, w")
	env.Set("a", []string{"A", "[[u]]", "[[a]]"}[vnd.Choice(3)])
	a := env.GetRaw("a")
	vnd.Note(in)
	vnd.Note(a)
	get := func(key string) (string, bool) { return a, key == "a" }
	missing := false
	one := func(s string) string {
		s, m := single(strings.TrimSpace(s), get)
		missing = missing || m
		return s
	}
	var want []string
	want = append(want, one(head), one(pre+" v "+post), one(pre+" w "+post), one(tail))
	lenient := vnd.Bool()
	var out []string
	var full bool
	o := kit.Try(func() {
		out, full = model.RenderTemplateStrLines([]string{in}, "flow", cmd, model.ArgVals{}, env, lenient)
	})
	vnd.Assert(!o.Runtime, "no internal error")
	vnd.Assert(o.Panicked == (missing && !lenient), "an unknown key is reported, unless asked not to, and nothing else is")
	if o.Panicked {
		vnd.Reach("reported")
		return
	}
	vnd.Assert(full == !missing, "whether every reference is replaced is known")
	var got []string
	for _, l := range out {
		if len(l) != 0 {
			got = append(got, l)
		}
	}
	var nonEmpty []string
	for _, l := range want {
		if len(l) != 0 {
			nonEmpty = append(nonEmpty, l)
		}
	}
	vnd.Assert(kit.SameStrs(got, nonEmpty), "one line for each element of the list, in order, with the references replaced")
	vnd.Reach("rendered")
}

// HLines: the lines of a flow; comment lines are left out.
func HLines() {
	cmd, env := cmdOf("")
	env.Set("a", vnd.StrOf("#x", 1, 2))
	pool := []string{"#", " # [[u]]", "x", "[[a]]", "x # [[a]]", ""}
	var in, want []string
	n := 1 + vnd.Choice(3)
	for i := 0; i < n; i++ {
		k := vnd.Choice(len(pool))
		in = append(in, pool[k])
		if k >= 2 {
			want = append(want, strings.Replace(pool[k], "[[a]]", env.GetRaw("a"), 1))
		}
	}
	var out []string
	var full bool
	o := kit.Try(func() {
		out, full = model.RenderTemplateStrLines(in, "flow", cmd, model.ArgVals{}, env, false)
	})
	vnd.Assert(!o.Panicked && full, "the references of comments are not looked up")
	vnd.Assert(kit.SameStrs(out, want), "every line that is no comment, in order")
	vnd.Reach("lines")
}

// HFlow: the commands of a flow that run, line by line.
func HFlow() {
	t := kit.NewTree()
	ran := ""
	for _, c := range []string{"a", "b"} {
		name := c
		t.AddSub(c).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			ran += name + argv.GetRaw("x")
			return true
		}, "", "").AddArg("x", "")
	}
	pool := []struct{ line, runs string }{
		{"a", "a"}, {" b x=1 ", "b1"}, {"a :", "a"}, {"b : ", "b"}, {": a", "a"}, {"# b", ""}, {"  # b", ""}, {"", ""}, {"  ", ""},
		{"[[k]]", "b"}, {"b x=[[k]]", "bb"}, {"[[k]] x=2 : a", "b2a"}, {"** a x=[[*l*]] **", "a1a2"}, {"b ** a x=[[*l*]] ** [[k]]", "ba1a2b"},
		{"a x='[[s]]'", "ap q"}, {"\tb x='#'", "b#"},
	}
	var lines []string
	want := ""
	n := 1 + vnd.Choice(2)
	if vnd.Thorough() {
		n += vnd.Choice(2)
	}
	for i := 0; i < n; i++ {
		k := vnd.Choice(len(pool))
		lines = append(lines, pool[k].line)
		want += pool[k].runs
	}
	vnd.Assume(want != "")
	for _, l := range lines {
		vnd.Note(l)
	}
	t.AddSub("f").RegFlowCmd(lines, "", "").AddArg("k", "")
	cc, env := kit.NewExec(t)
	env.Set("l", "1,2")
	env.Set("s", "p q")
	line := []string{"f", "k=b"}
	if vnd.Bool() {
		env.Set("k", "b")
		line = line[:1]
	}
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, line...) })
	vnd.Note(ran)
	vnd.Assert(!o.Panicked && ok, "the flow runs")
	vnd.Assert(ran == want, "the commands of the lines run, in order, with the references replaced")
	vnd.Reach("ran")
}

// HMacro: a macro of a command stands for its lines in the flow, and nowhere else.
func HMacro() {
	t := kit.NewTree()
	ran, seen := "", ""
	for _, c := range []string{"a", "b"} {
		name := c
		t.AddSub(c).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			ran += name + argv.GetRaw("x")
			seen += env.GetRaw("m") + ";"
			return true
		}, "", "").AddArg("x", "")
	}
	lines := []struct{ line, runs string }{
		{"a", "a"}, {"b x=[[k]] :", "bv"}, {"# c", ""}, {"", ""}, {"[[n]]", "?"}, {"[[m]]", "!"}, {"[[u]]", "!"}, {"a : b x=1", "ab1"},
	}
	macro := func(n int, prev string, hasPrev bool) (list []string, runs string, bad bool) {
		bare := true
		for i := 0; i < n; i++ {
			it := lines[vnd.Choice(len(lines))]
			list = append(list, it.line)
			switch it.runs {
			case "?":
				bad = bad || !hasPrev
				runs += prev
			case "!":
				bad = true
			default:
				runs += it.runs
			}
			bare = bare && it.runs == ""
		}
		// A macro of nothing is left open
		vnd.Assume(!bare)
		return
	}
	f := t.AddSub("f").RegFlowCmd([][]string{{"[[m]]"}, {"a x=0", "[[m]]", "b x=2"}, {"[[m]] : [[m]]"}, {"b"}}[vnd.Choice(4)], "", "").AddArg("k", "v")
	first, firstRuns, bad := macro(vnd.Choice(2), "", false)
	hasFirst := len(first) > 0
	if hasFirst {
		f.AddMacro("n", first)
	}
	second, runs, bad2 := macro(1+vnd.Choice(2), firstRuns, hasFirst)
	f.AddMacro("m", second)
	bad = bad || bad2
	cc, env := kit.NewExec(t)
	outer := vnd.Bool()
	val := ""
	if outer {
		// A key of that name is not what is meant in the flow
		val = "a"
		env.Set("m", val)
		vnd.Assume(!strings.Contains(strings.Join(append(first, second...), " "), "[[m]]"))
	}
	want := ""
	for _, it := range strings.Fields(strings.Join(f.FlowStrs(), " ")) {
		switch it {
		case "[[m]]":
			want += runs
		case "a", "b":
			want += it
		case "x=0", "x=2":
			want += it[2:]
		}
	}
	vnd.Note(strings.Join(first, "|") + " / " + strings.Join(second, "|") + " / " + strings.Join(f.FlowStrs(), "|"))
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, "f") })
	vnd.Note(ran)
	vnd.Assert(!o.Runtime, "no internal error")
	if bad {
		vnd.Assert(o.Panicked || !ok, "a reference to an unknown key in a macro is reported")
		vnd.Assert(ran == "", "nothing runs when a macro cannot be rendered")
		vnd.Reach("reported")
		return
	}
	vnd.Assert(!o.Panicked && ok, "a flow with a macro runs")
	vnd.Assert(ran == want, "the lines of a macro run where it is used, in order, with the references replaced")
	vnd.Assert(strings.Trim(seen, val+";") == "" && env.GetRaw("m") == val, "a macro is seen outside of the flow it belongs to")
	vnd.Reach("ran")
}
