// C07: command arguments bind the same however they are written.
package c07

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// bound parses a line of one command and returns its arguments.
func bound(input ...string) (map[string]string, error) {
	flow := kit.Parse(input...)
	vnd.Assert(len(flow.Cmds) == 1, "one command")
	cmd := flow.Cmds[0]
	if cmd.ParseResult.Error != nil {
		return nil, cmd.ParseResult.Error
	}
	env := kit.NewEnv()
	_, argv := cmd.ApplyMappingGenEnvAndArgv(env, "--", ".", 1)
	res := map[string]string{}
	for k, v := range argv {
		if v.Provided {
			res[k] = v.Raw
		}
	}
	return res, nil
}

// value is an argument text without characters of the syntax.
func value(min, n int) string {
	v := vnd.StrOf("xyab1,-/", min, n)
	vnd.Assume(v != "--")
	return v
}

// HForms: every way to write the two arguments of a command.
func HForms() {
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	v, w := value(1, n), value(1, n)
	x, y := []string{"x", "X"}[vnd.Choice(2)], "y"
	c := []string{"c", "k"}[vnd.Choice(2)]
	var in []string
	switch vnd.Choice(16) {
	case 0:
		in = []string{c, v, w}
	case 1:
		in = []string{c, x + "=" + v, y + "=" + w}
	case 2:
		in = []string{c, y + "=" + w, x + "=" + v}
	case 3:
		in = []string{c, x, v, y, w}
	case 4:
		in = []string{c, y, w, x, v}
	case 5:
		in = []string{c, "{" + x + "=" + v, y + "=" + w + "}"}
	case 6:
		in = []string{c + "{" + x + "=" + v, y + "=" + w + "}"}
	case 7:
		in = []string{c, "{", x, "=", v, y, "=", w, "}"}
	case 8:
		in = []string{c, x, "=", v, y, "=", w}
	case 9:
		in = []string{c, x + "=", v, y, "=" + w}
	case 10:
		in = []string{c + "{" + v, w + "}"}
	case 11:
		in = []string{c, "{" + x, v, y, w + "}"}
	case 12:
		in = []string{c, "{" + x + "=" + v + "}", "{" + y + "=" + w + "}"}
	case 13:
		in = []string{c, " " + x + " = " + v + " ", y + "=" + w}
	case 14:
		in = []string{c + ".", "{" + x + "=" + v, y + "=" + w + "}"}
	case 15:
		in = []string{c, x + "=" + v + "v", x + "=" + v, y + "=" + w}
	}
	got, err := bound(in...)
	vnd.Assert(err == nil, "the arguments are accepted")
	vnd.Assert(len(got) == 2, "two arguments are bound")
	vnd.Assert(got["x"] == v, "first argument")
	vnd.Assert(got["y"] == w, "second argument")
	vnd.Note(got)
	vnd.Reach("end")
}

// HPartial: one of the two arguments, or none.
func HPartial() {
	v := value(1, 3)
	var in []string
	name := "x"
	switch vnd.Choice(7) {
	case 0:
		in = []string{"c", v}
	case 1:
		in = []string{"c", "X=" + v}
	case 2:
		in = []string{"c", "{x=" + v + "}"}
	case 3:
		in, name = []string{"c", "y=" + v}, "y"
	case 4:
		in, name = []string{"c{y=" + v + "}"}, "y"
	case 5:
		in = []string{"e.f", v}
	case 6:
		in = []string{"e.f", "x", v}
	}
	got, err := bound(in...)
	vnd.Assert(err == nil, "the argument is accepted")
	vnd.Assert(len(got) == 1 && got[name] == v, "one argument is bound")
	vnd.Reach("end")
}

// HValue: name=value keeps any value text.
func HValue() {
	n := 4
	if vnd.Thorough() {
		n = 6
	}
	v := vnd.StrOf("a=.,^%\\/-[]\"'x", 1, n)
	vnd.Assume(v != "--")
	got, err := bound("c", "x="+v, "y=1")
	vnd.Assert(err == nil, "the value is accepted")
	vnd.Assert(got["x"] == v && got["y"] == "1", "the value is kept as written")
	vnd.Reach("end")
}

// tokens reads argument tokens the way the manual describes them: a list of
// values, of "name value" pairs when there are more tokens than arguments and
// the first one is a name, or of name=value in any spacing.
func tokens(toks []string, names []string, real map[string]string) (map[string]string, bool) {
	var data []string
	kv := false
	for _, t := range toks {
		i := strings.Index(t, "=")
		if i < 0 {
			data = append(data, strings.Trim(t, " "))
			continue
		}
		kv = true
		if h := strings.Trim(t[:i], " "); h != "" {
			data = append(data, h)
		}
		data = append(data, "=")
		if h := strings.Trim(t[i+1:], " "); h != "" {
			data = append(data, h)
		}
	}
	res := map[string]string{}
	switch {
	case kv:
		if len(data)%3 != 0 {
			return nil, false
		}
		for i := 0; i < len(data); i += 3 {
			if real[data[i]] == "" || data[i+1] != "=" {
				return nil, false
			}
			res[real[data[i]]] = data[i+2]
		}
	case len(data) > len(names) && real[data[0]] != "":
		if len(data)%2 != 0 {
			return nil, false
		}
		for i := 0; i < len(data); i += 2 {
			if real[data[i]] == "" {
				return nil, false
			}
			res[real[data[i]]] = data[i+1]
		}
	default:
		if len(data) > len(names) {
			return nil, false
		}
		for i, d := range data {
			res[names[i]] = d
		}
	}
	return res, true
}

// HTokens: any argument tokens bind exactly as the reference says, or are
// reported; no token disappears.
func HTokens() {
	n, l := 3, 2
	if vnd.Thorough() {
		n, l = 4, 3
	}
	cnt := 1 + vnd.Choice(n)
	var toks []string
	for i := 0; i < cnt; i++ {
		toks = append(toks, vnd.StrOf("xX1= ", 0, l))
		if i == 0 {
			// a leading blank argument is dropped by the reader of the command path
			vnd.Assume(strings.TrimSpace(toks[0]) != "")
		}
	}
	want, ok := tokens(toks, []string{"x", "y"}, map[string]string{"x": "x", "X": "x", "y": "y"})
	var trimmed []string
	for _, t := range toks {
		trimmed = append(trimmed, t)
	}
	got, err := bound(append([]string{"c"}, trimmed...)...)
	blankTail := strings.TrimSpace(toks[len(toks)-1]) == ""
	if ok {
		vnd.Assert(err == nil, "well-formed arguments are accepted")
		vnd.Assert(kit.SameMap(got, want), "arguments bound as written")
		vnd.Reach("bound")
	} else if !blankTail {
		vnd.Assert(err != nil, "leftover argument text is reported")
		vnd.Reach("reported")
	}
}

// HConserve: in a line with brackets, every value character ends in a binding
// or the line is reported.
func HConserve() {
	n := 5
	if vnd.Thorough() {
		n = 6
	}
	heads := []string{"", "c", "c ", "k{", "{v=", "e.f", "c{x=1}"}
	h := heads[vnd.Choice(len(heads))]
	a := vnd.StrOf("1={} y", 0, n)
	b := vnd.StrOf("1=}", 0, 2)
	// a key given twice keeps the last value
	vnd.Assume(strings.Count(h+a+b, "=") <= 1 && strings.Count(h+a+b, "{") <= 1)
	in := []string{h + a, b}
	if strings.HasSuffix(h, " ") {
		in = []string{"c", a, b}
	}
	t, abbrs := kit.CmdsAndAbbrs()
	var flow *model.ParsedCmds
	o := kit.Try(func() { flow = kit.NewParser().Parse(t, abbrs, in...) })
	if o.Panicked {
		vnd.Assert(!o.Runtime, "no internal error")
		return
	}
	cmd := flow.Cmds[0]
	if cmd.ParseResult.Error != nil {
		vnd.Reach("reported")
		return
	}
	ones := 0
	for _, seg := range cmd.Segments {
		for k, v := range seg.Env {
			ones += strings.Count(v.Val, "1")
			if !v.IsArg {
				ones += strings.Count(k, "1")
			}
		}
	}
	vnd.Assert(ones == strings.Count(h+a+b, "1"), "no argument text is dropped")
	vnd.Reach("bound")
}

// HSysArg: the %delay argument together with ordinary ones.
func HSysArg() {
	v := vnd.StrOf("1s", 1, 2)
	junk := vnd.StrOf("1x", 0, 1)
	var in []string
	switch vnd.Choice(4) {
	case 0:
		in = []string{"c", "%delay=" + v, "x=1"}
	case 1:
		in = []string{"c", "x=1", "%delay=" + v}
	case 2:
		in = []string{"c", "x=1", "{%delay=" + v + "}"}
	case 3:
		in = []string{"c", "%delay", junk, v, "x=1"}
	}
	flow := kit.Parse(in...)
	cmd := flow.Cmds[0]
	if in[1] == "%delay" {
		vnd.Assert(cmd.ParseResult.Error != nil, "text between a system argument and its value is reported")
		return
	}
	if cmd.ParseResult.Error != nil {
		vnd.Assert(in[2][0] == '{', "system arguments are accepted")
		return
	}
	env := cmd.GenCmdEnv(kit.NewEnv(), "--")
	sys := env.GetSysArgv(cmd.Path(), ".")
	vnd.Assert(strings.HasPrefix(sys.GetDelayStr(), v), "delay bound")
	vnd.Assert(env.GetRaw("c.x") == "1", "ordinary argument bound")
	vnd.Reach("end")
}

// HGlue: text behind a bracket belongs to what follows it.
func HGlue() {
	v, w, u := value(1, 2), vnd.StrOf("ab1", 1, 1), vnd.StrOf("ab2", 1, 1)
	t := kit.NewTree()
	c := t.AddSub("c", "k")
	c.RegCmd(kit.Nop, "", "").AddArg("x", "")
	c.AddSub("d").RegCmd(kit.Nop, "", "").AddArg("p", "").AddArg("q", "")
	in := [][]string{
		{"c{x=" + v + "}d", w, u},
		{"c{x=" + v + "}.d", w, u},
		{"k", "{x=" + v + "}d", w, u},
		{"c{x=" + v + "}d{" + w, u + "}"},
		{"c{x=" + v, "}d", w, u},
		{"c{x=" + v + "}d{q=" + u + "}", "{p=" + w + "}"},
		{"c{x=" + v + "}", "d", w, u},
	}[vnd.Choice(7)]
	flow := kit.NewParser().Parse(t, model.NewEnvAbbrs("<root>"), in...)
	vnd.Note(strings.Join(in, " "))
	vnd.Assert(len(flow.Cmds) == 1 && flow.Cmds[0].ParseResult.Error == nil, "well-formed arguments are accepted")
	cmd := flow.Cmds[0]
	vnd.Assert(cmd.LastCmdNode() == t.GetSub("c", "d"), "the text behind a bracket names another command")
	env, argv := cmd.ApplyMappingGenEnvAndArgv(kit.NewEnv(), "--", ".", 1)
	vnd.Assert(argv.GetRaw("p") == w && argv.GetRaw("q") == u, "arguments behind a bracket are bound as written")
	vnd.Assert(env.GetRaw("c.x") == v, "the text in a bracket is bound as written")
	vnd.Reach("glued")
}

// HPrefix: settings of a branch are all kept, whatever they are called.
func HPrefix() {
	keys := []string{"x", "e.x", "e.e.x", "f.x", "e"}
	k1, k2 := keys[vnd.Choice(5)], keys[vnd.Choice(5)]
	vnd.Assume(k1 != k2)
	v, w := value(1, 1), value(1, 1)
	vnd.MapOrder(true)
	flow := kit.Parse("E{"+k1+"="+v, k2+"="+w+"}.f")
	vnd.Assert(flow.Cmds[0].ParseResult.Error == nil, "settings of a branch are accepted")
	env, _ := flow.Cmds[0].ApplyMappingGenEnvAndArgv(kit.NewEnv(), "--", ".", 1)
	vnd.Note(k1 + "=" + v + " " + k2 + "=" + w)
	vnd.Assert(env.GetRaw("e."+k1) == v && env.GetRaw("e."+k2) == w, "a setting of a branch is lost")
	vnd.Reach("prefix")
}
