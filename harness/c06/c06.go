// C06: any command line is parsed to a result or a reported error.
package c06

import (
	"github.com/innerr/ticat/pkg/cli/display"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func parse(argv []string) {
	var flow *model.ParsedCmds
	in := append([]string{}, argv...)
	o := kit.Try(func() { flow = kit.Parse(in...) })
	vnd.Assert(!o.Runtime, "no internal error while parsing")
	if o.Panicked {
		vnd.Assert(o.Text != "", "a rejected line has a message")
		return
	}
	vnd.Assert(flow != nil && len(flow.Cmds) > 0, "there is a result")
	for _, cmd := range flow.Cmds {
		if cmd.ParseResult.Error != nil {
			vnd.Assert(cmd.ParseResult.Error.Error() != "", "an error has a message")
		}
		for _, seg := range cmd.Segments {
			vnd.Assert(seg.Matched.Name == "" || seg.Matched.Cmd != nil, "a matched name has its command")
		}
	}
}

// HOne: one argument of any text.
func HOne() {
	n := 6
	if vnd.Thorough() {
		n = 7
	}
	parse([]string{vnd.StrOf("cx{}=.^% :", 0, n)})
	vnd.Reach("end")
}

// HBytes: one argument of any bytes.
func HBytes() {
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	b := vnd.Bytes(0, n)
	for i := 0; i < len(b); i++ {
		vnd.Assume(b[i] < 0x80)
	}
	parse([]string{b})
	vnd.Reach("end")
}

// HMany: several arguments.
func HMany() {
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	var argv []string
	for i := 0; i < n; i++ {
		argv = append(argv, vnd.StrOf("cx{}=.^", 0, 2))
	}
	parse(argv)
	vnd.Reach("end")
}

// HAfterCmd: arguments behind a command, a sub command, a directory, an env.
func HAfterCmd() {
	heads := []string{"c", "k.", "c.d", "e", "e.f", "{v=1}", "c{x=1}", "c{", "^c", "e.f{x", "%", "c {}"}
	argv := []string{heads[vnd.Choice(len(heads))]}
	n, l := 1, 4
	if vnd.Thorough() {
		n, l = 2, 3
	}
	for i := 0; i < n; i++ {
		argv = append(argv, vnd.StrOf("xv{}=. %/^", 0, l))
	}
	if !vnd.Thorough() {
		toks := []string{"=", "}", "x=1", ":", "", "v"}
		argv = append(argv, toks[vnd.Choice(len(toks))])
	}
	parse(argv)
	vnd.Reach("end")
}

// HTokens: longer lines of whole tokens.
func HTokens() {
	toks := []string{"c", "x", "=", "{", "}", ".", "x=1", "=1", "x=", "{x=1}", "^", "d", "e", "f", "%delay=1", "", " ", ":"}
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	var argv []string
	for i := 0; i < n; i++ {
		argv = append(argv, toks[vnd.Choice(len(toks))])
	}
	argv = append(argv, vnd.StrOf("x=}", 0, 1))
	parse(argv)
	vnd.Reach("end")
}

// HShown: a parse error is shown without an internal error.
func HShown() {
	toks := []string{"c", "e", "c.d", "z", "{", "x=1", "", ".", "a=b"}
	n := 2
	var argv []string
	for i := 0; i < n; i++ {
		argv = append(argv, toks[vnd.Choice(len(toks))])
	}
	argv = append(argv, vnd.StrOf("x={z", 0, 2))
	t, abbrs := kit.CmdsAndAbbrs()
	env := kit.NewEnv()
	env.GetLayer(model.EnvLayerDefault).Set("display.color", "false")
	env.GetLayer(model.EnvLayerDefault).Set("display.width", "80")
	env.GetLayer(model.EnvLayerDefault).Set("display.width.max", "80")
	cc := kit.NewCli(t)
	var flow *model.ParsedCmds
	o := kit.Try(func() { flow = kit.NewParser().Parse(t, abbrs, argv...) })
	if o.Panicked {
		return
	}
	bad := flow.FirstErr() != nil
	var ok bool
	o = kit.Try(func() { ok = display.HandleParseResult(cc, flow, env, vnd.Choice(2) == 1) })
	vnd.Assert(!o.Runtime, "no internal error while showing a parse error")
	if !o.Panicked {
		vnd.Assert(ok == !bad, "a parse error stops the run")
	}
	if bad {
		vnd.Reach("bad")
	}
}
