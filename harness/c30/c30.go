// C30: no command line ends in an internal error.
package c30

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// start is the program with two commands and a flow of them.
func start() *kit.Program {
	p := kit.NewProgram()
	vnd.OnExec(func(args []string) error { return nil })
	p.Env.GetLayer(model.EnvLayerDefault).SetBool("sys.panic.recover", false)
	p.Add("qa", func(argv model.ArgVals, env *model.Env) bool { return true }).
		AddArg("x", "", "X").AddEnvOp("k", model.EnvOpTypeMayRead)
	p.Add("qb", func(argv model.ArgVals, env *model.Env) bool { return true }).
		AddArg("y", "dy").AddEnvOp("k", model.EnvOpTypeWrite)
	p.AddFlow("qf", "qb : qa")
	return p
}

// left are commands that wait for the user or run what they are given.
var left = map[string]bool{"dbg.bash": true, "dbg.interact": true, "os.bash": true, "sleep": true}

func walk(tree *model.CmdTree, path string, res []string) []string {
	for _, name := range tree.SubNames() {
		sub := tree.GetSub(name)
		full := name
		if path != "" {
			full = path + "." + name
		}
		if !left[full] && !strings.HasPrefix(full, "builtin") {
			res = append(res, full)
		}
		res = walk(sub, full, res)
	}
	return res
}

func run(p *kit.Program, input ...string) {
	vnd.Note(strings.Join(input, " "))
	vnd.OnExit(func(code int) { vnd.Reach("refused") })
	o := kit.Try(func() { p.RunCli(input...) })
	vnd.Assert(!o.Runtime, "the program ends in an internal error: "+o.Text)
	vnd.Assert(!strings.Contains(p.Out.String(), "%!"), "a text is taken as a format: "+p.Out.String())
	vnd.Reach("run")
}

// HCommands: every command of the program in every place, with few args.
func HCommands() {
	p := start()
	all := walk(p.Cmds, "", nil)
	name := all[vnd.Choice(len(all))]
	var input []string
	switch vnd.Choice(8) {
	case 0:
		input = []string{name}
	case 1:
		input = []string{name, "qa"}
	case 2:
		input = []string{"qb", ":", name}
	case 3:
		input = []string{"qf", "x=1", ":", "-", name}
	case 4:
		input = []string{name, ":", "qf"}
	case 5:
		input = []string{name, "1", "2", "3"}
	case 6:
		input = []string{"qf", ":", "qa", ":", name, "1"}
	case 7:
		input = []string{"{k=v}", ":", name, "-"}
	}
	run(p, input...)
}

const odd = "[]{}=%:,.-+/ \"'0a*"

// HArgs: every command of the program that has args with any short value for
// one of them.
func HArgs() {
	p := start()
	var all []string
	for _, name := range walk(p.Cmds, "", nil) {
		if cmd := p.Cmds.GetSubByPath(name, false).Cmd(); cmd != nil {
			args := cmd.Args()
			for _, arg := range args.Names() {
				all = append(all, name+" "+arg)
			}
		}
	}
	parts := strings.Fields(all[vnd.Choice(len(all))])
	chars := "[]%:=."
	if vnd.Thorough() {
		chars = odd
	}
	s := vnd.StrOf(chars, 1, 1)
	input := []string{parts[0], parts[1] + "=" + s}
	if vnd.Thorough() && vnd.Bool() {
		input = append([]string{"qf", ":"}, input...)
	}
	run(p, input...)
}

// HLine: any short text among the parts of a command line.
func HLine() {
	p := start()
	max := 1
	if vnd.Thorough() {
		max = 2
	}
	s := vnd.StrOf(odd, 1, max)
	input := [][]string{
		{s},
		{"qa", s},
		{"qa" + s, "x=1"},
		{"qa", "x=1", s, ":", "qb"},
		{"qa", s, ":", "qb"},
		{"qf", ":", s},
		{s, ":", "qf"},
		{"{" + s + "}", "qa"},
		{"qa", "{x=" + s + "}"},
		{"qf", ":", "desc", s},
		{"qf", s, ":", "-"},
		{"qa", "%" + s, ":", "qb"},
		{"qa", "%delay=" + s, ":", "qb"},
	}[vnd.Choice(13)]
	run(p, input...)
}
