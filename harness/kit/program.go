package kit

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// Program is the whole program, with its files in a directory of the check.
type Program struct {
	*ticat.TiCat
	Dir string
	Out *bytes.Buffer
}

func NewProgram() *Program { return NewProgramIn(vnd.TempDir()) }

func NewProgramIn(dir string) *Program {
	p := &Program{ticat.NewTiCat(), dir, &bytes.Buffer{}}
	p.Env.GetLayer(model.EnvLayerDefault).SetBool("display.color", false)
	// The hub is there, or the first run gets the default repository
	os.MkdirAll(filepath.Join(dir, "hub"), 0755)
	p.SetScreen(model.NewStdScreen(p.Out, p.Out))
	p.ReplaceCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
		i, ok := builtin.LoadRuntimeEnv(argv, cc, env, flow, i)
		cc.CmdIO = model.NewCmdIO(nil, p.Out, p.Out)
		s := env.GetLayer(model.EnvLayerSession)
		for key, sub := range map[string]string{"hub": "hub", "cache": "cache", "env.snapshot": "env", "data": "",
			"data.shared": "shared", "flows": "flows", "sessions": "sessions"} {
			s.Set("sys.paths."+key, filepath.Join(dir, sub))
		}
		return i, ok
	}, "builtin", "env", "load", "runtime")
	return p
}

// Add adds a command that is no builtin one.
func (p *Program) Add(name string, f func(argv model.ArgVals, env *model.Env) bool) *model.Cmd {
	sub := p.Cmds.AddSub(name)
	cmd := sub.RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		return f(argv, env)
	}, name, "")
	sub.SetSource("m")
	return cmd
}

// AddFlow adds a flow that is no builtin command.
func (p *Program) AddFlow(name string, flow ...string) *model.Cmd {
	sub := p.Cmds.AddSub(name)
	cmd := sub.RegFlowCmd(flow, name, "")
	sub.SetSource("m")
	return cmd
}
