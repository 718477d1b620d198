package kit

import (
	"github.com/innerr/ticat/pkg/core/execute"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"
)

// EntryName is the name of the outermost caller.
const EntryName = "<entry>"

// NewExec is a service set with the executor of the real program and an
// environment in which it runs without drawing boxes and without a session.
func NewExec(tree *model.CmdTree) (*model.Cli, *model.Env) {
	cc := NewCli(tree)
	cc.Executor = execute.NewExecutor(ticat.SessionEnvFileName, ticat.SessionStatusFileName, "<bootstrap>", EntryName)
	env := NewEnv()
	d := env.GetLayer(model.EnvLayerDefault)
	d.SetBool("display.executor", false)
	d.SetBool("display.color", false)
	d.SetBool("display.utf8.symbols", false)
	d.SetBool("sys.session.disable", true)
	d.SetBool("sys.panic.recover", true)
	d.SetInt("display.width", 80)
	d.SetInt("display.width.max", 80)
	d.SetInt("sys.stack-depth", 0)
	return cc, env
}
