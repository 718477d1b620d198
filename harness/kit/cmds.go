package kit

import "github.com/innerr/ticat/pkg/core/model"

// CmdsAndAbbrs is a small command tree with every shape the parser tells
// apart: a command with arguments and a sub command, a directory, a command
// without arguments, abbreviations on both levels.
//
//	c|k (args x|X, y)  c.d|D   e|E (directory)  e.f (arg x)
func CmdsAndAbbrs() (*model.CmdTree, *model.EnvAbbrs) {
	t := NewTree()
	c := t.AddSub("c", "k")
	cmd := c.RegCmd(Nop, "", "")
	cmd.AddArg("x", "dx", "X")
	cmd.AddArg("y", "dy")
	c.AddSub("d", "D").RegCmd(Nop, "", "")
	e := t.AddSub("e", "E")
	e.AddSub("f").RegCmd(Nop, "", "").AddArg("x", "")
	abbrs := model.NewEnvAbbrs("<root>")
	abbrs.AddSub("v", "V").AddSub("w", "W")
	abbrs.AddSub("c").AddSub("d")
	return t, abbrs
}

// Parse parses a command line over such a tree.
func Parse(input ...string) *model.ParsedCmds {
	t, abbrs := CmdsAndAbbrs()
	return NewParser().Parse(t, abbrs, input...)
}
