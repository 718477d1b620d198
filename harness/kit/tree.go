package kit

import (
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/core/parser"
	"github.com/innerr/ticat/pkg/ticat"
)

// NewTree is an empty command tree with the strings the real program uses.
func NewTree() *model.CmdTree {
	return model.NewCmdTree(&model.CmdTreeStrs{
		ticat.SelfName,
		ticat.CmdRootDisplayName,
		ticat.CmdBuiltinName,
		ticat.CmdBuiltinDisplayName,
		ticat.CmdPathSep,
		ticat.CmdPathAlterSeps,
		ticat.AbbrsSep,
		ticat.EnvOpSep,
		ticat.EnvValDelAllMark,
		ticat.EnvKeyValSep,
		ticat.EnvPathSep,
		ticat.ProtoSep,
		ticat.ListSep,
		ticat.FlowTemplateBracketLeft,
		ticat.FlowTemplateBracketRight,
		ticat.FlowTemplateMultiplyMark,
		ticat.TagMark,
		ticat.ArgEnumSep,
	})
}

// NewSeqParser is the sequence parser the real program uses.
func NewSeqParser() *parser.SequenceParser {
	return parser.NewSequenceParser(ticat.SequenceSep, []string{"http", "HTTP", "https", "HTTPS"}, nil)
}

// NewParser is the command line parser the real program uses.
func NewParser() *parser.Parser {
	envParser := parser.NewEnvParser(
		parser.Brackets{ticat.EnvBracketLeft, ticat.EnvBracketRight},
		ticat.Spaces, ticat.EnvKeyValSep, ticat.EnvPathSep, ticat.SysArgPrefix)
	cmdParser := parser.NewCmdParser(envParser, ticat.CmdPathSep, ticat.CmdPathAlterSeps, ticat.Spaces,
		ticat.CmdRootDisplayName, ticat.TrivialMark, ticat.FakeCmdPathSepSuffixs)
	return parser.NewParser(NewSeqParser(), cmdParser)
}

// NewCli is a service set over a tree, with a quiet screen.
func NewCli(tree *model.CmdTree) *model.Cli {
	return model.NewCli(&model.QuietScreen{}, tree, NewParser(), model.NewEnvAbbrs(ticat.CmdRootDisplayName),
		model.NewCmdIO(nil, nil, nil), model.NewEnvKeysInfo())
}

// Nop is a command that does nothing.
func Nop(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool { return true }

// NewEnv is the three-layer environment the real program starts with, with
// the strings commands look up.
func NewEnv() *model.Env {
	env := model.NewEnvEx(model.EnvLayerDefault).NewLayers(model.EnvLayerPersisted, model.EnvLayerSession)
	d := env.GetLayer(model.EnvLayerDefault)
	d.Set("strs.self-name", ticat.SelfName)
	d.Set("strs.list-sep", ticat.ListSep)
	d.Set("strs.cmd-builtin-name", ticat.CmdBuiltinName)
	d.Set("strs.cmd-builtin-display-name", ticat.CmdBuiltinDisplayName)
	d.Set("strs.abbrs-sep", ticat.AbbrsSep)
	d.Set("strs.seq-sep", ticat.SequenceSep)
	d.Set("strs.cmd-path-sep", ticat.CmdPathSep)
	d.Set("strs.env-path-sep", ticat.EnvPathSep)
	d.Set("strs.env-op-sep", ticat.EnvOpSep)
	d.Set("strs.env-sys-path", ticat.EnvRuntimeSysPrefix)
	d.Set("strs.env-strs-path", ticat.EnvStrsPrefix)
	d.Set("strs.env-kv-sep", ticat.EnvKeyValSep)
	d.Set("strs.env-bracket-left", ticat.EnvBracketLeft)
	d.Set("strs.env-bracket-right", ticat.EnvBracketRight)
	d.Set("strs.env-file-name", ticat.EnvFileName)
	d.Set("strs.session-env-file", ticat.SessionEnvFileName)
	d.Set("strs.session-status-file", ticat.SessionStatusFileName)
	d.Set("strs.trivial-mark", ticat.TrivialMark)
	d.Set("strs.tag-mark", ticat.TagMark)
	d.Set("strs.sys-arg-prefix", ticat.SysArgPrefix)
	d.Set("strs.env-del-all-mark", ticat.EnvValDelAllMark)
	d.Set("strs.env-snapshot-ext", ticat.EnvSnapshotExt)
	d.Set("strs.flow-ext", ticat.FlowExt)
	d.Set("strs.help-ext", ticat.HelpExt)
	d.Set("strs.meta-ext", ticat.MetaExt)
	d.Set("strs.proto-sep", ticat.ProtoSep)
	d.Set("strs.flow-template-bracket-left", ticat.FlowTemplateBracketLeft)
	d.Set("strs.flow-template-bracket-right", ticat.FlowTemplateBracketRight)
	d.Set("strs.flow-template-multiply-mark", ticat.FlowTemplateMultiplyMark)
	d.Set("strs.arg-enum-sep", ticat.ArgEnumSep)
	d.Set("strs.hub-file-name", ticat.HubFileName)
	d.Set("strs.repos-file-name", ticat.ReposFileName)
	d.Set("strs.mods-repo-ext", ticat.ModsRepoExt)
	d.Set("strs.cmd-path-str-session", ticat.CmdPathSession)
	return env
}
