// C31: looking at commands runs none of them, and shows what a run does.
package c31

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type world struct {
	*kit.Program
	ran []string
}

func start(dir string) *world {
	w := &world{Program: kit.NewProgramIn(dir)}
	vnd.OnExec(func(args []string) error { w.ran = append(w.ran, "exec"); return nil })
	for _, name := range []string{"qa", "qb", "qc"} {
		name := name
		w.Add(name, func(argv model.ArgVals, env *model.Env) bool {
			w.ran = append(w.ran, name+" "+argv.GetRaw("x"))
			env.GetLayer(model.EnvLayerSession).Set("done", name)
			return true
		}).AddArg("x", "")
	}
	w.AddFlow("qf", "qa x=[[p]] : qb x=fb").AddArg("p", "dp")
	w.AddFlow("qg", "qf p=g : qc x=gc")
	w.AddFlow("qk", "qa x=[[k]] : qb")
	w.AddFlow("qh", "{k=h} : qk : qf")
	w.AddFlow("qm", "qc x=m1 : qk").AddArg("key", "").AddArg2Env("k", "key")
	w.AddFlow("qt", "^qk : qc x=t1")
	file := w.Cmds.AddSub("qn")
	file.RegFileNFlowCmd([]string{"qk"}, filepath.Join(dir, "qn"), "qn", "")
	file.SetSource("m")
	return w
}

// files are the files below a directory, other than the records of sessions.
func files(dir string) (res []string) {
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() && info.Name() == "sessions" {
			return filepath.SkipDir
		}
		if err == nil && !info.IsDir() {
			data, _ := os.ReadFile(path)
			res = append(res, path+" "+string(data))
		}
		return nil
	})
	return
}

// tail are the commands that look at the whole line, at its start or its end.
var tail = []string{"-", "--", "---", "+", "++", "+++", "=", "==", "desc", "desc.more", "desc.full", "desc.dep", "desc.env",
	"desc.flow", "desc.flow.more", "desc.flow.full", "find", "/", "//", "///", "~", "~~", "~~~", "cmds", "cmds.more", "cmds.full",
	"cmd", "cmd.full"}

// HLook: no command that looks at others runs one or changes a file, wherever
// it may stand.
func HLook() {
	dir := vnd.TempDir()
	os.WriteFile(filepath.Join(dir, "qn"), []byte("#!/bin/sh\n"), 0755)
	w := start(dir)
	before := files(dir)
	look := tail[vnd.Choice(len(tail))]
	line := [][]string{
		{"qa", "x=1", ":", "qn"}, {"qh", "%delay=1", ":", "qm", "key=v"}, {"{k=v}", ":", "qt", ":", "qb"},
		{"qn", ":", "qg", ":", "^qf", "{p=2}"},
	}[vnd.Choice(4)]
	var input []string
	switch vnd.Choice(6) {
	case 0:
		input = append(append(input, line...), ":", look)
	case 1:
		input = append(append(input, look, ":"), line...)
	case 2:
		input = append(append(input, line...), ":"+look)
	case 3:
		input = append(append(input, line...), ":", "::", look)
	case 4:
		input = append(append(append(input, "qa", ":"), line...), ":", look, ":")
	case 5:
		input = append(append(input, line...), ":", look, "no.such.cmd")
	}
	vnd.Note(strings.Join(input, " "))
	check := func() {
		vnd.Assert(len(w.ran) == 0, "a look ran commands: "+strings.Join(w.ran, ","))
		vnd.Assert(kit.SameStrs(files(dir), before), "a look changed files: "+strings.Join(files(dir), ","))
	}
	vnd.OnExit(func(code int) { check(); vnd.Reach("refused") })
	o := kit.Try(func() { w.RunCli(input...) })
	vnd.Assert(!o.Panicked, "a look ends in a panic: "+o.Text)
	check()
	vnd.Reach("looked")
}

// steps reads the commands of a description, and whether it ends in a flow
// that is said to be the same as the one before it.
func steps(text string) (res []string, again bool) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		for _, name := range []string{"qa", "qb", "qc"} {
			if strings.HasPrefix(line, "["+name+"]") {
				res = append(res, name+" ")
			}
		}
		// A command that is a flow and a program runs the flow first
		if line == "<<<--- +" {
			res = append(res, "qn ")
		}
		if strings.HasPrefix(line, "x = ") {
			res[len(res)-1] += strings.TrimPrefix(line, "x = ")
		}
		again = again || strings.Contains(line, "duplicated")
	}
	return
}

func names(steps []string) (res []string) {
	for _, it := range steps {
		res = append(res, strings.Fields(it)[0])
	}
	return
}

// HDesc: a description shows the commands a run of the same line executes.
func HDesc() {
	dir := vnd.TempDir()
	os.WriteFile(filepath.Join(dir, "qn"), []byte("#!/bin/sh\n"), 0755)
	max := 1
	if vnd.Thorough() {
		max = 2
	}
	v := vnd.StrOf("ab1-_", 1, max)
	units := [][]string{
		{"qa", "x=" + v}, {"qf"}, {"qf", "p=" + v}, {"qg"}, {"qk"}, {"qh"}, {"qm"}, {"qm", "key=" + v},
		{"{k=" + v + "}"}, {"^qt"}, {"qt"}, {"qn"}, {"qf", "{p=" + v + "}"}, {"^qg"},
	}
	i, j := vnd.Choice(len(units)), vnd.Choice(len(units))
	line := append([]string{"{k=0}", ":"}, units[i]...)
	line = append(append(line, ":"), units[j]...)
	looks := [][]string{{"+", "unfold-trivial=9"}, {"desc", "unfold-trivial=9"}, {"desc.flow.full", "unfold-trivial=9"}}
	n := (i + j) % 3
	if vnd.Thorough() {
		n = vnd.Choice(3)
	}
	vnd.Note(strings.Join(line, " "))
	exit := func(code int) { vnd.Assert(false, "a run fails") }
	vnd.OnExit(exit)
	a := start(dir)
	a.RunCli(append(append(append([]string{}, line...), ":"), looks[n]...)...)
	shown := a.Out.String()
	b := start(dir)
	vnd.OnExec(func(args []string) error { b.ran = append(b.ran, "qn "); return nil })
	b.RunCli(line...)
	got, again := steps(shown)
	want := b.ran
	if again && len(want) == 2*len(got) {
		vnd.Assert(kit.SameStrs(names(want[len(got):]), names(got)), "said to be the same, but: "+strings.Join(want, ","))
		want = want[:len(got)]
		vnd.Reach("again")
	}
	vnd.Assert(kit.SameStrs(got, want), "shown: "+strings.Join(got, ",")+"\nran: "+strings.Join(want, ",")+"\n"+shown)
	vnd.Reach("same")
}
