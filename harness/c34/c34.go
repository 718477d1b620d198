// C34: a session is described as it was recorded.
package c34

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// flows are the flows of the program, by name.
type flows map[string][]string

var luck = "bad luck"

// start makes the program: commands that succeed (qo), fail (qn), end in an
// error (qe), are a program that succeeds (qp) or fails (qx), and the flows.
func start(dir string, fs flows) *kit.Program {
	p := kit.NewProgramIn(dir)
	count := func(env *model.Env) {
		s := env.GetLayer(model.EnvLayerSession)
		s.SetInt("n", env.GetInt("n")+1)
		s.Set("m", "v")
	}
	p.Env.GetLayer(model.EnvLayerDefault).SetInt("n", 0)
	p.Add("qo", func(argv model.ArgVals, env *model.Env) bool { count(env); return true })
	p.Add("qn", func(argv model.ArgVals, env *model.Env) bool { count(env); return false })
	p.Add("qe", func(argv model.ArgVals, env *model.Env) bool { count(env); panic(fmt.Errorf("%s", luck)) })
	vnd.OnExec(func(args []string) error {
		if strings.HasSuffix(args[1], "x.sh") {
			return fmt.Errorf("exit status 1")
		}
		return nil
	})
	p.Add("qa", func(argv model.ArgVals, env *model.Env) bool { return true }).AddArg("x", "")
	p.Add("qq", func(argv model.ArgVals, env *model.Env) bool { return true }).SetQuiet()
	p.Add("qr", func(argv model.ArgVals, env *model.Env) bool { return true }).SetPriority()
	for _, name := range []string{"p", "x"} {
		script := filepath.Join(dir, name+".sh")
		os.WriteFile(script, []byte(map[string]string{"p": "exit 0\n", "x": "exit 1\n"}[name]), 0755)
		sub := p.Cmds.AddSub("q" + name)
		sub.RegFileCmd(script, "", "")
		sub.SetSource("m")
	}
	for name, flow := range fs {
		p.AddFlow(name, strings.Join(flow, " "))
	}
	return p
}

const gone = "5000000"

// ran runs the line, and then describes what is left of its session.
func ran(dir string, fs flows, line []string, then func(root string)) {
	p := start(dir, fs)
	vnd.Note(strings.Join(line, " "))
	root := filepath.Join(dir, "sessions")
	vnd.OnExit(func(code int) { then(root) })
	ok := p.RunCli(line...)
	vnd.Assert(ok, "harness")
	then(root)
}

// ended gives the one session another process, that is gone or not.
func ended(root string, running bool) (name string) {
	found, _ := os.ReadDir(root)
	vnd.Assert(len(found) == 1, "a run leaves another number of sessions")
	old := found[0].Name()
	name = old[:strings.Index(old, ".")] + "." + gone
	if running {
		name = old[:strings.Index(old, ".")] + ".1"
	}
	os.Rename(filepath.Join(root, old), filepath.Join(root, name))
	// The paths of the logs
	file := filepath.Join(root, name, "status")
	data, _ := os.ReadFile(file)
	os.WriteFile(file, []byte(strings.Replace(string(data), old, name, -1)), 0644)
	return
}

// shown is a command in a description, with its result.
type shown struct {
	name, result string
	block        []string // the lines below
}

func commands(out string) (res []shown) {
	for _, line := range strings.Split(out, "\n") {
		line = strings.TrimSpace(line)
		end := strings.Index(line, "]")
		if !strings.HasPrefix(line, "[") || end < 0 {
			if len(res) > 0 {
				last := &res[len(res)-1]
				last.block = append(last.block, line)
			}
			continue
		}
		rest := line[end+1:]
		if i := strings.Index(rest, " (schedule to bg in "); i == 0 {
			rest = rest[strings.Index(rest, ")")+1:]
		}
		f := strings.Fields(rest)
		if len(f) >= 2 && strings.Count(f[0], ":") == 2 && strings.Index(f[0], "-") > 0 {
			res = append(res, shown{name: line[1:end], result: f[1]})
		} else if i := strings.Index(line, "flow not matched, origin cmd: ["); i >= 0 {
			res = append(res, shown{name: line[1:end], result: "was " + line[i+31:len(line)-1]})
		}
	}
	return
}

// want is what a description of the record must show.
type want struct {
	name, result string
	cmd          *model.ExecutedCmd
}

// expect lists the commands of the line with their records. The one after the
// last recorded is shown as not run, others after it are not shown.
func expect(line []string, fs flows, record *model.ExecutedFlow, running bool) (res []want) {
	i := 0
	for _, name := range line {
		if name == ":" || strings.HasPrefix(name, "%") {
			continue
		}
		if i >= len(record.Cmds) {
			return append(res, want{name, "unrun", nil})
		}
		c := record.Cmds[i]
		i++
		if c.Cmd != name {
			res = append(res, want{name, "was " + c.Cmd, nil})
			continue
		}
		result := string(c.Result)
		if c.Result == model.ExecutedResultIncompleted {
			result = "failed"
			if running {
				result = "running"
			}
		}
		res = append(res, want{name, result, c})
		if c.SubFlow != nil {
			res = append(res, expect(fs[name], fs, c.SubFlow, running)...)
		}
	}
	return
}

var ops = []string{"sessions.last.desc", "sessions.last.desc.more", "sessions.last.desc.full", "sessions.desc.monitor"}

// describe runs the command that describes the session and compares.
func describe(dir string, root string, fs flows, line []string, name string, running bool, op int) string {
	path := model.ExecutedStatusFilePath{RootPath: root, DirName: name, FileName: "status"}
	_, record := model.ParseExecutedFlow(path)
	before, _ := os.ReadFile(path.Full())

	p := start(dir, fs)
	vnd.OnExit(func(code int) {
		vnd.Note(p.Out.String())
		vnd.Assert(false, "describing a session fails")
	})
	input := []string{ops[op]}
	if op == 3 {
		input = append(input, "session-id="+name)
	}
	o := kit.Try(func() { p.RunCli(input...) })
	vnd.Assert(!o.Panicked, "describing a session ends in a crash: "+o.Text)
	after, _ := os.ReadFile(path.Full())
	vnd.Assert(string(before) == string(after), "describing a session changes its record")

	got := commands(p.Out.String())
	var wanted []want
	if len(record.Cmds) > 0 {
		wanted = expect(line, fs, record, running)
	}
	if op == 3 {
		// The monitor shows only what failed or runs
		var some []want
		for _, w := range wanted {
			if w.cmd != nil && (w.cmd.Result == model.ExecutedResultError || w.cmd.Result == model.ExecutedResultIncompleted) {
				some = append(some, w)
			}
		}
		wanted = some
	}
	text := func() string {
		s := "shown:"
		for _, g := range got {
			s += " " + g.name + "=" + g.result
		}
		s += ", recorded:"
		for _, w := range wanted {
			s += " " + w.name + "=" + w.result
		}
		return s
	}
	vnd.Assert(len(got) == len(wanted), "another number of commands is shown: "+text())
	for i, w := range wanted {
		g := got[i]
		vnd.Assert(g.name == w.name && g.result == w.result, "a command is not shown as recorded: "+text())
		if w.cmd == nil {
			continue
		}
		for _, e := range w.cmd.ErrStrs {
			vnd.Assert(has(g.block, strings.TrimSpace(e)), "an error message is not shown: "+e)
		}
		if w.cmd.SubFlow != nil || op == 3 {
			continue
		}
		if op == 2 && w.cmd.StartEnv != nil {
			v := w.cmd.StartEnv.GetRaw("n")
			vnd.Assert(v == "" || has(g.block, "n = "+v), "a value at the start of a command is not shown")
		}
		if op >= 1 && w.cmd.FinishEnv != nil {
			for _, k := range []string{"n", "m"} {
				a, b := "", w.cmd.FinishEnv.GetRaw(k)
				if w.cmd.StartEnv != nil {
					a = w.cmd.StartEnv.GetRaw(k)
				}
				change := ""
				switch {
				case a == "" && b != "":
					change = k + " = " + b + " <- (added)"
				case a != b:
					change = k + " = " + a + " <- (modified to) " + b
				}
				vnd.Assert(change == "" || has(g.block, change), "a change a command made is not shown: "+change)
				if change != "" {
					vnd.Reach("change")
				}
			}
		}
		for _, l := range g.block {
			vnd.Assert(!strings.HasPrefix(l, "n = ") && !strings.HasPrefix(l, "m = ") || !strings.Contains(l, "deleted"), "a value is shown as deleted that was not: "+l)
		}
	}
	if len(wanted) > 0 {
		vnd.Reach("described")
	}
	return p.Out.String()
}

func has(lines []string, line string) bool {
	for _, l := range lines {
		if l == line {
			return true
		}
	}
	return false
}

func leaf(names ...string) []string {
	name := names[vnd.Choice(len(names))]
	if name != "qo" && name != "qp" && vnd.Bool() {
		return []string{name, "%err=ok"}
	}
	return []string{name}
}

func line() (res []string, fs flows) {
	fs = flows{"qf": append(leaf("qo", "qn", "qx"), ":", "qo"), "qg": {"qo", ":", "qf"}}
	res = leaf("qo", "qe", "qf", "qg")
	n := 1
	if vnd.Thorough() {
		n = 1 + vnd.Choice(2)
	}
	for i := 0; i < n; i++ {
		res = append(res, ":")
		res = append(res, leaf("qo", "qe", "qp", "qf")...)
	}
	return
}

// HRun: a run is shown with every command it ran, in order, each with its
// result, its errors and its values.
func HRun() {
	dir := vnd.TempDir()
	l, fs := line()
	op := vnd.Choice(len(ops))
	ran(dir, fs, l, func(root string) {
		describe(dir, root, fs, l, ended(root, false), false, op)
	})
}

// HCut: so is a run that was stopped at any time, or is still going on.
func HCut() {
	dir := vnd.TempDir()
	fs := flows{"qf": append(leaf("qo", "qn"), ":", "qo")}
	l := append([]string{"qo", ":"}, append(leaf("qf", "qe"), ":", "qo")...)
	op := 2 * vnd.Choice(2)
	if vnd.Thorough() {
		op = vnd.Choice(len(ops))
	}
	running := vnd.Bool()
	ran(dir, fs, l, func(root string) {
		name := ended(root, running)
		file := filepath.Join(root, name, "status")
		data, _ := os.ReadFile(file)
		lines := strings.SplitAfter(string(data), "\n")
		k := vnd.Choice(len(lines))
		os.WriteFile(file, []byte(strings.Join(lines[:k], "")), 0644)
		vnd.Note("cut " + strconv.Itoa(k))
		if op == 3 && k == 0 {
			return
		}
		describe(dir, root, fs, l, name, running, op)
	})
}

// HDepth: flows in flows to any depth are shown, with the log of the program
// that failed.
func HDepth() {
	dir := vnd.TempDir()
	d := vnd.Choice(19)
	fs := flows{"qf0": {"qx"}}
	for i := 1; i <= d; i++ {
		fs["qf"+strconv.Itoa(i)] = []string{"qf" + strconv.Itoa(i-1)}
	}
	l := []string{"qf" + strconv.Itoa(d)}
	op := vnd.Choice(len(ops))
	text := []string{"", "short", "first of all\nbad words, more than\nand then " + strings.Repeat("o", 300)}[vnd.Choice(3)]
	vnd.Note("depth " + strconv.Itoa(d))
	ran(dir, fs, l, func(root string) {
		name := ended(root, false)
		found, _ := os.ReadDir(filepath.Join(root, name))
		logs := 0
		for _, it := range found {
			if strings.Contains(it.Name(), "_qx_") {
				logs++
				os.WriteFile(filepath.Join(root, name, it.Name()), []byte(text), 0644)
			}
		}
		vnd.Assert(logs == 1, "the program has no log")
		out := describe(dir, root, fs, l, name, false, op)
		out = strings.Join(strings.Fields(out), "")
		for _, part := range strings.Split(text, "\n") {
			part = strings.Join(strings.Fields(part), "")
			if len(part) > 100 {
				part = part[:7]
			}
			vnd.Assert(strings.Contains(out, part), "the log of what failed is not shown: "+part)
		}
		vnd.Reach("deep")
	})
}

// HChanged: commands that are no longer the recorded ones are not shown as run.
func HChanged() {
	dir := vnd.TempDir()
	fs := flows{"qf": {"qo", ":", "qn"}, "qg": {"qf"}}
	l := []string{[]string{"qf", "qg"}[vnd.Choice(2)], "%err=ok", ":", "qo"}
	now := flows{"qf": fs["qf"], "qg": fs["qg"]}
	now["qf"] = [][]string{{"qn", ":", "qo"}, {"qo"}, {"qo", ":", "qo", ":", "qo"}, {"qp", ":", "qn"}, {"qg"}}[vnd.Choice(5)]
	if len(now["qf"]) == 1 {
		now["qg"] = []string{"qo"}
	}
	op := vnd.Choice(3)
	ran(dir, fs, l, func(root string) {
		describe(dir, root, now, l, ended(root, false), false, op)
	})
}

// HMarks: so are commands run first or in the background, ones with arguments,
// environments and marks, empty ones and ones that are not shown at all.
func HMarks() {
	dir := vnd.TempDir()
	fs := flows{"qf": {"qo", ":", "qr"}}
	lines := [][]string{
		{"qo", ":", "qr", ":", "qe"},
		{"qo", ":", "^", "qe"},
		{":", "qo", ":", "qe", ":"},
		{"qq", ":", "qe"},
		{"qo", ":", "qq", ":", "qe"},
		{"{x=1}", "qo", ":", "{x=2}", "qe"},
		{"qf", ":", "qr", ":", "qe"},
		{"qa", "x=1", ":", "qa", "x=a b", ":", "qe"},
		{"qo", "%delay=2s", ":", "qe"},
		{"qf", "%delay=2s", ":", "qo"},
	}
	// Commands in the background
	marks := 9
	if vnd.Thorough() {
		marks = 10
	}
	i := vnd.Choice(marks)
	l := lines[i]
	op := 0
	if i < 8 || vnd.Thorough() {
		op = vnd.Choice(3)
	}
	ran(dir, fs, l, func(root string) {
		name := ended(root, false)
		path := model.ExecutedStatusFilePath{RootPath: root, DirName: name, FileName: "status"}
		_, record := model.ParseExecutedFlow(path)
		vnd.Assert(len(record.Corrupted) == 0, "harness")
		var wanted []string
		var list func(f *model.ExecutedFlow)
		list = func(f *model.ExecutedFlow) {
			for _, c := range f.Cmds {
				if c.IsDelay {
					// The record is in the flow of its thread, if it started
					if len(c.SubFlow.Cmds) == 0 {
						continue
					}
					c = c.SubFlow.Cmds[0]
					vnd.Reach("delayed")
				}
				if c.Cmd == "qq" {
					continue
				}
				result := string(c.Result)
				if c.Result == model.ExecutedResultIncompleted {
					result = "failed"
				}
				wanted = append(wanted, c.Cmd+"="+result)
				if c.SubFlow != nil {
					list(c.SubFlow)
				}
			}
		}
		list(record)
		p := start(dir, fs)
		vnd.OnExit(func(code int) { vnd.Assert(false, "describing a session fails") })
		p.RunCli(ops[op])
		var got []string
		for _, g := range commands(p.Out.String()) {
			if g.result != "unrun" {
				got = append(got, g.name+"="+g.result)
			}
		}
		vnd.Assert(kit.SameStrs(got, wanted), "shown: "+strings.Join(got, " ")+", recorded: "+strings.Join(wanted, " "))
		vnd.Reach("marked")
	})
}

// HText: the message of an error is shown as it is.
func HText() {
	dir := vnd.TempDir()
	n := 3
	if vnd.Thorough() {
		n = 5
	}
	luck = vnd.StrOf("b %<[\n", 1, n)
	vnd.Assume(strings.TrimSpace(luck) != "")
	op := vnd.Choice(3)
	ran(dir, nil, []string{"qo", ":", "qe"}, func(root string) {
		name := ended(root, false)
		p := start(dir, nil)
		vnd.OnExit(func(code int) { vnd.Assert(false, "describing a session fails") })
		p.RunCli(ops[op])
		ok := false
		for _, g := range commands(p.Out.String()) {
			if g.name == "qe" {
				ok = true
				for _, l := range strings.Split(luck, "\n") {
					vnd.Assert(has(g.block, strings.TrimSpace(l)), "the message of an error is not shown")
				}
			}
		}
		vnd.Assert(ok && name != "", "an error is not shown")
		vnd.Reach("message")
	})
}

// HLog: of a long log of a program that failed the last lines are shown.
func HLog() {
	dir := vnd.TempDir()
	op := vnd.Choice(len(ops))
	lines := []int{0, 1, 3, 4, 8, 9, 2000}[vnd.Choice(7)]
	end := []string{"", "\n", "\n\n"}[vnd.Choice(3)]
	var all []string
	for i := 0; i < lines; i++ {
		all = append(all, "row "+strconv.Itoa(100000+i))
	}
	fs := flows{}
	ran(dir, fs, []string{"qx"}, func(root string) {
		name := ended(root, false)
		found, _ := os.ReadDir(filepath.Join(root, name))
		for _, it := range found {
			if strings.Contains(it.Name(), "_qx_") {
				os.WriteFile(filepath.Join(root, name, it.Name()), []byte(strings.Join(all, "\n")+end), 0644)
			}
		}
		out := describe(dir, root, fs, []string{"qx"}, name, false, op)
		var got []string
		for _, l := range strings.Split(out, "\n") {
			if l = strings.TrimSpace(l); strings.HasPrefix(l, "row ") {
				got = append(got, l)
			}
		}
		max := 8
		if op == 3 {
			max = 3
		}
		if len(all) > max {
			all = all[len(all)-max:]
		}
		vnd.Assert(kit.SameStrs(got, all), "of the log is shown: "+strings.Join(got, " "))
		vnd.Reach("log")
	})
}
