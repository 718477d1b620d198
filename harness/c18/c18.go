// C18: the session status file describes the run, also after a crash at any
// point, and retrying from it runs exactly what had not succeeded.
package c18

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// node is one command of a program: a leaf, or a flow with its commands.
type node struct {
	name string
	tol  bool
	sub  []node
}

func (n node) String() string {
	s := n.name
	if n.tol {
		s += " %err=ok"
	}
	return s
}

func flowStr(list []node) string {
	var ss []string
	for _, n := range list {
		ss = append(ss, n.String())
	}
	return strings.Join(ss, " : ")
}

// rec is what a run of a command must have left behind.
type rec struct {
	cmd    string
	ok     bool
	done   bool
	kids   []rec
	leaf   bool
	before int // value of the counter when it starts
	after  int
}

// world runs programs; the leaves count in the environment key n.
type world struct {
	ran     []string
	healed  bool
	errText string
	stopAt  int // panic like a killed process before this leaf, -1 is never
}

func (w *world) leaf(name string, body func(env *model.Env) bool) model.NormalCmd {
	return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		w.ran = append(w.ran, name)
		s := env.GetLayer(model.EnvLayerSession)
		s.SetInt("n", env.GetInt("n")+1)
		if w.healed {
			return true
		}
		return body(env)
	}
}

func (w *world) tree(flows map[string][]node) *model.CmdTree {
	t := kit.NewTree()
	t.AddSub("ok").RegCmd(w.leaf("ok", func(env *model.Env) bool { return true }), "", "")
	t.AddSub("no").RegCmd(w.leaf("no", func(env *model.Env) bool { return false }), "", "")
	t.AddSub("er").RegCmd(w.leaf("er", func(env *model.Env) bool { panic(fmt.Errorf("%s", w.errText)) }), "", "")
	t.AddSub("ab").RegCmd(w.leaf("ab", func(env *model.Env) bool { panic(model.NewAbortByUserErr()) }), "", "")
	t.AddSub("em").RegEmptyDirCmd("", "")
	for _, name := range []string{"f", "g"} {
		if list, ok := flows[name]; ok {
			t.AddSub(name).RegFlowCmd([]string{flowStr(list)}, "", "")
		}
	}
	return t
}

// pick chooses the next leaf.
func leaf(tol bool, names ...string) node {
	n := node{name: names[vnd.Choice(len(names))]}
	if tol && n.name != "ok" && n.name != "em" {
		n.tol = vnd.Bool()
	}
	return n
}

// expect is the run by the documentation: stop at the first error that is
// not tolerated.
func expect(list []node, n *int, healed bool) (recs []rec, ok bool) {
	for _, c := range list {
		r := rec{cmd: c.name, done: true, ok: true, leaf: c.sub == nil, before: *n}
		if c.sub != nil {
			r.kids, r.ok = expect(c.sub, n, healed)
		} else if c.name != "em" {
			*n += 1
			r.ok = healed || c.name == "ok"
		}
		if aborted(r.kids) || c.name == "ab" && !healed {
			// Nothing tolerates what the user wants
			r.done, r.ok = false, false
			return append(recs, r), false
		}
		r.after = *n
		recs = append(recs, r)
		if !r.ok && !c.tol {
			return recs, false
		}
	}
	return recs, true
}

func aborted(recs []rec) bool {
	return len(recs) > 0 && !recs[len(recs)-1].done
}

func hasErr(recs []rec) bool {
	for _, r := range recs {
		if !r.ok || hasErr(r.kids) {
			return true
		}
	}
	return false
}

// same compares what the file says with what happened.
func same(got []*model.ExecutedCmd, want []rec, what string) {
	names := func() string {
		s := ""
		for _, c := range got {
			s += " " + c.Cmd + "=" + string(c.Result)
		}
		return s
	}
	vnd.Assert(len(got) == len(want), what+": the file has another number of commands than ran")
	for i, w := range want {
		c := got[i]
		vnd.Assert(c.Cmd == w.cmd, what+": the file names another command: "+names())
		switch {
		case !w.done:
			vnd.Assert(c.Result == model.ExecutedResultIncompleted, what+": an interrupted command is not marked so: "+names())
		case w.ok && (w.leaf || !hasErr(w.kids)):
			vnd.Assert(c.Result == model.ExecutedResultSucceeded, what+": a command that succeeded is not recorded so: "+names())
		case !w.ok:
			vnd.Assert(c.Result == model.ExecutedResultError, what+": a command that failed is not recorded so: "+names())
		}
		if w.leaf {
			vnd.Assert(c.SubFlow == nil, what+": a plain command is recorded with a sub-flow")
			continue
		}
		var kids []*model.ExecutedCmd
		if c.SubFlow != nil {
			kids = c.SubFlow.Cmds
		}
		same(kids, w.kids, what)
	}
}

func (w *world) start(list []node, flows map[string][]node, dir string) (*model.Cli, *model.Env, string) {
	cc, env := kit.NewExec(w.tree(flows))
	d := env.GetLayer(model.EnvLayerDefault)
	d.SetInt("n", 0)
	env.GetLayer(model.EnvLayerSession).Set("session", dir)
	input := strings.Fields(flowStr(list))
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
	return cc, env, flowStr(list)
}

// run executes the program with a status file and returns whether it succeeded.
func (w *world) run(list []node, flows map[string][]node, dir string) (ok bool, o kit.Outcome) {
	cc, env, input := w.start(list, flows, dir)
	o = kit.Try(func() {
		ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Fields(input)...)
		cc.FlowStatus.OnFlowFinish(env, ok)
	})
	vnd.Assert(!o.Runtime, "running a flow crashes: "+o.Text)
	return ok && !o.Panicked, o
}

func parse(dir string) (e *model.ExecutedFlow, o kit.Outcome) {
	o = kit.Try(func() {
		_, e = model.ParseExecutedFlow(model.ExecutedStatusFilePath{filepath.Dir(dir), filepath.Base(dir), "status"})
	})
	return
}

// program chooses a flow f of one or two commands, a flow g around it, and a
// command line.
func program() (list []node, flows map[string][]node) {
	flows = map[string][]node{}
	names := []string{"ok", "no", "er"}
	f := []node{leaf(true, names...)}
	if vnd.Bool() {
		f = append(f, leaf(false, names...))
	}
	flows["f"] = f
	call := func() node {
		return node{name: "f", sub: f, tol: vnd.Bool()}
	}
	switch vnd.Choice(5) {
	case 0:
		list = []node{leaf(true, names...), leaf(true, "ok", "no", "er", "em"), leaf(false, names...)}
		vnd.Assume(len(f) == 1 && f[0].name == "ok")
	case 1:
		list = []node{call(), leaf(false, "ok", "er")}
	case 2:
		list = []node{leaf(true, "ok", "em", "er"), call()}
	case 3:
		g := []node{call(), leaf(false, "ok", "no")}
		flows["g"] = g
		list = []node{{name: "g", sub: g, tol: vnd.Bool()}, leaf(false, "ok", "er")}
	case 4:
		list = []node{call(), call()}
	}
	return
}

// HRun: after a run that ended by itself the file says what ran, how it is
// nested and how each command ended.
func HRun() {
	list, flows := program()
	dir := sub("run")
	w := &world{errText: "bad"}
	ok, _ := w.run(list, flows, dir)
	n := 0
	want, wantOk := expect(list, &n, false)
	vnd.Note(flowStr(list) + " f=" + flowStr(flows["f"]) + " g=" + flowStr(flows["g"]))
	vnd.Assert(ok == wantOk, "the run does not end as its commands did")
	e, o := parse(dir)
	vnd.Assert(!o.Panicked, "the status file of a run cannot be read: "+o.Text)
	vnd.Assert(len(e.Corrupted) == 0, "the status file of a run is taken for corrupted")
	same(e.Cmds, want, "after the run")
	if ok {
		vnd.Assert(e.Result == model.ExecutedResultSucceeded, "a flow that succeeded is not recorded so")
		vnd.Reach("ok")
	} else {
		vnd.Assert(e.Result != model.ExecutedResultSucceeded, "a flow that failed is recorded as succeeded")
		vnd.Reach("failed")
	}
}

func sub(name string) string {
	dir := filepath.Join(vnd.TempDir(), name)
	if os.MkdirAll(dir, os.ModePerm) != nil {
		panic("harness")
	}
	return dir
}

// rerun is what a retry has to run: all but the commands that succeeded.
func rerun(list []node, recs []rec) (names []string) {
	for i, c := range list {
		var r rec
		if i < len(recs) {
			r = recs[i]
		}
		if c.sub != nil {
			names = append(names, rerun(c.sub, r.kids)...)
		} else if c.name != "em" && !(r.done && r.ok) {
			names = append(names, c.name)
		}
	}
	return
}

// counter is the value of n after the retry: a command that ran before starts
// from what it had started from, and one that is skipped leaves what it had left.
func counter(list []node, recs []rec, n int) int {
	for i, c := range list {
		var r rec
		known := i < len(recs)
		if known {
			r = recs[i]
		}
		switch {
		case c.sub != nil:
			n = counter(c.sub, r.kids, n)
		case c.name == "em":
		case known && r.done && r.ok:
			n = r.after
		case known:
			n = r.before + 1
		default:
			n++
		}
	}
	return n
}

// retry runs the recorded flow again from the status file, with all errors
// mended, and checks which commands run and what the environment is.
func retry(list []node, flows map[string][]node, e *model.ExecutedFlow, recs []rec) {
	w := &world{healed: true}
	t := w.tree(flows)
	t.AddSub("retry").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return []string{e.Flow}, e.GenExecMasks(), true
	}, "")
	cc, env := kit.NewExec(t)
	env.GetLayer(model.EnvLayerDefault).SetInt("n", 0)
	dir := sub("retry")
	env.GetLayer(model.EnvLayerSession).Set("session", dir)
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, "retry")
	cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, "retry") })
	vnd.Assert(!o.Panicked, "a retry fails: "+o.Text)
	vnd.Assert(ok, "a retry of mended commands does not succeed")
	want := rerun(list, recs)
	vnd.Assert(kit.SameStrs(w.ran, want), "a retry runs "+strings.Join(w.ran, " ")+" and not "+strings.Join(want, " "))
	vnd.Assert(env.GetInt("n") == counter(list, recs, 0), fmt.Sprintf("after a retry the environment is not what the commands that succeeded and those that ran again leave: %d", env.GetInt("n")))

	// The retry is recorded like the run
	got, po := parse(dir)
	vnd.Assert(!po.Panicked, "the status file of a retry cannot be read: "+po.Text)
	vnd.Assert(len(got.Corrupted) == 0 && len(got.Cmds) == 1 && got.Cmds[0].SubFlow != nil, "the status file of a retry does not show the flow")
	n := 0
	whole, _ := expect(list, &n, true)
	same(got.Cmds[0].SubFlow.Cmds, whole, "after the retry")
}

// HRetry: a retry runs exactly the commands that had not succeeded.
func HRetry() {
	list, flows := program()
	dir := sub("run")
	w := &world{errText: "bad"}
	ok, _ := w.run(list, flows, dir)
	vnd.Assume(!ok)
	n := 0
	recs, _ := expect(list, &n, false)
	vnd.Note(flowStr(list) + " f=" + flowStr(flows["f"]) + " g=" + flowStr(flows["g"]))
	e, o := parse(dir)
	vnd.Assume(!o.Panicked && len(e.Corrupted) == 0) // HRun
	retry(list, flows, e, recs)
	vnd.Reach("retried")
}

// HAbort: a run aborted by the user is recorded like a stopped one, and can be
// retried.
func HAbort() {
	flows := map[string][]node{}
	f := []node{leaf(true, "ok", "er", "ab")}
	if vnd.Bool() {
		f = append(f, leaf(true, "ok", "ab"))
	}
	flows["f"] = f
	call := node{name: "f", sub: f, tol: vnd.Bool()}
	var list []node
	switch vnd.Choice(3) {
	case 0:
		list = []node{leaf(true, "ok", "er", "ab"), call, {name: "ok"}}
	case 1:
		g := []node{{name: "ok"}, call, {name: "ok"}}
		flows["g"] = g
		list = []node{{name: "g", sub: g, tol: vnd.Bool()}, leaf(true, "ok", "ab")}
	case 2:
		list = []node{call, leaf(true, "ab"), {name: "ok"}}
	}
	n := 0
	recs, _ := expect(list, &n, false)
	vnd.Assume(aborted(recs))
	dir := sub("run")
	w := &world{errText: "bad"}
	cc, env, input := w.start(list, flows, dir)
	o := kit.Try(func() { cc.Executor.Execute(kit.EntryName, false, cc, env, nil, strings.Fields(input)...) })
	vnd.Note(flowStr(list) + " f=" + flowStr(flows["f"]) + " g=" + flowStr(flows["g"]))
	_, isAbort := o.Val.(*model.AbortByUserErr)
	vnd.Assert(o.Panicked && isAbort, "a run goes on although the user aborted it: "+o.Text)
	e, po := parse(dir)
	vnd.Assert(!po.Panicked, "the status file of an aborted run cannot be read: "+po.Text)
	vnd.Assert(len(e.Corrupted) == 0, "the status file of an aborted run is taken for corrupted")
	same(e.Cmds, recs, "after an abort")
	vnd.Assert(e.Result == model.ExecutedResultIncompleted, "an aborted flow is not recorded as incompleted")
	retry(list, flows, e, recs)
	vnd.Reach("aborted")
}

// post lists the finished commands in the order they finished.
func post(got []*model.ExecutedCmd, open *int) (list []string) {
	for _, c := range got {
		if c.SubFlow != nil {
			list = append(list, post(c.SubFlow.Cmds, open)...)
		}
		if c.Result == model.ExecutedResultIncompleted {
			*open += 1
		} else {
			list = append(list, c.Cmd+"="+string(c.Result))
		}
	}
	return
}

// upTo is what the run had recorded when k commands had finished and s had started.
func upTo(recs []rec, k, s *int) (res []rec) {
	for _, r := range recs {
		if *s == 0 {
			return
		}
		*s -= 1
		r.kids = upTo(r.kids, k, s)
		if *k > 0 {
			*k -= 1
		} else {
			r.done, r.ok = false, false
		}
		res = append(res, r)
	}
	return
}

// cutAt checks what is read from the first size bytes of the file.
func cutAt(data string, size int, list []node, flows map[string][]node, recs []rec, again bool) {
	head := data[:size]
	k, s := strings.Count(head, "</cmd-result>\n"), strings.Count(head, "</cmd>\n")
	dir := sub("stopped")
	err := os.WriteFile(filepath.Join(dir, "status"), []byte(head), 0644)
	vnd.Assert(err == nil, "harness")
	e, o := parse(dir)
	vnd.Assert(!o.Panicked, "the status file of a stopped run cannot be read: "+o.Text)
	vnd.Assert(e != nil && len(e.Corrupted) == 0, "the status file of a stopped run is taken for corrupted")
	vnd.Assert(e.Result != model.ExecutedResultSucceeded || strings.Contains(head, "<flow-result>OK</flow-result>\n"), "a stopped run is taken for succeeded")
	left, started := k, s
	want := upTo(recs, &left, &started)
	same(e.Cmds, want, "after a stop")
	if again {
		retry(list, flows, e, want)
	}
}

func smallProgram() (list []node, flows map[string][]node) {
	flows = map[string][]node{}
	f := []node{{name: "ok"}, leaf(true, "ok", "er")}
	flows["f"] = f
	if vnd.Bool() {
		g := []node{{name: "f", sub: f, tol: vnd.Bool()}, {name: "ok"}}
		flows["g"] = g
		return []node{{name: "g", sub: g}, {name: "ok"}}, flows
	}
	return []node{{name: "ok"}, {name: "f", sub: f, tol: vnd.Bool()}, leaf(false, "ok", "no")}, flows
}

func cut(torn bool) {
	list, flows := smallProgram()
	if torn && !vnd.Thorough() {
		vnd.Assume(len(list) == 3 && flows["f"][1].name == "er" && list[1].tol)
	}
	dir := sub("run")
	w := &world{errText: "bad"}
	w.run(list, flows, dir)
	n := 0
	recs, _ := expect(list, &n, false)
	raw, err := os.ReadFile(filepath.Join(dir, "status"))
	vnd.Assert(err == nil, "harness")
	data := string(raw)
	vnd.Note(flowStr(list) + " f=" + flowStr(flows["f"]) + " g=" + flowStr(flows["g"]))
	// The record of the flow itself is made before any command starts
	var ends []int
	for i := range data {
		if data[i] == '\n' {
			ends = append(ends, i+1)
		}
	}
	from := strings.Index(data, "</flow-start-time>")
	if torn {
		size := from + vnd.Choice(len(data)-from+1)
		cutAt(data, size, list, flows, recs, false)
		return
	}
	size := ends[vnd.Choice(len(ends))]
	vnd.Assume(size > from)
	cutAt(data, size, list, flows, recs, true)
}

// HStop: stopped between any two lines of the file, and retried from there.
func HStop() {
	cut(false)
	vnd.Reach("stopped")
}

// HTorn: stopped at any byte of the file.
func HTorn() {
	cut(true)
	vnd.Reach("torn")
}

// HCrash: stopped before any change of a file, or within a write.
func HCrash() {
	list, flows := smallProgram()
	if !vnd.Thorough() {
		vnd.Assume(len(list) == 3 && list[2].name == "ok" || len(list) == 2 && !list[0].sub[0].tol)
	}
	dir := sub("run")
	w := &world{errText: "bad"}
	n := 0
	recs, _ := expect(list, &n, false)
	crashed := vnd.Crash(func() { w.run(list, flows, dir) })
	vnd.Assume(crashed)
	vnd.Note(flowStr(list) + " f=" + flowStr(flows["f"]) + " g=" + flowStr(flows["g"]))
	raw, _ := os.ReadFile(filepath.Join(dir, "status"))
	data := string(raw)
	started := 0
	for _, name := range []string{"ok", "no", "er"} {
		started += strings.Count(data, "<cmd>"+name+"</cmd>\n")
	}
	vnd.Assert(started >= len(w.ran), "a command runs before the file says so")
	if len(w.ran) == 0 && !strings.Contains(data, "</flow-start-time>\n") {
		return
	}
	vnd.Assert(strings.Count(data, "</cmd-result>\n") >= len(w.ran)-1, "the result of a finished command is lost by a crash")
	cutAt(data, len(data), list, flows, recs, true)
	vnd.Reach("crashed")
}

// HValues: environment values and error messages are read back as they were,
// whatever they contain.
func HValues() {
	parts := []string{"a", " ", "\n", "=", "\\", "n", "</env-start>", "<env-finish>", "</cmd-result>"}
	if vnd.Thorough() {
		parts = append(parts, "<", ">", "/", "\t")
	}
	val := ""
	for i := vnd.Choice(4); i > 0; i-- {
		val += parts[vnd.Choice(len(parts))]
	}
	key := []string{"k", "k.l"}[vnd.Choice(2)]
	nested := vnd.Bool()
	t := kit.NewTree()
	var before, after map[string]string
	t.AddSub("set").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		env.GetLayer(model.EnvLayerSession).Set(key, val)
		return true
	}, "", "")
	t.AddSub("see").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		before = env.Flatten(false, []string{"session", "strs.", "display.", "sys."}, true)
		env.GetLayer(model.EnvLayerSession).Set("seen", "1")
		after = env.Flatten(false, []string{"session", "strs.", "display.", "sys."}, true)
		return true
	}, "", "").AddArg("x", "")
	t.AddSub("f").RegFlowCmd([]string{"set : see x=7"}, "", "")
	cc, env := kit.NewExec(t)
	dir := sub("run")
	input := []string{"set", ":", "see", "x=7"}
	if nested {
		input = []string{"f"}
	}
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
	ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
	cc.FlowStatus.OnFlowFinish(env, ok)
	vnd.Note(fmt.Sprintf("%q=%q", key, val))
	e, o := parse(dir)
	vnd.Assert(!o.Panicked, "the status file of a run cannot be read: "+o.Text)
	vnd.Assert(len(e.Corrupted) == 0, "the status file of a run is taken for corrupted")
	cmds := e.Cmds
	if nested {
		vnd.Assert(len(cmds) == 1 && cmds[0].SubFlow != nil, "the sub-flow is not in the file")
		cmds = cmds[0].SubFlow.Cmds
	}
	vnd.Assert(len(cmds) == 2, "the file has another number of commands than ran")
	see := cmds[1]
	vnd.Assert(see.StartEnv != nil && kit.SameMap(see.StartEnv.FlattenAll(), before), "the environment a command started with is read back differently")
	vnd.Assert(see.FinishEnv != nil && kit.SameMap(see.FinishEnv.FlattenAll(), after), "the environment a command ended with is read back differently")
	vnd.Assert(e.Result == model.ExecutedResultSucceeded, "the result of the flow is not recorded")
	vnd.Reach("values")
}

// HErrors: the message of a failed command is read back line by line.
func HErrors() {
	parts := []string{"", "a", " b ", "\\n", "<error>", "</error>", "    </error>", "<cmd>ok</cmd>", "<", "<error>x</error>"}
	var lines []string
	for i := 1 + vnd.Choice(3); i > 0; i-- {
		lines = append(lines, parts[vnd.Choice(len(parts))])
	}
	w := &world{errText: strings.Join(lines, "\n")}
	f := []node{{name: "er", tol: true}, {name: "ok"}}
	flows := map[string][]node{"f": f}
	list := []node{{name: "er", tol: true}, {name: "ok"}}
	nested := vnd.Bool()
	if nested {
		list = []node{{name: "f", sub: f}}
	}
	dir := sub("run")
	w.run(list, flows, dir)
	vnd.Note(w.errText)
	e, o := parse(dir)
	vnd.Assert(!o.Panicked, "the status file of a run cannot be read: "+o.Text)
	vnd.Assert(len(e.Corrupted) == 0, "the status file of a run is taken for corrupted")
	n := 0
	recs, _ := expect(list, &n, false)
	same(e.Cmds, recs, "after the run")
	cmds := e.Cmds
	if nested {
		cmds = cmds[0].SubFlow.Cmds
	}
	var want []string
	for _, line := range lines {
		want = append(want, strings.TrimSpace(line))
	}
	vnd.Assert(kit.SameStrs(cmds[0].ErrStrs, want), fmt.Sprintf("the error message is read back as %q", cmds[0].ErrStrs))
	vnd.Assert(len(cmds[1].ErrStrs) == 0, "an error message is recorded for another command")
	vnd.Reach("errors")
}

// HFlow: the flow, with the values given on the command line, is read back as
// it was given.
func HFlow() {
	parts := []string{"a", "b c", "x\ny", "</flow>", "<flow>", "\\", "\\n"}
	arg := parts[vnd.Choice(len(parts))]
	if vnd.Bool() {
		arg += parts[vnd.Choice(len(parts))]
	}
	t := kit.NewTree()
	seen := []string{}
	t.AddSub("c").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		seen = append(seen, argv.GetRaw("x"))
		return true
	}, "", "").AddArg("x", "")
	t.AddSub("f").RegFlowCmd([]string{"c [[x]]"}, "", "").AddArg("x", "")
	name := []string{"c", "f"}[vnd.Choice(2)]
	// Inside a flow the value is text of the flow
	vnd.Assume(name == "c" || !strings.ContainsAny(arg, " \n<>\\"))
	input := []string{name, "x=" + arg}
	cc, env := kit.NewExec(t)
	dir := sub("run")
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	vnd.Assume(flow.FirstErr() == nil)
	cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
	text := model.SaveFlowToStr(flow, ".", "^", env)
	ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
	cc.FlowStatus.OnFlowFinish(env, ok)
	vnd.Note(strings.Join(input, "|"))
	e, o := parse(dir)
	vnd.Assert(!o.Panicked, "the status file of a run cannot be read: "+o.Text)
	vnd.Assert(len(e.Corrupted) == 0, "the status file of a run is taken for corrupted")
	vnd.Assert(e.Flow == text, fmt.Sprintf("the flow %q is read back as %q", text, e.Flow))
	vnd.Assert(len(e.Cmds) == 1 && e.Cmds[0].Cmd == name, "the command is not read back")
	vnd.Assert(e.Result == model.ExecutedResultSucceeded, "the result of the flow is not recorded")
	if name == "f" {
		vnd.Assert(e.Cmds[0].SubFlow != nil && e.Cmds[0].SubFlow.Flow == "c x="+arg,
			fmt.Sprintf("the flow of the sub-flow is read back as %q", e.Cmds[0].SubFlow.Flow))
	}
	vnd.Reach("flow")
}

// fileWorld is a command with a flow and a program: how each part ends.
type fileWorld struct {
	ran  []string
	bad  map[string]bool
	dir  string
	unlg bool
}

func (w *fileWorld) tree() *model.CmdTree {
	t := kit.NewTree()
	for _, name := range []string{"a", "b", "r"} {
		name := name
		t.AddSub(name).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			w.ran = append(w.ran, name)
			env.GetLayer(model.EnvLayerSession).Set("k", env.GetRaw("k")+name)
			return !w.bad[name]
		}, "", "")
	}
	script := filepath.Join(w.dir, "p.sh")
	text := "echo ran >> " + w.dir + "/prog\nif [ -e " + w.dir + "/bad ]; then exit 1; fi\n" +
		"k=`grep ^k= $1/env | cut -d= -f2`\necho k=${k}p >> $1/env\n"
	os.WriteFile(script, []byte(text), 0755)
	vnd.OnExec(func(a []string) error {
		old, _ := os.ReadFile(filepath.Join(w.dir, "prog"))
		os.WriteFile(filepath.Join(w.dir, "prog"), []byte(string(old)+"ran\n"), 0644)
		if _, err := os.Stat(filepath.Join(w.dir, "bad")); err == nil {
			return fmt.Errorf("exit status 1")
		}
		data, _ := os.ReadFile(filepath.Join(a[2], "env"))
		k := ""
		for _, line := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(line, "k=") {
				k = line[2:]
			}
		}
		os.WriteFile(filepath.Join(a[2], "env"), []byte(string(data)+"k="+k+"p\n"), 0644)
		return nil
	})
	c := t.AddSub("p").RegFileNFlowCmd([]string{"a : b"}, script, "", "")
	if w.unlg {
		c.SetUnLog()
	}
	t.AddSub("f").RegFlowCmd([]string{"p : r"}, "", "")
	return t
}

func (w *fileWorld) progRuns() int {
	data, _ := os.ReadFile(filepath.Join(w.dir, "prog"))
	return strings.Count(string(data), "\n")
}

func (w *fileWorld) session(t *model.CmdTree, dir string, input ...string) (*model.Cli, *model.Env) {
	cc, env := kit.NewExec(t)
	cc.CmdIO = model.NewCmdIO(nil, nil, nil)
	s := env.GetLayer(model.EnvLayerSession)
	s.Set("session", dir)
	env.GetLayer(model.EnvLayerDefault).Set("strs.session-env-file", "env")
	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
	cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
	return cc, env
}

// HProgram: a command with a flow and a program is recorded with its log and
// both parts, and a retry runs what had not succeeded of them.
func HProgram() {
	dir := sub("work")
	w := &fileWorld{bad: map[string]bool{}, dir: dir, unlg: vnd.Bool()}
	bad := vnd.Choice(5)
	switch bad {
	case 0:
		w.bad["a"] = true
	case 1:
		w.bad["b"] = true
	case 2:
		os.WriteFile(filepath.Join(dir, "bad"), nil, 0644)
	case 3:
		w.bad["r"] = true
	}
	t := w.tree()
	run := sub("run")
	nested := vnd.Bool()
	input := []string{"p", ":", "r"}
	if nested {
		input = []string{"f"}
	}
	cc, env := w.session(t, run, input...)
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Assert(!o.Runtime, "running a flow crashes: "+o.Text)
	vnd.Assert((ok && !o.Panicked) == (bad == 4), "the run does not end as its commands did: "+o.Text)
	e, po := parse(run)
	vnd.Assert(!po.Panicked && len(e.Corrupted) == 0, "the status file of a run cannot be read: "+po.Text)
	cmds := e.Cmds
	if nested {
		vnd.Assert(len(cmds) == 1 && cmds[0].SubFlow != nil, "the sub-flow is not in the file")
		cmds = cmds[0].SubFlow.Cmds
	}
	vnd.Assert(len(cmds) >= 1 && cmds[0].Cmd == "p" && cmds[0].SubFlow != nil, "the command is not in the file with its flow")
	vnd.Assert((len(cmds[0].LogFilePath) != 0) == !w.unlg, "the log of a program is not recorded")
	if !w.unlg {
		vnd.Assert(filepath.Dir(cmds[0].LogFilePath) == run, "the log of a program is recorded elsewhere")
	}
	res := func(c *model.ExecutedCmd, fails bool) {
		want := model.ExecutedResultSucceeded
		if fails {
			want = model.ExecutedResultError
		}
		vnd.Assert(c.Result == want, "a command is recorded with the wrong result: "+c.Cmd+" "+string(c.Result))
	}
	res(cmds[0], bad < 3)
	if bad == 3 || bad == 4 {
		vnd.Assert(len(cmds) == 2, "a command that ran is not in the file")
		res(cmds[1], bad == 3)
	}
	vnd.Assert(w.progRuns() == map[bool]int{false: 0, true: 1}[bad >= 2], "the program runs once, after its flow")

	// Retry with everything mended
	w.bad, w.ran = map[string]bool{}, nil
	os.Remove(filepath.Join(dir, "bad"))
	os.Remove(filepath.Join(dir, "prog"))
	t.AddSub("retry").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return []string{e.Flow}, e.GenExecMasks(), true
	}, "")
	again := sub("again")
	cc, env = w.session(t, again, "retry")
	o = kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, "retry") })
	vnd.Assert(!o.Panicked && ok, "a retry fails: "+o.Text)
	want := [][]string{{"a", "b", "r"}, {"b", "r"}, {"r"}, {"r"}, nil}[bad]
	vnd.Assert(kit.SameStrs(w.ran, want), "a retry runs "+strings.Join(w.ran, " "))
	vnd.Assert(w.progRuns() == map[bool]int{false: 0, true: 1}[bad < 3], "a retry runs the program although it had succeeded, or does not run it")
	vnd.Assert(env.GetRaw("k") == "abpr", "after a retry the environment is "+env.GetRaw("k"))
	vnd.Reach("program")
}

var results = map[bool]model.ExecutedResult{true: model.ExecutedResultError, false: model.ExecutedResultSucceeded}

// inner checks the commands in the record of a flow.
func inner(c *model.ExecutedCmd, want ...string) {
	vnd.Assert(c.SubFlow != nil && len(c.SubFlow.Cmds) == len(want), "the commands of a flow are not in the file")
	for i := range want {
		d := c.SubFlow.GetCmd(i)
		vnd.Assert(d != nil && d.Cmd+"="+string(d.Result) == want[i], "a command run in the background of a flow is not recorded as it ended")
	}
}

// HDelayed: commands run in the background are recorded with their own
// results, whether they have finished or not, and a retry runs again only
// those that had not succeeded.
func HDelayed() {
	vnd.Preempt(0)
	bad := map[string]bool{}
	ran := map[string]int{}
	var lock sync.Mutex
	var half *model.ExecutedFlow
	var halfOut kit.Outcome
	t := kit.NewTree()
	for _, name := range []string{"a", "b", "c"} {
		name := name
		t.AddSub(name).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			lock.Lock()
			defer lock.Unlock()
			ran[name]++
			if name == "c" && half == nil {
				half, halfOut = parse(sub("run"))
			}
			if bad[name] {
				panic(fmt.Errorf("bad %s", name))
			}
			return true
		}, "", "")
	}
	t.AddSub("f").RegFlowCmd([]string{"a : b"}, "", "")
	t.AddSub("g").RegFlowCmd([]string{"a %delay=1s : b"}, "", "")
	bad["a"] = vnd.Bool()
	bad["c"] = vnd.Bool()
	input := [][]string{
		{"a", "%delay=1s", ":", "b", ":", "c"},
		{"b", ":", "f", "%delay=1s", ":", "c"},
		{"a", "%delay=1s", ":", "c", "%delay=1s"},
		{"g", ":", "c"},
	}[vnd.Choice(4)]
	text := strings.Join(input, " ")
	vnd.Note(text)
	run := func(dir string, input ...string) (*model.Cli, *model.Env, kit.Outcome, []error) {
		cc, env := kit.NewExec(t)
		cc.CmdIO = model.NewCmdIO(nil, os.Stdout, os.Stdout)
		env.GetLayer(model.EnvLayerSession).Set("session", dir)
		flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
		cc.SetFlowStatusWriter(model.NewExecutingFlow(filepath.Join(dir, "status"), flow, env))
		env.GetLayer(model.EnvLayerDefault).Set("strs.session-status-file", "status")
		var errs []error
		o := kit.Try(func() {
			ok := cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...)
			cc.FlowStatus.OnFlowFinish(env, ok)
		})
		o2 := kit.Try(func() { errs = builtin.WaitBgTasks(cc, env, false) })
		vnd.Assert(!o2.Panicked, "waiting for background commands fails: "+o2.Text)
		return cc, env, o, errs
	}
	dir := sub("run")
	run(dir, input...)
	e, po := parse(dir)
	vnd.Assert(!po.Panicked && len(e.Corrupted) == 0, "the status file of a run cannot be read: "+po.Text)
	for i, c := range e.Cmds {
		d := e.GetCmd(i)
		vnd.Assert(d != nil, "a command run in the background is not in the file")
		fails := bad[c.Cmd] || c.Cmd == "f" && bad["a"]
		if c.Cmd == "g" {
			inner(c, "a="+string(results[bad["a"]]), "b=OK")
			fails = bad["a"]
		}
		want := model.ExecutedResultSucceeded
		if fails {
			want = model.ExecutedResultError
		}
		vnd.Assert(d.Cmd == c.Cmd && d.Result == want, "a command is recorded as "+string(d.Result)+": "+c.Cmd)
		vnd.Assert(c.Result == want, "a command run in the background is recorded as "+string(c.Result)+": "+c.Cmd)
		vnd.Assert(c.IsDelay == strings.Contains(text+" ", c.Cmd+" %delay=1s "), "a command run in the background is not recorded so, or the other way round")
	}
	vnd.Assert(len(e.Cmds) == strings.Count(text, ":")+1, "the file has another number of commands than ran")
	// What was in the file while they ran
	vnd.Assert(!halfOut.Panicked && half != nil && len(half.Corrupted) == 0, "the status file of a running flow cannot be read: "+halfOut.Text)
	for i, c := range half.Cmds {
		d := half.GetCmd(i)
		vnd.Assert(d != nil && c.Cmd == e.Cmds[i].Cmd, "a command run in the background is not in the file while it runs")
		if c.Cmd == "g" && c.SubFlow.GetCmd(0).Result == model.ExecutedResultIncompleted {
			vnd.Assert(c.Result == model.ExecutedResultIncompleted, "a flow is recorded as "+string(c.Result)+" while a command of it still runs in the background")
		}
		vnd.Assert(d.Result == model.ExecutedResultIncompleted || d.Result == e.GetCmd(i).Result, "a command is recorded as "+string(d.Result)+" while it runs: "+c.Cmd)
	}
	first := map[string]int{}
	for k, v := range ran {
		first[k] = v
	}
	failed := map[string]bool{"a": bad["a"] && ran["a"] > 0, "c": bad["c"]}
	ran, bad = map[string]int{}, map[string]bool{}
	again := sub("again")
	t.AddSub("retry").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return []string{e.Flow}, e.GenExecMasks(), true
	}, "")
	vnd.Preempt(-1)
	_, _, o, errs := run(again, "retry")
	vnd.Assert(!o.Panicked && len(errs) == 0, "a retry fails: "+o.Text)
	for _, name := range []string{"a", "b", "c"} {
		if !strings.Contains(text, name) && !strings.ContainsAny(text, "fg") {
			continue
		}
		times := first[name]
		if strings.Contains(text, "g") {
			want := map[string]int{}
			for k, v := range failed {
				if v {
					want[k] = 1
				}
			}
			vnd.Assert(ran[name] == want[name], fmt.Sprintf("a retry runs %s %d times", name, ran[name]))
			continue
		}
		again := ran[name]
		if failed[name] {
			vnd.Assert(again == times, "a retry does not run the command that failed: "+name)
		} else if times > 0 && !(name == "b" && strings.Contains(text, "f") && bad["a"]) {
			n := strings.Count(" "+text+" ", " "+name+" ")
			if strings.Contains(text, "f") && name != "c" {
				n++
			}
			vnd.Assert(again == n-times, "a retry runs a command that had succeeded: "+name)
		}
	}
	vnd.Reach("delayed")
}
