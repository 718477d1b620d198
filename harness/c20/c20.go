// C20: background tasks are all waited for, and never reported twice or
// wrongly.
package c20

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// task is what the main flow knows about a task it started.
type task struct {
	tid    string
	cmd    string
	err    error
	reaped bool

	lock sync.Mutex
	done bool
}

func (t *task) finish() {
	t.lock.Lock()
	defer t.lock.Unlock()
	t.done = true
}

func (t *task) finished() bool {
	t.lock.Lock()
	defer t.lock.Unlock()
	return t.done
}

type world struct {
	cc    *model.Cli
	env   *model.Env
	tasks []*task
	out   *bytes.Buffer
	fails int
	slow  bool
}

func (w *world) start() {
	n := len(w.tasks)
	t := &task{tid: fmt.Sprintf("%d", n+5), cmd: vnd.StrOf("ab", 1, 1)}
	if w.fails>>uint(n)&1 == 1 {
		t.err = fmt.Errorf("error of %d", n)
	}
	w.tasks = append(w.tasks, t)
	stdout := model.NewBgStdout()
	ready := make(chan bool, 1)
	go func() {
		bg := w.cc.BgTasks.GetOrAddTask(t.tid, t.cmd, t.cmd, stdout)
		ready <- true
		bg.OnStart()
		if w.slow {
			// The main flow goes on before the command writes
			time.Sleep(time.Millisecond)
		}
		stdout.Write([]byte("1" + t.tid + ";"))
		stdout.Write([]byte("2" + t.tid + ";"))
		t.finish()
		bg.OnFinish(t.err)
	}()
	<-ready
}

func (w *world) alive(cmd string) (list []*task) {
	for _, t := range w.tasks {
		if !t.reaped && (cmd == "" || t.cmd == cmd) {
			list = append(list, t)
		}
	}
	return
}

// reap waits for one task and checks what comes of it.
func (w *world) reap(tid string, bg *model.BgTask, among []*task) {
	var got *task
	for _, t := range among {
		if t.tid == tid {
			got = t
		}
	}
	vnd.Assert(got != nil, "the task to wait for is another one, or was waited for before")
	var errs []error
	o := kit.Try(func() { errs = builtin.WaitBgTask(w.cc, w.env, tid, bg) })
	vnd.Assert(!o.Panicked, "waiting for a task fails: "+o.Text)
	w.over(got, errs)
}

func (w *world) over(t *task, errs []error) {
	vnd.Assert(t.finished(), "waiting returns before the task has finished")
	if t.err == nil {
		vnd.Assert(len(errs) == 0, "waiting for a task reports an error that is not its own")
	} else {
		vnd.Assert(len(errs) == 1 && errs[0] == t.err, "waiting for a task does not report its error")
	}
	t.reaped = true
}

// check compares the list of tasks with those not waited for.
func (w *world) check() {
	infos := w.cc.BgTasks.GetStat()
	alive := w.alive("")
	vnd.Assert(len(infos) == len(alive), "the list of tasks is not the tasks that were not waited for")
	for i, t := range alive {
		vnd.Assert(infos[i].Tid == t.tid && infos[i].Cmd == t.cmd, "the list of tasks has another one")
		vnd.Assert(!infos[i].Finished || t.finished() && infos[i].Err == t.err, "a task is reported as finished wrongly")
		vnd.Assert(infos[i].Started || !infos[i].Finished, "a task has finished but not started")
	}
	tid, bg, ok := w.cc.BgTasks.GetEarliestTask()
	vnd.Assert(ok == (len(alive) > 0) && (!ok || tid == alive[0].tid && bg != nil), "the earliest task is another one")
}

// HHistory: every short history of starting up to three tasks and waiting for
// the latest one or for one by its command, and in the end for all.
func HHistory() {
	vnd.Preempt(0)
	steps := 6
	if vnd.Thorough() {
		steps = 7
	}
	history(3, steps, false)
	vnd.Reach("history")
}

// HSwitch: the same with two tasks, where the threads switch at any lock.
func HSwitch() {
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	vnd.Preempt(n)
	history(2, 4, vnd.Bool())
	vnd.Reach("switch")
}

func history(max int, steps int, slow bool) {
	cc, env := kit.NewExec(kit.NewTree())
	w := &world{cc: cc, env: env, out: bytes.NewBuffer(nil), slow: slow}
	cc.CmdIO = model.NewCmdIO(nil, w.out, w.out)
	w.fails = []int{5, 2, 7}[vnd.Choice(max)]
	hist := ""
	for i := 0; i < steps; i++ {
		op := vnd.Choice(4)
		hist += fmt.Sprint(op)
		if op == 3 {
			break
		}
		found := true
		switch op {
		case 0:
			vnd.Assume(len(w.tasks) < max)
			w.start()
		case 1:
			tid, bg, ok := cc.BgTasks.GetLatestTask()
			alive := w.alive("")
			vnd.Assert(ok == (len(alive) > 0), "the latest task is not found")
			if found = ok; ok {
				w.reap(tid, bg, alive[len(alive)-1:])
			}
		case 2:
			cmd := vnd.StrOf("ab", 1, 1)
			tid, bg, ok := cc.BgTasks.GetTaskByCmd(cmd)
			alive := w.alive(cmd)
			vnd.Assert(ok == (len(alive) > 0), "a command that is not in the background is found there, or one that is is not")
			if found = ok; ok {
				w.reap(tid, bg, alive)
			}
		}
		w.check()
		if !found {
			break
		}
	}
	vnd.Note(hist)
	var errs []error
	o := kit.Try(func() { errs = builtin.WaitBgTasks(cc, env, true) })
	vnd.Assert(!o.Panicked, "waiting for all tasks fails: "+o.Text)
	for _, t := range w.alive("") {
		var own []error
		if t.err != nil {
			vnd.Assert(len(errs) > 0, "waiting for all tasks does not report an error")
			own, errs = errs[:1], errs[1:]
		}
		w.over(t, own)
	}
	vnd.Assert(len(errs) == 0, "waiting for all tasks reports an error that is of no task")
	w.check()
	for _, t := range w.tasks {
		for _, s := range []string{"1", "2"} {
			vnd.Assert(strings.Count(w.out.String(), s+t.tid+";") == 1, "the output of a task is shown once: "+w.out.String())
		}
	}
}

// HFlow: command lines that start commands in the background and wait for them.
func HFlow() {
	vnd.Preempt(0)
	flow()
	vnd.Reach("flow")
}

// HFlowSwitch: the same where the threads switch at any lock or channel.
func HFlowSwitch() {
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	vnd.Preempt(n)
	simple = true
	flow()
	vnd.Reach("flow")
}

var simple bool

func flow() {
	out := bytes.NewBuffer(nil)
	var lock sync.Mutex
	ran := map[string]int{}
	ended := map[string]int{}
	outcome := map[string]int{}
	t := kit.NewTree()
	builtin.RegisterBgManageCmds(t)
	for _, name := range []string{"a", "b", "c"} {
		name := name
		t.AddSub(name).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
			lock.Lock()
			ran[name]++
			lock.Unlock()
			cc.Screen.Print("<" + name + ">")
			vnd.Yield()
			lock.Lock()
			ended[name]++
			lock.Unlock()
			switch outcome[name] {
			case 1:
				return false
			case 2:
				panic(fmt.Errorf("error of %s", name))
			case 3:
				panic("text of " + name)
			case 4:
				var m map[string]int
				m[name] = 1
			}
			return true
		}, "", "")
	}
	allow := false
	if simple {
		outcome["a"] = []int{0, 2}[vnd.Choice(2)]
	} else {
		outcome["a"] = vnd.Choice(5)
		outcome["b"] = []int{0, 2}[vnd.Choice(2)]
		allow = vnd.Bool()
	}
	programs := []struct {
		flow string
		// times each command has run when its wait is over
		a, b, c int
		left    int
	}{
		{"a D1 : b D2 : background.wait", 1, 1, 0, 0},
		{"a D2 : b D1 : background.wait.last : background.wait", 1, 1, 0, 0},
		{"a D1 : b D2 : background.wait.command a : background.wait.command a : c", 1, 1, 1, 1},
		{"b D1 : a D2 : background.wait.command a : b D1 : background.wait.last : background.wait.command c", 1, 2, 0, 1},
		{"a D1 : background.wait.last : a D1 : background.wait.command a", 2, 0, 0, 0},
		{"background.wait : c : a D2 : b D1 : c", 1, 1, 2, 2},
		{"background.wait.last : c D1", 0, 0, 1, 1},
	}
	if simple {
		programs = programs[4:5]
		programs = append(programs, programs[0], programs[0])
		programs[1].flow, programs[1].a = "a D1 : background.wait", 1
		programs[2].flow, programs[2].a = "a D1 : background.wait.command a", 1
	}
	n := vnd.Choice(len(programs))
	p := programs[n]
	vnd.Assume(!allow || strings.Contains(p.flow, "a D"))
	var input []string
	for _, w := range strings.Fields(p.flow) {
		if w == "D1" || w == "D2" {
			if allow && input[len(input)-1] == "a" {
				input = append(input, "%err=ok")
			}
			w = "%delay=" + w[1:]
		}
		input = append(input, w)
	}
	vnd.Note(fmt.Sprint(n, outcome["a"], outcome["b"], allow))
	cc, env := kit.NewExec(t)
	cc.Screen = model.NewStdScreen(out, out)
	cc.CmdIO = model.NewCmdIO(nil, out, out)
	env.GetLayer(model.EnvLayerSession).Set("session", vnd.TempDir())
	env.GetLayer(model.EnvLayerDefault).Set("strs.session-status-file", "status")
	env.GetLayer(model.EnvLayerSession).SetBool("sys.panic.recover", true)
	env.GetLayer(model.EnvLayerDefault).Set("display.width", "160")
	env.GetLayer(model.EnvLayerDefault).Set("display.tip", "true")
	var ok bool
	o := kit.Try(func() { ok = cc.Executor.Execute(kit.EntryName, false, cc, env, nil, input...) })
	vnd.Assert(!o.Panicked && ok, "a flow that runs commands in the background fails: "+o.Text)
	infos := cc.BgTasks.GetStat()
	vnd.Assert(len(infos) == p.left, "the commands that were not waited for are others")
	var errs []error
	o = kit.Try(func() { errs = builtin.WaitBgTasks(cc, env, false) })
	vnd.Assert(!o.Panicked && len(cc.BgTasks.GetStat()) == 0, "waiting for all tasks fails: "+o.Text)
	want := map[string]int{"a": p.a, "b": p.b, "c": p.c}
	for name, times := range want {
		vnd.Assert(ran[name] == times && ended[name] == times, "a command does not run once each time it is started: "+name)
		vnd.Assert(strings.Count(out.String(), "<"+name+">") == times, "the output of a command is not shown once: "+name)
	}
	reported := map[string]int{}
	for name, text := range map[string]string{"a": []string{"", "", "error of a", "text of a", "nil map"}[outcome["a"]], "b": "error of b"} {
		if text == "" {
			continue
		}
		reported[name] = strings.Count(out.String(), text)
		for _, err := range errs {
			if strings.Contains(err.Error(), text) {
				reported[name]++
			}
		}
	}
	if !allow {
		if outcome["a"] >= 2 {
			vnd.Assert(reported["a"] == p.a, "the error of a background command is not reported once")
		}
		if outcome["a"] == 1 {
			vnd.Assert(strings.Count(out.String()+fmt.Sprint(errs), "delay-command fail") == p.a, "the failure of a background command is not reported once")
		}
	}
	if outcome["b"] == 2 {
		vnd.Assert(reported["b"] == p.b, "the error of a background command is not reported once")
	} else {
		vnd.Assert(reported["b"] == 0, "an error is reported of a command without")
	}
}

// HEnd: the program ends only after its background commands, and ends well
// only if they all did.
func HEnd() {
	n := 0
	if vnd.Thorough() {
		n = 1
	}
	vnd.Preempt(n)
	p := kit.NewProgram()
	var lock sync.Mutex
	ended := map[string]int{}
	outcome := map[string]int{"a": vnd.Choice(3), "b": vnd.Choice(2), "c": vnd.Choice(2) * 2}
	for _, name := range []string{"qa", "qb", "qc"} {
		name := name
		p.Add(name, func(argv model.ArgVals, env *model.Env) bool {
			if name != "qc" {
				vnd.Yield()
			}
			lock.Lock()
			ended[name]++
			lock.Unlock()
			switch outcome[name[1:]] {
			case 1:
				panic(fmt.Errorf("error of %s", name))
			case 2:
				return false
			}
			return true
		})
	}
	lines := []string{"qa %delay=1 : qb %delay=2 : qc", "qa %delay=1 : qc : qb %delay=1", "qf : qc", "qf : qb %delay=1"}
	p.AddFlow("qf", "qa %delay=1")
	line := lines[vnd.Choice(len(lines))]
	started := map[string]bool{}
	for _, w := range strings.Fields(strings.Replace(line, "qf", "qa", 1)) {
		if strings.HasPrefix(w, "q") {
			started[w] = true
			if w == "qc" && outcome["c"] != 0 {
				break
			}
		}
	}
	well := true
	for name := range started {
		well = well && outcome[name[1:]] == 0
	}
	vnd.Note(fmt.Sprint(line, outcome["a"], outcome["b"], outcome["c"]))
	check := func(ok bool) {
		for _, name := range []string{"qa", "qb", "qc"} {
			want := 0
			if started[name] {
				want = 1
			}
			vnd.Assert(ended[name] == want, fmt.Sprint("the program ends after ", name, " has ended ", ended[name], " times"))
			if want == 1 && outcome[name[1:]] == 1 {
				vnd.Assert(strings.Contains(p.Out.String(), "error of "+name), "the error of a command is not shown: "+name)
			}
		}
		vnd.Assert(ok == well, "the program ends well or not otherwise than its commands")
		vnd.Reach("end")
	}
	vnd.OnExit(func(code int) { check(code == 0) })
	check(p.RunCli(strings.Fields(line)...))
}
