// C29: the exit status of a run and its exit hooks tell how it ended.
package c29

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type world struct {
	*kit.Program
	ran  []string
	outs map[string]int
}

const (
	good = iota
	refuses
	fails
	failsWithText
)

func start() *world {
	w := &world{Program: kit.NewProgram(), outs: map[string]int{}}
	for _, name := range []string{"qa", "qb", "qboot", "qdone", "qerror", "qexit"} {
		name := name
		w.Add(name, func(argv model.ArgVals, env *model.Env) bool {
			w.ran = append(w.ran, name)
			switch w.outs[name] {
			case refuses:
				return false
			case fails:
				panic(fmt.Errorf("%s is broken", name))
			case failsWithText:
				panic(name + " is broken")
			}
			return true
		}).AddArg("x", "")
	}
	w.AddFlow("qflow", "qa : qb")
	return w
}

// end is what is known when the program ends.
type end struct {
	code  int
	ran   string
	shown string
}

// run runs the program and gives what is known at its end to then.
func (w *world) run(then func(e end), input ...string) {
	vnd.Note(strings.Join(input, " "))
	done := func(code int) { then(end{code, strings.Join(w.ran, " "), w.Out.String()}) }
	vnd.OnExit(done)
	ok := false
	o := kit.Try(func() { ok = w.RunCli(input...) })
	vnd.Assert(!o.Panicked, "the program ends in a crash: "+o.Text)
	vnd.Assert(ok, "a failure that does not end the program with a status")
	done(0)
}

var programs = [][]string{
	{"qa"},
	{"qa", ":", "qb"},
	{"qflow"},
	{"qa", "%err=ok", ":", "qb"},
	{"qflow", "%err=ok"},
	{"qb", ":", "qa", "%err=ok"},
	{"{k=v}", "qa", ":", "qflow"},
}

// want is what has to run and whether the run succeeds.
func (w *world) want(input []string) (ran []string, ok bool) {
	for _, cmd := range strings.Split(strings.Join(input, " "), ":") {
		cmd = strings.TrimSpace(strings.Replace(cmd, "{k=v}", "", 1))
		tolerated := strings.HasSuffix(cmd, "%err=ok")
		cmd = strings.TrimSpace(strings.TrimSuffix(cmd, "%err=ok"))
		cmds := []string{cmd}
		if cmd == "qflow" {
			cmds = []string{"qa", "qb"}
		}
		for _, it := range cmds {
			ran = append(ran, it)
			if w.outs[it] != good {
				if !tolerated {
					return ran, false
				}
				break
			}
		}
	}
	return ran, true
}

// check adds the hooks that have to run. Whether the one of the exit is run
// when the one before it fails is left open.
func (w *world) check(e end, ran []string, ok bool, hooks map[string]bool) {
	first := "qdone"
	if !ok {
		first = "qerror"
	}
	for _, it := range []string{first, "qexit"} {
		if !hooks[it] {
			continue
		}
		ran = append(append([]string{}, ran...), it)
		if w.outs[it] != good {
			ok = false
			break
		}
	}
	open := strings.Join(ran, " ")
	if hooks["qexit"] && ran[len(ran)-1] == first {
		open += " qexit"
	}
	vnd.Assert(e.ran == strings.Join(ran, " ") || e.ran == open, "ran other commands than it has to: "+e.ran)
	vnd.Assert((e.code == 0) == ok, fmt.Sprint("ends with the status ", e.code))
}

func (w *world) hook(d *model.Env, hooks map[string]bool, name string) {
	d.Set("sys.event.hook."+name, "q"+name)
	hooks["q"+name] = true
}

// HEnd: programs of commands that end in every way, with hooks.
func HEnd() {
	w := start()
	d := w.Env.GetLayer(model.EnvLayerDefault)
	hooks := map[string]bool{}
	for _, name := range []string{"done", "error", "exit"} {
		if vnd.Bool() {
			w.hook(d, hooks, name)
		}
	}
	input := programs[vnd.Choice(len(programs))]
	w.outs["qa"] = vnd.Choice(4)
	if strings.Contains(strings.Join(input, " "), "b") || strings.Contains(strings.Join(input, " "), "f") {
		w.outs["qb"] = vnd.Choice(4)
	}
	ran, ok := w.want(input)
	w.run(func(e end) {
		w.check(e, ran, ok, hooks)
		vnd.Reach("end")
		if !ok {
			vnd.Reach("failed")
		}
	}, input...)
}

// HHooks: hooks that fail or are flows, set by the defaults, by the program
// itself or in the first place.
func HHooks() {
	w := start()
	d := w.Env.GetLayer(model.EnvLayerDefault)
	hooks := map[string]bool{}
	var input []string
	for _, name := range []string{"done", "error", "exit"} {
		switch vnd.Choice(4) {
		case 0:
			w.hook(d, hooks, name)
		case 1:
			hooks["q"+name] = true
			input = append(input, "hook."+name, "flow=q"+name, ":")
		case 2:
			hooks["q"+name] = true
			input = append(input, "env.set", "key=sys.event.hook."+name, "value=q"+name, ":")
		}
		if hooks["q"+name] {
			w.outs["q"+name] = vnd.Choice(2) * (1 + len(name)%3)
		}
	}
	w.outs["qa"] = vnd.Choice(2) * fails
	w.run(func(e end) {
		w.check(e, []string{"qa"}, w.outs["qa"] == good, hooks)
		vnd.Reach("hooks")
	}, append(input, "qa")...)
}

// HOther: command lines that run no command of a session, and failures before.
func HOther() {
	w := start()
	d := w.Env.GetLayer(model.EnvLayerDefault)
	hooks := map[string]bool{}
	for _, name := range []string{"done", "error", "exit"} {
		w.hook(d, hooks, name)
	}
	switch vnd.Choice(6) {
	case 0:
		w.run(func(e end) {
			vnd.Assert(e.code == 0 && e.ran == "", "a call without commands fails")
			vnd.Reach("nothing")
		}, [][]string{nil, {""}, {"{k=v}"}, {":"}}[vnd.Choice(4)]...)
	case 1:
		input := [][]string{{"qzzz"}, {"qa", ":", "qzzz"}, {"qzzz", ":", "qa"}, {"qa", ":", "qb.qzzz"}}[vnd.Choice(4)]
		w.run(func(e end) {
			vnd.Assert(e.code != 0, "an unknown command is taken as success")
			vnd.Assert(!strings.Contains(e.ran, "qa") && !strings.Contains(e.ran, "qb"), "commands run although another one is unknown")
			vnd.Reach("unknown")
		}, input...)
	case 2:
		w.outs["qboot"] = vnd.Choice(4)
		w.InjectBootstrap("qboot")
		w.run(func(e end) {
			if w.outs["qboot"] == good {
				w.check(e, []string{"qboot", "qa"}, true, hooks)
			} else {
				vnd.Assert(e.code != 0, "a failed start is taken as success")
				vnd.Assert(!strings.Contains(e.ran, "qa"), "commands run although the start failed")
			}
			vnd.Reach("boot")
		}, "qa")
	case 3:
		w.outs["qa"] = vnd.Choice(4)
		input := [][]string{{"qa", "%delay=1s", ":", "qb"}, {"qa", "%delay=1s"}}[vnd.Choice(2)]
		vnd.Preempt(0)
		w.run(func(e end) {
			ok := w.outs["qa"] == good
			vnd.Assert((e.code == 0) == ok, "the end of a background command is not in the status")
			want := "qdone qexit"
			if !ok {
				want = "qerror qexit"
			}
			vnd.Assert(strings.HasSuffix(e.ran, want), "the hooks do not follow the background commands: "+e.ran)
			vnd.Assert(strings.Count(e.ran, "qa") == 1, "a background command runs "+e.ran)
			vnd.Reach("background")
		}, input...)
	case 5:
		vnd.Preempt(0)
		d.SetBool("sys.session.disable", vnd.Bool())
		w.run(func(e end) {
			vnd.Assert(e.code == 0, "a builtin command in the background fails")
			vnd.Reach("builtin in the background")
		}, [][]string{{"noop", "%delay=1s"}, {"noop", "%delay=1s", ":", "noop"}}[vnd.Choice(2)]...)
	case 4:
		w.outs["qa"] = 1 + vnd.Choice(2)
		d.SetBool("sys.bg.wait", false)
		d.SetBool("sys.session.disable", vnd.Bool())
		w.run(func(e end) {
			vnd.Assert(e.code != 0, "a failed command is taken as success")
			vnd.Reach("no session")
		}, "qb", ":", "qa")
	}
}
