// C33: break points pause where they are set, and a choice does what it says.
package c33

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

var flows = map[string][]string{"qf": {"qa", "qb"}, "qg": {"qf", "qc"}, "qh": {"qc", "qf"},
	"qk": {"break", "qa"}, "qm": {"qa", "break"}, "qn": {"qa", "qb"}}

func start(dir string) *kit.Program {
	p := kit.NewProgramIn(dir)
	for _, name := range []string{"qa", "qb", "qc"} {
		name := name
		p.Add(name, func(argv model.ArgVals, env *model.Env) bool {
			p.Out.WriteString("\nRAN " + name + "\n")
			return true
		})
	}
	for _, name := range []string{"qf", "qg", "qh", "qk", "qm"} {
		p.AddFlow(name, strings.Join(flows[name], " : "))
	}
	path := filepath.Join(dir, "qn.sh")
	os.WriteFile(path, []byte("#!/bin/sh\necho\necho RAN qn\n"), 0755)
	p.Cmds.AddSub("qn").RegFileNFlowCmd(flows["qn"], path, "flow and file", "")
	vnd.OnExec(func(args []string) error {
		p.Out.WriteString("\nRAN qn\n")
		return nil
	})
	return p
}

// model of what is to happen.
type sim struct {
	before, after map[string]bool
	choices       []string
	next          bool // pause before the next command
	here          bool // a "break" was met
	atEnd         bool // pause after the last command
	over          bool // the user ended the run
	log           []string
}

func (s *sim) ask(allowed string) string {
	for {
		if len(s.choices) == 0 {
			// No more input: the run ends
			return "q"
		}
		c := s.choices[0]
		s.choices = s.choices[1:]
		if c != "" && strings.Contains(allowed, c) {
			return c
		}
	}
}

func (s *sim) run(flow []string) {
	for _, name := range flow {
		if s.over {
			return
		}
		sub, isFlow := flows[name]
		switch name {
		case "break":
			s.here = true
			continue
		case "break.clear":
			s.before = map[string]bool{}
			s.after = map[string]bool{}
			s.atEnd = false
			continue
		case "break.list", "{k=v}":
			continue
		}
		if s.before[name] || s.next || s.here {
			s.log = append(s.log, "before")
			allowed := "sdcq"
			if isFlow {
				allowed += "t"
			}
			s.next = false
			s.here = false
			switch s.ask(allowed) {
			case "q":
				s.over = true
				return
			case "s":
				s.next = true
				s.leave(name)
				continue
			case "d":
				s.exec(name, sub)
				s.next = !s.over
				s.leave(name)
				continue
			case "t":
				s.next = true
			}
		}
		s.exec(name, sub)
		s.leave(name)
	}
}

func (s *sim) exec(name string, sub []string) {
	if len(sub) == 0 {
		s.log = append(s.log, "RAN "+name)
		return
	}
	s.run(sub)
	if name != "qn" || s.over {
		return
	}
	if s.next {
		s.log = append(s.log, "inside")
		s.next = false
		switch s.ask("sdcq") {
		case "q":
			s.over = true
			return
		case "s":
			s.next = true
			return
		case "d":
			s.next = true
		}
	}
	s.log = append(s.log, "RAN qn")
}

func (s *sim) end() {
	if s.over || !s.atEnd && !s.here {
		return
	}
	s.log = append(s.log, "end")
	if s.ask("cq") == "q" {
		s.over = true
	}
}

func (s *sim) leave(name string) {
	if s.over || !s.after[name] {
		return
	}
	s.log = append(s.log, "after")
	switch s.ask("dcq") {
	case "q":
		s.over = true
	case "d":
		s.next = true
	case "c":
		s.next = false
	}
}

func events(out string) (res []string) {
	for _, line := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(line, "RAN "):
			res = append(res, line)
		case strings.Contains(line, "paused by") && strings.Contains(line, "after command"):
			res = append(res, "after")
		case strings.Contains(line, "paused by") && strings.Contains(line, "pre-executing subflow done"):
			res = append(res, "inside")
		case strings.Contains(line, "paused by") && strings.Contains(line, "end"):
			res = append(res, "end")
		case strings.Contains(line, "paused by"):
			res = append(res, "before")
		}
	}
	return
}

// play runs a line and compares what happens with the model.
func play(dir string, setup, line, choices []string, s *sim) {
	s.choices = choices
	input := append([]string{}, setup...)
	input = append(input, strings.Split(strings.Join(line, " : "), " ")...)
	vnd.Note(strings.Join(input, " ") + " <- " + strings.Join(choices, ""))
	stdin := filepath.Join(dir, "stdin")
	os.WriteFile(stdin, []byte(strings.Join(choices, "\n")+"\n"), 0644)
	f, _ := os.Open(stdin)
	os.Stdin = f
	s.run(line)
	s.end()

	p := start(dir)
	check := func(ok bool) {
		got := events(p.Out.String())
		vnd.Assert(kit.SameStrs(got, s.log), "happened: "+strings.Join(got, ",")+"\nwanted: "+strings.Join(s.log, ","))
		vnd.Assert(ok == !s.over, "the program ends otherwise: "+p.Out.String())
		if ok {
			vnd.Reach("done")
		} else {
			vnd.Reach("quit")
		}
	}
	vnd.OnExit(func(code int) { check(code == 0) })
	check(p.RunCli(input...))
}

func point(s *sim, before, after string) (setup []string) {
	s.before, s.after = map[string]bool{}, map[string]bool{}
	if before != "" {
		setup = append(setup, "break.before", before, ":")
		for _, name := range strings.Split(before, ",") {
			s.before[name] = true
		}
	}
	if after != "" {
		setup = append(setup, "break.after", after, ":")
		for _, name := range strings.Split(after, ",") {
			s.after[name] = true
		}
	}
	return
}

func choose(n int, alphabet string) (choices []string) {
	for i := 0; i < n; i++ {
		choices = append(choices, vnd.StrOf(alphabet, 1, 1))
	}
	return
}

var goOn = strings.Split(strings.Repeat("c", 15), "")

// HChoose: every short sequence of choices at every pause.
func HChoose() {
	dir := vnd.TempDir()
	lines := [][]string{{"qa", "qf", "qc"}, {"qg", "qa"}, {"qh", "qb"}, {"qa", "qb"}}
	points := []string{"", "qa", "qf", "qg,qb", "qb", "qc"}
	nlines, npoints, n := 3, 4, 2
	if vnd.Thorough() {
		nlines, npoints, n = 4, 6, 4
	}
	line := lines[vnd.Choice(nlines)]
	before := points[vnd.Choice(npoints)]
	after := points[vnd.Choice(3)]
	vnd.Assume(before != "" || after != "")
	s := &sim{}
	setup := point(s, before, after)
	play(dir, setup, line, append(choose(n, "csdtqx"), goOn...), s)
}

// HHere: "break" as a command, quiet commands in the line and the pause at the end.
func HHere() {
	dir := vnd.TempDir()
	cmds := []string{"qa", "break", "qk", "qm", "break.list", "{k=v}", "break.clear"}
	ncmds, n := 5, 2
	if vnd.Thorough() {
		ncmds, n = 7, 3
	}
	line := []string{"qb"}
	for i := 0; i < 2; i++ {
		line = append(line, cmds[vnd.Choice(ncmds)])
	}
	line = append(line, []string{"qb", "qc", "break"}[vnd.Choice(3)])
	s := &sim{}
	setup := point(s, "qb", "")
	if vnd.Choice(2) == 1 {
		s.atEnd = true
		setup = append(setup, "break.at.end", ":")
	}
	play(dir, setup, line, append(choose(n, "csdtq"), goOn...), s)
}

// HInside: a command which runs a flow and then a file.
func HInside() {
	dir := vnd.TempDir()
	line := [][]string{{"qn", "qc"}, {"qc", "qn"}, {"qc", "qn", "qc"}}[vnd.Choice(3)]
	s := &sim{}
	setup := point(s, []string{"qn", "qc", "qb", "qa"}[vnd.Choice(4)], []string{"", "qb", "qn"}[vnd.Choice(3)])
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	play(dir, setup, line, append(choose(n, "csdtq"), goOn...), s)
}

// HNoInput: when no one answers, the run ends with an error.
func HNoInput() {
	dir := vnd.TempDir()
	line := [][]string{{"qa", "qf", "qc"}, {"qf"}, {"qn", "qa"}}[vnd.Choice(3)]
	s := &sim{}
	setup := point(s, []string{"qa", "qf", "qb"}[vnd.Choice(3)], []string{"", "qa"}[vnd.Choice(2)])
	if vnd.Choice(2) == 1 {
		s.atEnd = true
		setup = append(setup, "break.at.end", ":")
	}
	play(dir, setup, line, choose(vnd.Choice(3), "csdtx"), s)
}
