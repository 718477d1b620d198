// C35: the frames shown while a flow runs tell where the run is.
package c35

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

var flows = map[string][]string{
	"qf": {"qa", "qb"},
	"qg": {"qb", "qf", "qq", "qc"},
	"qh": {"qa"},
	"qy": {"qc", "qb"},
}

func isQuiet(name string) bool { return name == "qq" || name == "qy" }

// model of the frames which are to be shown
type sim struct {
	cnt       int
	end       bool
	quietOnes bool
	oneCmd    bool
	off       bool
	fails     string
	failed    bool
	log       []string
}

func (s *sim) visible(name string) bool {
	return !strings.HasPrefix(name, "{") && (s.quietOnes || !isQuiet(name))
}

func base(name string) string { return strings.Split(name, " ")[0] }

// frame says how a flow is shown when the command idx of it is about to run.
func (s *sim) frame(shown []string, idx int, stack []string) string {
	from, to := 0, len(shown)
	if len(shown) > s.cnt {
		from = idx - s.cnt/2
		if from < 0 {
			from = 0
		}
		if from+s.cnt > len(shown) {
			from = len(shown) - s.cnt
		}
		to = from + s.cnt
	}
	res := "FRAME " + strings.Join(stack, "/") + ":"
	for i := from; i < to; i++ {
		name := base(shown[i])
		_, isFlow := flows[name]
		switch {
		case i+1 == to && to != len(shown):
			res += " ..."
			continue
		case i == from && i != 0:
			res += " ..."
		case i == idx:
			res += " >>" + name
		default:
			res += " " + name
		}
		if name != shown[i] {
			res += " =" + shown[i][strings.Index(shown[i], "x=")+2:]
		}
		if isFlow && i <= idx {
			res += " -->"
		}
		if isFlow && i < idx {
			res += " <--"
		}
	}
	return res
}

func (s *sim) run(flow []string, stack []string) {
	var shown []string
	for _, name := range flow {
		if s.visible(name) {
			shown = append(shown, name)
		}
	}
	idx := -1
	for _, full := range flow {
		if s.failed {
			return
		}
		name := base(full)
		visible := s.visible(name)
		if visible {
			idx++
		}
		display := visible && !s.off && (len(shown) > 1 || s.oneCmd || len(stack) > 1)
		if display {
			s.log = append(s.log, s.frame(shown, idx, stack))
		}
		if sub, ok := flows[name]; ok {
			s.run(sub, append(append([]string{}, stack...), name))
		} else if !strings.HasPrefix(name, "{") {
			s.log = append(s.log, "RAN "+name)
			s.failed = name == s.fails
		}
		if display && s.end && (len(shown) > 1 || s.oneCmd) {
			if s.failed {
				s.log = append(s.log, "FAIL "+name)
			} else {
				s.log = append(s.log, "OK "+name)
			}
		}
	}
}

// events reads what was shown.
func events(out string) (res []string) {
	clean := func(line string) string {
		line = strings.TrimSuffix(strings.TrimPrefix(line, "│"), "│")
		return strings.TrimRight(line, " ")
	}
	lines := strings.Split(out, "\n")
	for i := 0; i < len(lines); i++ {
		line := lines[i]
		if strings.HasPrefix(line, "RAN ") {
			res = append(res, line)
		}
		if !strings.HasPrefix(line, "┌") {
			continue
		}
		var body []string
		for i++; i < len(lines) && !strings.HasPrefix(lines[i], "└"); i++ {
			body = append(body, lines[i])
		}
		if len(body) == 1 {
			fields := strings.Fields(clean(body[0]))
			switch {
			case len(fields) > 1 && fields[0] == "✓":
				res = append(res, "OK "+fields[1])
			case len(fields) > 1 && fields[0] == "✘":
				res = append(res, "FAIL "+fields[1])
			default:
				res = append(res, "BOX "+clean(body[0]))
			}
			continue
		}
		stack, flow := "<entry>", ""
		kind := ""
		for _, line := range body {
			if strings.HasPrefix(line, "├") {
				kind = ""
				continue
			}
			if !strings.HasPrefix(line, "│ ") {
				flow += " BROKEN"
				continue
			}
			line = clean(line)
			first := kind == ""
			for _, name := range []string{"env", "stack", "flow"} {
				if first && strings.HasSuffix(line, "  "+name) {
					kind = name
					line = strings.TrimRight(strings.TrimSuffix(line, name), " ")
				}
			}
			fields := strings.Fields(line)
			switch kind {
			case "":
				kind = "?"
			case "stack":
				if first {
					stack = ""
				} else {
					stack += "/"
				}
				stack += fields[len(fields)-1]
			case "flow":
				switch {
				case len(fields) == 0:
					// An env definition on its own has no name
				case fields[0] == ">>":
					flow += " >>" + strings.Join(fields[1:], " ")
				case fields[0] == "--->>>":
					flow += " -->"
				case fields[0] == "<<<---":
					flow += " <--"
				case len(fields) == 3 && fields[0] == "x" && fields[1] == "=":
					flow += " =" + fields[2]
				default:
					flow += " " + strings.Join(fields, " ")
				}
			}
		}
		res = append(res, "FRAME "+stack+":"+flow)
	}
	return
}

func play(s *sim, settings string, line []string) {
	p := kit.NewProgram()
	for _, name := range []string{"qa", "qb", "qc", "qq"} {
		name := name
		cmd := p.Add(name, func(argv model.ArgVals, env *model.Env) bool {
			p.Out.WriteString("\nRAN " + name + "\n")
			return name != s.fails
		})
		if isQuiet(name) {
			cmd.SetQuiet()
		}
		if name == "qc" {
			cmd.AddArg("x", "0")
		}
	}
	for _, name := range []string{"qf", "qg", "qh", "qy"} {
		cmd := p.AddFlow(name, strings.Join(flows[name], " : "))
		if isQuiet(name) {
			cmd.SetQuiet()
		}
	}
	var input []string
	if settings != "" {
		input = append(input, strings.Split(settings+" :", " ")...)
	}
	input = append(input, strings.Split(strings.Join(line, " : "), " ")...)
	vnd.Note(strings.Join(input, " ") + " fails: " + s.fails)
	s.run(line, []string{"<entry>"})
	check := func(ok bool) {
		got := events(p.Out.String())
		vnd.Assert(kit.SameStrs(got, s.log), "shown:\n"+strings.Join(got, "\n")+"\nwanted:\n"+strings.Join(s.log, "\n"))
		vnd.Assert(ok == !s.failed, "the program ends otherwise: "+p.Out.String())
		if ok {
			vnd.Reach("done")
		} else {
			vnd.Reach("failed")
		}
	}
	vnd.OnExit(func(code int) { check(code == 0) })
	check(p.RunCli(input...))
}

// HMark: the command which runs is marked, whatever stands before it.
func HMark() {
	s := &sim{cnt: 14}
	cmds := []string{"qa", "qq", "{k=v}", "qf", "qc x=" + vnd.StrOf("abc", 1, 1), "qy", "qh", "qg"}
	n, ncmds := 3, 6
	if vnd.Thorough() {
		n, ncmds = 4, 8
	}
	var line []string
	for i := 0; i < n; i++ {
		line = append(line, cmds[vnd.Choice(ncmds)])
	}
	settings := ""
	switch vnd.Choice(3) {
	case 1:
		s.end = true
		settings = "{display.executor.end=true}"
	case 2:
		s.oneCmd = true
		settings = "{display.one-cmd=true}"
	}
	play(s, settings, line)
}

// HWindow: a long flow is shown in part, the running command always among it.
func HWindow() {
	s := &sim{}
	n := 7
	if vnd.Thorough() {
		n = 11
	}
	digits := vnd.StrOf("0123456789", 1, 2)
	for i := 0; i < len(digits); i++ {
		s.cnt = s.cnt*10 + int(digits[i]-'0')
	}
	if s.cnt < 4 {
		s.cnt = 4
	}
	line := []string{}
	for len(line) < n {
		line = append(line, []string{"qa", "qb", "qc", "qh"}[len(line)%4])
	}
	// One of them is another one
	at := vnd.Choice(n)
	line[at] = []string{"qq", "qc x=" + vnd.StrOf("abc", 1, 1), "qf"}[vnd.Choice(3)]
	play(s, "{display.max-cmd-cnt="+digits+"}", line)
}

// HResult: the result of each command, also when it fails, and what the settings turn off.
func HResult() {
	s := &sim{cnt: 14}
	cmds := []string{"qa", "qq", "qg", "qf", "qc x=" + vnd.StrOf("abc", 1, 1), "qy", "qh"}
	n, ncmds := 2, 5
	if vnd.Thorough() {
		n, ncmds = 3, 7
	}
	var line []string
	for i := 0; i < n; i++ {
		line = append(line, cmds[vnd.Choice(ncmds)])
	}
	s.fails = []string{"", "qa", "qb", "qc", "qq"}[vnd.Choice(5)]
	settings := ""
	on := func(key, val string) bool {
		if vnd.Choice(2) == 0 {
			return false
		}
		settings += " " + key + "=" + val
		return true
	}
	s.end = on("display.executor.end", "true")
	s.oneCmd = on("display.one-cmd", "true")
	s.quietOnes = on("display.mod.quiet", "true")
	s.off = on("display.executor", "false")
	if settings != "" {
		settings = "{" + settings[1:] + "}"
	}
	play(s, settings, line)
}
