// C32: session commands work on exactly the sessions they are asked for.
package c32

import (
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// entry is what may be in the directory of the sessions.
type entry struct {
	name    string
	session bool
	running bool
	expired bool
	read    bool // its status can be read
	result  string
	flow    string
	cmds    int
}

const gone = 5000000

func status(flow string, result string, cmds int, ts time.Time) string {
	at := ts.Format("2006-01-02 15:04:05")
	res := "<flow>\n" + flow + "\n</flow>\n<flow-start-time>" + at + "</flow-start-time>\n"
	for i := 0; i < cmds; i++ {
		res += "<cmd>qa</cmd>\n<cmd-start-time>" + at + "</cmd-start-time>\n"
		if result != "" {
			res += "<cmd-finish-time>" + at + "</cmd-finish-time>\n<cmd-result>" + result + "</cmd-result>\n"
		}
	}
	if result != "" {
		res += "<flow-finish-time>" + at + "</flow-finish-time>\n<flow-result>" + result + "</flow-result>\n"
	}
	return res
}

const kinds = 8

var other int

// put makes the i-th entry, later ones are newer.
func put(root string, i int, kind int) *entry {
	e := &entry{session: true, read: true, flow: "qa", cmds: 1}
	pid := gone + i
	age := time.Hour
	switch kind {
	case 0:
		e.result = "OK"
	case 1:
		e.result, e.flow, e.expired = "ERR", "qb x=k", true
	case 2:
		pid, e.running, e.flow = os.Getpid(), true, "qa : qb"
	case 3:
		pid, e.running, e.expired = 1, true, true
	case 4:
		e.flow = "qa : qb"
	case 5:
		e.read, e.expired = false, true
	case 6:
		e.cmds, e.flow = 0, "qb"
	case 7:
		e.session = false
	}
	if e.expired {
		age = 3000 * time.Hour
	}
	ts := time.Now().Add(-age).Add(time.Minute * time.Duration(i))
	e.name = ts.Format("20060102-150405") + "." + strconv.Itoa(pid)
	if !e.session {
		e.name = []string{"backup", "20200913-122709", "20200913-122709.5000000.old", "notes.5000000"}[vnd.Choice(other)]
	}
	os.MkdirAll(filepath.Join(root, e.name), 0755)
	if e.read {
		os.WriteFile(filepath.Join(root, e.name, "status"), []byte(status(e.flow, e.result, e.cmds, ts)), 0644)
	}
	return e
}

type world struct {
	*kit.Program
	root    string
	entries []*entry
}

func start(n int) *world {
	dir := vnd.TempDir()
	w := &world{Program: kit.NewProgramIn(dir), root: filepath.Join(dir, "sessions")}
	w.Add("qa", func(argv model.ArgVals, env *model.Env) bool { return true })
	w.Add("qb", func(argv model.ArgVals, env *model.Env) bool { return true }).AddArg("x", "")
	os.MkdirAll(w.root, 0755)
	other = 2
	if vnd.Thorough() {
		n, other = 3, 4
	}
	for i := 0; i < n; i++ {
		kind := vnd.Choice(kinds)
		vnd.Note("entry " + strconv.Itoa(kind))
		e := put(w.root, i, kind)
		for _, it := range w.entries {
			vnd.Assume(it.name != e.name)
		}
		w.entries = append(w.entries, e)
	}
	sort.Slice(w.entries, func(i, j int) bool { return w.entries[i].name < w.entries[j].name })
	return w
}

func (w *world) run(input ...string) bool {
	vnd.OnExit(func(code int) { vnd.Assert(false, "the program fails: "+w.Out.String()) })
	return w.RunCli(input...)
}

// left asserts that exactly the entries for which gone is false are left.
func (w *world) left(gone func(e *entry) bool, more int) {
	found, _ := os.ReadDir(w.root)
	names := map[string]bool{}
	for _, it := range found {
		names[it.Name()] = true
	}
	want := 0
	for i, e := range w.entries {
		if gone(e) {
			vnd.Assert(!names[e.name], "entry "+strconv.Itoa(i)+" is still there")
			vnd.Reach("removed")
			continue
		}
		want++
		vnd.Assert(names[e.name], "entry "+strconv.Itoa(i)+" is lost")
		data, err := os.ReadFile(filepath.Join(w.root, e.name, "status"))
		vnd.Assert(e.read == (err == nil) && (!e.read || strings.Contains(string(data), e.flow)), "a status is lost")
	}
	vnd.Assert(len(names) == want+more, "other entries are made or lost")
}

// shows asserts that exactly the entries for which in is true are shown, the
// last of them when there is a limit, in the order of their starts.
func (w *world) shows(in func(e *entry) bool, limit int) {
	var want []string
	for _, e := range w.entries {
		if in(e) {
			want = append(want, e.name)
		}
	}
	if limit > 0 && len(want) > limit {
		want = want[len(want)-limit:]
	}
	var got []string
	for _, line := range strings.Split(w.Out.String(), "\n") {
		for _, e := range w.entries {
			if strings.HasPrefix(line, "["+e.name+"]") {
				got = append(got, e.name)
			}
		}
	}
	vnd.Assert(kit.SameStrs(got, want), "shown: "+strconv.Itoa(len(got))+" wanted: "+strconv.Itoa(len(want)))
	if len(want) > 0 {
		vnd.Reach("shown")
	}
}

func none(e *entry) bool { return false }

// word is a text to search for, no part of a session id.
func word() string { return vnd.StrOf("qabxkz", 1, 2) }

// another is the id, or one that is not the same.
func another(id string) (string, bool) {
	switch vnd.Choice(3) {
	case 1:
		n := []int{4, 8, 15, len(id) - 1}[vnd.Choice(4)]
		if n >= len(id) {
			n = len(id) - 1
		}
		return id[:n], false
	case 2:
		return id + "0", false
	}
	return id, true
}

// HRemove: removing takes the sessions asked for and never a running one, if
// it isn't forced.
func HRemove() {
	op := vnd.Choice(6)
	w := start(2)
	switch op {
	case 0:
		w.run("sessions.remove.all")
		w.left(func(e *entry) bool { return e.session && !e.running }, 0)
	case 1, 2:
		i := vnd.Choice(3)
		id, force := "20200913-122709.77", op == 2
		if i < 2 {
			id = w.entries[i].name
		}
		id, exact := another(id)
		if vnd.Bool() {
			id = "[" + id + "]"
		}
		input := []string{"sessions.remove", "session-id=" + id}
		if force {
			input = append(input, "remove-running=true")
		}
		w.run(input...)
		w.left(func(e *entry) bool {
			return exact && i < 2 && e == w.entries[i] && e.session && e.read && (force || !e.running)
		}, 0)
	case 3, 4:
		find, force := word(), op == 4
		input := []string{"sessions.remove.by-search", "find-str=" + find}
		if force {
			input = append(input, "remove-running=true")
		}
		w.run(input...)
		w.left(func(e *entry) bool {
			return e.session && e.read && strings.Contains(e.flow, find) && (force || !e.running)
		}, 0)
	case 5:
		w.run("sessions.remove.by-search", "qb", "x")
		w.left(func(e *entry) bool {
			return e.session && e.read && strings.Contains(e.flow, "qb") && strings.Contains(e.flow, "x") && !e.running
		}, 0)
	}
}

// HClean: a new run removes the sessions that ended before the keeping time,
// and none else.
func HClean() {
	w := start(2)
	keep := vnd.Choice(3)
	input := []string{"qa"}
	switch keep {
	case 1:
		input = []string{"{sys.sessions.keep-status-duration=4000h}", ":", "qa"}
	case 2:
		input = []string{"{sys.sessions.keep-status-duration=10m}", ":", "qa"}
	}
	w.run(input...)
	w.left(func(e *entry) bool {
		return e.session && !e.running && (keep == 0 && e.expired || keep == 2)
	}, 1)
}

func failed(e *entry) bool { return e.result != "OK" && !e.running }

// HList: lists show the sessions of a kind that match all words, and change
// nothing.
func HList() {
	op := vnd.Choice(9)
	w := start(2)
	input := [][]string{{"sessions"}, {"sessions.error"}, {"sessions.done"}, {"sessions.running"}, {"sessions", "max-count=1"}, {"sessions", "max-count=0"},
		{"sessions.error", "max-count=1"}, {"sessions.done", "max-count=1"}, {"sessions.running", "max-count=1"}}[op]
	find := ""
	if vnd.Bool() {
		find = word()
		input = append(input, "find-str="+find)
	}
	w.run(input...)
	limit := 0
	if op == 4 || op > 5 {
		limit = 1
	}
	w.shows(func(e *entry) bool {
		if !e.session || !e.read || !strings.Contains(e.flow, find) {
			return false
		}
		switch op {
		case 1, 6:
			return failed(e)
		case 2, 7:
			return e.result == "OK"
		case 3, 8:
			return e.running
		}
		return true
	}, limit)
	w.left(none, 0)
}

// HLast: the last session is the newest one that ran a command.
func HLast() {
	op := vnd.Choice(4)
	w := start(2)
	input := [][]string{{"sessions.last"}, {"qa", ":", "sessions.last"}, {"sessions.status", "session-id="}, {"sessions.desc", "session-id="}}[op]
	more := 0
	asked := func(e *entry) bool { return e.session && e.read && e.cmds > 0 }
	if op == 1 {
		// The run of qa cleans first
		more = 1
		asked = func(e *entry) bool { return e.session && e.read && e.cmds > 0 && (!e.expired || e.running) }
	}
	if op >= 2 {
		i := vnd.Choice(len(w.entries))
		id, exact := another(w.entries[i].name)
		input[1] += id
		asked = func(e *entry) bool { return exact && e == w.entries[i] && e.session && e.read }
	}
	w.run(input...)
	if op < 3 {
		w.shows(asked, 1)
	} else {
		for _, e := range w.entries {
			vnd.Assert(strings.Contains(w.Out.String(), "["+e.name+"]") == asked(e), "another session is described")
		}
	}
	w.left(func(e *entry) bool { return op == 1 && e.session && e.expired && !e.running }, more)
}
