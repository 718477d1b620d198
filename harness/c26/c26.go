// C26: hub commands change only the repositories they name and delete only
// disabled ones.
package c26

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const host = "https://github.com/"

// What the repositories list: qw lists z and q, z lists q, itself and two
// branches of y.
var lists = map[string][]string{
	host + "v/qw": {host + "v/z", host + "v/q"},
	host + "v/z":  {host + "v/q", host + "v/z", host + "v/y#dev", host + "v/y"},
}

type entry struct {
	addr string // empty for a local directory
	path string
	why  string
	on   bool
}

type world struct {
	dir, hub string
	cc       *model.Cli
	env      *model.Env
	repos    []entry
}

func start() *world {
	w := &world{dir: vnd.TempDir()}
	w.hub = filepath.Join(w.dir, "hub")
	remote := filepath.Join(w.dir, "remote")
	bin := filepath.Join(w.dir, "bin")
	os.MkdirAll(remote, 0755)
	os.MkdirAll(bin, 0755)
	for addr, subs := range lists {
		text := "[repos]\n"
		for _, sub := range subs {
			text += sub + " = text\n"
		}
		os.WriteFile(filepath.Join(remote, filepath.Base(addr)), []byte(text), 0644)
	}
	// clone --recursive ADDRESS [-b BRANCH] PATH, or pull
	os.WriteFile(filepath.Join(bin, "git"), []byte("#!/bin/sh\nif [ $1 = clone ]; then\nif [ $4 = -b ]; then set clone -r $3 $6; fi\n/bin/mkdir -p $4\nn=`/usr/bin/basename $3`\n"+
		"if [ -e "+remote+"/$n ]; then /bin/cp "+remote+"/$n $4/"+ticat.ReposFileName+"; fi\necho x > $4/file\nfi\n"), 0755)
	os.Setenv("PATH", bin)
	vnd.OnExec(func(a []string) error {
		if a[1] != "clone" {
			return nil
		}
		path := a[len(a)-1]
		os.MkdirAll(path, 0755)
		data, err := os.ReadFile(filepath.Join(remote, filepath.Base(a[3])))
		if err == nil {
			os.WriteFile(filepath.Join(path, ticat.ReposFileName), data, 0644)
		}
		return os.WriteFile(filepath.Join(path, "file"), []byte("x\n"), 0644)
	})
	t := kit.NewTree()
	builtin.RegisterHubManageCmds(t)
	w.cc, w.env = kit.NewExec(t)
	d := w.env.GetLayer(model.EnvLayerDefault)
	d.Set("sys.paths.hub", w.hub)
	d.Set("strs.hub-file-name", ticat.HubFileName)
	d.Set("strs.repos-file-name", ticat.ReposFileName)
	d.Set("strs.mods-repo-ext", ticat.ModsRepoExt)
	os.MkdirAll(w.local(), 0755)
	os.WriteFile(filepath.Join(w.local(), "file"), []byte("x\n"), 0644)
	return w
}

func (w *world) local() string { return filepath.Join(w.dir, "wz") }

func (w *world) path(addr string) string {
	branch := "default"
	if i := strings.Index(addr, "#"); i >= 0 {
		addr, branch = addr[:i], addr[i+1:]
	}
	return filepath.Join(w.hub, "github.com", strings.ToLower(addr[len(host):]), branch+".branch")
}

func (w *world) run(input ...string) (ok bool) {
	o := kit.Try(func() {
		ok = w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, input...)
	})
	vnd.Assert(!o.Runtime, "a hub command ends with an internal error")
	return ok && !o.Panicked
}

func (w *world) find(addr, path string) int {
	for i, it := range w.repos {
		if it.addr == addr && (addr != "" || it.path == path) {
			return i
		}
	}
	return -1
}

// fetch adds the repositories that addr lists.
func (w *world) fetch(addr, why string, done map[string]bool) {
	if done[addr] {
		return
	}
	done[addr] = true
	for _, sub := range lists[strings.ToLower(addr)] {
		if w.find(sub, "") < 0 {
			w.repos = append(w.repos, entry{sub, w.path(sub), why, true})
		}
		w.fetch(sub, why, done)
	}
}

func (w *world) off() map[string]bool {
	done := map[string]bool{}
	for _, it := range w.repos {
		if it.addr != "" && !it.on {
			done[it.addr] = true
		}
	}
	return done
}

func name(it entry) string {
	if it.addr != "" {
		return it.addr
	}
	return it.path
}

// chosen tells which entries a search text of enable and disable means.
func (w *world) chosen(text string) (list []int) {
	for i, it := range w.repos {
		if name(it) == text {
			return []int{i}
		}
	}
	for i, it := range w.repos {
		if strings.Contains(name(it), text) {
			list = append(list, i)
		}
	}
	return
}

func exists(path string) bool {
	_, err := os.Stat(filepath.Join(path, "file"))
	return err == nil
}

func (w *world) texts() (list []string) {
	for _, it := range w.repos {
		list = append(list, fmt.Sprint(it.addr, " ", it.path, " ", it.on))
	}
	sort.Strings(list)
	return
}

// check compares the list file and the directories with what they should be.
func (w *world) check() {
	infos, _ := meta.ReadReposInfoFile(w.hub, filepath.Join(w.hub, ticat.HubFileName), true, ticat.ProtoSep)
	var got []string
	for _, it := range infos {
		got = append(got, fmt.Sprint(it.Addr.Str(), " ", it.Path, " ", it.OnOff == "on"))
	}
	sort.Strings(got)
	want := w.texts()
	for i := 1; i < len(got); i++ {
		vnd.Assert(got[i] != got[i-1], "a repository is in the list twice")
	}
	vnd.Assert(len(got) >= len(want), "a repository is lost from the list")
	vnd.Assert(kit.SameStrs(got, want), "the list has other repositories or states than it should")
	vnd.Assert(exists(w.local()), "a local directory was deleted")
	for _, it := range w.repos {
		vnd.Assert(exists(it.path), "the directory of a listed repository was deleted")
	}
}

func (w *world) text() string {
	switch vnd.Choice(4) {
	case 0:
		return host + "v/q"
	case 1:
		return host + "v/qw"
	case 2:
		return host + "v/y"
	}
	return vnd.StrOf("qwzQ", 1, 1)
}

func (w *world) step(kind int) string {
	switch kind {
	case 0: // add a repository
		repo := []string{"v/q", "v/qw", "V/Q", "v/z"}[vnd.Choice(4)]
		addr := host + repo
		if i := w.find(addr, ""); i >= 0 {
			w.repos[i].on = true
		} else {
			w.repos = append(w.repos, entry{addr, w.path(addr), addr, true})
		}
		w.fetch(addr, addr, w.off())
		vnd.Assert(w.run("hub.add", repo), "a repository can't be added")
		return "add " + repo
	case 1: // add a local directory
		path := w.local()
		i := w.find("", path)
		if vnd.Bool() {
			// The directory of a repository
			path = w.path(host + "v/q")
			i = -1
			cnt := 0
			for k, it := range w.repos {
				if it.path == path {
					i = k
					cnt++
				}
			}
			// Which one of two spellings is meant is open
			vnd.Assume(cnt < 2)
		}
		able := exists(path)
		if able {
			if i >= 0 {
				w.repos[i].on = true
			} else {
				w.repos = append(w.repos, entry{"", path, "<local>", true})
			}
		}
		vnd.Assert(w.run("hub.add.local", path) == able, "a local directory can't be added")
		return "add.local " + path[len(w.dir):]
	case 2, 3: // enable, disable
		text := w.text()
		list := w.chosen(text)
		for _, i := range list {
			w.repos[i].on = kind == 2
		}
		cmd := []string{"hub.enable", "hub.disable"}[kind-2]
		vnd.Assert(w.run(cmd, text) == (len(list) != 0), "switching repositories fails, or does not when there are none")
		return cmd + " " + text
	case 4, 5: // purge
		text := ""
		if kind == 4 {
			text = w.text()
		}
		var keep, gone []entry
		exact := w.find(text, "")
		if exact >= 0 && w.repos[exact].on {
			exact = -1
		}
		for i, it := range w.repos {
			match := strings.Contains(it.addr, text) || strings.Contains(it.path, text) || it.why != it.addr && strings.Contains(it.why, text)
			if exact >= 0 {
				match = i == exact
			}
			if match && !it.on {
				gone = append(gone, it)
			} else {
				keep = append(keep, it)
			}
		}
		w.repos = keep
		ok := false
		if kind == 4 {
			ok = w.run("hub.purge", text)
		} else {
			ok = w.run("hub.purge.all")
		}
		vnd.Assert(ok == (len(gone) != 0), "purging fails, or does not when there is nothing to purge")
		for _, it := range gone {
			used := it.addr == ""
			for _, other := range keep {
				used = used || other.path == it.path
			}
			vnd.Assert(used || !exists(it.path), "the directory of a purged repository is still there")
			if used {
				vnd.Reach("shared")
			}
		}
		vnd.Reach("purge")
		return "purge " + text
	case 6: // update
		done := w.off()
		for _, it := range append([]entry{}, w.repos...) {
			if it.addr != "" {
				w.fetch(it.addr, it.addr, done)
			}
		}
		vnd.Assert(w.run("hub.update"), "the hub can't be updated")
		return "update"
	}
	w.repos = nil
	w.run("hub.clear")
	return "clear"
}

func history(steps int) {
	w := start()
	vnd.Assert(w.run("hub.add", "v/qw") && w.run("hub.add.local", w.local()), "a repository can't be added")
	w.repos = []entry{{host + "v/qw", w.path(host + "v/qw"), host + "v/qw", true}}
	w.fetch(host+"v/qw", host+"v/qw", map[string]bool{})
	w.repos = append(w.repos, entry{"", w.local(), "<local>", true})
	w.check()
	notes := ""
	for i := 0; i < steps; i++ {
		notes += w.step(vnd.Choice(8)) + "; "
		w.check()
	}
	vnd.Note(notes)
	vnd.Reach("history")
}

// HHistory: every sequence of commands.
func HHistory() {
	history(2)
}

// HPurge: a repository is switched off, anything happens, then it is purged.
func HPurge() {
	w := start()
	w.run("hub.add", "v/qw")
	w.run("hub.add.local", w.local())
	w.repos = []entry{{host + "v/qw", w.path(host + "v/qw"), host + "v/qw", true}}
	w.fetch(host+"v/qw", host+"v/qw", map[string]bool{})
	w.repos = append(w.repos, entry{"", w.local(), "<local>", true})
	notes := w.step(3) + "; "
	w.check()
	notes += w.step(vnd.Choice(4)) + "; "
	w.check()
	notes += w.step(4 + vnd.Choice(2))
	w.check()
	if vnd.Bool() {
		notes += w.step(6)
		w.check()
	}
	vnd.Note(notes)
	vnd.Reach("history")
}

// HSpelling: one of two spellings of a repository is purged.
func HSpelling() {
	w := start()
	for _, repo := range []string{"v/q", "V/Q"} {
		w.run("hub.add", repo)
		w.repos = append(w.repos, entry{host + repo, w.path(host + repo), host + repo, true})
	}
	w.check()
	for i := range w.repos {
		if vnd.Bool() {
			w.repos[i].on = false
			vnd.Assert(w.run("hub.disable", w.repos[i].addr), "a repository can't be disabled")
		}
	}
	w.check()
	notes := w.step(4)
	w.check()
	notes += w.step(4 + vnd.Choice(3))
	w.check()
	vnd.Note(notes)
}

// HDeepHistory: longer sequences.
func HDeepHistory() {
	history(3)
}
