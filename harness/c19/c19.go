// C19: the hub repository list is read back as saved and addresses map to
// paths one to one.
package c19

import (
	"os"
	"path/filepath"
	"strings"

	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/ticat"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

const root = "/r1/hub"

// plain reports whether a text can be a field of the list.
func plain(s string) bool { return strings.IndexAny(s, "\t\r\n") < 0 }

func sameText(got, want string) bool {
	if plain(want) {
		return got == want
	}
	return plain(got) && kit.SameStrs(strings.Fields(got), strings.Fields(want))
}

func read(hub, path string) (infos []meta.RepoInfo, list map[string]bool, o kit.Outcome) {
	o = kit.Try(func() {
		infos, list = meta.ReadReposInfoFile(hub, path, true, ticat.ProtoSep)
	})
	return
}

// HList: any list is read back as it was saved, and a list that can't be saved
// leaves the old one as it was.
func HList() {
	file := filepath.Join(vnd.TempDir(), "list")
	old := []meta.RepoInfo{{meta.RepoAddr{"old", ""}, "old", "/r1/hub/old", "h", "on"}}
	meta.WriteReposInfoFile(root, file, old, ticat.ProtoSep)
	max := 3
	if vnd.Thorough() {
		max = 4
	}
	one := meta.RepoInfo{meta.ParseRepoAddr(vnd.StrOf("a#/:\t", 0, max)), "<local>", "/r1/hub/x", "", "on"}
	switch vnd.Choice(3) {
	case 0:
		one.HelpStr = vnd.StrOf("a \t\n\r\\", 0, max)
	case 1:
		one.AddReason = vnd.StrOf("a \t\n", 0, max)
		one.Path = []string{"/r1/hub", "/r1/hub2/y", "/x/r1/hub", "/r1/hu"}[vnd.Choice(4)]
	case 2:
		one.Path = "/" + vnd.StrOf("ab\t\n ", 1, max)
	}
	other := meta.RepoInfo{meta.RepoAddr{"https://h/b", "dev"}, "r", "/r1/hub/b", "help of b", "disabled"}
	infos := [][]meta.RepoInfo{{one}, {one, other}, {other, one}, {other, one, other}}[vnd.Choice(4)]
	wrote := kit.Try(func() { meta.WriteReposInfoFile(root, file, infos, ticat.ProtoSep) })
	got, list, o := read(root, file)
	vnd.Assert(!o.Panicked, "a list that was saved can't be read")
	vnd.Note(one.Addr.Addr + "|" + one.Addr.Branch + "|" + one.HelpStr + "|" + one.AddReason + "|" + one.Path)
	if wrote.Panicked {
		vnd.Assert(!wrote.Runtime, "saving a list ends with an internal error")
		vnd.Assert(!plain(one.Addr.Str()) || !plain(one.Path), "a list is refused that could be saved")
		vnd.Assert(len(got) == 1 && got[0] == old[0], "a list that can't be saved replaced the old one")
		vnd.Reach("refused")
		return
	}
	vnd.Assert(len(got) == len(infos), "the number of repositories changed")
	for i, it := range got {
		want := infos[i]
		vnd.Assert(it.Addr == want.Addr, "the address of a repository changed")
		vnd.Assert(it.Path == want.Path, "the path of a repository changed")
		vnd.Assert(it.OnOff == want.OnOff, "the state of a repository changed")
		vnd.Assert(sameText(it.HelpStr, want.HelpStr), "the help text of a repository changed")
		vnd.Assert(sameText(it.AddReason, want.AddReason), "the reason of a repository changed")
		vnd.Assert(list[want.Addr.Str()], "a repository is not in the set of addresses")
	}
	vnd.Reach("saved")
}

// HMove: the paths inside of the hub move with it, others stay.
func HMove() {
	file := filepath.Join(vnd.TempDir(), "list")
	path := vnd.StrOf("/hubr1", 0, 3)
	path = []string{root + path, root + "/" + path, "/" + path, root + "/" + path + root}[vnd.Choice(4)]
	meta.WriteReposInfoFile(root, file, []meta.RepoInfo{{meta.RepoAddr{"a", ""}, "r", path, "", "on"}}, ticat.ProtoSep)
	got, _, o := read("/moved", file)
	vnd.Assert(!o.Panicked && len(got) == 1, "a list that was saved can't be read")
	want := path
	if path == root || strings.HasPrefix(path, root+"/") {
		want = "/moved" + path[len(root):]
		vnd.Reach("inside")
	} else {
		vnd.Reach("outside")
	}
	vnd.Note(path)
	vnd.Assert(got[0].Path == want, "a path is wrong after the hub was moved")
}

// HLong: lines of any length.
func HLong() {
	file := filepath.Join(vnd.TempDir(), "list")
	n := []int{1, 65000, 65536, 70000, 200000}[vnd.Choice(5)]
	help := strings.Repeat("a", n)
	tail := vnd.StrOf("ab", 1, 1)
	infos := []meta.RepoInfo{
		{meta.RepoAddr{"a", ""}, "r", "/a", tail, "on"},
		{meta.RepoAddr{"b", ""}, "r", "/b", help, "disabled"},
		{meta.RepoAddr{"c", ""}, "r", "/c", tail, "on"}}
	meta.WriteReposInfoFile(root, file, infos, ticat.ProtoSep)
	got, _, o := read(root, file)
	vnd.Assert(!o.Panicked && len(got) == 3, "repositories are lost from a list with a long line")
	for i := range got {
		vnd.Assert(got[i] == infos[i], "a repository of a list with a long line changed")
	}
	vnd.Reach("long")
}

// HBroken: a list that is not one is an error which names the file.
func HBroken() {
	file := filepath.Join(vnd.TempDir(), "list")
	text := vnd.StrOf("a\t\n", 0, 6)
	os.WriteFile(file, []byte(text), 0644)
	got, _, o := read(root, file)
	vnd.Note(text)
	lines := 0
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if text == "" {
			break
		}
		lines++
		if strings.Count(line, "\t") != 4 {
			vnd.Assert(o.Panicked && !o.Runtime && strings.Contains(o.Text, file), "a broken list is taken, or the error does not name it")
			vnd.Reach("broken")
			return
		}
	}
	vnd.Assert(!o.Panicked && len(got) == lines, "a list is refused")
	vnd.Reach("fine")
}

type addr struct {
	text, branch string
	id           string // what repository it is
	bad          bool
}

func someAddr(max int, fixed bool) (a addr) {
	schemes := 7
	if fixed && !vnd.Thorough() {
		schemes = 2
	}
	scheme := []string{"https://h/", "git@h:", "http://h/", "HTTPS://H/", "https://u@h/", "https://u:p@h/", "u@H:"}[vnd.Choice(schemes)]
	path := ""
	if fixed {
		path = []string{"a", "a/a", "A", "a@a", "x/a/a"}[vnd.Choice(5)]
		a.branch = []string{"", "b", "default"}[vnd.Choice(3)]
	} else {
		path = vnd.StrOf("aA/.@", 1, max)
		a.branch = []string{"", "b", "default", "B", ".", "..", "../x", "b/../../c"}[vnd.Choice(8)]
	}
	a.text = scheme + path
	var parts []string
	for _, it := range strings.Split(path, "/") {
		if it == ".." || it == "." {
			a.bad = true
		}
		if it != "" {
			parts = append(parts, strings.ToLower(it))
		}
	}
	for _, it := range strings.Split(a.branch, "/") {
		if it == ".." || it == "." {
			a.bad = true
		}
	}
	if len(parts) == 0 {
		a.bad = true
	}
	a.id = strings.Join(parts, "/") + "#" + a.branch
	return
}

func (a *addr) path() (p string, o kit.Outcome) {
	o = kit.Try(func() { p = meta.GetRepoPath(root, meta.RepoAddr{a.text, a.branch}) })
	vnd.Assert(!o.Runtime, "the path of an address ends with an internal error")
	vnd.Assert(o.Panicked || strings.HasPrefix(p, root+"/") && filepath.Clean(p) == p, "the path of a repository is outside of the hub")
	vnd.Assert(a.bad || !o.Panicked, "a well formed address has no path")
	return
}

// HPath: the path of an address is inside of the hub, the same for all
// spellings of one repository, and different for two repositories.
func HPath() {
	max := 3
	if vnd.Thorough() {
		max = 4
	}
	a := someAddr(max, false)
	pa, oa := a.path()
	if oa.Panicked {
		vnd.Note(a.text + " " + a.branch)
		vnd.Reach("refused")
		return
	}
	b := someAddr(max, true)
	vnd.Note(a.text + " " + a.branch + " " + b.text + " " + b.branch)
	pb, ob := b.path()
	vnd.Assert(!ob.Panicked, "a well formed address has no path")
	if a.bad {
		return
	}
	if a.id == b.id {
		vnd.Assert(pa == pb, "two spellings of a repository have different paths")
		vnd.Reach("same")
	} else {
		vnd.Assert(pa != pb, "two repositories have the same path")
		vnd.Reach("different")
	}
}
