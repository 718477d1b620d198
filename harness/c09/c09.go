// C09: abbreviated env keys expand to the registered key.
package c09

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type node struct {
	real  *model.EnvAbbrs
	name  string
	subs  []*node
	words []string
	to    []*node
}

func (n *node) find(w string) *node {
	for i, it := range n.words {
		if it == w {
			return n.to[i]
		}
	}
	return nil
}

func (n *node) free(m *node, words []string) bool {
	for _, w := range words {
		if w == "" {
			continue
		}
		if o := n.find(w); o != nil && o != m {
			return false
		}
	}
	return true
}

func (n *node) add(m *node, words []string) {
	for _, w := range words {
		if w != "" && n.find(w) == nil {
			n.words = append(n.words, w)
			n.to = append(n.to, m)
		}
	}
}

func (n *node) sub(real *model.EnvAbbrs, name string) *node {
	m := &node{real: real, name: name}
	n.subs = append(n.subs, m)
	return m
}

func (n *node) named(name string) *node {
	for _, it := range n.subs {
		if it.name == name {
			return it
		}
	}
	return nil
}

func letter(min, max int) string { return vnd.StrOf("abcd", min, max) }

// expand is the reference expansion of a dotted key.
func (n *node) expand(segs []string) (string, bool) {
	var res []string
	for _, s := range segs {
		if s == "" {
			continue
		}
		n = n.find(s)
		if n == nil {
			return "", false
		}
		res = append(res, n.name)
	}
	return strings.Join(res, "."), true
}

// HHistory: registrations on one level.
func HHistory() {
	root := model.NewEnvAbbrs("<root>")
	ref := &node{real: root}
	steps := 3
	if vnd.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		switch vnd.Choice(3) {
		case 0:
			name, a := letter(1, 1), letter(0, 1)
			ok := ref.named(name) == nil && ref.free(nil, []string{name, a})
			var sub *model.EnvAbbrs
			o := kit.Try(func() { sub = root.AddSub(name, a) })
			vnd.Assert(!o.Runtime, "add: reported, not crashed")
			vnd.Assert(o.Panicked == !ok, "add: rejected exactly when ambiguous")
			if ok {
				m := ref.sub(sub, name)
				ref.add(m, []string{name, a})
				vnd.Reach("added")
			} else {
				vnd.Reach("rejected")
			}
		case 1:
			name := letter(1, 1)
			var sub *model.EnvAbbrs
			o := kit.Try(func() { sub = root.GetOrAddSub(name) })
			m := ref.named(name)
			ok := m != nil || ref.find(name) == nil
			vnd.Assert(!o.Runtime, "get or add: reported, not crashed")
			vnd.Assert(o.Panicked == !ok, "get or add: a key named like an abbreviation of another is rejected")
			if ok {
				if m == nil {
					m = ref.sub(sub, name)
					ref.add(m, []string{name})
				}
				vnd.Assert(sub == m.real, "get or add: the registered key")
			}
		case 2:
			if len(ref.subs) == 0 {
				continue
			}
			m := ref.subs[vnd.Choice(len(ref.subs))]
			a, b := letter(0, 1), letter(0, 1)
			ok := ref.free(m, []string{a, b})
			o := kit.Try(func() {
				if vnd.Bool() {
					m.real.AddAbbrs(a, b)
				} else {
					root.AddSubAbbrs(m.name, a, b)
				}
			})
			vnd.Assert(!o.Runtime, "abbreviate: reported, not crashed")
			vnd.Assert(o.Panicked == !ok, "abbreviate: rejected exactly when ambiguous")
			if ok {
				ref.add(m, []string{a, b})
			}
		}
	}
	w := letter(1, 2)
	path, ok := root.TryMatch(w, ".")
	want, wok := ref.expand([]string{w})
	vnd.Assert(ok == wok, "a key matches exactly when it is registered")
	if ok {
		vnd.Assert(strings.Join(path, ".") == want, "a key expands to the registered key")
	}
	vnd.Assert(len(root.SubNames()) == len(ref.subs), "number of keys")
	for i, it := range ref.subs {
		vnd.Assert(root.SubNames()[i] == it.name, "list of keys")
		vnd.Assert(root.GetSub(it.name) == it.real, "a full name is the registered key")
		for _, a := range it.real.Abbrs() {
			vnd.Assert(ref.find(a) == it, "a listed abbreviation belongs to its key")
		}
	}
	vnd.Reach("end")
}

// HDotted: a dotted key over a tree of keys, alone and on a command line.
func HDotted() {
	root := model.NewEnvAbbrs("<root>")
	top := &node{real: root}
	grow := func(up *node) *node {
		name, abbr := letter(1, 1), letter(0, 1)
		vnd.Assume(up.free(nil, []string{name, abbr}))
		real := up.real.GetOrAddSub(name).AddAbbrs(abbr)
		m := up.sub(real, name)
		up.add(m, []string{name, abbr})
		vnd.Assert(strings.Join(real.Path(), ".") == strings.Join(append(up.real.Path(), name), "."), "path of a key")
		return m
	}
	a := grow(top)
	b := grow(top)
	up := []*node{a, b}[vnd.Choice(2)]
	c := grow(up)
	if vnd.Bool() {
		grow(c)
	} else {
		grow(up)
	}
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	key := vnd.StrOf("abcd.", 1, n)
	segs := strings.Split(key, ".")
	want, wok := top.expand(segs)
	path, ok := root.TryMatch(key, ".")
	vnd.Assert(ok == wok, "a dotted key matches exactly when it is registered")
	if ok {
		vnd.Reach("matched")
		vnd.Assert(strings.Join(path, ".") == want, "a dotted key expands to the registered key")
		if p2, ok2 := root.TryMatch(want, "."); want != "" {
			vnd.Assert(ok2 && strings.Join(p2, ".") == want, "a full key expands to itself")
		}
	} else {
		vnd.Reach("unmatched")
	}
	flow := kit.NewParser().Parse(kit.NewTree(), root, "{"+key+"=1}")
	vnd.Assert(len(flow.Cmds) == 1 && flow.Cmds[0].ParseResult.Error == nil, "a setting is parsed")
	env := flow.Cmds[0].Segments[0].Env
	vnd.Assert(len(env) == 1, "one key is set")
	if !wok {
		want = key
	}
	_, set := env[want]
	vnd.Assert(set, "a setting on the command line sets the registered key")
	vnd.Reach("end")
}

// HBranch: a key given behind a part of a command path is looked up below it,
// however that part is written.
func HBranch() {
	t := kit.NewTree()
	e := t.AddSub("e", "E")
	f := e.AddSub("f", "F")
	f.AddSub("g", "G").RegCmd(kit.Nop, "", "")
	root := model.NewEnvAbbrs("<root>")
	top := &node{real: root}
	grow := func(up *node, name, abbr string) *node {
		vnd.Assume(up.free(nil, []string{name, abbr}))
		real := up.real.GetOrAddSub(name).AddAbbrs(abbr)
		m := up.sub(real, name)
		up.add(m, []string{name, abbr})
		return m
	}
	ne := grow(top, "e", "")
	nf := grow(ne, "f", "")
	grow(nf, letter(1, 1), letter(0, 1))
	k := grow(ne, letter(1, 1), letter(0, 1))
	grow(k, letter(1, 1), letter(0, 1))
	key := vnd.StrOf("abcd.", 1, 3)
	vnd.Assume(strings.Trim(key, ".") != "")
	s1, s2 := []string{"e", "E"}[vnd.Choice(2)], []string{"f", "F"}[vnd.Choice(2)]
	in, up, prefix := s1+"{"+key+"=1}."+s2+".g", ne, "e."
	if vnd.Bool() {
		in, up, prefix = s1+"."+s2+"{"+key+"=1}.g", nf, "e.f."
	}
	want, ok := up.expand(strings.Split(key, "."))
	if !ok {
		want = key
	}
	flow := kit.NewParser().Parse(t, root, in)
	vnd.Note(in + fmt.Sprint(flow.Cmds[0].ParseResult.Error))
	vnd.Assert(len(flow.Cmds) == 1 && flow.Cmds[0].ParseResult.Error == nil, "a setting is parsed")
	env, _ := flow.Cmds[0].ApplyMappingGenEnvAndArgv(kit.NewEnv(), "--", ".", 1)
	vnd.Assert(env.GetRaw(prefix+want) == "1", "a setting behind a part of a command path sets the registered key")
	if ok {
		vnd.Reach("matched")
	}
}
