// C08: a command name or abbreviation resolves to exactly one command.
package c08

import (
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

// node is the reference: the children in order, and every name or
// abbreviation that leads to one of them.
type node struct {
	real  *model.CmdTree
	name  string
	names []string
	subs  []*node
	words []string
	to    []*node
}

func (n *node) find(w string) *node {
	for i, it := range n.words {
		if it == w {
			return n.to[i]
		}
	}
	return nil
}

// free reports whether every word is unused, or used for m already.
func (n *node) free(m *node, words []string) bool {
	for _, w := range words {
		if w == "" {
			continue
		}
		if o := n.find(w); o != nil && o != m {
			return false
		}
	}
	return true
}

func (n *node) add(m *node, words []string) {
	for _, w := range words {
		if w != "" && n.find(w) == nil {
			n.words = append(n.words, w)
			n.to = append(n.to, m)
		}
	}
}

func (n *node) sub(real *model.CmdTree, name string) *node {
	m := &node{real: real, name: name}
	n.subs = append(n.subs, m)
	n.names = append(n.names, name)
	return m
}

// check compares one level of the tree with the reference for a probed word.
func check(n *node, w string, what string) {
	got := n.real.GetSub(w)
	m := n.find(w)
	if m == nil {
		vnd.Assert(got == nil, what+": an unregistered name resolves to nothing")
	} else {
		vnd.Assert(got == m.real, what+": a name resolves to the command it was registered for")
		vnd.Assert(got.Name() == m.name, what+": real name")
		vnd.Assert(got.Realname(w) == m.name, what+": real name of an abbreviation")
	}
	vnd.Assert(kit.SameStrs(n.real.SubNames(), n.names), what+": list of sub commands")
	for _, it := range n.subs {
		for _, a := range it.real.Abbrs() {
			vnd.Assert(n.find(a) == it, what+": a listed abbreviation resolves to its command")
		}
	}
	vnd.Assert(len(n.real.GatherSubNames(true, true)) == len(n.words), what+": number of names and abbreviations")
}

func letter(min, max int) string { return vnd.StrOf("abcd", min, max) }

// HHistory: registrations on one level, any names and abbreviations.
func HHistory() {
	root := kit.NewTree()
	ref := &node{real: root}
	steps := 3
	if vnd.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		switch vnd.Choice(3) {
		case 0:
			vnd.Reach("add sub")
			name, a, b := letter(1, 1), letter(0, 1), ""
			if i == 0 {
				b = letter(0, 1)
			}
			known := false
			for _, it := range ref.names {
				known = known || it == name
			}
			ok := !known && ref.free(nil, []string{name, a, b})
			var sub *model.CmdTree
			o := kit.Try(func() { sub = root.AddSub(name, a, b) })
			vnd.Assert(!o.Runtime, "add: reported, not crashed")
			vnd.Assert(o.Panicked == !ok, "add: rejected exactly when ambiguous")
			if ok {
				vnd.Reach("added")
				m := ref.sub(sub, name)
				ref.add(m, []string{name, a, b})
				vnd.Assert(sub.Parent() == root, "add: parent")
			} else {
				vnd.Reach("rejected")
			}
		case 1:
			vnd.Reach("get or add")
			name := letter(1, 1)
			sub := root.GetOrAddSub(name)
			m := ref.find(name)
			if m == nil {
				m = ref.sub(sub, name)
				ref.add(m, []string{name})
			}
			vnd.Assert(sub == m.real, "get or add: the registered command")
		case 2:
			if len(ref.subs) == 0 {
				continue
			}
			m := ref.subs[vnd.Choice(len(ref.subs))]
			a, b := letter(0, 1), ""
			if i == 1 {
				b = letter(0, 1)
			}
			ok := ref.free(m, []string{a, b})
			o := kit.Try(func() { m.real.AddAbbrs(a, b) })
			vnd.Assert(!o.Runtime, "abbreviate: reported, not crashed")
			vnd.Assert(o.Panicked == !ok, "abbreviate: rejected exactly when ambiguous")
			if ok {
				vnd.Reach("abbreviated")
				ref.add(m, []string{a, b})
			}
		}
	}
	check(ref, letter(0, 2), "history")
	vnd.Reach("end")
}

// HPath: a path of two levels, written with names and abbreviations.
func HPath() {
	root := kit.NewTree()
	top := &node{real: root}
	var all []*node
	for i := 0; i < 2; i++ {
		name, abbr := letter(1, 1), letter(0, 1)
		vnd.Assume(top.free(nil, []string{name, abbr}))
		m := top.sub(root.AddSub(name, abbr), name)
		top.add(m, []string{name, abbr})
		all = append(all, m)
	}
	for i := 0; i < 2; i++ {
		up := all[vnd.Choice(2)]
		name, abbr := letter(1, 1), letter(0, 1)
		vnd.Assume(up.free(nil, []string{name, abbr}))
		var real *model.CmdTree
		if vnd.Bool() {
			real = up.real.AddSub(name, abbr)
		} else {
			real = func() *model.CmdTree {
				words := wordsOf(top, up)
				return root.GetOrAddSub(words[vnd.Choice(len(words))], name)
			}()
			real.AddAbbrs(abbr)
		}
		m := up.sub(real, name)
		up.add(m, []string{name, abbr})
		vnd.Assert(real.DisplayPath() == up.name+"."+name, "path of a command")
		real.RegCmd(kit.Nop, "", "")
	}
	p, q := letter(1, 1), letter(1, 1)
	var want *model.CmdTree
	if m := top.find(p); m != nil {
		if l := m.find(q); l != nil {
			want = l.real
			vnd.Reach("found")
		}
	}
	vnd.Assert(root.GetSub(p, q) == want, "a path resolves to the command registered there")
	vnd.Assert(root.GetSubByPath(p+"."+q, false) == want, "a dotted path resolves to the command registered there")
	flow := kit.NewParser().Parse(root, nil, p+"."+q)
	vnd.Assert(len(flow.Cmds) == 1, "one command")
	cmd := flow.Cmds[0]
	if want != nil {
		vnd.Assert(cmd.ParseResult.Error == nil && cmd.Last().Matched.Cmd == want, "a typed path runs the command registered there")
	} else {
		vnd.Assert(cmd.ParseResult.Error != nil, "a typed unknown path is reported")
	}
	vnd.Reach("end")
}

func wordsOf(top, m *node) []string {
	var res []string
	for i, t := range top.to {
		if t == m {
			res = append(res, top.words[i])
		}
	}
	return res
}

// HReg: a command is not replaced by another one registered at the same path.
func HReg() {
	root := kit.NewTree()
	reg := func(kind int, t *model.CmdTree, help, source string) *model.Cmd {
		switch kind {
		case 0:
			return t.RegCmd(kit.Nop, help, source)
		case 1:
			return t.RegFileCmd("f", help, source)
		case 2:
			return t.RegFlowCmd([]string{"x"}, help, source)
		case 3:
			return t.RegMetaOnlyCmd(help, source)
		case 4:
			return t.RegFileNFlowCmd([]string{"x"}, "f", help, source)
		case 5:
			return t.RegDirWithCmd("d", help, source)
		case 6:
			return t.RegPowerCmd(nil, help)
		}
		return t.RegEmptyCmd(help)
	}
	s1, s2 := vnd.StrOf("st", 0, 1), vnd.StrOf("st", 0, 1)
	t := root.GetOrAddSubEx(s1, "a", "b")
	// a command that only has a description may be replaced
	kind := vnd.Choice(6)
	vnd.Assume(kind != 3)
	first := reg(kind, t, "one", s1)
	t.SetSource(s1)
	again := root.GetOrAddSubEx(s2, "a", "b")
	vnd.Assert(again == t, "the same path is the same node")
	kind = vnd.Choice(8)
	o := kit.Try(func() { reg(kind, again, "two", s2) })
	vnd.Assert(o.Panicked && !o.Runtime, "a second command at the same path is rejected")
	vnd.Assert(t.Cmd() == first && first.Help() == "one" && t.Source() == s1, "the first command stays")
	vnd.Assert(root.GetSub("a", "b").Cmd() == first, "the path still resolves to the first command")
	sub := again.GetOrAddSub("c")
	o = kit.Try(func() { reg(kind, sub, "three", "") })
	vnd.Assert(!o.Panicked, "a free path takes a command")
	vnd.Assert(sub.Cmd().Help() == "three" && sub.Cmd().Owner() == sub, "the command is registered")
	vnd.Reach("end")
}
