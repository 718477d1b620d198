// C24: argument declarations stay unambiguous.
package c24

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type decl struct {
	name, def string
	abbrs     []string
	enums     []string
}

func (d *decl) all() []string { return append([]string{d.name}, d.abbrs...) }

func has(list []string, s string) bool {
	for _, it := range list {
		if it == s {
			return true
		}
	}
	return false
}

// fits reports whether a declaration is free of conflicts.
func fits(decls []decl, d decl) bool {
	var taken []string
	for i := range decls {
		taken = append(taken, decls[i].all()...)
	}
	if d.name == "" {
		return false
	}
	for _, it := range d.all() {
		if it == "" {
			continue
		}
		if has(taken, it) {
			return false
		}
		taken = append(taken, it)
	}
	return true
}

// check compares the arguments of a command with the declared ones.
func check(args *model.Args, decls []decl, words []string) {
	var names []string
	for _, d := range decls {
		names = append(names, d.name)
	}
	vnd.Assert(kit.SameStrs(args.Names(), names), "the arguments are not the declared ones in their order")
	for i, d := range decls {
		vnd.Assert(args.Has(d.name) && args.Index(d.name) == i, "an argument is not at its position")
		vnd.Assert(args.RawDefVal(d.name) == d.def && args.DefVal(d.name, 1) == d.def, "the default of an argument is wrong")
		vnd.Assert(kit.SameStrs(args.EnumVals(d.name), d.enums), "the enumeration of an argument is wrong")
		for _, it := range d.all() {
			if it != "" {
				vnd.Assert(has(args.Abbrs(d.name), it), "an abbreviation of an argument is lost")
			}
		}
	}
	for _, word := range words {
		if word == "" {
			continue
		}
		owner := ""
		for _, d := range decls {
			if has(d.all(), word) {
				owner = d.name
			}
		}
		vnd.Assert(args.Realname(word) == owner, "a name or abbreviation means another argument than the declared one")
		vnd.Assert(args.HasArgOrAbbr(word) == (owner != ""), "a name or abbreviation that was never declared is known")
		vnd.Assert(args.Has(word) == (owner == word && owner != ""), "a name that was never declared is an argument")
	}
	vnd.Assert(args.Index("nothere") == -1 && !args.Has("nothere"), "an argument that was never declared is known")
}

// HDecl: every sequence of declarations.
func HDecl() {
	t := kit.NewTree()
	cmd := t.AddSub("c").RegCmd(kit.Nop, "", "")
	cnt := 3
	min := 1
	if vnd.Thorough() {
		min = 0
	}
	var decls []decl
	var words []string
	notes := ""
	for i := 0; i < cnt; i++ {
		d := decl{name: vnd.StrOf("abc", min, 1), def: []string{"x", "", "y"}[i]}
		n := 1
		if i < 2 || vnd.Thorough() {
			n = vnd.Choice(3)
		}
		for k := 0; k < n; k++ {
			d.abbrs = append(d.abbrs, vnd.StrOf("abc", 0, 1))
		}
		words = append(words, d.all()...)
		ok := fits(decls, d)
		o := kit.Try(func() {
			cmd.AddArg(d.name, d.def, d.abbrs...)
			if i == 1 {
				cmd.SetArgEnums(d.name, "p", "q")
			}
		})
		vnd.Assert(!o.Runtime, "declaring an argument ends with an internal error")
		vnd.Assert(o.Panicked != ok, "a conflicting declaration is taken, or one without conflict is refused")
		if ok {
			if i == 1 {
				d.enums = []string{"p", "q"}
			}
			decls = append(decls, d)
		} else {
			vnd.Reach("conflict")
		}
		notes += strings.Join(d.all(), "|") + " "
		args := cmd.Args()
		check(&args, decls, words)
	}
	vnd.Note(notes)
	if len(decls) == 0 {
		return
	}
	// What the declared names mean in a command line
	cc, _ := kit.NewExec(t)
	for i, d := range decls {
		for _, it := range d.all() {
			if it == "" {
				continue
			}
			parsed := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, "c", it+"=v")
			env := model.NewEnvEx(model.EnvLayerDefault).NewLayer(model.EnvLayerSession)
			args := cmd.Args()
			_, argv := parsed.Cmds[0].ApplyMappingGenEnvAndArgv(env, "--", ".", 1)
			for k, other := range decls {
				want := other.def
				if k == i {
					want = "v"
				}
				vnd.Assert(argv.GetRaw(other.name) == want, "a name in a command line means another argument")
			}
			vnd.Assert(len(argv) == len(args.Names()), "a command gets other arguments than the declared ones")
		}
	}
	vnd.Reach("declared")
}

// HReorder: an order is taken only when it lists every argument once.
func HReorder() {
	t := kit.NewTree()
	cmd := t.AddSub("c").RegCmd(kit.Nop, "", "").AddArg("a", "1", "A").AddArg("b", "2").AddArg("c", "3")
	decls := []decl{{"a", "1", []string{"A"}, nil}, {"b", "2", nil, nil}, {"c", "3", nil, nil}}
	n := vnd.Choice(3) + 2
	var order []string
	for i := 0; i < n; i++ {
		order = append(order, vnd.StrOf("abcA", 1, 1))
	}
	vnd.Note(strings.Join(order, " "))
	o := kit.Try(func() { cmd.ReorderArgs(order) })
	ok := n == 3 && has(order, "a") && has(order, "b") && has(order, "c")
	vnd.Assert(!o.Runtime && o.Panicked != ok, "an order with other arguments is taken, or a good one is refused")
	if ok {
		var sorted []decl
		for _, it := range order {
			for _, d := range decls {
				if d.name == it {
					sorted = append(sorted, d)
				}
			}
		}
		decls = sorted
		vnd.Reach("taken")
	} else {
		vnd.Reach("refused")
	}
	args := cmd.Args()
	check(&args, decls, []string{"a", "b", "c", "A", "d"})
}

type source struct {
	key string
	arg decl
}

// HAutoMap: a flow that takes over the arguments of its commands.
func HAutoMap() {
	t := kit.NewTree()
	t.AddSub("p").RegCmd(kit.Nop, "", "").AddArg("a", "1", "A").AddArg("b", "2").AddArg2Env("k.a", "a").AddArg2Env("k.b", "b")
	name2 := []string{"b", "c"}[vnd.Choice(2)]
	key2 := []string{"k.b", "k.c"}[vnd.Choice(2)]
	t.AddSub("q").RegCmd(kit.Nop, "", "").AddArg(name2, "3").AddArg2Env(key2, name2)
	sources := []source{
		{"k.a", decl{"a", "1", []string{"A"}, nil}},
		{"k.b", decl{"b", "2", nil, nil}},
		{key2, decl{name2, "3", nil, nil}},
	}
	t.AddSub("g").RegFlowCmd([]string{"p", ":", "q"}, "", "")
	text := [][]string{{"p", ":", "q"}, {"g"}, {"q", ":", "nothere", ":", "p"}}[vnd.Choice(3)]
	if text[0] == "q" {
		sources = []source{sources[2], sources[0], sources[1]}
	}
	f := t.AddSub("f").RegFlowCmd(text, "", "")
	var own []decl
	ownKey := ""
	switch vnd.Choice(4) {
	case 1:
		own = []decl{{"z", "9", nil, nil}}
	case 2:
		own = []decl{{"a", "9", nil, nil}}
	case 3:
		own = []decl{{"z", "9", []string{"b"}, nil}}
		ownKey = "k.a"
	}
	for _, d := range own {
		f.AddArg(d.name, d.def, d.abbrs...)
	}
	if ownKey != "" {
		f.AddArg2Env(ownKey, "z")
	}
	n := vnd.Choice(3) + 1
	var list []string
	max := 5
	if n == 3 && !vnd.Thorough() {
		max = 2
		vnd.Assume(text[0] != "g" && len(own) == 0)
	}
	vnd.MapOrder(n == 1 || vnd.Thorough())
	for i := 0; i < n; i++ {
		k := vnd.Choice(max)
		if k == 0 {
			list = append(list, vnd.StrOf("abAc", 1, 1))
		} else {
			list = append(list, []string{"*", "x=5", "z", "n"}[k-1])
		}
	}
	vnd.Note(strings.Join(text, " ") + "; " + strings.Join(list, ","))
	// Two names of one argument in a list are left out
	vnd.Assume(!has(list, "a") || !has(list, "A"))
	for i, it := range list[:n-1] {
		vnd.Assume(it != "*" && (it != "x=5" || !has(list[i+1:], it)))
	}
	if o := kit.Try(func() { f.SetArg2EnvAutoMap(list) }); o.Panicked {
		vnd.Assert(false, "a list of arguments to take over is refused")
	}
	cc, env := kit.NewExec(t)
	cc.Arg2EnvAutoMapCmds.AddAutoMapTarget(f)
	o := kit.Try(func() { cc.Arg2EnvAutoMapCmds.AutoMapArg2Env(cc, env, builtin.EnvOpCmds(), 0) })
	vnd.Assert(!o.Panicked, "taking over arguments ends with an error that stops the program")

	// What should be taken over: each listed name from the first command that has it
	taken := map[string]source{}
	all := list[n-1] == "*"
	wanted := func(word string) bool {
		for i, it := range list {
			if it == word && !has(list[:i], it) {
				return true
			}
		}
		return false
	}
	for _, s := range sources {
		if s.key == ownKey {
			continue
		}
		for _, word := range s.arg.all() {
			if _, ok := taken[word]; ok || !wanted(word) {
				continue
			}
			if len(own) != 0 && has(own[0].all(), word) {
				continue
			}
			taken[word] = s
			break
		}
	}
	args := f.Args()
	names := args.Names()
	for i, it := range names {
		vnd.Assert(!has(names[:i], it), "a command has two arguments of one name")
		vnd.Assert(args.Index(it) == i && args.Realname(it) == it, "an argument is not at its position")
	}
	vnd.Assert(len(names) >= len(own), "an argument of the command is lost")
	for i, d := range own {
		vnd.Assert(names[i] == d.name && args.RawDefVal(d.name) == d.def && args.Realname(d.name) == d.name, "an argument of the command changed")
	}
	// Listed ones in their order, one argument for each env key
	var got []string
	pos := len(own)
	keys := []string{ownKey}
	for i, it := range list {
		if has(list[:i], it) {
			continue
		}
		if it == "x=5" {
			vnd.Assert(pos < len(names) && names[pos] == "x" && args.RawDefVal("x") == "5", "a fixed argument is not at its position")
			pos++
			continue
		}
		s, ok := taken[it]
		if !ok || has(keys, s.key) {
			continue
		}
		keys = append(keys, s.key)
		vnd.Assert(pos < len(names), "a listed argument is not taken over")
		got = append(got, it)
		vnd.Assert(args.Realname(it) == names[pos], "a listed argument is not at its position")
		vnd.Assert(args.RawDefVal(names[pos]) == s.arg.def, "an argument that was taken over has another default")
		vnd.Assert(f.GetArg2Env().GetArgName(f, s.key, true) == names[pos], "an argument that was taken over sets another key")
		pos++
		vnd.Reach("taken")
	}
	if !all {
		vnd.Assert(pos == len(names), "an argument is taken over that was not listed")
	} else {
		vnd.Reach("all")
	}
}

// HMapping: an argument sets at most one env key, a key is set by one argument.
func HMapping() {
	t := kit.NewTree()
	cmd := t.AddSub("c").RegCmd(kit.Nop, "", "").AddArg("a", "1").AddArg("b", "2").AddArg("c", "3")
	var list [][2]string
	notes := ""
	for i := 0; i < 3; i++ {
		it := [2]string{"k" + vnd.StrOf("123", 1, 1), vnd.StrOf("abc", 1, 1)}
		notes += it[0] + "=" + it[1] + " "
		ok := true
		for _, old := range list {
			ok = ok && old[0] != it[0] && old[1] != it[1]
		}
		o := kit.Try(func() { cmd.AddArg2Env(it[0], it[1]) })
		vnd.Assert(!o.Runtime && o.Panicked != ok, "an argument sets two keys, or a good mapping is refused")
		if ok {
			list = append(list, it)
		} else {
			vnd.Reach("refused")
		}
	}
	vnd.Note(notes)
	m := cmd.GetArg2Env()
	vnd.Assert(len(m.EnvKeys()) == len(list), "a key is mapped that was not declared")
	for i, it := range list {
		key, ok := m.GetEnvKey(it[1])
		vnd.Assert(m.EnvKeys()[i] == it[0] && ok && key == it[0] && m.GetArgName(cmd, it[0], false) == it[1], "an argument sets another key than declared")
	}
	cc, _ := kit.NewExec(t)
	parsed := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, "c", "b=v")
	env := model.NewEnvEx(model.EnvLayerDefault).NewLayer(model.EnvLayerSession)
	cmdEnv, _ := parsed.Cmds[0].ApplyMappingGenEnvAndArgv(env, "--", ".", 1)
	for _, it := range list {
		want := map[string]string{"a": "1", "b": "v", "c": "3"}[it[1]]
		vnd.Assert(cmdEnv.GetRaw(it[0]) == want, "an argument sets another key than declared")
	}
	vnd.Reach("mapped")
}

// HAll: a flow that takes over all arguments nothing else provides.
func HAll() {
	t := kit.NewTree()
	p := t.AddSub("p").RegCmd(kit.Nop, "", "").AddArg("a", "1", "A", "B").AddArg2Env("k.1", "a").AddArg("n", "5")
	abbr := vnd.StrOf("ABCaf", 1, 1)
	t.AddSub("q").RegCmd(kit.Nop, "", "").AddArg("x", "2", abbr, "D").AddArg2Env("k.2", "x")
	writes := []string{"", "k.2", "x", "k.1"}[vnd.Choice(4)]
	if writes != "" {
		p.AddEnvOp(writes, model.EnvOpTypeWrite)
	}
	f := t.AddSub("f").RegFlowCmd([]string{"p", ":", "q"}, "", "")
	own := vnd.Bool()
	if own {
		f.AddArg("f", "9")
	}
	first := vnd.StrOf("axD", 0, 1)
	list := []string{"*"}
	if first != "" {
		list = []string{first, "*"}
	}
	vnd.Note(writes + " " + abbr + " " + first)
	// Whether an abbreviation goes before a name which is listed later is open
	vnd.Assume(abbr != "a" || first != "x" && first != "D")
	vnd.MapOrder(true)
	f.SetArg2EnvAutoMap(list)
	cc, env := kit.NewExec(t)
	cc.Arg2EnvAutoMapCmds.AddAutoMapTarget(f)
	o := kit.Try(func() { cc.Arg2EnvAutoMapCmds.AutoMapArg2Env(cc, env, builtin.EnvOpCmds(), 0) })
	vnd.Assert(!o.Panicked, "taking over arguments ends with an error that stops the program")
	takeA := writes != "k.1" || first == "a"
	takeX := writes != "k.2" || first == "x" || first == "D"
	args := f.Args()
	cnt := 0
	if own {
		cnt++
	}
	if takeA {
		cnt++
		vnd.Assert(args.Realname("a") == "a" && args.RawDefVal("a") == "1" && f.GetArg2Env().GetArgName(f, "k.1", true) == "a", "an argument nothing provides is not taken over")
	} else {
		vnd.Reach("provided")
	}
	if takeX {
		cnt++
		vnd.Assert(args.Realname("x") == "x" && args.RawDefVal("x") == "2" && f.GetArg2Env().GetArgName(f, "k.2", true) == "x", "an argument nothing provides is not taken over")
		vnd.Assert(args.Realname("D") == "x", "an argument is taken over without its abbreviation")
		if !(takeA && (abbr == "A" || abbr == "B" || abbr == "a")) && !(own && abbr == "f") {
			vnd.Assert(args.Realname(abbr) == "x", "an argument is taken over without its abbreviation")
		}
	}
	vnd.Assert(len(args.Names()) == cnt, "an argument is taken over that a command provides or that sets no key")
	if takeA && (first != "x" && first != "D" || abbr != "A" && abbr != "B" && abbr != "a") {
		vnd.Assert(args.Realname("A") == "a" && args.Realname("B") == "a", "an abbreviation means another argument")
	}
	if own {
		vnd.Assert(args.Realname("f") == "f", "an abbreviation means another argument")
	}
	vnd.Reach("all")
}
