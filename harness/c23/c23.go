// C23: joins run the command once for every combination of the listed values.
package c23

import (
	"strconv"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

type world struct {
	cc    *model.Cli
	env   *model.Env
	runs  []string
	after int
	fail  string
}

func start() *world {
	w := &world{}
	t := kit.NewTree()
	builtin.RegisterJoinCmds(t)
	t.AddSub("rec", "r").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		run := argv.GetRaw("x") + "/" + argv.GetRaw("y") + "/" + argv.GetRaw("z")
		w.runs = append(w.runs, run)
		return w.fail == "" || run != w.fail
	}, "", "").AddArg("x", "", "X").AddArg("y", "").AddArg("z", "")
	t.AddSub("after").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		w.after++
		return true
	}, "", "")
	w.cc, w.env = kit.NewExec(t)
	return w
}

func (w *world) run(input ...string) (ok bool, o kit.Outcome) {
	o = kit.Try(func() {
		ok = w.cc.Executor.Execute(kit.EntryName, false, w.cc, w.env, nil, input...)
	})
	vnd.Assert(!o.Runtime, "a join ends with an internal error")
	return
}

// combos is the product of the lists, the last key changing fastest.
func combos(lists [][]string) (out []string) {
	out = []string{""}
	for i := 0; i < 3; i++ {
		list := []string{""}
		if i < len(lists) {
			list = lists[i]
		}
		var next []string
		for _, head := range out {
			for _, it := range list {
				sep := "/"
				if i == 0 {
					sep = ""
				}
				next = append(next, head+sep+it)
			}
		}
		out = next
	}
	return
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, it := range a {
		found := false
		for i, other := range b {
			if !used[i] && it == other {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func text(min, max int) string { return vnd.StrOf("ab,:=", min, max) }

// HProduct: one to three keys with lists of values.
func HProduct() {
	w := start()
	n := vnd.Choice(3) + 1
	var input []string
	var lists [][]string
	for i := 0; i < n; i++ {
		val := ""
		if i == 0 {
			max := 3
			if vnd.Thorough() {
				max = 5
			}
			val = text(1, max)
		} else {
			val = []string{"1", "1,2", "1,2,3"}[vnd.Choice(3)]
		}
		var list []string
		for _, it := range strings.Split(val, ",") {
			list = append(list, it)
		}
		lists = append(lists, list)
		key := []string{"x", "y", "z"}[i]
		if i == 0 && vnd.Choice(2) == 1 {
			key = "X"
		}
		input = append(input, "join.new", "key="+key, "value="+strings.ReplaceAll(val, ":", "\\:"), ":")
	}
	input = append(input, "join.run", "cmd=rec", ":", "after")
	vnd.Note(strings.Join(input, " "))
	ok, o := w.run(input...)
	vnd.Assert(ok && !o.Panicked, "a join of well formed lists fails")
	vnd.Assert(sameSet(w.runs, combos(lists)), "the runs are not the combinations of the listed values")
	vnd.Assert(w.after == 1, "the command behind the join is not run once")
	vnd.Reach("product")
}

// HFail: a combination whose run fails.
func HFail() {
	w := start()
	at := vnd.StrOf("123", 1, 1)
	w.fail = at + "//"
	ok, o := w.run("join.new", "key=x", "value=1,2", ":", "join.run", "cmd=rec", ":", "after")
	vnd.Note(at)
	if at == "3" {
		vnd.Assert(ok && w.after == 1 && len(w.runs) == 2, "a join that succeeds is not finished")
		vnd.Reach("succeeded")
	} else {
		vnd.Assert(!ok || o.Panicked, "a join reports success though one of its runs failed")
		vnd.Assert(w.after == 0, "the flow goes on behind a failed join")
		vnd.Reach("failed")
	}
}

// HBadKey: an argument the command does not have, a command that is not there,
// and joins without a list.
func HBadKey() {
	w := start()
	key := vnd.StrOf("xyzw", 1, 1)
	cmd := []string{"rec", "nothere", "r"}[vnd.Choice(3)]
	ok, o := w.run("join.new", "key="+key, "value=1,2", ":", "join.run", "cmd="+cmd, ":", "after")
	vnd.Note(key + cmd)
	if key == "w" || cmd == "nothere" {
		vnd.Assert(!ok || o.Panicked, "a join of an unknown argument or command reports success")
		vnd.Assert(len(w.runs) == 0 && w.after == 0, "the flow goes on behind a join that can't run")
		vnd.Reach("bad")
	} else {
		vnd.Assert(ok && len(w.runs) == 2 && w.after == 1, "a join of a known command fails")
		vnd.Reach("good")
	}
}

func number(s string) (n int, ok bool) {
	n, err := strconv.Atoi(strings.TrimSpace(s))
	return n, err == nil
}

// HRange: ranges of integers.
func HRange() {
	w := start()
	max := 1
	if vnd.Thorough() {
		max = 2
	}
	from := vnd.StrOf("0135-", 0, 2)
	to := vnd.StrOf("0135-", 0, max)
	val := "[" + from + "," + to
	step := ""
	three := vnd.Bool()
	if three {
		step = vnd.StrOf("012-", 0, max)
		val += "," + step
	}
	val += "]"
	vnd.Note(val)
	ok, o := w.run("join.new", "key=x", "value="+val, ":", "join.new", "key=y", "value=p,q", ":", "join.run", "cmd=rec", ":", "after")
	a, ok1 := number(from)
	b, ok2 := number(to)
	s, ok3 := 1, true
	if three {
		s, ok3 = number(step)
	}
	if !ok1 || !ok2 || !ok3 {
		vnd.Assert(!ok || o.Panicked, "a range that is not made of numbers is taken")
		vnd.Assert(len(w.runs) == 0 && w.after == 0, "the flow goes on behind a malformed range")
		vnd.Reach("malformed")
		return
	}
	if s <= 0 || a > b {
		// Refused, or counted downwards
		if !ok || o.Panicked {
			vnd.Assert(len(w.runs) == 0 && w.after == 0, "the flow goes on behind a malformed range")
			vnd.Reach("empty")
			return
		}
		vnd.Assert(s < 0 && a >= b, "a range without values is taken")
	}
	var list []string
	for v := a; s > 0 && v <= b || s < 0 && v >= b; v += s {
		list = append(list, strconv.Itoa(v))
	}
	vnd.Assert(ok && !o.Panicked, "a well formed range is refused")
	vnd.Assert(sameSet(w.runs, combos([][]string{list, {"p", "q"}})), "the runs are not the values of the range")
	vnd.Reach("range")
}

// HFloat: ranges with fractions include both ends.
func HFloat() {
	w := start()
	from := []string{"0.0", "0.1", "0.5", "-0.1", "1.", ".x", ""}[vnd.Choice(7)]
	cnt := vnd.Choice(5)
	step := vnd.StrOf("0123", 1, 1)
	vnd.Note(from + step)
	a, err := strconv.ParseFloat(from, 64)
	tenths := int(a*10 + 0.5)
	if a < 0 {
		tenths = -1
	}
	s := int(step[0] - '0')
	end := tenths + cnt*s
	dec := func(n int) string {
		sign := ""
		if n < 0 {
			sign, n = "-", -n
		}
		return sign + strconv.Itoa(n/10) + "." + strconv.Itoa(n%10)
	}
	val := "[" + from + "," + dec(end) + ",0." + step + "]"
	ok, o := w.run("join.new", "key=x", "value="+val, ":", "join.run", "cmd=rec", ":", "after")
	if err != nil || s == 0 {
		vnd.Assert(!ok || o.Panicked, "a malformed range of fractions is taken")
		vnd.Assert(len(w.runs) == 0 && w.after == 0, "the flow goes on behind a malformed range")
		vnd.Reach("malformed")
		return
	}
	vnd.Assert(ok && !o.Panicked, "a well formed range of fractions is refused")
	vnd.Assert(len(w.runs) == cnt+1, "a range of fractions misses a value or has one too many")
	for i, run := range w.runs {
		got, err := strconv.ParseFloat(strings.TrimSuffix(run, "//"), 64)
		want, _ := strconv.ParseFloat(dec(tenths+i*s), 64)
		vnd.Assert(err == nil && got-want < 0.000001 && want-got < 0.000001, "a value of a range of fractions is wrong")
	}
	vnd.Reach("range")
}
