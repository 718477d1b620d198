// C05: splitting a command line into commands.
package c05

import (
	"strings"

	"github.com/innerr/ticat/pkg/zzverif/kit"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

var prefixes = []string{"http", "HTTP", "https", "HTTPS"}

// split is the reference: one left-to-right reading of every argument.
func split(argv []string) (cmds [][]string, leading bool) {
	cmds = [][]string{{}}
	first := true
	emit := func(s string) {
		cmds[len(cmds)-1] = append(cmds[len(cmds)-1], strings.TrimSpace(s))
		first = false
	}
	for _, arg := range argv {
		if arg == "" {
			emit("")
			continue
		}
		piece := ""
		for i := 0; i < len(arg); i++ {
			if arg[i] != ':' {
				piece += arg[i : i+1]
				continue
			}
			if strings.HasSuffix(piece, "\\") {
				piece = piece[:len(piece)-1] + ":"
				continue
			}
			url := false
			for _, p := range prefixes {
				if strings.HasSuffix(piece, p) {
					url = true
				}
			}
			if url {
				piece += ":"
				continue
			}
			if piece != "" {
				emit(piece)
				piece = ""
			}
			if first {
				leading = true
			}
			first = false
			cmds = append(cmds, []string{})
		}
		if piece != "" {
			emit(piece)
		}
	}
	return
}

func check(argv []string) {
	want, leading := split(argv)
	var got [][]string
	var firstIsGlobal bool
	in := append([]string{}, argv...)
	o := kit.Try(func() { got, firstIsGlobal = kit.NewSeqParser().Parse(in) })
	vnd.Assert(!o.Panicked, "splitting does not crash")
	vnd.Assert(len(got) == len(want), "number of commands")
	for i := range want {
		vnd.Assert(len(got[i]) == len(want[i]), "number of arguments of each command")
		for j := range want[i] {
			vnd.Assert(got[i][j] == want[i][j], "argument text")
		}
	}
	vnd.Assert(firstIsGlobal == !leading, "leading separator reported")
	vnd.Note(got)
}

// HOne: one argument of any text.
func HOne() {
	n := 6
	if vnd.Thorough() {
		n = 8
	}
	check([]string{vnd.StrOf("a:\\ ", 0, n)})
	vnd.Reach("end")
}

// HBytes: one argument of any bytes.
func HBytes() {
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	b := vnd.Bytes(0, n)
	for i := 0; i < len(b); i++ {
		vnd.Assume(b[i] < 0x80) // other bytes: the space trimming of non-ASCII text is the library's
	}
	check([]string{b})
	vnd.Reach("end")
}

// HMany: several arguments.
func HMany() {
	n, l := 3, 3
	if vnd.Thorough() {
		n = 4
	}
	var argv []string
	cnt := vnd.Choice(n + 1)
	for i := 0; i < cnt; i++ {
		argv = append(argv, vnd.StrOf("a:\\", 0, l))
	}
	check(argv)
	vnd.Reach("end")
}

// HUrl: addresses and other words around separators.
func HUrl() {
	toks := []string{"http", "HTTPS", "https", "Http", "h", "\\", ":", "//x"}
	n := 4
	if vnd.Thorough() {
		n = 5
	}
	s := ""
	for i := 0; i < n; i++ {
		s += toks[vnd.Choice(len(toks))]
	}
	tail := vnd.StrOf(":ps ", 0, 2)
	check([]string{s + tail, "b"})
	vnd.Reach("end")
}
