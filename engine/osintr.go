package main

import (
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memFS is the file-system model: a flat map of absolute paths. Every mutating
// call is a crash point when a crash region is active.
type inode struct {
	dir  bool
	data []sb
}

type memFS struct {
	m    map[string]*inode
	cwd  string
	open map[*value]*ofile
	ops  int
	log  []string
}

type ofile struct {
	ino    *inode
	path   string
	off    int
	app    bool
	rd, wr bool
	closed bool
	std    bool
	dirPos int
}

const (
	ePERM     = 1
	eNOENT    = 2
	eEXIST    = 17
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eNOTEMPTY = 39
)

func (p *Path) getFS() *memFS {
	if p.fs == nil {
		p.fs = &memFS{m: map[string]*inode{"/": {dir: true}, "/work": {dir: true}, "/tmp": {dir: true}},
			cwd: "/work", open: map[*value]*ofile{}}
	}
	return p.fs
}

func (f *memFS) abs(s string) string {
	if !strings.HasPrefix(s, "/") {
		s = f.cwd + "/" + s
	}
	return path.Clean(s)
}

func (f *memFS) mkdirAll(d string) int {
	d = f.abs(d)
	if d == "/" {
		return 0
	}
	if n, ok := f.m[d]; ok {
		if n.dir {
			return 0
		}
		return eNOTDIR
	}
	if e := f.mkdirAll(path.Dir(d)); e != 0 {
		return e
	}
	f.m[d] = &inode{dir: true}
	return 0
}

func (f *memFS) parentOK(s string) int {
	n, ok := f.m[path.Dir(s)]
	if !ok {
		return eNOENT
	}
	if !n.dir {
		return eNOTDIR
	}
	return 0
}

func (f *memFS) children(d string) []string {
	var out []string
	pre := d
	if pre != "/" {
		pre += "/"
	}
	for k := range f.m {
		if k != d && strings.HasPrefix(k, pre) && !strings.Contains(k[len(pre):], "/") {
			out = append(out, k[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

// mutate is called before every mutating operation takes effect.
func (p *Path) mutate(op string) {
	c := p.crash
	if c == nil || !c.active {
		return
	}
	if p.choice(2) == 1 {
		p.crashNow(c.n * crashUnit)
	}
	c.n++
}

const crashUnit = 100000

func (p *Path) crashNow(at int) {
	c := p.crash
	c.crashed = true
	c.active = false
	c.at = at
	panic(&crashPanic{})
}

// mutateWrite is mutate for a write of n bytes, which may be torn: it returns
// the number of bytes that reach the file before the crash, or -1.
func (p *Path) mutateWrite(n int) int {
	c := p.crash
	if c == nil || !c.active {
		return -1
	}
	cuts := []int{}
	if n <= 64 {
		for i := 0; i <= n; i++ {
			cuts = append(cuts, i)
		}
	} else {
		cuts = append(cuts, 0, 1, n/4, n/2, n-2, n-1, n)
	}
	if k := p.choice(1 + len(cuts)); k > 0 {
		return cuts[k-1]
	}
	c.n++
	return -1
}

type crashPanic struct{}

func crashIntr(fr *frame, fn *ssa.Function, a []value) value {
	p := fr.p
	c := &crashCtl{active: true, at: -1}
	p.crash = c
	idx := len(p.inputs)
	p.inputs = append(p.inputs, Input{Kind: "crash", Val: int64(-1)})
	depth := p.depth
	func() {
		defer func() {
			c.active = false
			if r := recover(); r != nil {
				if _, ok := r.(*crashPanic); ok {
					p.depth = depth
					p.inputs[idx].Val = int64(c.at)
					return
				}
				panic(r)
			}
		}()
		p.call(fr, a[0], nil)
	}()
	p.crash = nil
	return c.crashed
}

func (p *Path) pathErr(op, pth string, errno int) value {
	prg := p.ex.prog
	pe := prg.pkgs["io/fs"].Type("PathError").Type()
	en := prg.pkgs["syscall"].Type("Errno").Type()
	cell := new(value)
	*cell = structure{op, pth, iface{t: en, v: int64(errno)}}
	return iface{t: types.NewPointer(pe), v: cell}
}

func (p *Path) linkErr(op, a, b string, errno int) value {
	prg := p.ex.prog
	pe := prg.pkgs["os"].Type("LinkError").Type()
	en := prg.pkgs["syscall"].Type("Errno").Type()
	cell := new(value)
	*cell = structure{op, a, b, iface{t: en, v: int64(errno)}}
	return iface{t: types.NewPointer(pe), v: cell}
}

func (p *Path) fileInfo(name string, n *inode) value {
	st := p.ex.prog.pkgs["os"].Type("fileStat").Type()
	s := zero(st).(structure)
	s[fieldIdx(st, "name")] = path.Base(name)
	s[fieldIdx(st, "size")] = int64(len(n.data))
	mode := int64(0644)
	if n.dir {
		mode = int64(1<<31 | 0755)
	}
	s[fieldIdx(st, "mode")] = mode
	cell := new(value)
	*cell = s
	return iface{t: types.NewPointer(st), v: cell}
}

func (p *Path) newFile(of *ofile) value {
	ft := p.ex.prog.pkgs["os"].Type("File").Type()
	cell := new(value)
	*cell = zero(ft)
	p.getFS().open[cell] = of
	return cell
}

func toSlice(bs []sb) []value {
	r := make([]value, len(bs))
	for i := range bs {
		r[i] = sbVal(bs[i])
	}
	return r
}

func fromSlice(s []value) []sb {
	r := make([]sb, len(s))
	for i := range s {
		r[i] = valSb(s[i])
	}
	return r
}

func osIntrinsics(I map[string]intrinsic) {
	ofOf := func(fr *frame, v value) *ofile {
		a := fr.deref(v)
		if of, ok := fr.p.getFS().open[a]; ok {
			return of
		}
		return nil
	}
	stdio := func(fr *frame, v value) bool {
		// os.Stdout / os.Stderr / os.Stdin are globals of package os
		a, _ := v.(*value)
		if a == nil {
			return false
		}
		return fr.p.getFS().open[a] == nil
	}
	const (
		oWRONLY = 1
		oRDWR   = 2
		oCREATE = 0x40
		oEXCL   = 0x80
		oTRUNC  = 0x200
		oAPPEND = 0x400
	)
	openFile := func(fr *frame, name string, flag int64) value {
		p := fr.p
		f := p.getFS()
		pt := f.abs(name)
		n, ok := f.m[pt]
		fail := func(e int) value { return tuple{(*value)(nil), p.pathErr("open", name, e)} }
		if name == "" {
			return fail(eNOENT)
		}
		acc := flag & 3
		if !ok {
			if e := f.parentOK(pt); e != 0 {
				return fail(e)
			}
			if flag&oCREATE == 0 {
				return fail(eNOENT)
			}
			p.mutate("create " + pt)
			n = &inode{}
			f.m[pt] = n
		} else {
			if flag&oCREATE != 0 && flag&oEXCL != 0 {
				return fail(eEXIST)
			}
			if n.dir && acc != 0 {
				return fail(eISDIR)
			}
			if flag&oTRUNC != 0 && acc != 0 {
				p.mutate("truncate " + pt)
				n.data = nil
			}
		}
		of := &ofile{ino: n, path: pt, app: flag&oAPPEND != 0, rd: acc != oWRONLY, wr: acc != 0}
		return tuple{p.newFile(of), iface{}}
	}
	I["os.OpenFile"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return openFile(fr, fr.cstr(a[0]), a[1].(int64))
	}
	I["os.Open"] = func(fr *frame, fn *ssa.Function, a []value) value { return openFile(fr, fr.cstr(a[0]), 0) }
	I["os.Create"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return openFile(fr, fr.cstr(a[0]), oRDWR|oCREATE|oTRUNC)
	}
	closedErr := func(p *Path) value {
		g := p.ex.prog.pkgs["io/fs"].Var("ErrClosed")
		return *p.globalAddr(g)
	}
	write := func(fr *frame, of *ofile, bs []sb) value {
		p := fr.p
		if of.closed {
			return tuple{int64(0), closedErr(p)}
		}
		if !of.wr {
			return tuple{int64(0), p.pathErr("write", of.path, 9)}
		}
		torn := -1
		if len(bs) > 0 {
			if torn = p.mutateWrite(len(bs)); torn >= 0 {
				bs = bs[:torn]
			}
		}
		if of.app {
			of.off = len(of.ino.data)
		}
		for len(of.ino.data) < of.off+len(bs) {
			of.ino.data = append(of.ino.data, sb{})
		}
		copy(of.ino.data[of.off:], bs)
		of.off += len(bs)
		if torn >= 0 {
			p.crashNow(p.crash.n*crashUnit + torn)
		}
		return tuple{int64(len(bs)), iface{}}
	}
	I["(*os.File).Write"] = func(fr *frame, fn *ssa.Function, a []value) value {
		bs := fromSlice(a[1].([]value))
		if stdio(fr, a[0]) {
			fr.p.stdout = append(fr.p.stdout, bs...)
			return tuple{int64(len(bs)), iface{}}
		}
		return write(fr, ofOf(fr, a[0]), bs)
	}
	I["(*os.File).WriteString"] = func(fr *frame, fn *ssa.Function, a []value) value {
		bs := toSb(a[1])
		if stdio(fr, a[0]) {
			fr.p.stdout = append(fr.p.stdout, bs...)
			return tuple{int64(len(bs)), iface{}}
		}
		return write(fr, ofOf(fr, a[0]), bs)
	}
	I["(*os.File).Read"] = func(fr *frame, fn *ssa.Function, a []value) value {
		p := fr.p
		dst := a[1].([]value)
		eof := func() value { return *p.globalAddr(p.ex.prog.pkgs["io"].Var("EOF")) }
		if stdio(fr, a[0]) {
			return tuple{int64(0), eof()}
		}
		of := ofOf(fr, a[0])
		if of.closed {
			return tuple{int64(0), closedErr(p)}
		}
		if of.ino.dir {
			return tuple{int64(0), p.pathErr("read", of.path, eISDIR)}
		}
		if len(dst) == 0 {
			return tuple{int64(0), iface{}}
		}
		if of.off >= len(of.ino.data) {
			return tuple{int64(0), eof()}
		}
		n := 0
		for n < len(dst) && of.off < len(of.ino.data) {
			dst[n] = sbVal(of.ino.data[of.off])
			n++
			of.off++
		}
		return tuple{int64(n), iface{}}
	}
	I["(*os.File).ReadAt"] = func(fr *frame, fn *ssa.Function, a []value) value {
		p := fr.p
		dst := a[1].([]value)
		of := ofOf(fr, a[0])
		if of.closed {
			return tuple{int64(0), closedErr(p)}
		}
		if of.ino.dir {
			return tuple{int64(0), p.pathErr("read", of.path, eISDIR)}
		}
		off, ok := a[2].(int64)
		if !ok {
			p.unsupported("symbolic offset")
		}
		n := 0
		for n < len(dst) && int(off)+n < len(of.ino.data) {
			dst[n] = sbVal(of.ino.data[int(off)+n])
			n++
		}
		if n < len(dst) {
			return tuple{int64(n), *p.globalAddr(p.ex.prog.pkgs["io"].Var("EOF"))}
		}
		return tuple{int64(n), iface{}}
	}
	I["(*os.File).Close"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if stdio(fr, a[0]) {
			return iface{}
		}
		of := ofOf(fr, a[0])
		if of.closed {
			return closedErr(fr.p)
		}
		of.closed = true
		return iface{}
	}
	I["(*os.File).Sync"] = func(fr *frame, fn *ssa.Function, a []value) value { return iface{} }
	I["(*os.File).Name"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if stdio(fr, a[0]) {
			return "/dev/stdout"
		}
		return ofOf(fr, a[0]).path
	}
	I["(*os.File).Fd"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(3) }
	I["(*os.File).Stat"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if stdio(fr, a[0]) {
			return tuple{fr.p.fileInfo("stdout", &inode{}), iface{}}
		}
		of := ofOf(fr, a[0])
		return tuple{fr.p.fileInfo(of.path, of.ino), iface{}}
	}
	I["(*os.File).Seek"] = func(fr *frame, fn *ssa.Function, a []value) value {
		of := ofOf(fr, a[0])
		off := int(a[1].(int64))
		switch a[2].(int64) {
		case 1:
			off += of.off
		case 2:
			off += len(of.ino.data)
		}
		of.off = off
		return tuple{int64(off), iface{}}
	}
	I["(*os.File).Truncate"] = func(fr *frame, fn *ssa.Function, a []value) value {
		of := ofOf(fr, a[0])
		n := int(a[1].(int64))
		fr.p.mutate("truncate " + of.path)
		for len(of.ino.data) < n {
			of.ino.data = append(of.ino.data, sb{})
		}
		of.ino.data = of.ino.data[:n]
		return iface{}
	}
	I["(*os.File).Readdirnames"] = func(fr *frame, fn *ssa.Function, a []value) value {
		of := ofOf(fr, a[0])
		out := []value{}
		for _, c := range fr.p.getFS().children(of.path) {
			out = append(out, c)
		}
		return tuple{out, iface{}}
	}
	readFile := func(fr *frame, fn *ssa.Function, a []value) value {
		p := fr.p
		f := p.getFS()
		name := fr.cstr(a[0])
		n, ok := f.m[f.abs(name)]
		if !ok || name == "" {
			return tuple{[]value(nil), p.pathErr("open", name, eNOENT)}
		}
		if n.dir {
			return tuple{[]value(nil), p.pathErr("read", name, eISDIR)}
		}
		return tuple{toSlice(n.data), iface{}}
	}
	I["os.ReadFile"] = readFile
	writeFile := func(fr *frame, fn *ssa.Function, a []value) value {
		r := openFile(fr, fr.cstr(a[0]), oWRONLY|oCREATE|oTRUNC).(tuple)
		if r[1].(iface).t != nil {
			return r[1]
		}
		of := fr.p.getFS().open[r[0].(*value)]
		w := write(fr, of, fromSlice(a[1].([]value))).(tuple)
		return w[1]
	}
	I["os.WriteFile"] = writeFile
	stat := func(op string) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []value) value {
			p := fr.p
			f := p.getFS()
			name := fr.cstr(a[0])
			n, ok := f.m[f.abs(name)]
			if !ok || name == "" {
				return tuple{iface{}, p.pathErr(op, name, eNOENT)}
			}
			return tuple{p.fileInfo(f.abs(name), n), iface{}}
		}
	}
	I["os.Stat"] = stat("stat")
	I["os.Lstat"] = stat("lstat")
	I["os.MkdirAll"] = func(fr *frame, fn *ssa.Function, a []value) value {
		f := fr.p.getFS()
		name := fr.cstr(a[0])
		if n, ok := f.m[f.abs(name)]; ok && n.dir {
			return iface{}
		}
		fr.p.mutate("mkdirall")
		if e := f.mkdirAll(name); e != 0 {
			return fr.p.pathErr("mkdir", name, e)
		}
		return iface{}
	}
	I["os.Mkdir"] = func(fr *frame, fn *ssa.Function, a []value) value {
		f := fr.p.getFS()
		name := fr.cstr(a[0])
		pt := f.abs(name)
		if _, ok := f.m[pt]; ok {
			return fr.p.pathErr("mkdir", name, eEXIST)
		}
		if e := f.parentOK(pt); e != 0 {
			return fr.p.pathErr("mkdir", name, e)
		}
		fr.p.mutate("mkdir")
		f.m[pt] = &inode{dir: true}
		return iface{}
	}
	I["os.Remove"] = func(fr *frame, fn *ssa.Function, a []value) value {
		f := fr.p.getFS()
		name := fr.cstr(a[0])
		pt := f.abs(name)
		n, ok := f.m[pt]
		if !ok {
			return fr.p.pathErr("remove", name, eNOENT)
		}
		if n.dir && len(f.children(pt)) > 0 {
			return fr.p.pathErr("remove", name, eNOTEMPTY)
		}
		fr.p.mutate("remove " + pt)
		delete(f.m, pt)
		return iface{}
	}
	I["os.RemoveAll"] = func(fr *frame, fn *ssa.Function, a []value) value {
		f := fr.p.getFS()
		name := fr.cstr(a[0])
		if name == "" {
			return iface{}
		}
		pt := f.abs(name)
		fr.p.mutate("removeall " + pt)
		for k := range f.m {
			if k == pt || strings.HasPrefix(k, pt+"/") {
				delete(f.m, k)
			}
		}
		return iface{}
	}
	I["os.Rename"] = func(fr *frame, fn *ssa.Function, a []value) value {
		f := fr.p.getFS()
		from, to := fr.cstr(a[0]), fr.cstr(a[1])
		pf, pt := f.abs(from), f.abs(to)
		n, ok := f.m[pf]
		if !ok {
			return fr.p.linkErr("rename", from, to, eNOENT)
		}
		if e := f.parentOK(pt); e != 0 {
			return fr.p.linkErr("rename", from, to, e)
		}
		if t, ok := f.m[pt]; ok && t.dir {
			return fr.p.linkErr("rename", from, to, eEXIST)
		}
		fr.p.mutate("rename " + pf + " " + pt)
		if n.dir {
			for k, v := range f.m {
				if strings.HasPrefix(k, pf+"/") {
					delete(f.m, k)
					f.m[pt+k[len(pf):]] = v
				}
			}
		}
		delete(f.m, pf)
		f.m[pt] = n
		return iface{}
	}
	dirEntries := func(fr *frame, name string, infos bool) value {
		p := fr.p
		f := p.getFS()
		pt := f.abs(name)
		n, ok := f.m[pt]
		if !ok || !n.dir {
			return tuple{[]value(nil), p.pathErr("open", name, eNOENT)}
		}
		out := []value{}
		for _, c := range f.children(pt) {
			fi := p.fileInfo(c, f.m[f.abs(pt+"/"+c)])
			if infos {
				out = append(out, fi)
				continue
			}
			fn := p.ex.prog.pkgs["io/fs"].Func("FileInfoToDirEntry")
			out = append(out, p.callFn(fr, fn, []value{fi}, nil))
		}
		return tuple{out, iface{}}
	}
	I["os.ReadDir"] = func(fr *frame, fn *ssa.Function, a []value) value { return dirEntries(fr, fr.cstr(a[0]), false) }
	I["io/ioutil.ReadDir"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return dirEntries(fr, fr.cstr(a[0]), true)
	}
	I["path/filepath.EvalSymlinks"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{a[0], iface{}} }
	I["os.Getwd"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{fr.p.getFS().cwd, iface{}} }
	I["os.Executable"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{"/opt/ticat", iface{}} }
	I["os.Getpid"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(4242) }
	I["os.Getenv"] = func(fr *frame, fn *ssa.Function, a []value) value { return "" }
	I["os.LookupEnv"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{"", false} }
	I["os.Environ"] = func(fr *frame, fn *ssa.Function, a []value) value { return []value{} }
	I["os.Hostname"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{"host", iface{}} }
	I["os.Setenv"] = func(fr *frame, fn *ssa.Function, a []value) value { return iface{} }
	I["os.Chmod"] = I["os.Setenv"]
	I["os.UserHomeDir"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{"/root", iface{}} }
	I["os.TempDir"] = func(fr *frame, fn *ssa.Function, a []value) value { return "/tmp" }
	I["os.Exit"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if f := fr.p.onExit; f != nil {
			fr.p.onExit = nil
			fr.p.call(fr, f, []value{a[0]})
			fr.p.abort(abDone, "")
		}
		fr.p.exited = true
		fr.p.abort(abExit, "os.Exit")
		return nil
	}
	I["os.NewFile"] = func(fr *frame, fn *ssa.Function, a []value) value {
		ft := fr.p.ex.prog.pkgs["os"].Type("File").Type()
		cell := new(value)
		*cell = zero(ft)
		return cell
	}
	I["os.runtime_args"] = func(fr *frame, fn *ssa.Function, a []value) value { return []value{"ticat"} }
	I["internal/godebug.New"] = func(fr *frame, fn *ssa.Function, a []value) value { return (*value)(nil) }
	I["(*internal/godebug.Setting).Value"] = func(fr *frame, fn *ssa.Function, a []value) value { return "" }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["(*internal/godebug.Setting).Name"] = func(fr *frame, fn *ssa.Function, a []value) value { return "" }
	I["os/exec.LookPath"] = func(fr *frame, fn *ssa.Function, a []value) value {
		// Harnesses name the programs that are not there so
		name := fr.cstr(a[0])
		if fr.p.onExec != nil && !strings.HasPrefix(name, "no-such-") {
			return tuple{"/bin/" + name, iface{}}
		}
		return tuple{"", fr.p.mkErr("not found")}
	}
	// Another program is run by the function the harness gave for it.
	I["(*os/exec.Cmd).Run"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if fr.p.onExec == nil {
			return fr.p.mkErr("exec: no such program")
		}
		ct := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		c := (*a[0].(*value)).(structure)
		return fr.p.call(fr, fr.p.onExec, []value{c[fieldIdx(ct, "Args")]})
	}
	I["github.com/innerr/ticat/pkg/zzverif/vnd.OnExit"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.onExit = a[0]
		return nil
	}
	I["github.com/innerr/ticat/pkg/zzverif/vnd.OnExec"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.onExec = a[0]
		return nil
	}
}

func (fr *frame) pidErr(pid value, gone value) value {
	switch n, ok := pid.(int64); {
	case !ok:
		fr.p.unsupported("a signal to a symbolic process")
	case n == 4242:
		return iface{}
	case n == 1:
		return fr.p.ex.prog.errno(1)
	case n > 4194304:
		if gone.(iface).t == nil {
			return fr.p.ex.prog.errno(3)
		}
		return gone
	default:
		fr.p.unsupported("a signal to process %d", n)
	}
	return nil
}

func timeIntrinsics(I map[string]intrinsic) {
	I["time.Now"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.now++
		tt := fn.Signature.Results().At(0).Type()
		s := zero(tt).(structure)
		// wall=0, ext = seconds since year 1, loc=nil (UTC)
		s[fieldIdx(tt, "ext")] = fr.p.now + 62135596800
		return s
	}
	I["time.Sleep"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.sleep(); return nil }
	I["time.runtimeNano"] = func(fr *frame, fn *ssa.Function, a []value) value { return int64(1) }
	// A timer's channel fires once nothing else can run
	I["time.After"] = func(fr *frame, fn *ssa.Function, a []value) value {
		ch := &channel{cap: 1}
		p := fr.p
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		p.timers = append(p.timers, func() {
			p.now++
			s := zero(et).(structure)
			s[fieldIdx(et, "ext")] = p.now + 62135596800
			ch.buf = append(ch.buf, s)
		})
		return ch
	}
	I["(*time.Location).get"] = func(fr *frame, fn *ssa.Function, a []value) value {
		g := fr.p.ex.prog.pkgs["time"].Var("utcLoc")
		return fr.p.globalAddr(g)
	}
	// Standard input is no terminal
	I["syscall.Syscall"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if n, ok := a[0].(int64); ok && n == 16 {
			return tuple{int64(-1), int64(0), int64(25)}
		}
		fr.p.unsupported("syscall %v", a[0])
		return nil
	}
	// The processes there are: this one, the first one (of another user), and none
	// with a number no process can have
	I["syscall.Kill"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.pidErr(a[0], iface{}) }
	I["os.FindProcess"] = func(fr *frame, fn *ssa.Function, a []value) value {
		pt := fr.p.ex.prog.pkgs["os"].Type("Process").Type()
		st := zero(pt).(structure)
		st[fieldIdx(pt, "Pid")] = a[0]
		cell := new(value)
		*cell = st
		return tuple{cell, iface{}}
	}
	I["(*os.Process).Signal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		st := (*a[0].(*value)).(structure)
		done := *fr.p.globalAddr(fr.p.ex.prog.pkgs["os"].Var("ErrProcessDone"))
		return fr.pidErr(st[fieldIdx(pt, "Pid")], done)
	}
	// No network
	I["net.Interfaces"] = func(fr *frame, fn *ssa.Function, a []value) value { return tuple{[]value(nil), iface{}} }
	I["math/rand.Seed"] = nop
	for _, name := range []string{"math/rand.runtime_rand", "math/rand/v2.runtime_rand", "os.runtime_rand"} {
		I[name] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.fresh++; return int64(fr.p.fresh * 7919) }
	}
	I["math/rand.Uint32"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.fresh++
		return int64(uint32(fr.p.fresh * 7919))
	}
	I["math/rand.Int"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.p.fresh++; return int64(fr.p.fresh * 7919) }
	I["math/rand.Intn"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.p.fresh++
		return int64(fr.p.fresh*7919) % a[0].(int64)
	}
}

func (prg *Program) errno(n int) value {
	return iface{t: prg.pkgs["syscall"].Type("Errno").Type(), v: int64(n)}
}
