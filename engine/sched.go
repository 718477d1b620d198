package main

import (
	"fmt"
	"go/types"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func unsafeStr(a *value, n int) value {
	s := unsafe.Slice(a, n)
	bs := make([]sb, n)
	for i := range s {
		bs[i] = valSb(s[i])
	}
	return mkStr(bs)
}

func unsafeSlice(a *value, n int) []value { return unsafe.Slice(a, n) }

// Cooperative scheduler: exactly one interpreted goroutine runs at a time and
// control moves only at synchronisation points; which goroutine continues is a
// path decision.
type gor struct {
	id    int
	wake  chan bool // false: die
	cond  func() bool
	done  bool
	depth int
}

type sched struct {
	gs   []*gor
	cur  *gor
	dead bool
	err  any
	main chan struct{}
}

func (p *Path) runMain() (kind abortKind, msg string) {
	p.sch = &sched{main: make(chan struct{}, 1)}
	g0 := &gor{id: 0, wake: make(chan bool, 1)}
	p.sch.gs = []*gor{g0}
	p.sch.cur = g0
	outcome := func(r any) (abortKind, string) {
		switch r := r.(type) {
		case nil:
			return abDone, ""
		case abortPath:
			return r.kind, r.msg
		case *targetPanic:
			return abDone, ""
		case unsupported:
			return abUnsupported, string(r)
		default:
			return abUnsupported, fmt.Sprintf("internal: %v", r)
		}
	}
	func() {
		defer func() {
			r := recover()
			if debugPanics && r != nil {
				if _, ok := r.(abortPath); !ok {
					if _, ok := r.(*targetPanic); !ok {
						panic(r)
					}
				}
			}
			if tp, ok := r.(*targetPanic); ok {
				r = p.uncaught(tp)
			}
			if p.sch.err != nil && r == nil {
				r = p.sch.err
			} else if ab, ok := r.(abortPath); ok && ab.kind == abExit && ab.msg == "killed" && p.sch.err != nil {
				r = p.sch.err
			}
			kind, msg = outcome(r)
		}()
		fn := p.ex.prog.harness(p.ex.harness)
		p.callFn(nil, fn, nil, nil)
	}()
	// kill the remaining goroutines
	p.sch.dead = true
	for _, g := range p.sch.gs[1:] {
		if !g.done {
			g.wake <- false
			<-p.sch.main
		}
	}
	return
}

// uncaught turns an uncaught target panic into a candidate.
func (p *Path) uncaught(tp *targetPanic) (r any) {
	defer func() {
		if x := recover(); x != nil {
			r = x
		}
	}()
	p.candidate("panic", p.panicText(tp.v), tp.stack)
	return nil
}

func (p *Path) panicText(v iface) string {
	if v.t == nil {
		return "nil"
	}
	if v.t == p.ex.prog.rtErr {
		return "runtime error: " + v.v.(string)
	}
	switch x := v.v.(type) {
	case string:
		return x
	case symStr:
		return showSym(p, x)
	}
	return v.t.String()
}

func showSym(p *Path, s symStr) string {
	b := make([]byte, len(s))
	for i, c := range s {
		if c.t != nil {
			b[i] = byte(p.evalT(c.t))
		} else {
			b[i] = c.c
		}
	}
	return string(b)
}

func (p *Path) goStart(fn value, args []value) {
	g := &gor{id: len(p.sch.gs), wake: make(chan bool, 1)}
	p.sch.gs = append(p.sch.gs, g)
	go func() {
		ok := <-g.wake
		defer func() {
			r := recover()
			if tp, is := r.(*targetPanic); is {
				r = p.uncaught(tp)
			}
			g.done = true
			if p.sch.dead {
				p.sch.main <- struct{}{}
				return
			}
			if r != nil {
				if p.sch.err == nil {
					p.sch.err = r
				}
				// end the path: wake main to die
				p.sch.dead = true
				p.sch.cur = p.sch.gs[0]
				p.sch.gs[0].wake <- false
				return
			}
			p.leave(g)
		}()
		if !ok {
			panic(abortPath{abExit, "killed"})
		}
		p.call(nil, fn, args)
	}()
	p.yield()
}

// leave hands control over from a finished goroutine.
func (p *Path) leave(g *gor) {
	defer func() {
		if r := recover(); r != nil {
			p.sch.err = r
			p.sch.dead = true
			p.sch.cur = p.sch.gs[0]
			p.sch.gs[0].wake <- false
		}
	}()
	n := p.pickNext(nil)
	p.sch.cur = n
	n.wake <- true
}

func (p *Path) runnable() []*gor {
	var rs []*gor
	for _, g := range p.sch.gs {
		if g.done {
			continue
		}
		if g.cond == nil || g.cond() {
			rs = append(rs, g)
		}
	}
	return rs
}

// pickNext chooses the goroutine to continue; cur (may be nil) is the current
// one if it is still runnable.
func (p *Path) pickNext(cur *gor) *gor {
	rs := p.runnable()
	for len(rs) == 0 && len(p.timers) > 0 {
		t := p.timers[0]
		p.timers = p.timers[1:]
		t()
		rs = p.runnable()
	}
	if len(rs) == 0 {
		p.candidate("deadlock", "all goroutines are asleep", "")
	}
	if len(rs) == 1 {
		return rs[0]
	}
	if cur != nil {
		if p.preempt <= 0 {
			return cur
		}
		// order: current first
		ord := []*gor{cur}
		for _, g := range rs {
			if g != cur {
				ord = append(ord, g)
			}
		}
		k := p.choice(len(ord))
		if k != 0 {
			p.preempt--
		}
		return ord[k]
	}
	if p.preempt < 0 {
		return rs[0]
	}
	return rs[p.choice(len(rs))]
}

func (p *Path) switchTo(n *gor) {
	me := p.sch.cur
	if n == me {
		return
	}
	me.depth = p.depth
	p.sch.cur = n
	p.depth = n.depth
	n.wake <- true
	if !<-me.wake {
		panic(abortPath{abExit, "killed"})
	}
	p.depth = me.depth
}

// yield is a scheduling point at which the current goroutine stays runnable.
func (p *Path) yield() {
	if len(p.sch.gs) == 1 {
		return
	}
	alive := 0
	for _, g := range p.sch.gs {
		if !g.done {
			alive++
		}
	}
	if alive <= 1 {
		return
	}
	me := p.sch.cur
	n := p.pickNext(me)
	p.switchTo(n)
}

// block waits until cond holds.
func (p *Path) block(cond func() bool) {
	me := p.sch.cur
	for !cond() {
		me.cond = cond
		n := p.pickNext(nil)
		if n != me {
			p.switchTo(n)
		}
		me.cond = nil
	}
}

// sleep: others run first if they can (unless all are asleep).
func (p *Path) sleep() {
	me := p.sch.cur
	var rs []*gor
	for _, g := range p.runnable() {
		if g != me {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := 0
	if p.preempt >= 0 {
		k = p.choice(len(rs))
	}
	p.switchTo(rs[k])
}

func (p *Path) chanSend(ch *channel, v value) {
	p.yield()
	if ch == nil {
		p.block(func() bool { return false })
	}
	if ch.closed {
		p.rtPanic("send on closed channel")
	}
	if ch.cap > 0 {
		p.block(func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			p.rtPanic("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	// unbuffered: place the value, wait until it is taken
	p.block(func() bool { return len(ch.buf) == 0 || ch.closed })
	if ch.closed {
		p.rtPanic("send on closed channel")
	}
	ch.buf = append(ch.buf, copyVal(v))
	ch.sent++
	my := ch.sent
	p.block(func() bool { return ch.taken >= my })
}

func (p *Path) chanRecv(ch *channel, et types.Type) (value, bool) {
	p.yield()
	if ch == nil {
		p.block(func() bool { return false })
	}
	p.block(func() bool { return len(ch.buf) > 0 || ch.closed })
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.taken++
		return v, true
	}
	return zero(et), false
}

func (fr *frame) selectStmt(ic *icode, ins *ssa.Select) value {
	p := fr.p
	p.yield()
	type cs struct {
		ch   *channel
		send value
		dir  types.ChanDir
		i    int
	}
	var cases []cs
	for i, s := range ins.States {
		ch, _ := fr.get(&ic.ops[2*i]).(*channel)
		cases = append(cases, cs{ch, fr.get(&ic.ops[2*i+1]), s.Dir, i})
	}
	ready := func() []cs {
		var r []cs
		for _, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.dir == types.SendOnly {
				if c.ch.closed || (c.ch.cap > 0 && len(c.ch.buf) < c.ch.cap) {
					r = append(r, c)
				} else if c.ch.cap == 0 {
					p.unsupported("select send on unbuffered channel")
				}
			} else if len(c.ch.buf) > 0 || c.ch.closed {
				r = append(r, c)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 && !ins.Blocking {
		res := tuple{int64(-1), false}
		for _, s := range ins.States {
			if s.Dir == types.RecvOnly {
				res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return res
	}
	if len(rs) == 0 {
		p.block(func() bool { return len(ready()) > 0 })
		rs = ready()
	}
	c := rs[p.choice(len(rs))]
	res := tuple{int64(c.i), false}
	if c.dir == types.SendOnly {
		if c.ch.closed {
			p.rtPanic("send on closed channel")
		}
		c.ch.buf = append(c.ch.buf, copyVal(c.send))
	}
	for i, s := range ins.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == c.i {
			v, ok := p.chanRecvNow(c.ch, et)
			res[1] = ok
			res = append(res, v)
		} else {
			res = append(res, zero(et))
		}
	}
	return res
}

func (p *Path) chanRecvNow(ch *channel, et types.Type) (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.taken++
		return v, true
	}
	return zero(et), false
}
