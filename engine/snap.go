package main

// A checkpoint is the state of a harness at its call of vrt.Checkpoint. Up to
// there a run makes no choice, so all paths of the harness share it: every
// worker executes the prefix once, treats what it built like initialised
// package state, and starts each path from the checkpoint.

type snapFrame struct {
	f    *Frame
	copy Frame
	regs []Value
}

type snapGor struct {
	g    *Gor
	copy Gor
}

type snapChan struct {
	c     *Chan
	copy  Chan
	sends []sendWait
}

type snapIter struct {
	it   *Iter
	copy Iter
}

type snapshot struct {
	frames []snapFrame
	gors   []snapGor
	chans  []snapChan
	iters  []snapIter
	cur    *Gor
	done   *bool
	steps  int64
	clock  int64
	mapOrd int
	maxPre int
	concur bool
	race   bool
	names  map[string]int
	obs    []obsEnt
	output []string
	reach  []string
}

func (w *W) takeSnapshot() {
	if w.cur == nil || w.cur.nested > 0 || w.depth > 0 {
		w.unsupported("checkpoint inside a nested call")
	}
	if len(w.inputs) > 0 || len(w.trace) > 0 || w.baseMode != 1 {
		w.unsupported("checkpoint after an input or a choice")
	}
	s := &snapshot{cur: w.cur, done: w.mainDone, steps: w.steps, clock: w.clock, mapOrd: w.mapOrder, maxPre: w.maxPre, concur: w.concur, race: w.raceOn, names: map[string]int{}}
	for k, v := range w.names {
		s.names[k] = v
	}
	s.obs = append(s.obs, w.obs...)
	s.output = append(s.output, w.output...)
	for r := range w.reached {
		s.reach = append(s.reach, r)
	}
	for _, g := range w.gors {
		sg := snapGor{g: g, copy: *g}
		sg.copy.vc = append(vclock(nil), g.vc...)
		s.gors = append(s.gors, sg)
		for f := g.top; f != nil; f = f.caller {
			f.pinned = true
			sf := snapFrame{f: f, copy: *f, regs: append([]Value(nil), f.regs...)}
			sf.copy.defers = append([]deferred(nil), f.defers...)
			s.frames = append(s.frames, sf)
			if f.panicking != nil {
				w.unsupported("checkpoint while panicking")
			}
			for _, r := range f.regs {
				if it, ok := r.P.(*Iter); ok {
					s.iters = append(s.iters, snapIter{it, *it})
				}
			}
		}
	}
	for _, c := range w.baseChans {
		sc := snapChan{c: c, copy: *c}
		sc.copy.buf = append([]Value(nil), c.buf...)
		sc.copy.vcs = append([]vclock(nil), c.vcs...)
		sc.copy.sendq = append([]*sendWait(nil), c.sendq...)
		for _, x := range c.sendq {
			sc.sends = append(sc.sends, *x)
		}
		s.chans = append(s.chans, sc)
	}
	w.baseMode = 0
	w.journal = w.journal[:0]
	w.snap = s
	if w.warming {
		panic(pathEnd{"stop", "the checkpoint is reached"})
	}
}

func (w *W) restoreSnapshot() {
	s := w.snap
	for i := range s.frames {
		sf := &s.frames[i]
		mf := sf.f.mergeFail
		*sf.f = sf.copy
		sf.f.mergeFail = mf
		sf.f.defers = append([]deferred(nil), sf.copy.defers...)
		copy(sf.f.regs, sf.regs)
	}
	w.gors = w.gors[:0]
	for i := range s.gors {
		sg := &s.gors[i]
		*sg.g = sg.copy
		sg.g.vc = append(vclock(nil), sg.copy.vc...)
		w.gors = append(w.gors, sg.g)
	}
	for i := range s.chans {
		sc := &s.chans[i]
		*sc.c = sc.copy
		sc.c.buf = append([]Value(nil), sc.copy.buf...)
		sc.c.vcs = append([]vclock(nil), sc.copy.vcs...)
		sc.c.sendq = append([]*sendWait(nil), sc.copy.sendq...)
		for k, x := range sc.c.sendq {
			*x = sc.sends[k]
		}
	}
	for i := range s.iters {
		*s.iters[i].it = s.iters[i].copy
	}
	w.cur = s.cur
	*s.done = false
	w.clock, w.mapOrder, w.maxPre, w.concur, w.raceOn = s.clock, s.mapOrd, s.maxPre, s.concur, s.race
	for k, v := range s.names {
		w.names[k] = v
	}
	w.obs = append(w.obs, s.obs...)
	w.output = append([]string(nil), s.output...)
	for _, r := range s.reach {
		w.reached[r] = true
	}
}
