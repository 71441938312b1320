package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Explorer drives the workers over the path tree of one harness.
type Explorer struct {
	harness         string
	fn              *Func
	deadline        time.Time
	solverTimeoutMs int
	maxPre          int
	maxPaths        int64
	maxSteps        int64
	noMerge         bool
	seed            int64
	pin             []dec
	rtErrT          *RType
	tier            int
	debug           bool
	ckpt            bool

	mu         sync.Mutex
	cond       *sync.Cond
	work       []*workItem
	busy       int
	stop       bool
	paths      int64
	assumed    int64
	unsup      map[string]int
	bounds     map[string]int
	internal   map[string]int
	unknown    int64
	asserts    int64
	choices    int64
	violations []*Violation
	vioKeys    map[string]bool
	reached    map[string]int64
	known      map[string]string
	samples    []PathSample
	rng        *rand.Rand
	fnSteps    map[*Func]int64
	queries    int64
	sat, unsat int64
	cacheHits  int64
	domain     int64
	solverTime time.Duration
	merges     int64
	totalSteps int64
	symPaths   int64
	maxDepth   int
	decisions  int64
	pending    int
	dead       bool
	knownList  map[string]bool
	resets     int64
	maxSamples int
}

type PathSample struct {
	Inputs map[string]string `json:"inputs"`
	Order  []string          `json:"order"`
	Obs    []string          `json:"obs"`
	Reach  []string          `json:"reach"`
	NPC    int               `json:"constraints"`
	Conc   bool              `json:"-"`
}

func (ex *Explorer) push(it *workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.work); n > 0 {
			i := n - 1
			// mostly depth first; sometimes an old item, to spread the search
			if ex.rng.Intn(3) == 0 {
				i = ex.rng.Intn(n)
			}
			it := ex.work[i]
			ex.work[i] = ex.work[n-1]
			ex.work = ex.work[:n-1]
			ex.busy++
			return it
		}
		if ex.busy == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) addViolation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := v.Kind + "|" + v.Msg
	if ex.vioKeys[k] {
		return
	}
	ex.vioKeys[k] = true
	ex.violations = append(ex.violations, v)
	if len(ex.violations) >= 5 {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) addAssert()   { ex.mu.Lock(); ex.asserts++; ex.mu.Unlock() }
func (ex *Explorer) addChoice()   { ex.mu.Lock(); ex.choices++; ex.mu.Unlock() }
func (ex *Explorer) noteUnknown() { ex.mu.Lock(); ex.unknown++; ex.mu.Unlock() }
func (ex *Explorer) noteReset()   { ex.mu.Lock(); ex.resets++; ex.mu.Unlock() }

func (ex *Explorer) noteInternal(msg string, st []string, dbg bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.internal[msg+" @ "+strings.Join(st[:min(len(st), 4)], " < ")]++
	if os.Getenv("SYMGO_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "internal:", msg, strings.Join(st, "\n   "))
		panic("trace")
	}
}

func (ex *Explorer) runtimeError(msg string) Value {
	return Value{P: &Iface{t: ex.rtErrT, v: mkStr(msg)}}
}

func (ex *Explorer) run(workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.unsup, ex.bounds, ex.internal = map[string]int{}, map[string]int{}, map[string]int{}
	ex.reached, ex.vioKeys = map[string]int64{}, map[string]bool{}
	ex.known = map[string]string{}
	ex.fnSteps = map[*Func]int64{}
	ex.rng = rand.New(rand.NewSource(ex.seed))
	ex.work = []*workItem{{prefix: ex.pin}}
	ex.stop, ex.busy = false, 0
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() { // wake sleepers at the deadline
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				ex.mu.Lock()
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}
	}()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newW(ex, i)
			w.debug = ex.debug
			defer w.sol.Close()
			if ex.ckpt {
				// all workers get to the checkpoint at once
				w.warming, w.maxSteps, w.reached = true, ex.maxSteps, map[string]bool{}
				w.runPath(&workItem{prefix: ex.pin}, ex.fn)
				w.warming = false
			}
			for {
				it := ex.pop()
				if it == nil {
					break
				}
				ex.one(w, it)
			}
			ex.mu.Lock()
			for f, n := range w.fnCount {
				ex.fnSteps[f] += n
			}
			ex.queries += w.sol.Queries
			ex.sat += w.sol.Sat
			ex.unsat += w.sol.Unsat
			ex.cacheHits += w.sol.CacheHits
			ex.domain += w.sol.Domain
			ex.solverTime += w.sol.Time
			ex.merges += w.nmerge
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	close(done)
	ex.pending = len(ex.work)
	if time.Now().After(ex.deadline) && ex.pending > 0 {
		ex.dead = true
	}
}

func (ex *Explorer) one(w *W, it *workItem) {
	w.maxSteps = ex.maxSteps
	w.reached = map[string]bool{}
	end := w.runPath(it, ex.fn)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.busy--
	ex.totalSteps += w.steps
	ex.decisions += int64(len(w.trace))
	if len(w.trace) > ex.maxDepth {
		ex.maxDepth = len(w.trace)
	}
	for id, s := range w.knownHits {
		ex.known[id] = s
	}
	switch end.kind {
	case "done":
		ex.paths++
		if len(w.pc) > 0 {
			ex.symPaths++
		}
		for r := range w.reached {
			ex.reached[r]++
		}
		if ex.maxSamples > 0 && (len(ex.samples) < ex.maxSamples || ex.rng.Intn(int(ex.paths)) < ex.maxSamples) {
			in, order := w.inputMap()
			var rs []string
			for r := range w.reached {
				rs = append(rs, r)
			}
			sort.Strings(rs)
			ps := PathSample{Inputs: in, Order: order, Obs: w.obsTexts(), Reach: rs, NPC: len(w.pc), Conc: w.concur}
			if len(ex.samples) < ex.maxSamples {
				ex.samples = append(ex.samples, ps)
			} else {
				ex.samples[ex.rng.Intn(len(ex.samples))] = ps
			}
		}
	case "assume":
		ex.assumed++
	case "unsupported":
		ex.unsup[end.msg]++
	case "bound":
		ex.bounds[end.msg]++
	case "deadline":
		ex.dead = true
		ex.stop = true
	case "stop":
	}
	if ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
		ex.stop = true
	}
	if ex.busy == 0 || ex.stop {
		ex.cond.Broadcast()
	}
}

var _ = ssa.NaiveForm
