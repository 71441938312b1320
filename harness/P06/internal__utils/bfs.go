package utils

import (
	"github.com/typescript-eslint/tsgolint/internal/collections"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type vGraph struct {
	n       int
	adj     [5][5]bool
	order   []int // order in which neighbours are listed
	res     [5]bool
	stop    [5]bool
	pre     [5]bool
	visits  []int
	visited [5]int
	removed bool // pre: nodes removed from every level, not nodes seen before
}

// vNeigh decides row i when it is first asked for.
func (g *vGraph) neigh(i int) []int {
	var out []int
	for _, j := range g.order {
		if g.adj[i][j] {
			out = append(out, j)
		}
	}
	return out
}

// vDist gives distances from node 0 that avoid barred nodes; -1: unreachable.
func (g *vGraph) dist(expanded func(int) bool) []int {
	d := make([]int, g.n)
	for i := range d {
		d[i] = -1
	}
	if !g.pre[0] {
		d[0] = 0
	}
	for k := 0; k < g.n; k++ {
		for i := 0; i < g.n; i++ {
			if d[i] != k || !expanded(i) {
				continue
			}
			for j := 0; j < g.n; j++ {
				if g.adj[i][j] && d[j] < 0 && !g.pre[j] {
					d[j] = k + 1
				}
			}
		}
	}
	return d
}

func (g *vGraph) run(preset bool) {
	var vis *collections.SyncSet[int]
	if preset {
		vis = &collections.SyncSet[int]{}
		for i := 0; i < g.n; i++ {
			if g.pre[i] && !g.removed {
				vis.Add(i)
			}
		}
	}
	opt := BreadthFirstSearchOptions[int]{Visited: vis}
	if g.removed {
		opt.PreprocessLevel = func(l *BreadthFirstSearchLevel[int]) {
			for i := 0; i < g.n; i++ {
				if g.pre[i] && l.Has(i) {
					l.Delete(i)
				}
			}
			l.Range(func(i int) bool {
				vrt.Assert(!g.pre[i], "a removed node is gone from its level")
				return true
			})
		}
	}
	r := BreadthFirstSearch(0, g.neigh, func(i int) (bool, bool) {
		g.visits = append(g.visits, i)
		g.visited[i]++
		return g.res[i], g.stop[i]
	}, opt)
	vrt.Observe("visits", len(g.visits))
	vrt.Observe("stopped", r.Stopped)
	vrt.Observe("path", len(r.Path))
	d := g.dist(func(int) bool { return true })
	for i := 0; i < g.n; i++ {
		vrt.Assert(g.visited[i] <= 1, "no node is visited twice")
		vrt.Assert(!(g.pre[i] && g.visited[i] > 0), "a node visited before is not visited again")
		vrt.Assert(!(d[i] < 0 && g.visited[i] > 0), "only reachable nodes are visited")
	}
	first, fallback := -1, -1
	last := -1
	for k, i := range g.visits {
		vrt.Assert(d[i] >= last, "nodes are visited by nondecreasing distance")
		last = d[i]
		if g.res[i] && g.stop[i] && first < 0 {
			first = i
			vrt.Assert(k == len(g.visits)-1, "the search ends at the first stopping result")
		}
		if g.res[i] && !g.stop[i] && fallback < 0 {
			fallback = i
		}
	}
	// within a distance, nodes follow the listing order of their first parents
	for k := 1; k < len(g.visits); k++ {
		a, b := g.visits[k-1], g.visits[k]
		if d[a] == d[b] {
			vrt.Assert(g.before(a, b, k-1, d), "nodes of one distance are visited in the order their parents list them")
		}
	}
	vrt.Assert(r.Stopped == (first >= 0), "stopped iff a stopping result was visited")
	if first < 0 {
		for i := 0; i < g.n; i++ {
			vrt.Assert(!(d[i] >= 0 && g.visited[i] == 0), "without a stopping result every reachable node is visited")
		}
	}
	want := first
	if want < 0 {
		want = fallback
	}
	if want < 0 {
		vrt.Assert(len(r.Path) == 0, "no result, no path")
		return
	}
	if first < 0 {
		vrt.Reach("fallback")
	} else {
		vrt.Reach("stop")
	}
	vrt.Assert(len(r.Path) == d[want]+1, "the path is a shortest one")
	vrt.Assert(r.Path[0] == want, "the path starts at the result")
	vrt.Assert(r.Path[len(r.Path)-1] == 0, "the path leads back to the start")
	for k := 1; k < len(r.Path); k++ {
		vrt.Assert(g.adj[r.Path[k]][r.Path[k-1]], "the path follows edges")
	}
	if len(r.Path) > 2 {
		vrt.Reach("long")
	}
}

// before: a's earliest parent comes first, or they share it and it lists a first.
func (g *vGraph) before(a, b, upto int, d []int) bool {
	for _, p := range g.visits[:upto] {
		if d[p] != d[a]-1 {
			continue
		}
		for _, c := range g.order {
			if g.adj[p][c] && c == a {
				return true
			}
			if g.adj[p][c] && c == b {
				return false
			}
		}
	}
	return d[a] == 0
}

var vBits = []string{"e00", "e01", "e02", "e03", "e10", "e11", "e12", "e13", "e20", "e21", "e22", "e23", "e30", "e31", "e32", "e33"}

// All directed graphs on three nodes (loops included), both listing orders, all
// result/stop answers and all sets of nodes visited before.
//
//vrt:opt must=stop,fallback,long weight=15
func Verif_ThreeNodes() {
	g := &vGraph{n: 3, order: []int{0, 1, 2}}
	if vrt.Bool("rev") {
		g.order = []int{2, 1, 0}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			g.adj[i][j] = vrt.Bool(vBits[i*4+j])
		}
		g.res[i] = vrt.Bool("res")
		g.stop[i] = vrt.Bool("stop")
	}
	for i := 0; i < 3; i++ {
		g.pre[i] = vrt.Bool("pre")
	}
	g.run(true)
}

// All directed graphs on three nodes without edges back to the start, with any
// nodes that the caller removes from each level before it is searched.
//
//vrt:opt must=stop,fallback weight=10
func Verif_Removed() {
	g := &vGraph{n: 3, order: []int{0, 1, 2}, removed: true}
	for i := 0; i < 3; i++ {
		for j := 1; j < 3; j++ {
			if i != j {
				g.adj[i][j] = vrt.Bool(vBits[i*4+j])
			}
		}
		g.res[i] = vrt.Bool("res")
		g.stop[i] = vrt.Bool("stop")
		g.pre[i] = vrt.Bool("removed")
	}
	g.run(vrt.Bool("preset"))
}

// All directed graphs on five nodes without loops and without edges back to the
// start; one stopping result anywhere (or missing).
//
//vrt:opt must=stop,long weight=30
func Verif_FiveNodes() {
	g := &vGraph{n: 5, order: []int{4, 1, 3, 0, 2}}
	t := vrt.Choice("target", 6)
	for i := 0; i < 5; i++ {
		for j := 1; j < 5; j++ {
			if i != j {
				g.adj[i][j] = vrt.Bool("e" + string(rune('0'+i)) + string(rune('0'+j)))
			}
		}
		g.res[i] = i == t
		g.stop[i] = i == t
	}
	g.run(false)
}

// All directed graphs on four nodes without loops; one stopping result and one
// non-stopping result anywhere (or missing).
//
//vrt:opt must=stop,fallback,long weight=35
func Verif_FourNodes() {
	g := &vGraph{n: 4, order: []int{1, 3, 0, 2}}
	t := vrt.Choice("target", 5)
	f := vrt.Choice("fallback", 5)
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			if i != j && j != 0 {
				g.adj[i][j] = vrt.Bool(vBits[i*4+j])
			}
		}
		g.res[i] = i == t || i == f
		g.stop[i] = i == t
	}
	g.run(false)
}
