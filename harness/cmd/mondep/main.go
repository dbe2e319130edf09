// Command mondep runs the monitor of internal/dependency.
package main

import (
	"fmt"

	"aqwari.net/xml/internal/dependency"
	"aqwari.net/xml/verif/core"
)

func main() {
	core.Main([]*core.Prop{{
		ID: "D01", Quick: 4096 + 3000, Thorough: 4096 + 60000, Run: run,
		Rule: "every directed graph with self-loops on up to 4 vertices (the first 4096 cases, 16 + the rest of 65536+512 graphs spread over them), then random graphs up to 400 vertices (sparse, dense, layered, cyclic, sparse ids, negative ids) and chains of 50000; edges inserted in random order with repetitions; the visit log checked for exactly-once, order along every edge outside cycles, and equality over repeated runs and other insertion orders; non-trivial: at least one edge",
		Need: map[string]int{"graphs with 4 vertices": 65536, "cyclic": 20000, "acyclic": 500, "random graphs": 2000},
	}})
}

type edge struct{ from, to int }

// reach computes reachability (by one or more edges).
func reach(n int, es []edge) [][]bool {
	r := make([][]bool, n)
	adj := make([][]int, n)
	for _, e := range es {
		adj[e.from] = append(adj[e.from], e.to)
	}
	for i := range r {
		r[i] = make([]bool, n)
		stack := append([]int{}, adj[i]...)
		for len(stack) > 0 {
			v := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if !r[i][v] {
				r[i][v] = true
				stack = append(stack, adj[v]...)
			}
		}
	}
	return r
}

func build(es []edge, ids []int) *dependency.Graph {
	g := new(dependency.Graph)
	for _, e := range es {
		g.Add(ids[e.from], ids[e.to])
	}
	return g
}

func log(g *dependency.Graph) []int {
	var l []int
	g.Flatten(func(i int) { l = append(l, i) })
	return l
}

func check(c *core.Case, n int, es []edge, ids []int, r [][]bool) bool {
	in := fmt.Sprintf("edges (target, dependency) %v, ids %v", es, ids)
	if len(in) > 4000 {
		in = in[:4000]
	}
	c.Ctx("%s", in)
	g := build(es, ids)
	l := log(g)
	c.Eval(1)
	pos := map[int]int{}
	for i, v := range l {
		if _, dup := pos[v]; dup {
			c.Violate(in, "vertex %d visited twice: %v", v, l)
			return false
		}
		pos[v] = i
	}
	want := map[int]bool{}
	targets := map[int]bool{}
	cyc := false
	for _, e := range es {
		want[ids[e.from]], want[ids[e.to]] = true, true
		targets[ids[e.from]] = true
		p, ok1 := pos[ids[e.to]]
		q, ok2 := pos[ids[e.from]]
		if !ok1 || !ok2 {
			c.Violate(in, "a vertex of edge %v was not visited: %v", e, l)
			return false
		}
		if r != nil && r[e.to][e.from] {
			cyc = true
			continue
		}
		if p >= q {
			c.Violate(in, "%d visited before its dependency %d: %v", ids[e.from], ids[e.to], l)
			return false
		}
	}
	if len(l) != len(want) {
		c.Violate(in, "visited %v, which are not the %d vertices of the edges", l, len(want))
		return false
	}
	if g.Len() != len(targets) {
		c.Violate(in, "Len() = %d, want %d targets", g.Len(), len(targets))
		return false
	}
	if s := fmt.Sprint(log(g)); s != fmt.Sprint(l) {
		c.Violate(in, "second run visits %v, first %v", s, l)
		return false
	}
	sh := append([]edge{}, es...)
	c.Shuffle(len(sh), func(i, j int) { sh[i], sh[j] = sh[j], sh[i] })
	if s := fmt.Sprint(log(build(sh, ids))); s != fmt.Sprint(l) {
		c.Violate(in, "same edges inserted as %v: visits %v instead of %v", sh, s, l)
		return false
	}
	if cyc {
		c.Observe("cyclic", 1)
	} else {
		c.Observe("acyclic", 1)
	}
	if len(es) > 0 {
		c.Distinct(in)
	}
	return true
}

func run(c *core.Case) {
	if c.Idx < 4096 {
		small := func(n, bits int) bool {
			var es []edge
			for i := 0; i < n*n; i++ {
				if bits>>uint(i)&1 == 1 {
					es = append(es, edge{i / n, i % n})
				}
			}
			c.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
			ids := c.Perm(n)
			c.Observe(fmt.Sprintf("graphs with %d vertices", n), 1)
			return check(c, n, es, ids, reach(n, es))
		}
		for k := 0; k < 16; k++ {
			if !small(4, c.Idx*16+k) {
				return
			}
		}
		if c.Idx < 512 && !small(3, c.Idx) || c.Idx < 16 && !small(2, c.Idx) || c.Idx < 2 && !small(1, c.Idx) {
			return
		}
		return
	}
	c.Observe("random graphs", 1)
	if c.Intn(300) == 0 {
		n := 50000
		var es []edge
		for i := 0; i+1 < n; i++ {
			es = append(es, edge{i, i + 1})
		}
		ids := make([]int, n)
		for i := range ids {
			ids[i] = i
			if c.Idx%2 == 0 {
				ids[i] = n - i
			}
		}
		check(c, n, es, ids, nil)
		return
	}
	n := 2 + c.Intn(60)
	if c.Pct(5) {
		n = 400
	}
	m := 1 + c.Intn(3*n)
	var es []edge
	kind := c.Intn(4)
	for i := 0; i < m; i++ {
		e := edge{c.Intn(n), c.Intn(n)}
		if kind < 2 && e.from <= e.to { // acyclic
			e.from, e.to = e.to, e.from
			if e.from == e.to {
				continue
			}
		}
		es = append(es, e)
		if c.Pct(10) {
			es = append(es, es[c.Intn(len(es))])
		}
	}
	if len(es) == 0 {
		es = append(es, edge{1, 0})
	}
	ids := c.Perm(n)
	if c.Pct(30) {
		for i := range ids {
			ids[i] = ids[i]*37 - 500
		}
	}
	if check(c, n, es, ids, reach(n, es)) {
		c.Sample("%d vertices, edges %v", n, es)
	}
}
