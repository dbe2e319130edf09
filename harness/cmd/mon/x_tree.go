package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/xmltree"
)

func jsonMarshal(v interface{}) ([]byte, error) { return json.Marshal(v) }

func init() {
	register(&core.Prop{
		ID: "X08", Quick: 30000, Thorough: 300000, Run: runX08,
		Rule: "random trees (parsed and edited), from the root and from inner elements: Flatten, Search for present and absent names and namespaces, SearchFunc with logging predicates; compared with an own pre-order traversal by pointer identity, tree fingerprint before and after, change through a result re-read; non-trivial: at least 4 descendants",
		Need: map[string]int{"searches": 50000, "hits": 10000, "writes through results": 5000},
	})
	register(&core.Prop{
		ID: "X09", Quick: 30000, Thorough: 300000, Run: runX09,
		Rule: "pairs: (1) a document re-rendered with shuffled elements and attributes, renamed prefixes and other white space; (2) the same with exactly one difference; (3) independent random trees over a tiny vocabulary; (4) triples; verdict of Equal in both directions compared with equality of canonical forms, fingerprints before and after; deep chains; non-trivial: trees with at least 3 elements",
		Need: map[string]int{"equal pairs": 5000, "different pairs": 5000, "same-named siblings": 2000, "deep chains": 20, "large trees": 120},
	})
	register(&core.Prop{
		ID: "X10", Quick: 200000, Thorough: 3000000, Run: runX10,
		Rule: "random histories of Attr and SetAttr on parsed and fresh elements over a small set of names and namespaces, checked step by step against an ordered list; non-trivial: history that both replaces and appends",
		Need: map[string]int{"sets replacing": 5000, "sets appending": 10000, "reads": 50000},
	})
	register(&core.Prop{
		ID: "X11", Quick: 60000, Thorough: 900000, Run: runX11, MemMB: 4000,
		Rule: "random bytes, byte- and token-level mutations of valid documents, truncations, deep nesting around and beyond the limit, encoding declarations in odd places, cyclic trees; outcome compared with a token walk of encoding/xml over the same bytes; non-trivial: distinct input that starts an element",
		Need: map[string]int{"rejected": 3000, "accepted": 3000, "deep": 20, "cyclic trees": 200},
	})
}

func preorder(el *xmltree.Element, fn func(*xmltree.Element)) {
	for i := range el.Children {
		fn(&el.Children[i])
		preorder(&el.Children[i], fn)
	}
}

// fingerprint covers everything that is visible of a tree, in order.
func fingerprint(el *xmltree.Element) string {
	var b strings.Builder
	var rec func(el *xmltree.Element)
	rec = func(el *xmltree.Element) {
		fmt.Fprintf(&b, "(%q %q %q %v", el.Name, el.StartElement.Attr, el.Content, el.Scope)
		for i := range el.Children {
			rec(&el.Children[i])
		}
		b.WriteString(")")
	}
	rec(el)
	return b.String()
}

func runX08(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 30, Undeclared: true, Mixed: c.Pct(30)})
	doc := g.Render(g.Doc(), nil)
	root := parseOrReport(c, doc)
	if root == nil {
		return
	}
	c.Ctx("%s", doc)
	if c.Pct(30) {
		e := &editor{c: c, g: g}
		g2 := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 5})
		if other := parseOrReport(c, g2.Render(g2.Doc(), nil)); other != nil {
			for k := 0; k < 4; k++ {
				e.edit(root, other)
			}
		}
	}
	before := fingerprint(root)
	var all []*xmltree.Element
	preorder(root, func(e *xmltree.Element) { all = append(all, e) })
	starts := []*xmltree.Element{root}
	if len(all) > 0 {
		starts = append(starts, all[c.Intn(len(all))])
	}
	same := func(got, want []*xmltree.Element, what string) bool {
		c.Observe("searches", 1)
		c.Observe("hits", len(want))
		c.Eval(1)
		if len(got) != len(want) {
			c.Violate(string(doc), "%s: %d results, want %d", what, len(got), len(want))
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				c.Violate(string(doc), "%s: result %d is %s (%p), want %s (%p)", what, i, show(got[i]), got[i], show(want[i]), want[i])
				return false
			}
		}
		return true
	}
	for _, st := range starts {
		var desc []*xmltree.Element
		preorder(st, func(e *xmltree.Element) { desc = append(desc, e) })
		if len(desc) >= 4 {
			c.Distinct(fingerprint(st))
			c.Sample("%s", doc)
		}
		if !same(st.Flatten(), desc, "Flatten") {
			return
		}
		names := []xml.Name{{Space: "urn:none", Local: "none"}, {Space: "", Local: "a"}, {Space: "", Local: "none"}, {Space: "urn:a", Local: ""}, st.Name}
		for i := 0; i < 4 && len(desc) > 0; i++ {
			n := desc[c.Intn(len(desc))].Name
			names = append(names, n, xml.Name{Local: n.Local}, xml.Name{Space: "urn:a", Local: n.Local}, xml.Name{Space: n.Space, Local: strings.ToUpper(n.Local)})
		}
		for _, n := range names {
			var want []*xmltree.Element
			for _, e := range desc {
				if e.Name.Local == n.Local && (n.Space == "" || n.Space == e.Name.Space) {
					want = append(want, e)
				}
			}
			if !same(st.Search(n.Space, n.Local), want, fmt.Sprintf("Search(%q, %q)", n.Space, n.Local)) {
				return
			}
		}
		// A predicate whose verdict depends on the element, logging calls.
		bits := c.Int63()
		pred := func(e *xmltree.Element) bool {
			return bits>>(uint(len(e.Name.Local)+len(e.Children)*3+len(e.StartElement.Attr)*7)%60)&1 == 1
		}
		var calls, want []*xmltree.Element
		for _, e := range desc {
			if pred(e) {
				want = append(want, e)
			}
		}
		got := st.SearchFunc(func(e *xmltree.Element) bool { calls = append(calls, e); return pred(e) })
		if !same(got, want, "SearchFunc") || !same(calls, desc, "calls of the predicate") {
			return
		}
		if len(st.SearchFunc(func(*xmltree.Element) bool { return false })) != 0 {
			c.Violate(string(doc), "SearchFunc with a false predicate returns results")
			return
		}
	}
	if after := fingerprint(root); after != before {
		c.Violate(string(doc), "searching changed the tree:\n%s\n%s", before, after)
		return
	}
	// A write through a result is a write to the tree.
	if len(all) > 0 {
		k := c.Intn(len(all))
		res := root.Flatten()
		mark := fmt.Sprintf("mark%d", k)
		res[k].SetAttr("", "marked", mark)
		hits, n := 0, -1
		preorder(root, func(e *xmltree.Element) {
			n++
			if e.Attr("", "marked") == mark {
				hits++
				if n != k {
					hits = 99
				}
			}
		})
		c.Observe("writes through results", 1)
		if hits != 1 {
			c.Violate(string(doc), "attribute set through result %d is seen %d times in the tree", k, hits)
		}
	}
}

// canonical form of a tree under Equal.
func canonical(el *xmltree.Element) string {
	var as []string
	for _, a := range el.StartElement.Attr {
		as = append(as, fmt.Sprintf("%q %q=%q", a.Name.Space, a.Name.Local, a.Value))
	}
	sort.Strings(as)
	s := fmt.Sprintf("<%q %q [%s]", el.Name.Space, el.Name.Local, strings.Join(as, ","))
	if len(el.Children) == 0 {
		return s + fmt.Sprintf("%q>", bytes.TrimSpace(el.Content))
	}
	var cs []string
	for i := range el.Children {
		cs = append(cs, canonical(&el.Children[i]))
	}
	sort.Strings(cs)
	return s + strings.Join(cs, "") + ">"
}

func checkEqual(c *core.Case, a, b *xmltree.Element, what string) bool {
	fa, fb := fingerprint(a), fingerprint(b)
	want := canonical(a) == canonical(b)
	ab := xmltree.Equal(a, b)
	if fingerprint(a) != fa || fingerprint(b) != fb {
		c.Violate(what, "Equal changed its arguments")
		return false
	}
	ba := xmltree.Equal(b, a)
	c.Eval(2)
	if want {
		c.Observe("equal pairs", 1)
	} else {
		c.Observe("different pairs", 1)
	}
	if ab != want || ba != want {
		c.Violate(what, "Equal(a, b) = %v, Equal(b, a) = %v, canonical forms equal: %v\na = %s\nb = %s", ab, ba, want, xmltree.Marshal(a), xmltree.Marshal(b))
		return false
	}
	return true
}

// shuffle reorders children and attributes in the model and renames prefixes.
func shuffled(c *core.Case, n *xmlgen.Node, parent *xmlgen.Node, ren map[string]string) *xmlgen.Node {
	m := &xmlgen.Node{Prefix: n.Prefix, Name: n.Name, Parent: parent}
	rn := func(p string) string {
		if q, ok := ren[p]; ok {
			return q
		}
		return p
	}
	m.Prefix = rn(n.Prefix)
	for _, d := range n.Decls {
		m.Decls = append(m.Decls, xmlgen.Decl{Prefix: rn(d.Prefix), URI: d.URI})
	}
	for _, i := range c.Perm(len(n.Attrs)) {
		a := n.Attrs[i]
		a.Prefix = rn(a.Prefix)
		m.Attrs = append(m.Attrs, a)
	}
	ch := n.Children()
	if len(ch) == 0 {
		raw := ""
		for _, it := range n.Items {
			raw += it.Raw
		}
		if c.Pct(50) {
			raw = c.Pick(" ", "\n\t", "") + raw + c.Pick(" ", "\n", "")
		}
		m.Items = []xmlgen.Item{{Raw: raw}}
		return m
	}
	for _, i := range c.Perm(len(ch)) {
		m.Items = append(m.Items, xmlgen.Item{Raw: c.Pick("", "\n", "  ")}, xmlgen.Item{El: shuffled(c, ch[i], m, ren)})
	}
	return m
}

// tiny makes a random tree over a tiny vocabulary.
func tiny(c *core.Case, depth int) xmltree.Element {
	var e xmltree.Element
	// Names whose concatenations collide.
	e.Name = []xml.Name{{Space: "u", Local: "ab"}, {Space: "ua", Local: "b"}, {Space: "", Local: "uab"}, {Space: "u", Local: "c"}}[c.Intn(4)]
	for k := c.Intn(3); k > 0; k-- {
		e.SetAttr(c.Pick("", "u"), c.Pick("a", "b"), c.Pick("1", "2"))
	}
	if depth > 0 && c.Pct(65) {
		for k := 1 + c.Intn(3); k > 0; k-- {
			e.Children = append(e.Children, tiny(c, depth-1))
		}
	} else {
		e.Content = []byte(c.Pick("", "x", " x ", "\n", "y", "x y", "xy", "X"))
	}
	return e
}

func deepCopy(el *xmltree.Element) *xmltree.Element {
	n := *el
	n.StartElement.Attr = append([]xml.Attr(nil), el.StartElement.Attr...)
	n.Content = append([]byte(nil), el.Content...)
	n.Children = nil
	for i := range el.Children {
		n.Children = append(n.Children, *deepCopy(&el.Children[i]))
	}
	return &n
}

func shuffleTree(c *core.Case, el *xmltree.Element) {
	c.Shuffle(len(el.Children), func(i, j int) { el.Children[i], el.Children[j] = el.Children[j], el.Children[i] })
	as := el.StartElement.Attr
	c.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	for i := range el.Children {
		shuffleTree(c, &el.Children[i])
	}
}

// vary changes the case of one letter, or puts a space between two letters.
func vary(c *core.Case, s string) (string, bool) {
	var at []int
	letter := func(i int) bool {
		return i < len(s) && (s[i]|0x20 >= 'a' && s[i]|0x20 <= 'z')
	}
	for i := range s {
		if letter(i) && letter(i+1) {
			at = append(at, i)
		}
	}
	if len(at) == 0 || strings.ContainsAny(s, "<&") {
		return s, false
	}
	i := at[c.Intn(len(at))]
	if c.Pct(50) {
		return s[:i+1] + " " + s[i+1:], true
	}
	return s[:i] + string(rune(s[i]^0x20)) + s[i+1:], true
}

// perturb makes one small change.
func perturb(c *core.Case, root *xmltree.Element) string {
	var all []*xmltree.Element
	all = append(all, root)
	preorder(root, func(e *xmltree.Element) { all = append(all, e) })
	for try := 0; try < 20; try++ {
		el := all[c.Intn(len(all))]
		as := &el.StartElement.Attr
		switch c.Intn(9) {
		case 0:
			el.SetAttr("", "extra", c.Pick("", "v"))
			return "attribute added"
		case 1:
			if len(*as) > 0 {
				k := c.Intn(len(*as))
				*as = append((*as)[:k], (*as)[k+1:]...)
				return "attribute removed"
			}
		case 2:
			if len(*as) > 0 {
				a := &(*as)[c.Intn(len(*as))]
				if s, ok := vary(c, a.Value); ok && c.Pct(50) {
					a.Value = s
				} else {
					a.Value += c.Pick("x", " ")
				}
				return "attribute value changed"
			}
		case 3:
			if len(*as) > 0 {
				(*as)[c.Intn(len(*as))].Name.Space += "x"
				return "attribute namespace changed"
			}
		case 4:
			el.Name.Space += "x"
			return "namespace changed"
		case 5:
			if s, ok := vary(c, el.Name.Local); ok && c.Pct(50) && !strings.Contains(s, " ") {
				el.Name.Local = s
			} else {
				el.Name.Local += "x"
			}
			return "name changed"
		case 6:
			if len(el.Children) == 0 {
				if s, ok := vary(c, string(el.Content)); ok && c.Pct(60) {
					el.Content = []byte(s)
					return "text changed slightly"
				}
				el.Content = append(append([]byte{}, el.Content...), 'x')
				return "text changed"
			}
		case 7:
			if len(el.Children) > 1 {
				k := c.Intn(len(el.Children))
				if c.Pct(50) {
					el.Children = append(el.Children[:k], el.Children[k+1:]...)
					return "child removed"
				}
				el.Children[k] = *deepCopy(&el.Children[(k+1)%len(el.Children)])
				return "child replaced by a copy of a sibling"
			}
		case 8:
			// Move a grandchild to another child.
			if len(el.Children) > 1 {
				i, j := c.Intn(len(el.Children)), c.Intn(len(el.Children))
				a, b := &el.Children[i], &el.Children[j]
				if i != j && len(a.Children) > 0 && len(b.Children) > 0 {
					b.Children = append(b.Children, a.Children[len(a.Children)-1])
					a.Children = a.Children[:len(a.Children)-1]
					if len(a.Children) == 0 {
						a.Content = nil
					}
					return "grandchild moved"
				}
			}
		}
	}
	root.Name.Local += "x"
	return "root renamed"
}

func sameNamed(el *xmltree.Element) bool {
	found := false
	chk := func(e *xmltree.Element) {
		seen := map[xml.Name]bool{}
		for i := range e.Children {
			if seen[e.Children[i].Name] {
				found = true
			}
			seen[e.Children[i].Name] = true
		}
	}
	chk(el)
	preorder(el, chk)
	return found
}

// largeTrees compares trees with many children, many attributes, or long text
// with copies that differ in at most one place.
func largeTrees(c *core.Case) {
	var a xmltree.Element
	a.Name.Local = "root"
	what := c.Pick("children", "attributes", "text")
	n := 20 + c.Intn(600)
	switch what {
	case "children":
		names := 1 + c.Intn(3)
		for i := 0; i < n; i++ {
			var e xmltree.Element
			e.Name.Local = fmt.Sprint("e", c.Intn(names))
			v := fmt.Sprint(c.Intn(1 + n/(1+c.Intn(3))))
			switch c.Intn(3) {
			case 0:
				e.Content = []byte(v)
			case 1:
				e.SetAttr("", "k", v)
			default:
				e.Children = []xmltree.Element{{Content: []byte(v)}}
			}
			a.Children = append(a.Children, e)
		}
	case "attributes":
		n = 1 + n/3
		for i := 0; i < n; i++ {
			a.SetAttr(c.Pick("", "urn:a"), fmt.Sprint("k", i), fmt.Sprint(c.Intn(5)))
		}
	case "text":
		n *= 50
		b := make([]byte, n)
		for i := range b {
			b[i] = "abc def"[c.Intn(7)]
		}
		b[0], b[n-1] = 'x', 'x'
		a.Content = b
	}
	b := deepCopy(&a)
	shuffleTree(c, b)
	d := deepCopy(b)
	switch i := c.Intn(n); what {
	case "children":
		e := &d.Children[i]
		switch {
		case c.Pct(30):
			e.SetAttr("", "more", "1")
		case e.Content != nil:
			e.Content = append(e.Content, '!')
		case e.Children != nil:
			e.Children[0].Content = append(e.Children[0].Content, '!')
		default:
			e.SetAttr("", "k", "!")
		}
	case "attributes":
		d.StartElement.Attr[i].Value += "!"
	case "text":
		d.Content[i] ^= 0x20
		if c.Pct(50) {
			d.Content[i] ^= 0x20
			d.Content = append(d.Content[:i:i], append([]byte("!"), d.Content[i:]...)...)
		}
	}
	shuffleTree(c, d)
	c.Observe("large trees", 1)
	c.Eval(5)
	in := fmt.Sprintf("%d %s", n, what)
	c.Ctx("%s", in)
	if !xmltree.Equal(&a, b) || !xmltree.Equal(b, &a) || !xmltree.Equal(&a, &a) {
		c.Violate(in, "a tree with %s is not equal to a copy in another order", in)
	}
	if xmltree.Equal(&a, d) || xmltree.Equal(d, b) {
		c.Violate(in, "trees with %s are equal although they differ in one place", in)
	}
}

func runX09(c *core.Case) {
	if c.Intn(200) == 7 {
		// Deep chains, within what Parse accepts.
		n := 900 + c.Intn(2000)
		doc := strings.Repeat("<a>", n) + "x" + strings.Repeat("</a>", n)
		el, err := xmltree.Parse([]byte(doc))
		if err != nil {
			return
		}
		el2, _ := xmltree.Parse([]byte(doc))
		el3, _ := xmltree.Parse([]byte(strings.Replace(doc, "x", "y", 1)))
		c.Observe("deep chains", 1)
		if !xmltree.Equal(el, el2) || !xmltree.Equal(el, el) || xmltree.Equal(el, el3) {
			c.Violate(fmt.Sprintf("chain of %d elements", n), "Equal is wrong for a chain of %d elements", n)
		}
		c.Eval(3)
		return
	}
	if c.Intn(100) == 7 {
		largeTrees(c)
		return
	}
	if c.Pct(50) {
		g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 15, NoCR: true, NoMisc: c.Pct(50)})
		model := g.Doc()
		doc := g.Render(model, nil)
		c.Ctx("%s", doc)
		a := parseOrReport(c, doc)
		if a == nil {
			return
		}
		ren := map[string]string{}
		ps := g.Prefixes()
		perm := c.Perm(len(ps))
		for i, p := range ps {
			ren[p] = ps[perm[i]]
		}
		prolog := ""
		doc2 := g.Render(shuffled(c, model, nil, ren), &prolog)
		b := parseOrReport(c, doc2)
		if b == nil {
			return
		}
		if sameNamed(a) {
			c.Observe("same-named siblings", 1)
		}
		if len(a.Flatten()) >= 2 {
			c.Distinct(fingerprint(a))
		}
		what := fmt.Sprintf("%s\n--- and ---\n%s", doc, doc2)
		if canonical(a) != canonical(b) {
			c.Fatal("re-rendered document is not equivalent:\n%s", what)
		}
		if !checkEqual(c, a, b, what) || !checkEqual(c, a, a, what) {
			return
		}
		c.Sample("%s", what)
		d := perturb(c, b)
		checkEqual(c, a, b, what+"\n"+d)
		// Indentation is irrelevant where there is no text.
		if p, err := xmltree.Parse(xmltree.MarshalIndent(a, "", "  ")); err == nil {
			if !xmltree.Equal(a, p) || !xmltree.Equal(p, a) {
				c.Violate(what, "document not Equal to its indented form")
			}
		}
		return
	}
	a := tiny(c, 3)
	b := tiny(c, 2)
	bb := deepCopy(&a)
	shuffleTree(c, bb)
	cc := deepCopy(bb)
	shuffleTree(c, cc)
	p := deepCopy(&a)
	d := perturb(c, p)
	shuffleTree(c, p)
	c.Ctx("%s", a.String())
	if sameNamed(&a) {
		c.Observe("same-named siblings", 1)
	}
	if len(a.Flatten()) >= 2 {
		c.Distinct(canonical(&a))
	}
	set := []*xmltree.Element{&a, &b, bb, cc, p}
	for _, x := range set {
		for _, y := range set {
			if !checkEqual(c, x, y, "random trees; "+d) {
				return
			}
		}
	}
}

func runX10(c *core.Case) {
	el := new(xmltree.Element)
	what := "fresh element"
	if c.Pct(60) {
		g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 6})
		doc := g.Render(g.Doc(), nil)
		root := parseOrReport(c, doc)
		if root == nil {
			return
		}
		all := append([]*xmltree.Element{root}, root.Flatten()...)
		el = all[c.Intn(len(all))]
		what = string(doc)
	}
	model := append([]xml.Attr(nil), el.StartElement.Attr...)
	name, nch, content := el.Name, len(el.Children), string(el.Content)
	spaces := []string{"", "urn:a", "urn:b", "urn:new", xmlgen.XMLLang}
	locals := []string{"a", "b", "name", "item", "é", ""}
	find := func(space, local string) int {
		for i, a := range model {
			if a.Name.Local == local && (space == "" || a.Name.Space == space) {
				return i
			}
		}
		return -1
	}
	var log []string
	repl, app := 0, 0
	for k := 4 + c.Intn(16); k > 0; k-- {
		sp, lo := spaces[c.Intn(len(spaces))], locals[c.Intn(len(locals))]
		if c.Pct(50) {
			v := c.Pick("", "v", "<&\"'>", "a\nb", fmt.Sprint(c.Intn(1000)))
			el.SetAttr(sp, lo, v)
			log = append(log, fmt.Sprintf("SetAttr(%q, %q, %q)", sp, lo, v))
			if i := find(sp, lo); i >= 0 {
				model[i].Value = v
				repl++
			} else {
				model = append(model, xml.Attr{Name: xml.Name{Space: sp, Local: lo}, Value: v})
				app++
			}
			if got := el.Attr(sp, lo); got != v {
				c.Violate(what+"\n"+strings.Join(log, "\n"), "Attr(%q, %q) = %q right after it was set to %q", sp, lo, got, v)
				return
			}
		} else {
			want := ""
			if i := find(sp, lo); i >= 0 {
				want = model[i].Value
			}
			got := el.Attr(sp, lo)
			log = append(log, fmt.Sprintf("Attr(%q, %q) = %q", sp, lo, got))
			c.Observe("reads", 1)
			if got != want {
				c.Violate(what+"\n"+strings.Join(log, "\n"), "Attr(%q, %q) = %q, want %q", sp, lo, got, want)
				return
			}
		}
		c.Eval(1)
		if len(model) != len(el.StartElement.Attr) {
			c.Violate(what+"\n"+strings.Join(log, "\n"), "attributes are %q, want %q", el.StartElement.Attr, model)
			return
		}
		for i := range model {
			if model[i] != el.StartElement.Attr[i] {
				c.Violate(what+"\n"+strings.Join(log, "\n"), "attributes are %q, want %q", el.StartElement.Attr, model)
				return
			}
		}
	}
	if el.Name != name || len(el.Children) != nch || string(el.Content) != content {
		c.Violate(what+"\n"+strings.Join(log, "\n"), "element changed other than in its attributes")
	}
	c.Observe("sets replacing", repl)
	c.Observe("sets appending", app)
	if repl > 0 && app > 0 {
		c.Distinct(what + strings.Join(log, "\n"))
		c.Sample("%s", strings.Join(log, "\n"))
	}
}

func mutate(c *core.Case, doc []byte) []byte {
	toks := []string{"<", ">", "</", "/>", "<a>", "</a>", "<a/>", "&amp;", "&", "&#0;", "&#x110000;", "]]>", "<![CDATA[", "<!--", "--", "-->", "<?", "?>",
		"<?xml version=\"1.0\" encoding=\"latin1\"?>", "<?xml encoding='x-unknown'?>", "<?xml version='2.0'?>", "<!DOCTYPE a [", "]>", "xmlns=\"", "xmlns:p=''", "p:", ":", "=\"\"", "'", "\"",
		"\x00", "\xff", "\xfe\xff", "\xef\xbb\xbf", "\xc3", "\r\n", " ", "xml", "é"}
	out := append([]byte(nil), doc...)
	for k := 1 + c.Intn(4); k > 0; k-- {
		if len(out) == 0 {
			out = append(out, '<')
		}
		i := c.Intn(len(out))
		switch c.Intn(7) {
		case 0:
			out[i] = byte(c.Intn(256))
		case 1:
			out = append(out[:i:i], out[i+1:]...)
		case 2, 3:
			t := toks[c.Intn(len(toks))]
			out = append(append(append([]byte{}, out[:i]...), t...), out[i:]...)
		case 4:
			out = out[:i]
		case 5:
			j := i + c.Intn(len(out)-i)
			out = append(append(append([]byte{}, out[:j]...), out[i:j]...), out[j:]...)
		case 6:
			j := i + c.Intn(len(out)-i)
			out = append(append([]byte{}, out[:i]...), out[j:]...)
		}
	}
	return out
}

func runX11(c *core.Case) {
	var doc []byte
	kind := 1 + c.Intn(99)
	if c.Intn(400) == 0 {
		kind = 0
	}
	switch {
	case kind == 0:
		n := []int{500, 999, 2990, 2999, 3000, 3001, 3002, 3010, 10001, 20000, 100000, 1000000}[c.Intn(12)]
		tag := c.Pick("<a>", "<p:a xmlns:p='u'>", "<a xmlns='u'>", "<a b=''>")
		if n > 20000 {
			tag = "<a>"
		}
		end := "</a>"
		if strings.HasPrefix(tag, "<p:") {
			end = "</p:a>"
		}
		doc = []byte(strings.Repeat(tag, n))
		if c.Pct(70) {
			doc = append(doc, strings.Repeat(end, n)...)
		}
		c.Observe("deep", 1)
	case kind < 3:
		// Trees that contain themselves.
		cyclic(c)
		return
	case kind < 5:
		lateEncoding(c)
		return
	case kind < 15:
		n := c.Intn(60)
		al := "<>/=\"'& ;#!-[]?axmlnsCDATA:\n\x00\xff\xc3\xa9"
		for i := 0; i < n; i++ {
			doc = append(doc, al[c.Intn(len(al))])
		}
		if c.Pct(30) {
			doc = append([]byte("<a>"), doc...)
		}
	default:
		g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 12, Mixed: true, Undeclared: true})
		root := g.Doc()
		doc = g.Render(root, nil)
		if c.Pct(30) {
			l := charsets[c.Intn(len(charsets))].label
			doc = append([]byte("<?xml version='1.0' encoding='"+l+"'?>"), g.Render(root, new(string))...)
		}
		if c.Pct(85) {
			doc = mutate(c, doc)
		}
	}
	c.Ctx("%.20000q", doc)
	el, err := xmltree.Parse(append([]byte(nil), doc...))
	c.Eval(1)
	depth, sawRoot, werr := wellFormed(doc)
	in := fmt.Sprintf("%.20000q", doc)
	charsetIssue := werr != nil && strings.Contains(werr.Error(), "encoding") && strings.Contains(werr.Error(), "CharsetReader")
	if bytes.Contains(doc, []byte("\x00<")) || charsetIssue {
		if err == nil {
			// No reference; exercise the result.
			xmltree.Marshal(el)
			el.Flatten()
		}
		c.Observe("other encodings", 1)
		return
	}
	switch {
	case err != nil && el != nil:
		c.Violate(in, "Parse returned both an element and an error %v", err)
	case werr != nil && err == nil:
		c.Violate(in, "malformed document accepted (encoding/xml: %v)", werr)
	case werr == nil && err != nil && depth <= 1000:
		c.Violate(in, "well-formed document rejected: %v", err)
	case err == nil && depth > 10000:
		c.Violate(in, "nesting of %d accepted", depth)
	}
	if err != nil {
		c.Observe("rejected", 1)
	} else {
		c.Observe("accepted", 1)
	}
	if sawRoot && len(doc) < 5000 {
		c.Distinct(string(doc))
		c.Sample("%q", doc)
	}
	if err == nil && werr == nil {
		var want, got []xml.Name
		d := xml.NewDecoder(bytes.NewReader(doc))
		for lvl := 0; ; {
			tok, err := d.Token()
			if err != nil {
				break
			}
			if s, ok := tok.(xml.StartElement); ok {
				want = append(want, s.Name)
				lvl++
			}
			if _, ok := tok.(xml.EndElement); ok {
				if lvl--; lvl == 0 {
					break
				}
			}
		}
		got = append(got, el.Name)
		for _, e := range el.Flatten() {
			got = append(got, e.Name)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Violate(in, "elements %v, want %v", got, want)
		}
		if depth < 3000 {
			xmltree.Marshal(el)
			xmltree.MarshalIndent(el, "", " ")
		}
	}
}

// lateEncoding puts an encoding declaration inside of the root element, where
// it cannot apply any more.
func lateEncoding(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 8, Mixed: true})
	root := g.Doc()
	var at []*xmlgen.Node
	root.Walk(func(n *xmlgen.Node) {
		if len(n.Items) > 0 {
			at = append(at, n)
		}
	})
	if len(at) == 0 {
		return
	}
	n := at[c.Intn(len(at))]
	decl := xmlgen.Item{Raw: "<?xml version='1.0' encoding='" + c.Pick("iso-8859-1", "windows-1252", "koi8-r", "utf-16") + "'?>"}
	k := c.Intn(len(n.Items) + 1)
	n.Items = append(n.Items[:k:k], append([]xmlgen.Item{decl}, n.Items[k:]...)...)
	prolog := c.Pick("", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version='1.0' encoding='iso-8859-1'?>")
	doc := g.Render(root, &prolog)
	c.Ctx("%q", doc)
	el, err := xmltree.Parse(append([]byte(nil), doc...))
	c.Eval(1)
	c.Observe("late encoding declarations", 1)
	c.Distinct(string(doc))
	if err == nil {
		c.Violate(fmt.Sprintf("%q", doc), "encoding declaration inside of the root accepted: %s", show(el))
	}
}

func cyclic(c *core.Case) {
	n := 1 + c.Intn(4)
	els := make([]xmltree.Element, n)
	for i := range els {
		els[i].Name.Local = fmt.Sprintf("e%d", i)
		els[i].Content = []byte("text")
	}
	links := [][]xmltree.Element{}
	for i := range els {
		links = append(links, els[i:i+1], els[:i+1], els[i:])
	}
	for i := range els {
		els[i].Children = links[c.Intn(len(links))]
	}
	root := &els[0]
	if c.Pct(50) {
		root = &xmltree.Element{Children: els}
		root.Name.Local = "root"
	}
	desc := fmt.Sprintf("cyclic tree of %d elements", n)
	c.Ctx("%s", desc)
	out := xmltree.Marshal(root)
	pretty := xmltree.MarshalIndent(root, "", " ")
	c.Eval(1)
	c.Observe("cyclic trees", 1)
	c.Distinct(string(out))
	// Whatever is written in place of the cycle, the rest is a document.
	if err := nsWellFormed(out); err != nil {
		c.Violate(string(out), "%s serialised as malformed document: %v", desc, err)
	}
	if err := nsWellFormed(pretty); err != nil {
		c.Violate(string(pretty), "%s serialised as malformed document: %v", desc, err)
	}
}
