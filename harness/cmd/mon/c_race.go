package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "C01", Quick: 96, Thorough: 6000, Run: runC01, MemMB: -1, CPU: 400,
		Rule: "under the race detector, goroutines that do not synchronise run operations of all packages on inputs of their own and on shared trees, schemas and definitions; each result is compared with the result of the same operation run alone afterwards",
		Need: map[string]int{"goroutines": 800, "operations": 8000, "operations that ran at the same time": 2000, "operations on a shared tree": 2000, "documents parsed": 500, "schema sets parsed": 200, "packages generated": 150, "clients generated": 80, "operations on shared schemas": 300, "operations on a shared definition": 150},
	})
}

// A task is an operation that describes its result.
type task struct {
	name string
	run  func() string
}

// errText describes an error; what it says is not compared.
func errText(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// describeTypes writes out parsed schemas.
func describeTypes(schemas []xsd.Schema) string {
	id := map[xsd.Type]int{}
	var b strings.Builder
	var ref func(t xsd.Type) string
	var todo []xsd.Type
	ref = func(t xsd.Type) string {
		if _, ok := t.(xsd.Builtin); ok || t == nil {
			return fmt.Sprint(t)
		}
		if _, ok := id[t]; !ok {
			id[t] = len(id)
			todo = append(todo, t)
		}
		return fmt.Sprint("#", id[t])
	}
	for _, s := range schemas {
		var names []xml.Name
		for n := range s.Types {
			names = append(names, n)
		}
		sort.Slice(names, func(i, j int) bool {
			return names[i].Local < names[j].Local || names[i].Local == names[j].Local && names[i].Space < names[j].Space
		})
		fmt.Fprintf(&b, "schema %q %q\n", s.TargetNS, s.Doc)
		for _, n := range names {
			fmt.Fprintf(&b, "%q %s\n", n, ref(s.Types[n]))
		}
		fmt.Fprintln(&b, s.FindType(xml.Name{Space: s.TargetNS, Local: "no such type"}) == nil)
		if len(names) > 0 {
			fmt.Fprintln(&b, ref(s.FindType(names[len(names)/2])))
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		switch t := t.(type) {
		case *xsd.SimpleType:
			fmt.Fprintf(&b, "%q base %s list %v doc %q enum %q pattern %v\n", t.Name, ref(t.Base), t.List, t.Doc, t.Restriction.Enum, t.Restriction.Pattern)
			for _, u := range t.Union {
				fmt.Fprintln(&b, " member", ref(u))
			}
		case *xsd.ComplexType:
			fmt.Fprintf(&b, "%q base %s mixed %v abstract %v extends %v doc %q\n", t.Name, ref(t.Base), t.Mixed, t.Abstract, t.Extends, t.Doc)
			for _, e := range t.Elements {
				fmt.Fprintf(&b, " element %q %s %v %v %v %q %q %q\n", e.Name, ref(e.Type), e.Plural, e.Optional, e.Nillable, e.Default, e.Doc, e.Attr)
				for _, a := range e.Attr {
					fmt.Fprintf(&b, "  %q\n", e.Resolve(a.Value))
				}
			}
			for _, a := range t.Attributes {
				fmt.Fprintf(&b, " attribute %q %s %v %v %q %q %q\n", a.Name, ref(a.Type), a.Plural, a.Optional, a.Default, a.Doc, a.Attr)
			}
		}
	}
	return b.String()
}

// treeTasks are operations on one tree that only read it.
func treeTasks(c *core.Case, root *xmltree.Element) (l []task) {
	var all []*xmltree.Element
	preorder(root, func(e *xmltree.Element) { all = append(all, e) })
	all = append(all, root)
	add := func(name string, run func() string) { l = append(l, task{"tree: " + name, run}) }
	for k := 0; k < 14; k++ {
		el := all[c.Intn(len(all))]
		other := all[c.Intn(len(all))]
		qname := c.Pick("a", "p:a", "ns1:x", "xml:lang", "q:b", ":", "zz:z")
		prefix, indent := c.Pick("", " "), c.Pick("", "  ", "\t")
		switch c.Intn(12) {
		case 0:
			add("Marshal", func() string { return string(xmltree.Marshal(el)) })
		case 1:
			add("MarshalIndent", func() string { return string(xmltree.MarshalIndent(el, prefix, indent)) })
		case 2:
			add("Encode", func() string {
				var b bytes.Buffer
				return errText(xmltree.Encode(&b, el)) + b.String()
			})
		case 3:
			add("String", func() string { return el.String() })
		case 4:
			add("Search", func() string {
				l := el.Search("", other.Name.Local)
				return fmt.Sprintf("%d %p", len(l), first(l))
			})
		case 5:
			add("SearchFunc", func() string {
				n := 0
				return fmt.Sprint(len(el.SearchFunc(func(e *xmltree.Element) bool { n++; return len(e.Children)%2 == 0 })), n)
			})
		case 6:
			add("Flatten", func() string { return fmt.Sprint(len(el.Flatten())) })
		case 7:
			add("Resolve", func() string {
				n, ok := el.ResolveNS(qname)
				return fmt.Sprint(el.Resolve(qname), n, ok, el.ResolveDefault(qname, "urn:d"))
			})
		case 8:
			add("Prefix", func() string {
				return el.Prefix(other.Name) + " " + el.Prefix(xml.Name{Space: "urn:none", Local: "a"})
			})
		case 9:
			add("Equal", func() string { return fmt.Sprint(xmltree.Equal(el, other), xmltree.Equal(el, el)) })
		case 10:
			add("Unmarshal", func() string {
				var v genericNode
				err := xmltree.Unmarshal(el, &v)
				v.clean()
				return errText(err) + dump(v)
			})
		case 11:
			add("JoinScope", func() string {
				s := el.JoinScope(&other.Scope)
				s = s.JoinScope(&el.Scope)
				return fmt.Sprint(s.Resolve(qname), s.Prefix(other.Name), el.Attr("", "id"))
			})
		}
	}
	return l
}

func first(l []*xmltree.Element) *xmltree.Element {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func runC01(c *core.Case) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	var tasks []task
	count := map[string]int{}
	add := func(what, name string, n int, run func() string) {
		for ; n > 0; n-- {
			tasks = append(tasks, task{name, run})
			count[what]++
		}
	}
	// Trees: parsed by each goroutine from the same bytes, and shared.
	var docs [][]byte
	for k := 0; k < 3; k++ {
		g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 20, Undeclared: true, Mixed: c.Pct(30)})
		doc := g.Render(g.Doc(), nil)
		switch {
		case c.Pct(20):
			g = xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 12, Mixed: true})
			l := charsets[c.Intn(len(charsets))].label
			doc = append([]byte("<?xml version='1.0' encoding='"+l+"'?>"), g.Render(g.Doc(), new(string))...)
		case c.Pct(30):
			doc = mutate(c, doc)
		}
		docs = append(docs, doc)
		c.Distinct(string(doc))
	}
	c.Ctx("%q", docs)
	for _, doc := range docs {
		doc := doc
		add("documents parsed", "xmltree.Parse", 2, func() string {
			el, err := xmltree.Parse(doc)
			if err != nil {
				return "error"
			}
			return fingerprint(el) + string(xmltree.Marshal(el))
		})
		if k := c.Intn(4); k == 0 {
			// Edits of a tree of one's own.
			seed := c.Int63()
			add("documents parsed", "edit", 1, func() string {
				el, err := xmltree.Parse(doc)
				if err != nil {
					return "error"
				}
				for i, e := range el.Flatten() {
					if seed>>(uint(i)%60)&1 == 1 {
						e.SetAttr("", "n", fmt.Sprint(i))
						e.SetAttr("urn:edit", "m", fmt.Sprint(i))
					}
				}
				return string(xmltree.Marshal(el))
			})
		}
	}
	// Schemas
	cfg := genConfig(c)
	cfg.Types = 4
	m, _, sdocs := randomSchema(c, cfg, anyLayout(c))
	if c.Pct(15) {
		k := c.Intn(len(sdocs))
		sdocs[k] = mutate(c, sdocs[k])
	}
	in := fmt.Sprintf("%q\n%s", docs, joinDocuments(sdocs))
	c.Ctx("%s", in)
	add("schema sets parsed", "xsd.Parse", 2, func() string {
		s, err := xsd.Parse(sdocs...)
		return errText(err) + describeTypes(s)
	})
	add("schema sets parsed", "xsd.Normalize", 1, func() string {
		l, err := xsd.Normalize(sdocs...)
		s := errText(err)
		for _, el := range l {
			s += string(xmltree.Marshal(el))
		}
		return s
	})
	add("schema sets parsed", "xsd.Imports", 1, func() string {
		l, err := xsd.Imports(sdocs[0])
		return errText(err) + fmt.Sprint(l)
	})
	files := writeDocs(c, dir, sdocs)
	var names []xml.Name
	for t := range allTypes(m) {
		names = append(names, xml.Name{Space: t.NS.URI, Local: t.Local})
	}
	sort.Slice(names, func(i, j int) bool { return fmt.Sprint(names[i]) < fmt.Sprint(names[j]) })
	o := baseOptions(c, cfg.PlainNames)
	oneConfig := o.config // its options are shared
	add("packages generated", "xsdgen "+o.String(), 2, func() string {
		src, err := oneConfig().GenSource(files...)
		return errText(err) + string(src)
	})
	add("packages generated", "xsdgen", 1, func() string {
		var cfg xsdgen.Config
		cfg.Option(xsdgen.DefaultOptions...)
		cfg.Option(xsdgen.Replace("a", "b"), xsdgen.LogOutput(&countLogger{}), xsdgen.LogLevel(3))
		code, err := cfg.GenCode(sdocs...)
		if err != nil {
			return "error"
		}
		s := ""
		for _, t := range names {
			s += code.NameOf(t) + " "
		}
		_, err = code.GenAST()
		return s + errText(err)
	})
	// Services
	_, _, doc, extra := newWSDL(c, false)
	in += "\n" + string(doc) + joinDocuments(extra)
	c.Ctx("%s", in)
	if c.Pct(15) {
		doc = mutate(c, doc)
	}
	add("definitions parsed", "wsdl.Parse", 2, func() string {
		def, err := wsdl.Parse(doc)
		if err != nil {
			return "error"
		}
		return def.String()
	})
	wfiles := append([]string{writeFile(c, dir, "service.wsdl", doc)}, writeDocs(c, dir+"/extra", extra)...)
	add("clients generated", "wsdlgen", 2, func() string {
		var cfg wsdlgen.Config
		cfg.Option(wsdlgen.DefaultOptions...)
		cfg.XSDOption(xsdgen.DefaultOptions...)
		src, err := cfg.GenSource(wfiles...)
		return errText(err) + string(src)
	})
	// Again, with values that are shared.
	if !runTasks(c, in, tasks, count) {
		return
	}
	tasks, count = tasks[:c.Intn(len(tasks))], map[string]int{}
	rejected := 0
	for k := 0; k < 2; k++ {
		g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 25, Undeclared: true, Mixed: c.Pct(30)})
		sdoc := g.Render(g.Doc(), nil)
		c.Distinct(string(sdoc))
		in += fmt.Sprintf("\n%q", sdoc)
		if root, err := xmltree.Parse(sdoc); err == nil {
			for _, t := range treeTasks(c, root) {
				add("operations on a shared tree", t.name, 3, t.run)
			}
		} else {
			rejected++
		}
	}
	_, _, sdocs2 := randomSchema(c, cfg, anyLayout(c))
	in += "\n" + joinDocuments(sdocs2)
	if schemas, err := xsd.Parse(sdocs2...); err == nil {
		add("operations on shared schemas", "schemas", 5, func() string { return describeTypes(schemas) })
	} else {
		rejected++
	}
	_, _, doc2, _ := newWSDL(c, false)
	in += "\n" + string(doc2)
	if def, err := wsdl.Parse(doc2); err == nil {
		add("operations on a shared definition", "Definition", 4, func() string { return def.String() + fmt.Sprint(*def) })
	} else {
		rejected++
	}
	c.Observe("rejected documents", rejected)
	runTasks(c, in, tasks, count)
}

// runTasks runs operations in goroutines and then one by one.
func runTasks(c *core.Case, in string, tasks []task, count map[string]int) bool {
	// Distribute them. Goroutines share nothing but the inputs, so that
	// nothing orders their memory accesses.
	n := 4 + c.Intn(9)
	plan := make([][]int, n)
	order := c.Perm(len(tasks))
	for i, t := range order {
		plan[i%n] = append(plan[i%n], t)
	}
	for g := range plan {
		// The same operation in two goroutines
		plan[g] = append(plan[g], order[c.Intn(len(order))], order[c.Intn(len(order))])
		c.Shuffle(len(plan[g]), func(i, j int) { plan[g][i], plan[g][j] = plan[g][j], plan[g][i] })
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{2, 4, 8}[c.Intn(3)]))
	got := make([][]string, n)
	spans := make([][][2]int64, n)
	for g := range got {
		got[g] = make([]string, len(plan[g]))
		spans[g] = make([][2]int64, len(plan[g]))
	}
	panics := make([]string, n)
	yields := c.Int63()
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := range plan {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<14)
					panics[g] = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			for i, t := range plan[g] {
				if yields>>(uint(g*7+i)%60)&1 == 1 {
					runtime.Gosched()
				}
				spans[g][i][0] = monotonic()
				got[g][i] = tasks[t].run()
				spans[g][i][1] = monotonic()
			}
		}(g)
	}
	close(start)
	wg.Wait()
	c.Observe("goroutines", n)
	for what, k := range count {
		c.Observe(what, k)
	}
	for g := range plan {
		if panics[g] != "" {
			c.Violate(in, "goroutine %d: %s", g, panics[g])
			return false
		}
	}
	overlap := 0
	for g := range plan {
		for i := range plan[g] {
			at := spans[g][i]
		search:
			for h := range plan {
				if h == g {
					continue
				}
				for j := range plan[h] {
					if o := spans[h][j]; o[0] < at[1] && at[0] < o[1] {
						overlap++
						break search
					}
				}
			}
		}
	}
	c.Observe("operations that ran at the same time", overlap)
	want := make([]string, len(tasks))
	for i, t := range tasks {
		want[i] = t.run()
	}
	for g := range plan {
		for i, t := range plan[g] {
			c.Eval(1)
			c.Observe("operations", 1)
			if got[g][i] != want[t] {
				c.Violate(in, "%s gives another result alone: %s", tasks[t].name, firstDiff([]byte(want[t]), []byte(got[g][i])))
				return false
			}
		}
	}
	if c.Pct(5) {
		c.Sample("%d goroutines, %d operations, %d of them at the same time as others", n, len(tasks)+2*n, overlap)
	}
	return true
}

var began = time.Now()

func monotonic() int64 { return int64(time.Since(began)) }
