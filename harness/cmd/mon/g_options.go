package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "G07", Quick: 2400, Thorough: 50000, Run: runG07,
		Rule: "the code generated with an option is compared with that generated without: fields and types named by the option are gone or renamed, everything else is the same text; reverting an option gives the code of a fresh configuration without it",
		Need: map[string]int{"reverts compared": 1000, "options applied again": 150, "configurations with reverts": 200,
			"ignored fields": 1000, "structs compared": 1200, "types left out": 1000, "types selected": 300, "names replaced": 1000,
			"types processed": 1000, "types replaced": 50, "neutral options": 80, "same declarations": 5000},
	})
}

// A goDecl is a type declaration of a generated file.
type goDecl struct {
	doc, text string
	strct     bool
	tags      []string // of the fields
	fields    []string // names and types of the fields
	methods   string
	refs      map[string]bool // identifiers in the declaration
}

// A goFile is a generated file, split into declarations.
type goFile struct {
	header string
	types  map[string]*goDecl
	funcs  []string
}

func splitFile(src []byte) (*goFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	text := func(from, to token.Pos) string {
		return string(src[fset.Position(from).Offset:fset.Position(to).Offset])
	}
	g := &goFile{types: map[string]*goDecl{}}
	g.header = text(f.FileStart, f.Name.End())
	get := func(name string) *goDecl {
		if g.types[name] == nil {
			g.types[name] = &goDecl{refs: map[string]bool{}}
		}
		return g.types[name]
	}
	collect := func(d *goDecl, n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				d.refs[id.Name] = true
			}
			return true
		})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				t := get(ts.Name.Name)
				t.doc = d.Doc.Text()
				t.text = text(ts.Pos(), ts.End())
				collect(t, ts.Type)
				if st, ok := ts.Type.(*ast.StructType); ok {
					t.strct = true
					for _, fl := range st.Fields.List {
						tag := ""
						if fl.Tag != nil {
							tag, _ = strconv.Unquote(fl.Tag.Value)
						}
						t.tags = append(t.tags, reflect.StructTag(tag).Get("xml"))
						name := ""
						if len(fl.Names) > 0 {
							name = fl.Names[0].Name
						}
						t.fields = append(t.fields, name+" "+text(fl.Type.Pos(), fl.Type.End()))
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil {
				g.funcs = append(g.funcs, d.Name.Name)
				continue
			}
			r := d.Recv.List[0].Type
			if p, ok := r.(*ast.StarExpr); ok {
				r = p.X
			}
			if id, ok := r.(*ast.Ident); ok {
				t := get(id.Name)
				t.methods += text(d.Pos(), d.End()) + "\n"
				collect(t, d)
			}
		}
	}
	return g, nil
}

// A generator runs the code generator for one set of documents.
type generator struct {
	c     *core.Case
	files []string
	docs  string
}

func newGenerator(c *core.Case, docs [][]byte) (*generator, func()) {
	dir := scratch(c)
	return &generator{c: c, files: writeDocs(c, dir, docs), docs: joinDocuments(docs)}, func() { os.RemoveAll(dir) }
}

// run generates code; ok is false if a violation was reported.
func (g *generator) run(desc string, cfg *xsdgen.Config) (src []byte, f *goFile, ok bool) {
	in := "options: " + desc + "\n" + g.docs
	g.c.Ctx("%s", in)
	src, err := cfg.GenSource(g.files...)
	g.c.Eval(1)
	if err != nil {
		g.c.Violate(in, "generation failed: %v", err)
		return nil, nil, false
	}
	if f, err = splitFile(src); err != nil {
		g.c.Violate(in+"\n\n"+string(src), "the generated code does not parse: %v", err)
		return nil, nil, false
	}
	return src, f, true
}

// A countLogger counts messages.
type countLogger struct{ n int }

func (l *countLogger) Printf(format string, v ...interface{}) { l.n++ }

func runG07(c *core.Case) {
	kind := c.Intn(14)
	if kind < 3 || kind == 3 && c.Pct(50) {
		optionHistory(c)
		return
	}
	cfg := genConfig(c)
	cfg.Mixed = c.Pct(25)
	cfg.PlainNames = c.Pct(30)
	m, _, docs := randomSchema(c, cfg, anyLayout(c))
	o := baseOptions(c, cfg.PlainNames)
	g, done := newGenerator(c, docs)
	defer done()
	src, full, ok := g.run(o.String(), o.config())
	if !ok {
		return
	}
	c.Distinct(schemagen.Shape(m) + strconv.Itoa(kind))
	switch {
	case kind < 7:
		ignoreFields(c, g, m, o, full)
	case kind < 10:
		selectTypes(c, g, m, o, full)
	case kind < 11:
		replaceNames(c, g, m, o, full)
	case kind < 13:
		processTypes(c, g, m, o, full)
	default:
		neutralOptions(c, g, o, src)
	}
}

// with returns the options with one more.
func (o *optSet) with(desc string, opts ...xsdgen.Option) *optSet {
	n := &optSet{pkg: o.pkg, slices: o.slices}
	n.desc = append(append([]string(nil), o.desc...), desc)
	n.opts = append(append([]xsdgen.Option(nil), o.opts...), opts...)
	return n
}

// optionHistory applies and reverts options, and compares the resulting
// configurations with fresh ones.
func optionHistory(c *core.Case) {
	var docs [][]byte
	cfg := genConfig(c)
	cfg.PlainNames = c.Pct(50)
	m := new(schemagen.Model)
	if c.Pct(30) {
		s := newSoapSchema(c)
		m.NS = []*schemagen.Namespace{s.ns}
		docs = [][]byte{s.doc}
	} else {
		m, _, docs = randomSchema(c, cfg, anyLayout(c))
	}
	var locals, elems, attrs []string
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			locals = append(locals, t.Local)
			v := viewOf(t)
			for _, x := range v.elems {
				elems = append(elems, x.Name.Local)
			}
			for _, x := range v.attrs {
				attrs = append(attrs, x.Name.Local)
			}
		}
	}
	some := func(l []string) []string {
		var r []string
		for _, s := range l {
			if c.Pct(30) {
				r = append(r, s)
			}
		}
		return r
	}
	logger := new(countLogger)
	type entry struct {
		desc string
		// make returns the option; that for a fresh configuration logs
		// elsewhere.
		make func(l xsdgen.Logger) xsdgen.Option
	}
	random := func() entry {
		opt := func(desc string, o func() xsdgen.Option) entry {
			return entry{desc, func(xsdgen.Logger) xsdgen.Option { return o() }}
		}
		switch c.Intn(15) {
		case 0, 1:
			l := some(attrs)
			return opt(fmt.Sprintf("IgnoreAttributes %q", l), func() xsdgen.Option { return xsdgen.IgnoreAttributes(l...) })
		case 2, 3:
			l := some(elems)
			return opt(fmt.Sprintf("IgnoreElements %q", l), func() xsdgen.Option { return xsdgen.IgnoreElements(l...) })
		case 4:
			p := c.Pick("[0-4]$", "a", "^[a-m]", ".", "none", "(")
			return opt("OnlyTypes "+p, func() xsdgen.Option { return xsdgen.OnlyTypes(p) })
		case 5, 6:
			name := xml.Name{Space: m.NS[0].URI, Local: "none"}
			if len(locals) > 0 && c.Pct(90) {
				ns := m.NS[c.Intn(len(m.NS))]
				if len(ns.Types) > 0 {
					name = xml.Name{Space: ns.URI, Local: ns.Types[c.Intn(len(ns.Types))].Local}
				}
			}
			return opt(fmt.Sprintf("AllowType %v", name), func() xsdgen.Option { return xsdgen.AllowType(name) })
		case 7:
			name := c.Pick("a", "b", "main", "x1")
			return opt("PackageName "+name, func() xsdgen.Option { return xsdgen.PackageName(name) })
		case 8:
			follow := c.Pct(50)
			return opt(fmt.Sprintf("FollowImports %v", follow), func() xsdgen.Option { return xsdgen.FollowImports(follow) })
		case 9:
			p, r := c.Pick(`[._ \s-]`, "e", "^", "(", "[0-9]"), c.Pick("", "Q", "X")
			return opt(fmt.Sprintf("Replace %q %q", p, r), func() xsdgen.Option { return xsdgen.Replace(p, r) })
		case 10:
			return opt("UseFieldNames", xsdgen.UseFieldNames)
		case 11:
			return opt("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType)
		case 12:
			return opt("SOAPArrayAsSlice", xsdgen.SOAPArrayAsSlice)
		case 13:
			uris := []string{m.NS[c.Intn(len(m.NS))].URI}
			return opt(fmt.Sprintf("Namespaces %q", uris), func() xsdgen.Option { return xsdgen.Namespaces(uris...) })
		}
		switch c.Intn(3) {
		case 0:
			return entry{"LogOutput", func(l xsdgen.Logger) xsdgen.Option { return xsdgen.LogOutput(l) }}
		case 1:
			level := 1 + c.Intn(5)
			return opt(fmt.Sprintf("LogLevel %d", level), func() xsdgen.Option { return xsdgen.LogLevel(level) })
		}
		mark := c.Pick("first", "second")
		return opt("ProcessTypes "+mark, func() xsdgen.Option {
			return xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
				if t, ok := t.(*xsd.ComplexType); ok {
					t.Doc = mark + " " + t.Doc
				}
				return t
			})
		})
	}
	g, done := newGenerator(c, docs)
	defer done()
	conf := new(xsdgen.Config)
	type applied struct {
		entry
		undo xsdgen.Option
	}
	var stack []applied
	var history []string
	if c.Pct(40) {
		var l []entry
		for _, o := range xsdgen.DefaultOptions {
			o := o
			l = append(l, entry{"(default)", func(xsdgen.Logger) xsdgen.Option { return o }})
		}
		history = append(history, "DefaultOptions")
		for _, e := range l {
			stack = append(stack, applied{e, conf.Option(e.make(logger))})
		}
	}
	compare := func() bool {
		fresh := new(xsdgen.Config)
		other := new(countLogger)
		var now []string
		for _, e := range stack {
			fresh.Option(e.make(other))
			now = append(now, e.desc)
		}
		in := "history: " + strings.Join(history, ", ") + "\nnow: " + strings.Join(now, ", ") + "\n" + g.docs
		c.Ctx("%s", in)
		logger.n = 0
		got, err1 := conf.GenSource(g.files...)
		want, err2 := fresh.GenSource(g.files...)
		c.Eval(1)
		c.Observe("reverts compared", 1)
		if fmt.Sprint(err1) != fmt.Sprint(err2) {
			c.Violate(in, "error %v, a fresh configuration gives %v", err1, err2)
			return false
		}
		if !bytes.Equal(got, want) {
			c.Violate(in+"\n\n--- got\n"+string(got)+"\n--- want\n"+string(want), "the code differs from that of a fresh configuration")
			return false
		}
		if (logger.n > 0) != (other.n > 0) {
			c.Violate(in, "%d log messages, a fresh configuration gives %d", logger.n, other.n)
			return false
		}
		return true
	}
	for n := 4 + c.Intn(8); n > 0; n-- {
		switch {
		case len(stack) > 0 && stack[len(stack)-1].undo != nil && c.Pct(45):
			last := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			history = append(history, "revert "+last.desc)
			redo := conf.Option(last.undo)
			if !compare() {
				return
			}
			if c.Pct(30) {
				history = append(history, "again "+last.desc)
				last.undo = conf.Option(redo)
				stack = append(stack, last)
				c.Observe("options applied again", 1)
				if !compare() {
					return
				}
			}
		case c.Pct(15):
			// Several at once; only the last can be reverted.
			var opts []xsdgen.Option
			for k := 2 + c.Intn(2); k > 0; k-- {
				e := random()
				opts = append(opts, e.make(logger))
				history = append(history, "with the next: "+e.desc)
				stack = append(stack, applied{e, nil})
			}
			undo := conf.Option(opts...)
			if undo == nil {
				c.Violate(strings.Join(history, ", "), "there is nothing to revert the last of several options with")
				return
			}
			stack[len(stack)-1].undo = undo
			c.Observe("several options at once", 1)
		default:
			e := random()
			history = append(history, e.desc)
			stack = append(stack, applied{e, conf.Option(e.make(logger))})
		}
	}
	for c.Pct(70) && len(stack) > 0 && stack[len(stack)-1].undo != nil {
		last := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		history = append(history, "revert "+last.desc)
		conf.Option(last.undo)
	}
	if compare() {
		c.Observe("configurations with reverts", 1)
		c.Distinct(strings.Join(history, ",") + schemagen.Shape(m))
		c.Sample("%s", strings.Join(history, ", "))
	}
}

func pickSome(c *core.Case, l []string, pct int) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			if c.Pct(pct) {
				r = append(r, s)
			}
		}
	}
	return r
}

// allTypes lists the types of a model, also anonymous ones, each with the local
// name of the element or attribute it belongs to.
func allTypes(m *schemagen.Model) map[*schemagen.Type]string {
	all := map[*schemagen.Type]string{}
	var ref func(r schemagen.Ref, name string)
	visit := func(t *schemagen.Type) {
		ref(t.Base, "")
		for _, r := range t.Members {
			ref(r, "")
		}
		if t.Simple {
			return
		}
		for _, x := range schemagen.Elements(t.Content, t.NS) {
			ref(x.Type, x.Name.Local)
		}
		for _, x := range schemagen.AllAttributes(t) {
			ref(x.Type, x.Name.Local)
		}
	}
	ref = func(r schemagen.Ref, name string) {
		if t := r.Type; t != nil {
			if _, ok := all[t]; !ok {
				all[t] = name
				visit(t)
			}
		}
	}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			ref(schemagen.Ref{Type: t}, t.Local)
		}
		for _, e := range ns.Elems {
			ref(e.Type, e.Local)
		}
		for _, a := range ns.Attrs {
			ref(a.Type, a.Local)
		}
		for _, g := range ns.Groups {
			visit(&schemagen.Type{NS: ns, Content: g.Content})
		}
		for _, g := range ns.AttrGroups {
			visit(&schemagen.Type{NS: ns, Attrs: g.Items})
		}
	}
	return all
}

// closure lists the types that some types depend on, including them.
func closure(roots []*schemagen.Type) map[*schemagen.Type]bool {
	seen := map[*schemagen.Type]bool{}
	todo := append([]*schemagen.Type(nil), roots...)
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		todo = append(todo, t.Base.Type)
		for _, r := range t.Members {
			todo = append(todo, r.Type)
		}
		if t.Simple {
			continue
		}
		for _, x := range schemagen.Elements(t.Content, t.NS) {
			todo = append(todo, x.Type.Type)
		}
		for _, x := range schemagen.AllAttributes(t) {
			todo = append(todo, x.Type.Type)
		}
	}
	return seen
}

// ignoreFields checks IgnoreElements and IgnoreAttributes.
func ignoreFields(c *core.Case, g *generator, m *schemagen.Model, o *optSet, full *goFile) {
	var elems, attrs []string
	for t := range allTypes(m) {
		if t.Simple {
			continue
		}
		v := viewOf(t)
		for _, x := range v.elems {
			elems = append(elems, x.Name.Local)
		}
		for _, x := range v.attrs {
			attrs = append(attrs, x.Name.Local)
		}
	}
	sort.Strings(elems)
	sort.Strings(attrs)
	noElem, noAttr := map[string]bool{}, map[string]bool{}
	n := o
	mode := c.Intn(3)
	if mode != 1 {
		l := pickSome(c, attrs, c.Intn(100))
		n = n.with(fmt.Sprintf("IgnoreAttributes %q", l), xsdgen.IgnoreAttributes(l...))
		for _, s := range l {
			noAttr[s] = true
		}
	}
	if mode != 0 {
		l := pickSome(c, elems, c.Intn(100))
		n = n.with(fmt.Sprintf("IgnoreElements %q", l), xsdgen.IgnoreElements(l...))
		for _, s := range l {
			noElem[s] = true
		}
	}
	src, sub, ok := g.run(n.String(), n.config())
	if !ok {
		return
	}
	in := "options: " + n.String() + "\n" + g.docs + "\n\n" + string(src)
	pkg, _, err := typeCheck(c, src)
	if err != nil {
		c.Violate(in, "the generated code does not compile: %v", err)
		return
	}
	j := newJudge(c, pkg, n)
	j.drop = func(t *schemagen.Type, v *fieldView) {
		var e []schemagen.XElem
		for _, x := range v.elems {
			if !noElem[x.Name.Local] {
				e = append(e, x)
			}
		}
		var a []schemagen.XAttr
		for _, x := range v.attrs {
			if !noAttr[x.Name.Local] {
				a = append(a, x)
			}
		}
		c.Observe("ignored fields", len(v.elems)-len(e)+len(v.attrs)-len(a))
		v.elems, v.attrs = e, a
	}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			if d := j.declared(t); d != "" {
				c.Violate(in, "%s", d)
				return
			}
		}
	}
	// Everything else stays as it was.
	gone := func(tag string) bool {
		parts := strings.Split(tag, ",")
		name := parts[0][strings.LastIndex(parts[0], " ")+1:]
		for _, p := range parts[1:] {
			switch p {
			case "attr":
				return noAttr[name]
			case "chardata", "any":
				return false
			}
		}
		return noElem[name]
	}
	for name, d := range full.types {
		s := sub.types[name]
		if s == nil || !d.strct || !s.strct {
			continue
		}
		var want []string
		for _, t := range d.tags {
			if !gone(t) {
				want = append(want, t)
			}
		}
		if fmt.Sprint(want) != fmt.Sprint(s.tags) {
			c.Violate(in+"\n\n--- before\n"+d.text, "type %s has fields %q, want %q", name, s.tags, want)
			return
		}
		if d.text == s.text {
			c.Observe("same declarations", 1)
			if d.doc != s.doc || d.methods != s.methods {
				c.Violate(in+"\n\n--- before\n"+d.doc+d.methods, "the documentation or methods of %s changed", name)
				return
			}
		}
	}
	for name := range sub.types {
		if full.types[name] == nil {
			c.Violate(in, "type %s appeared", name)
			return
		}
	}
	c.Sample("%s", in)
}

func isAnon(t *schemagen.Type) bool { return t.Local == "" || t.Lifted }

// selectTypes checks AllowType, OnlyTypes and Namespaces.
func selectTypes(c *core.Case, g *generator, m *schemagen.Model, o *optSet, full *goFile) {
	all := allTypes(m)
	var named []*schemagen.Type
	for _, ns := range m.NS {
		named = append(named, ns.Types...)
	}
	if len(named) == 0 {
		return
	}
	var roots, selected []*schemagen.Type
	n := o
	anonRoots := false
	mode := c.Intn(3)
	switch mode {
	case 0:
		for k := 1 + c.Intn(3); k > 0; k-- {
			t := named[c.Intn(len(named))]
			name := xml.Name{Space: t.NS.URI, Local: t.Local}
			n = n.with(fmt.Sprintf("AllowType %v", name), xsdgen.AllowType(name))
			selected = append(selected, t)
		}
		roots = selected
	case 1:
		t := named[c.Intn(len(named))]
		pats := []string{c.Pick("^"+regexp.QuoteMeta(t.Local)+"$", "[0-4]$", "a", "^[a-m]", ".", "none", "^B|6$")}
		if c.Pct(30) {
			u := named[c.Intn(len(named))]
			pats = append(pats, "^"+regexp.QuoteMeta(u.Local)+"$")
		}
		n = n.with(fmt.Sprintf("OnlyTypes %q", pats), xsdgen.OnlyTypes(pats...))
		match := func(s string) bool {
			for _, p := range pats {
				if regexp.MustCompile(p).MatchString(s) {
					return true
				}
			}
			return false
		}
		for _, t := range named {
			if match(t.Local) {
				selected = append(selected, t)
			}
		}
		roots = append(roots, selected...)
		for t, name := range all {
			if isAnon(t) && (match(name) || match("_anon1") || match("_anon22")) {
				roots = append(roots, t)
				anonRoots = true
			}
		}
	case 2:
		var uris []string
		sel := map[*schemagen.Namespace]bool{}
		for _, i := range c.Perm(len(m.NS))[:1+c.Intn(len(m.NS))] {
			uris = append(uris, m.NS[i].URI)
			sel[m.NS[i]] = true
		}
		n = n.with(fmt.Sprintf("Namespaces %q", uris), xsdgen.Namespaces(uris...))
		for _, t := range named {
			if sel[t.NS] {
				selected = append(selected, t)
			}
		}
		for t := range all {
			if sel[t.NS] {
				roots = append(roots, t)
				anonRoots = anonRoots || isAnon(t)
			}
		}
	}
	src, sub, ok := g.run(n.String(), n.config())
	if !ok {
		return
	}
	in := "options: " + n.String() + "\n" + g.docs + "\n\n" + string(src)
	if _, _, err := typeCheck(c, src); err != nil {
		c.Violate(in, "the generated code does not compile: %v", err)
		return
	}
	nameOf := n.config().NameOf
	goName := func(t *schemagen.Type) string { return nameOf(xml.Name{Space: t.NS.URI, Local: t.Local}) }
	c.Observe("types selected", len(selected))
	for _, t := range selected {
		name := goName(t)
		if _, list, _ := schemagen.Primitive(schemagen.Ref{Type: t}); t.Simple && !list && !t.Union && !isWorthy(t) {
			continue // declared if other types are derived from it
		}
		if full.types[name] != nil && sub.types[name] == nil {
			c.Violate(in, "the selected type %s is missing", name)
			return
		}
	}
	needed := map[string]bool{}
	anonSimple := false
	for t := range closure(roots) {
		if !isAnon(t) {
			needed[goName(t)] = true
		} else if t.Simple {
			anonSimple = true
		}
	}
	isNamed := map[string]bool{}
	for _, t := range named {
		isNamed[goName(t)] = true
	}
	refs := map[string]bool{}
	for name, d := range sub.types {
		for r := range d.refs {
			if r != name {
				refs[r] = true
			}
		}
	}
	for name, d := range sub.types {
		switch {
		case isNamed[name]:
			if !needed[name] {
				c.Violate(in, "type %s was not selected, and no selected type depends on it", name)
				return
			}
		case anonRoots || anonSimple || refs[name]:
		default:
			c.Violate(in, "type %s was not selected, and no type refers to it", name)
			return
		}
		f := full.types[name]
		if f == nil {
			if mode == 2 && !isNamed[name] {
				continue // anonymous types may have other names
			}
			c.Violate(in, "type %s appeared", name)
			return
		}
		if f.text != d.text || f.doc != d.doc || f.methods != d.methods {
			if mode == 2 && strings.Contains(n.String(), "UseFieldNames") || strings.Contains(n.String(), "Default") {
				continue // who gets the name of a field
			}
			c.Violate(in+"\n\n--- before\n"+f.doc+f.text+"\n"+f.methods, "type %s is different", name)
			return
		}
		c.Observe("same declarations", 1)
	}
	c.Observe("types left out", len(full.types)-len(sub.types))
	c.Sample("%s", in)
}

// replaceNames checks Replace.
func replaceNames(c *core.Case, g *generator, m *schemagen.Model, o *optSet, full *goFile) {
	type rule struct {
		re   *regexp.Regexp
		repl string
	}
	var rules []rule
	for _, d := range o.desc {
		if d == "Replace" || d == "DefaultOptions" {
			rules = append(rules, rule{regexp.MustCompile(`[._ \s-]`), ""})
		}
	}
	n := o
	for k := 1 + c.Intn(3); k > 0; k-- {
		p, r := c.Pick("^", "$", "[aeiou]", "(.)$", "a", "b", "e", "[0-9]+$", "^([a-zA-Z])", "t", "ee"), c.Pick("X", "bb", "e", "${1}Q", "a", "Tt")
		n = n.with(fmt.Sprintf("Replace %q %q", p, r), xsdgen.Replace(p, r))
		rules = append(rules, rule{regexp.MustCompile(p), r})
	}
	goName := func(local string) string {
		for _, r := range rules {
			local = r.re.ReplaceAllString(local, r.repl)
		}
		return strings.ToUpper(local[:1]) + local[1:]
	}
	// The names must stay distinct, and names.
	used := map[string]*schemagen.Type{}
	ident := regexp.MustCompile(`^[A-Z][A-Za-z0-9_]*$`)
	anonymous := map[string]bool{}
	for t, name := range allTypes(m) {
		local := t.Local
		if local == "" {
			local = name
		}
		if local == "" {
			// It is called _anon and a number.
			id := goName(fmt.Sprintf("_anon%d", len(anonymous)+1))
			if anonymous[id] {
				return
			}
			anonymous[id] = true
			continue
		}
		id := goName(local)
		if !ident.MatchString(id) || used[id] != nil && used[id] != t {
			return
		}
		used[id] = t
		if t.Simple {
			continue
		}
		v := viewOf(t)
		for _, x := range v.elems {
			if !ident.MatchString(goName(x.Name.Local)) {
				return
			}
		}
		for _, x := range v.attrs {
			if !ident.MatchString(goName(x.Name.Local)) {
				return
			}
		}
	}
	src, sub, ok := g.run(n.String(), n.config())
	if !ok {
		return
	}
	in := "options: " + n.String() + "\n" + g.docs + "\n\n" + string(src)
	pkg, _, err := typeCheck(c, src)
	if err != nil {
		c.Violate(in, "the generated code does not compile: %v", err)
		return
	}
	j := newJudge(c, pkg, n)
	j.nameOf = func(name xml.Name) string {
		c.Observe("names replaced", 1)
		return goName(name.Local)
	}
	conf := n.config()
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			if d := j.declared(t); d != "" {
				c.Violate(in, "%s", d)
				return
			}
			name := xml.Name{Space: ns.URI, Local: t.Local}
			if got := conf.NameOf(name); got != goName(t.Local) {
				c.Violate(in, "NameOf(%v) = %s, want %s", name, got, goName(t.Local))
				return
			}
		}
	}
	if len(sub.types) != len(full.types) {
		c.Violate(in, "%d types, %d without the option", len(sub.types), len(full.types))
		return
	}
	// Fields are renamed by the same rules; names that are taken get a suffix.
	for name, d := range sub.types {
		if !d.strct || strings.HasPrefix(name, "xsd") {
			continue
		}
		for i, tag := range d.tags {
			parts := strings.Split(tag, ",")
			if strings.Contains(tag, ",any") || strings.Contains(tag, ",chardata") {
				continue
			}
			local := parts[0][strings.LastIndex(parts[0], " ")+1:]
			if field := strings.Fields(d.fields[i])[0]; !strings.HasPrefix(field, goName(local)) {
				c.Violate(in, "type %s: field %s for %s, want %s", name, field, local, goName(local))
				return
			}
			c.Observe("names replaced", 1)
		}
	}
	c.Sample("%s", in)
}

// loneTypes finds the complex types that nothing refers to.
func loneTypes(m *schemagen.Model) map[xml.Name]bool {
	visited := map[*schemagen.Type]bool{}
	referred := map[*schemagen.Type]bool{}
	var visit func(t *schemagen.Type)
	ref := func(r schemagen.Ref) {
		if r.Type != nil {
			referred[r.Type] = true
			visit(r.Type)
		}
	}
	visit = func(t *schemagen.Type) {
		if visited[t] {
			return
		}
		visited[t] = true
		ref(t.Base)
		for _, r := range t.Members {
			ref(r)
		}
		if t.Simple {
			return
		}
		for _, x := range schemagen.Elements(t.Content, t.NS) {
			ref(x.Type)
		}
		for _, x := range schemagen.AllAttributes(t) {
			ref(x.Type)
		}
	}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			visit(t)
		}
		for _, e := range ns.Elems {
			ref(e.Type)
		}
		for _, a := range ns.Attrs {
			ref(a.Type)
		}
		for _, g := range ns.Groups {
			visit(&schemagen.Type{NS: ns, Content: g.Content})
		}
		for _, g := range ns.AttrGroups {
			visit(&schemagen.Type{NS: ns, Attrs: g.Items})
		}
	}
	lone := map[xml.Name]bool{}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			if !t.Simple && !referred[t] {
				lone[xml.Name{Space: ns.URI, Local: t.Local}] = true
			}
		}
	}
	return lone
}

// processTypes checks ProcessTypes.
func processTypes(c *core.Case, g *generator, m *schemagen.Model, o *optSet, full *goFile) {
	seen := map[xml.Name]int{}
	var order []string
	lone := loneTypes(m)
	replaced := map[xsd.Type]bool{}
	n := o.with("ProcessTypes 1", xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
		seen[xsd.XMLName(t)]++
		if len(order) < 2 {
			order = append(order, "1")
		}
		if t, ok := t.(*xsd.ComplexType); ok {
			if lone[t.Name] && c.Pct(40) {
				// Another type takes its place.
				other := *t
				other.Doc = "one " + t.Name.Local
				t.Doc = "replaced"
				replaced[&other] = true
				c.Observe("types replaced", 1)
				return &other
			}
			t.Doc = "one " + t.Name.Local
		}
		return t
	}))
	n = n.with("ProcessTypes 2", xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
		if len(order) < 2 {
			order = append(order, "2")
		}
		if t, ok := t.(*xsd.ComplexType); ok {
			t.Doc += " two"
			if c.Pct(50) && !replaced[t] {
				return nil
			}
		}
		return t
	}))
	src, sub, ok := g.run(n.String(), n.config())
	if !ok {
		return
	}
	in := "options: " + n.String() + "\n" + g.docs + "\n\n" + string(src)
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			name := xml.Name{Space: ns.URI, Local: t.Local}
			if seen[name] == 0 {
				c.Violate(in, "type %v was not processed", name)
				return
			}
			c.Observe("types processed", 1)
			d := sub.types[n.config().NameOf(name)]
			if d == nil || t.Simple {
				continue
			}
			if want := "one " + t.Local + " two"; strings.TrimSpace(d.doc) != want {
				c.Violate(in, "type %v: documentation %q, want %q", name, d.doc, want)
				return
			}
		}
	}
	if len(seen) > 1 && strings.Join(order, "") != "12" {
		c.Violate(in, "functions were called in the order %v", order)
		return
	}
	for name, d := range sub.types {
		f := full.types[name]
		if f == nil || f.text != d.text || f.methods != d.methods {
			c.Violate(in, "type %s is different", name)
			return
		}
		c.Observe("same declarations", 1)
	}
	if len(full.types) != len(sub.types) {
		c.Violate(in, "%d types, want %d", len(sub.types), len(full.types))
	}
}

// neutralOptions checks options that leave the declarations alone.
func neutralOptions(c *core.Case, g *generator, o *optSet, src []byte) {
	if c.Pct(25) {
		logLevels(c, g, o, string(src))
		return
	}
	n, want := o, string(src)
	for k := 1 + c.Intn(3); k > 0; k-- {
		switch c.Intn(7) {
		case 6:
			// A pattern that cannot be used leaves everything in.
			if !strings.Contains(o.String(), "OnlyTypes") {
				n = n.with("invalid OnlyTypes", xsdgen.OnlyTypes("a", "("))
			}
		case 0:
			name := c.Pick("a", "b", "x1")
			n = n.with("PackageName "+name, xsdgen.PackageName(name))
			want = regexp.MustCompile(`(?m)^package .*$`).ReplaceAllString(want, "package "+name)
		case 1:
			n = n.with("LogOutput", xsdgen.LogOutput(new(countLogger)))
		case 2:
			n = n.with("LogLevel 5", xsdgen.LogLevel(5))
		case 3:
			n = n.with("invalid Replace", xsdgen.Replace("(", "X"))
		case 4:
			n = n.with("FollowImports false", xsdgen.FollowImports(false))
		default:
			n = n.with("Replace without effect", xsdgen.Replace("zzz", "Y"))
		}
	}
	got, _, ok := g.run(n.String(), n.config())
	if !ok {
		return
	}
	c.Observe("neutral options", 1)
	if string(got) != want {
		c.Violate("options: "+n.String()+"\n"+g.docs+"\n\n--- got\n"+string(got)+"\n--- want\n"+want, "the code is different")
	}
}

// logLevels checks that the highest log level gives messages, and that none
// of the levels changes the code. How many messages there are is not the same
// each time: the order in which types are visited is not.
func logLevels(c *core.Case, g *generator, o *optSet, want string) {
	for level := 1; level <= 5; level++ {
		l := new(countLogger)
		n := o.with(fmt.Sprintf("LogLevel %d", level), xsdgen.LogOutput(l), xsdgen.LogLevel(level))
		got, _, ok := g.run(n.String(), n.config())
		if !ok {
			return
		}
		in := "options: " + n.String() + "\n" + g.docs
		if string(got) != want {
			c.Violate(in+"\n\n--- got\n"+string(got)+"\n--- want\n"+want, "the code is different")
		}
		if level == 5 && l.n == 0 {
			c.Violate(in, "no message at level 5")
		}
	}
	c.Observe("log levels", 5)
}
