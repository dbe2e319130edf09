package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "W02", Quick: 4000, Thorough: 40000, Run: runW02,
		Rule: "the generated package type-checks; the methods of Client, their parameters, results and comments are compared with the operations and messages of the model, for the ports and thresholds that were chosen; repeated and reverted configurations give the same code",
		Need: map[string]int{"methods": 4000, "parameters": 3000, "results": 3000, "wrapped parameters": 500, "wrapped results": 800, "methods without results": 200,
			"ports left out": 500, "operations left out": 500, "operations of several ports": 300, "struct parts": 500, "list parts": 300, "date and time parts": 300, "binary parts": 100,
			"configurations with reverts": 300, "messages called like types": 200, "services with dangling names": 60, "documents without the other ports": 300, "wrappers of several operations": 500, "messages with almost the same name": 300},
	})
}

// A wOptions is a set of options for client generation.
type wOptions struct {
	desc    []string
	set     func(cfg *wsdlgen.Config)
	in, out int
	ports   map[string]bool // nil: all
	pkg     string
	comment string
	slices  bool
	nameOf  func(xml.Name) string
}

func (o *wOptions) String() string { return strings.Join(o.desc, ", ") }

func (o *wOptions) config() *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	o.set(cfg)
	return cfg
}

func (g *wGen) options(m *wModel) *wOptions {
	o := &wOptions{pkg: "ws", in: 3, out: 2}
	var opts []wsdlgen.Option
	add := func(desc string, l ...wsdlgen.Option) {
		o.desc = append(o.desc, desc)
		opts = append(opts, l...)
	}
	add("DefaultOptions", wsdlgen.DefaultOptions...)
	if g.Pct(60) {
		o.in = g.Intn(6)
		add(fmt.Sprintf("InputThreshold %d", o.in), wsdlgen.InputThreshold(o.in))
	}
	if g.Pct(60) {
		o.out = g.Intn(6)
		add(fmt.Sprintf("OutputThreshold %d", o.out), wsdlgen.OutputThreshold(o.out))
	}
	if g.Pct(35) {
		o.ports = map[string]bool{}
		var l []string
		for _, p := range m.ports() {
			if g.Pct(50) {
				l = append(l, p.Name)
				o.ports[p.Name] = true
			}
		}
		if g.Pct(20) {
			l = append(l, "nosuchport")
		}
		add(fmt.Sprintf("OnlyPorts %q", l), wsdlgen.OnlyPorts(l...))
	}
	if g.Pct(30) {
		o.pkg = g.Pick("api", "main", "x")
		add("PackageName "+o.pkg, wsdlgen.PackageName(o.pkg))
	}
	if g.Pct(30) {
		o.comment = g.Pick("Package x calls a service.", "Two\nlines", "/* star */", "Ünï")
		add("PackageComment "+o.comment, wsdlgen.PackageComment(o.comment))
	}
	// Options whose effects are undone
	var reverted []func(cfg *wsdlgen.Config)
	if g.Pct(40) {
		g.Observe("configurations with reverts", 1)
		for k := 1 + g.Intn(3); k > 0; k-- {
			var x wsdlgen.Option
			n := g.Intn(5)
			switch g.Intn(5) {
			case 0:
				x = wsdlgen.InputThreshold(n)
			case 1:
				x = wsdlgen.OutputThreshold(n)
			case 2:
				x = wsdlgen.OnlyPorts("nosuchport")
			case 3:
				x = wsdlgen.PackageName("other")
			case 4:
				x = wsdlgen.PackageComment("other")
			}
			both := g.Pct(25)
			reverted = append(reverted, func(cfg *wsdlgen.Config) {
				if both {
					// Only the last of several options is reverted.
					cfg.Option(cfg.Option(append(opts[:len(opts):len(opts)], x)...))
					cfg.XSDOption(cfg.XSDOption(xsdgen.PackageName("xsdother")))
					return
				}
				undo := cfg.Option(x)
				if n == 0 {
					// and again
					redo := cfg.Option(undo)
					undo = cfg.Option(redo)
				}
				cfg.Option(undo)
			})
		}
		o.desc = append(o.desc, fmt.Sprintf("%d options that are reverted", len(reverted)))
	}
	x := baseOptions(g.Case, !g.Odd)
	o.slices = x.slices
	o.desc = append(o.desc, "XSDOption "+x.String())
	xcfg := x.config()
	o.nameOf = xcfg.NameOf
	o.set = func(cfg *wsdlgen.Config) {
		cfg.Option(opts...)
		for _, f := range reverted {
			f(cfg)
		}
		cfg.XSDOption(x.opts...)
	}
	return o
}

// A wMethod is a method that is called for.
type wMethod struct {
	Op   *wOp
	Port *wPort
}

// methods lists the methods of the client.
func (m *wModel) methods(c *core.Case, o *wOptions) map[string]wMethod {
	l := map[string]wMethod{}
	for _, p := range m.ports() {
		if p.Binding == nil {
			continue
		}
		if o.ports != nil && !o.ports[p.Name] {
			c.Observe("ports left out", 1)
			c.Observe("operations left out", len(p.Binding.Type.Ops))
			continue
		}
		for _, op := range p.Binding.Type.Ops {
			name := o.nameOf(xml.Name{Space: m.TNS, Local: op.Name})
			if _, ok := l[name]; ok {
				c.Observe("operations of several ports", 1)
				continue
			}
			l[name] = wMethod{op, p}
		}
	}
	return l
}

// newWSDL makes a model and document for code generation.
func newWSDL(c *core.Case, echo bool) (*wGen, *wModel, []byte, [][]byte) {
	return changedWSDL(c, echo, func(*wGen, *wModel) {})
}

// changedWSDL changes the model of the service before the document is written.
func changedWSDL(c *core.Case, echo bool, change func(*wGen, *wModel)) (*wGen, *wModel, []byte, [][]byte) {
	odd := c.Pct(60)
	cfg := genConfig(c)
	cfg.Namespaces, cfg.Types, cfg.PlainNames = 2, 5, !odd
	cfg.Qualified = echo // see the known findings of W03
	schema := schemagen.New(c.Rand, cfg).Model()
	g := &wGen{Case: c, Go: true, Odd: odd, Echo: echo}
	m := g.model(schema)
	change(g, m)
	docs := (&schemagen.Renderer{Rand: c.Rand, Layout: schemagen.Layout{Reorder: c.Pct(50), Split: c.Pct(30), Noise: c.Pct(50)}}).Render(schema)
	var extra [][]byte
	if c.Pct(20) {
		// Schemas may be in files of their own.
		k := c.Intn(len(docs))
		extra, docs = docs[k:], docs[:k]
		c.Observe("schemas in other files", len(extra))
	}
	doc := m.render(c, docs)
	if _, err := schemagen.ParseNode(doc); err != nil {
		c.Fatal("generated document: %v\n%s", err, doc)
	}
	return g, m, doc, extra
}

// dangle makes an operation use a message, or a message use a type or element,
// that does not exist.
func dangle(g *wGen, m *wModel) {
	if g.Pct(30) {
		pt := m.PortTypes[g.Intn(len(m.PortTypes))]
		if len(pt.Ops) == 0 {
			return
		}
		if op := pt.Ops[g.Intn(len(pt.Ops))]; g.Pct(50) || op.Out == nil {
			op.InSpace = g.foreign()
		} else {
			op.OutSpace = g.foreign()
		}
		return
	}
	msg := m.Msgs[g.Intn(len(m.Msgs))]
	if len(msg.Parts) == 0 {
		return
	}
	p := &msg.Parts[g.Intn(len(msg.Parts))]
	ns := m.Schema.NS[g.Intn(len(m.Schema.NS))]
	local := g.Pick("NoSuch", "noSuch1")
	if g.Pct(50) {
		name := xml.Name{Space: g.Pick(ns.URI, schemagen.XS, m.TNS), Local: local}
		if g.Pct(30) && len(ns.Types) > 0 {
			name = xml.Name{Space: soapURI, Local: ns.Types[0].Local}
		}
		p.NoType = name
		return
	}
	p.NoElem = xml.Name{Space: g.Pick(ns.URI, soapURI), Local: local}
}

// dangling tells if the client needs something that does not exist.
func (m *wModel) dangling(c *core.Case, o *wOptions) bool {
	for _, w := range m.methods(c, o) {
		if w.Op.InSpace != "" || w.Op.OutSpace != "" {
			return true
		}
		for _, msg := range []*wMsg{w.Op.In, w.Op.Out} {
			if msg == nil {
				continue
			}
			for _, p := range msg.Parts {
				if p.NoType.Local != "" || p.NoElem.Local != "" {
					return true
				}
			}
		}
	}
	return false
}

// withoutPorts removes ports from a document.
func withoutPorts(doc string, keep map[string]bool) (string, int) {
	spans := elemSpans(doc)
	n := 0
	for i := len(spans) - 1; i >= 0; i-- {
		s := spans[i]
		tag := doc[s.from:s.open]
		if !portTag.MatchString(tag) {
			continue
		}
		if name := portName.FindStringSubmatch(tag); name != nil && !keep[name[1]] {
			doc = doc[:s.from] + doc[s.to:]
			n++
		}
	}
	return doc, n
}

var (
	portTag  = regexp.MustCompile(`^<(\w+:)?port\s.*\sbinding=`)
	portName = regexp.MustCompile(`\sname="([^"]*)"`)
)

func runW02(c *core.Case) {
	change := func(*wGen, *wModel) {}
	if c.Pct(8) {
		change = dangle
	}
	g, m, doc, extra := changedWSDL(c, false, change)
	o := g.options(m)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := []string{writeFile(c, dir, "service.wsdl", doc)}
	files = append(files, writeDocs(c, dir, extra)...)
	in := "options: " + o.String() + "\n" + string(doc) + "\n" + joinDocuments(extra)
	c.Ctx("%s", in)
	cfg := o.config()
	src, err := cfg.GenSource(files...)
	c.Eval(1)
	if m.dangling(c, o) {
		c.Observe("services with dangling names", 1)
		if err == nil {
			c.Violate(in+"\n\n"+string(src), "a part, or the message of an operation, does not exist, but there is no error")
		}
		return
	}
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return
	}
	in += "\n\n" + string(src)
	pkg, file, d := checkFile(c, src, o.pkg)
	if d == "" {
		d = m.judgeClient(c, o, pkg, file)
	}
	if d == "" {
		again, err := cfg.GenSource(files...)
		if err != nil || !bytes.Equal(src, again) {
			d = fmt.Sprintf("the same configuration gives other code: %v %s", err, firstDiff(src, again))
		}
	}
	if d == "" && o.ports != nil {
		out := 0
		for _, p := range m.ports() {
			if !o.ports[p.Name] {
				out++
			}
		}
		// What cannot be told from a port is left alone.
		if less, n := withoutPorts(string(doc), o.ports); n == out {
			files := append([]string{writeFile(c, dir, "less.wsdl", []byte(less))}, files[1:]...)
			other, err := o.config().GenSource(files...)
			c.Observe("documents without the other ports", 1)
			if err != nil || !bytes.Equal(src, other) {
				d = fmt.Sprintf("a document without the other ports gives other code: %v %s", err, firstDiff(src, other))
			}
		}
	}
	if d == "" && c.Pct(30) {
		// What was configured later counts, whatever was generated before.
		cfg.Option(wsdlgen.PackageName("late"))
		again, err := cfg.GenSource(files...)
		want := strings.Replace(string(src), "\npackage "+o.pkg+"\n", "\npackage late\n", 1)
		if o.comment == "" {
			want = strings.Replace(want, "\n// Package "+o.pkg+"\n", "\n// Package late\n", 1)
		}
		if err != nil || string(again) != want {
			d = fmt.Sprintf("another package name changes more than that: %v %s", err, firstDiff([]byte(want), again))
		}
	}
	if d != "" {
		c.Violate(in, "%s", d)
		return
	}
	c.Distinct(in)
	c.Sample("%s", in)
}

// judgeClient compares the methods of Client with the model.
func (m *wModel) judgeClient(c *core.Case, o *wOptions, pkg *types.Package, file *ast.File) string {
	j := &typeJudge{c: c, pkg: pkg, nameOf: o.nameOf, slices: o.slices, drop: func(*schemagen.Type, *fieldView) {}, seen: map[*schemagen.Type]bool{}}
	client, ok := pkg.Scope().Lookup("Client").(*types.TypeName)
	if !ok {
		return "there is no type Client"
	}
	want := m.methods(c, o)
	named := client.Type().(*types.Named)
	docs := map[string]string{}
	for _, d := range file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv != nil && f.Doc != nil {
			if star, ok := f.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := star.X.(*ast.Ident); ok && id.Name == "Client" {
					var l []string
					for _, cm := range f.Doc.List {
						l = append(l, strings.TrimSpace(strings.TrimPrefix(cm.Text, "//")))
					}
					docs[f.Name.Name] = strings.Join(l, "\n")
				}
			}
		}
	}
	seen := map[string]bool{}
	wrappers := map[string]bool{}
	byMsg := map[*wMsg]types.Type{}
	wrapper := func(msg *wMsg, l []types.Type, threshold int) string {
		if len(msg.Parts) <= threshold {
			return ""
		}
		if t, ok := byMsg[msg]; !ok {
			byMsg[msg] = l[0]
		} else if t != l[0] {
			return fmt.Sprintf("message %s is wrapped in %v here, and in %v elsewhere", msg.Name, l[0], t)
		} else {
			c.Observe("wrappers of several operations", 1)
		}
		return ""
	}
	for i := 0; i < named.NumMethods(); i++ {
		f := named.Method(i)
		if !f.Exported() {
			continue
		}
		w, ok := want[f.Name()]
		if !ok {
			return "there is a method " + f.Name() + ", but no operation is called that"
		}
		seen[f.Name()] = true
		c.Observe("methods", 1)
		sig := f.Type().(*types.Signature)
		if p := sig.Params(); p.Len() == 0 || p.At(0).Type().String() != "context.Context" {
			return f.Name() + ": the first parameter is not a context"
		}
		if r := sig.Results(); r.Len() == 0 || r.At(r.Len()-1).Type().String() != "error" {
			return f.Name() + ": the last result is not an error"
		}
		if sig.Variadic() {
			return f.Name() + " is variadic"
		}
		var params, results []types.Type
		for i := 1; i < sig.Params().Len(); i++ {
			params = append(params, sig.Params().At(i).Type())
		}
		for i := 0; i < sig.Results().Len()-1; i++ {
			results = append(results, sig.Results().At(i).Type())
		}
		if d := m.values(c, j, o, w.Op.In, params, o.in, "parameters", wrappers); d != "" {
			return f.Name() + ": " + d
		}
		out := w.Op.Out
		if out == nil {
			out = new(wMsg)
			c.Observe("one-way methods", 1)
		}
		if len(out.Parts) == 0 {
			c.Observe("methods without results", 1)
		}
		if d := m.values(c, j, o, out, results, o.out, "results", wrappers); d != "" {
			return f.Name() + ": " + d
		}
		if d := wrapper(w.Op.In, params, o.in); d != "" {
			return f.Name() + ": " + d
		}
		if d := wrapper(out, results, o.out); d != "" {
			return f.Name() + ": " + d
		}
		if want, got := textLines(strings.Join(w.Op.Docs, "\n")), textLines(docs[f.Name()]); want != got {
			return fmt.Sprintf("%s: comment %q, want %q", f.Name(), got, want)
		}
	}
	var missing []string
	for n := range want {
		if !seen[n] {
			missing = append(missing, n)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		return fmt.Sprintf("no methods %v", missing)
	}
	// Every exported type comes from the schema or wraps a message.
	known := map[string]bool{"Client": true}
	for _, ns := range m.Schema.NS {
		for _, t := range ns.Types {
			known[o.nameOf(xml.Name{Space: ns.URI, Local: t.Local})] = true
		}
	}
	for _, n := range pkg.Scope().Names() {
		if ast.IsExported(n) && !known[n] && !wrappers[n] {
			for _, msg := range m.Msgs {
				if strings.EqualFold(notIdent.ReplaceAllString(msg.Name, ""), strings.TrimRight(n, "_")) {
					return fmt.Sprintf("type %s wraps a message that no method uses", n)
				}
			}
		}
	}
	// Documentation of the package
	var text []string
	comment := o.comment
	if comment == "" {
		comment = "Package " + o.pkg
	}
	text = append(text, strings.Split(comment, "\n")...)
	for _, s := range m.Services {
		for _, d := range s.Docs {
			text = append(text, strings.Split(d, "\n")...)
		}
	}
	got := "\n"
	if file.Doc != nil {
		for _, cm := range file.Doc.List {
			// gofmt marks lines that look like headings.
			got += strings.TrimPrefix(strings.TrimSpace(strings.TrimPrefix(cm.Text, "//")), "# ") + "\n"
		}
	}
	at := 0
	for _, l := range text {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		k := strings.Index(got[at:], "\n"+l+"\n")
		if k < 0 {
			return fmt.Sprintf("the package comment is %q, want %q", got, text)
		}
		at += k + 1 + len(l)
	}
	return ""
}

// values compares parameters or results with the parts of a message.
func (m *wModel) values(c *core.Case, j *typeJudge, o *wOptions, msg *wMsg, got []types.Type, threshold int, what string, wrappers map[string]bool) string {
	if len(msg.Parts) > threshold {
		if len(got) != 1 {
			return fmt.Sprintf("%d %s, want one struct", len(got), what)
		}
		n, ok := got[0].(*types.Named)
		if !ok || n.Obj().Pkg() != j.pkg || !n.Obj().Exported() {
			return fmt.Sprintf("%s: %v is not a struct type of the package", what, got[0])
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || s.NumFields() != len(msg.Parts) {
			return fmt.Sprintf("%s: %v, want a struct with %d fields", what, n.Underlying(), len(msg.Parts))
		}
		wrappers[n.Obj().Name()] = true
		got = nil
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if want := strings.Title(notIdent.ReplaceAllString(msg.Parts[i].Name, "")); f.Name() != want || !f.Exported() {
				return fmt.Sprintf("%s: field %s, want %s", what, f.Name(), want)
			}
			got = append(got, f.Type())
		}
		c.Observe("wrapped "+what, 1)
	}
	if len(got) != len(msg.Parts) {
		return fmt.Sprintf("%d %s, want %d", len(got), what, len(msg.Parts))
	}
	for i, p := range msg.Parts {
		c.Observe(what, 1)
		t := p.typ()
		if d := j.ref(t, got[i], what+": "+p.Name); d != "" {
			return d
		}
		if n, ok := got[i].(*types.Named); ok && n.Obj().Pkg() == j.pkg && !n.Obj().Exported() && !strings.HasPrefix(n.Obj().Name(), "_anon") {
			return fmt.Sprintf("%s: %s has the private type %v", what, p.Name, n)
		}
		switch {
		case t.Type != nil && !t.Type.Simple:
			c.Observe("struct parts", 1)
		case isTime(got[i]):
			c.Observe("date and time parts", 1)
		default:
			if s, ok := got[i].Underlying().(*types.Slice); ok && s.Elem().String() == "byte" {
				c.Observe("binary parts", 1)
			} else if ok {
				c.Observe("list parts", 1)
			}
		}
	}
	return ""
}

// textLines returns the lines of a text, without space around them and without
// those that are empty.
func textLines(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimSpace(x); x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}
