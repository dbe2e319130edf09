package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "G10", Quick: 4000, Thorough: 60000, Run: runG10,
		Rule: "a Code is asked for every type of the schemas, every built-in type and names of nothing, in any order and more than once; the answers are type-checked together with the code, and compared with the model of the schema; the code before and after is compared",
		Need: map[string]int{"schema types looked up": 5000, "built-in types looked up": 20000, "names of nothing": 5000, "private field types": 3000, "types that are not declared": 100, "top-level elements": 1500, "helpers added by lookups": 300},
	})
}

// bareCode prints a syntax tree.
func bareCode(file *ast.File) ([]byte, error) {
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), file); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// declsOf lists the text of the declarations of a file.
func declsOf(src []byte) (map[string]string, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return nil, err
	}
	m := make(map[string]string)
	for _, d := range file.Decls {
		text := string(src[fset.Position(d.Pos()).Offset:fset.Position(d.End()).Offset])
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if s, ok := s.(*ast.TypeSpec); ok {
					m[s.Name.Name] = text
				}
			}
		case *ast.FuncDecl:
			name := d.Name.Name
			if d.Recv != nil {
				name = strings.TrimPrefix(string(src[fset.Position(d.Recv.List[0].Type.Pos()).Offset:fset.Position(d.Recv.List[0].Type.End()).Offset]), "*") + "." + name
			}
			m[name] = text
		}
	}
	return m, nil
}

// checkLoose type-checks code after adding imports of the standard packages
// that it uses.
func checkLoose(c *core.Case, src []byte) (*types.Package, error) {
	i := bytes.Index(src, []byte("\npackage ")) + 1
	k := i + bytes.IndexByte(src[i:], '\n') + 1
	var b bytes.Buffer
	b.Write(src[:k])
	b.WriteString("import (\n")
	for _, p := range stdPkgs {
		if bytes.Contains(src, []byte(path.Base(p)+".")) {
			fmt.Fprintf(&b, "\t%q\n", p)
		}
	}
	b.WriteString(")\n")
	b.Write(src[k:])
	if sharedImporter == nil {
		if _, err := exports(); err != nil {
			c.Fatal("go list: %v", err)
		}
		sharedImporter = newImporter(sharedFset)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "gen.go", b.Bytes(), 0)
	if err != nil {
		return nil, err
	}
	var errs []string
	conf := types.Config{Importer: sharedImporter, Error: func(err error) {
		if len(errs) < 4 && !strings.Contains(err.Error(), "imported and not used") {
			errs = append(errs, err.Error())
		}
	}}
	pkg, _ := conf.Check("gen", fset, []*ast.File{file}, nil)
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	return pkg, nil
}

func runG10(c *core.Case) {
	cfg := genConfig(c)
	cfg.PlainNames = c.Pct(20)
	m, _, docs := randomSchema(c, cfg, anyLayout(c))
	o := baseOptions(c, cfg.PlainNames)
	// Types of other namespaces have no name in the generated code.
	selected := map[*schemagen.Namespace]bool{}
	for _, ns := range m.NS {
		selected[ns] = true
	}
	if len(m.NS) > 1 && c.Pct(25) {
		selected = map[*schemagen.Namespace]bool{}
		var uris []string
		for _, i := range c.Perm(len(m.NS))[:1+c.Intn(len(m.NS)-1)] {
			selected[m.NS[i]] = true
			uris = append(uris, m.NS[i].URI)
		}
		o.add(fmt.Sprintf("Namespaces %q", uris), xsdgen.Namespaces(uris...))
	}
	in := "options: " + o.String() + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	code, err := o.config().GenCode(docs...)
	c.Eval(1)
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return
	}
	print := func() []byte {
		file, err := code.GenAST()
		if err != nil {
			c.Violate(in, "GenAST: %v", err)
			return nil
		}
		src, err := bareCode(file)
		if err != nil {
			c.Violate(in, "the syntax tree cannot be printed: %v", err)
			return nil
		}
		return append([]byte("\n"), src...)
	}
	var before []byte
	if c.Pct(70) {
		if before = print(); before == nil {
			return
		}
	}

	type question struct {
		name    xml.Name
		typ     *schemagen.Type
		builtin xsd.Builtin
		known   bool
	}
	var qs []question
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			if !selected[ns] {
				c.Observe("types of other namespaces", 1)
				if !code.HasType(xml.Name{Space: ns.URI, Local: t.Local}) {
					c.Violate(in, "HasType does not know %s of namespace %q", t.Local, ns.URI)
					return
				}
				continue
			}
			qs = append(qs, question{name: xml.Name{Space: ns.URI, Local: t.Local}, typ: t, known: true})
			if c.Pct(20) {
				qs = append(qs, question{name: xml.Name{Space: "urn:none", Local: t.Local}})
			}
		}
		qs = append(qs, question{name: xml.Name{Space: ns.URI, Local: c.Pick("no-such-type", "", "xsd.string", "_")}})
	}
	for _, b := range schemagen.AllBuiltins {
		if c.Pct(30) {
			qs = append(qs, question{name: b.Name(), builtin: b, known: true})
			if c.Pct(20) {
				qs = append(qs, question{name: xml.Name{Space: "urn:none", Local: b.Name().Local}})
			}
		}
	}
	qs = append(qs, question{name: xml.Name{Space: schemagen.XS, Local: "strin"}}, question{name: xml.Name{Local: "xsd.string"}})
	// a name that is given to a schema type as well
	clean := qs[:0]
	for _, q := range qs {
		taken := false
		for _, ns := range m.NS {
			for _, t := range ns.Types {
				taken = taken || !q.known && q.name == xml.Name{Space: ns.URI, Local: t.Local}
			}
			for _, e := range ns.Elems {
				taken = taken || !q.known && q.name == xml.Name{Space: ns.URI, Local: e.Local}
			}
		}
		if !taken {
			clean = append(clean, q)
		}
	}
	qs = clean

	type answer struct{ name, field string }
	answers := make(map[xml.Name]answer)
	order := c.Perm(len(qs))
	for len(order) < 2*len(qs) {
		order = append(order, c.Intn(len(qs)))
	}
	for _, i := range order {
		q := qs[i]
		if got := code.HasType(q.name); got != q.known {
			c.Violate(in, "HasType(%v) = %v", q.name, got)
			return
		}
		a, seen := answers[q.name]
		var b answer
		if c.Pct(50) {
			b.field = code.FieldTypeOf(q.name)
			b.name = code.NameOf(q.name)
		} else {
			b.name = code.NameOf(q.name)
			b.field = code.FieldTypeOf(q.name)
		}
		if seen && a != b {
			c.Violate(in, "asked again, the names of %v are %v, not %v", q.name, b, a)
			return
		}
		answers[q.name] = b
	}

	after := print()
	if after == nil {
		return
	}
	in += "\n\n" + string(after)
	decls, err := declsOf(after)
	if err != nil {
		c.Violate(in, "the generated code does not compile: %v", err)
		return
	}
	if before != nil {
		old, err := declsOf(before)
		if err != nil {
			c.Violate(in, "the generated code does not compile: %v", err)
			return
		}
		for name, text := range old {
			if decls[name] != text {
				c.Violate(in, "looking up names changed the declaration of %s from\n%s\nto\n%s", name, text, decls[name])
				return
			}
		}
		var more []string
		for name := range decls {
			if _, ok := old[name]; !ok {
				more = append(more, name)
			}
		}
		sort.Strings(more)
		for _, name := range more {
			if name[0] != '_' && (name[0] < 'a' || name[0] > 'z') {
				c.Violate(in, "looking up names declared %s", name)
				return
			}
			c.Observe("helpers added by lookups", 1)
		}
	}

	var b bytes.Buffer
	b.Write(after)
	for i, q := range qs {
		a := answers[q.name]
		if q.known {
			fmt.Fprintf(&b, "\nvar _n%d %s\nvar _f%d %s\nvar _, _ = %s(_f%d), %s(_n%d)\n", i, a.name, i, a.field, paren(a.name), i, paren(a.field), i)
			continue
		}
		c.Observe("names of nothing", 1)
		for _, s := range []string{a.name, a.field} {
			if _, ok := decls[s]; ok {
				c.Violate(in, "%v, which does not exist, is said to be %s", q.name, s)
				return
			}
		}
	}
	pkg, err := checkLoose(c, b.Bytes())
	if err != nil {
		c.Violate(in+"\n\n"+b.String()[len(after):], "the code and the names do not compile: %v", err)
		return
	}
	j := newJudge(c, pkg, o)
	for i, q := range qs {
		if !q.known {
			continue
		}
		name := pkg.Scope().Lookup(fmt.Sprintf("_n%d", i)).Type()
		field := pkg.Scope().Lookup(fmt.Sprintf("_f%d", i)).Type()
		r := schemagen.Ref{Type: q.typ, Builtin: q.builtin}
		if q.typ == nil {
			r = schemagen.B(q.builtin)
			c.Observe("built-in types looked up", 1)
			if _, ok := name.(*types.Named); ok && !isTime(name) {
				c.Violate(in, "%v has the Go type %v, which is not one that comes with Go", q.name, name)
				return
			}
		} else {
			c.Observe("schema types looked up", 1)
			if n, ok := name.(*types.Named); !ok || n.Obj().Pkg() != pkg {
				c.Observe("types that are not declared", 1)
			}
		}
		for _, t := range []types.Type{name, field} {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == pkg && !n.Obj().Exported() && t == field && t != name {
				// Has methods to convert values from and to XML.
				c.Observe("private field types", 1)
				ms := types.NewMethodSet(types.NewPointer(n))
				if (ms.Lookup(pkg, "UnmarshalText") == nil && ms.Lookup(pkg, "UnmarshalXML") == nil) || (ms.Lookup(pkg, "MarshalText") == nil && ms.Lookup(pkg, "MarshalXML") == nil) {
					c.Violate(in, "the type %v of fields for %v has no methods to convert it", n, q.name)
					return
				}
			} else if t == field && t != name {
				c.Violate(in, "%v: fields have the type %v, the type is %v", q.name, field, name)
				return
			}
			if d := j.ref(r, t, q.name.Local); d != "" {
				c.Violate(in, "the type of %v: %s", q.name, d)
				return
			}
		}
		// These have no representation in XML of their own.
		_, list := name.(*types.Slice)
		if name == field && (list || name.String() == "time.Time") {
			c.Violate(in, "the Go type %v of %v is used for fields, without methods to convert values", field, q.name)
			return
		}
	}

	for _, ns := range m.NS {
		doc, ok := code.DocType(ns.URI)
		if !ok {
			c.Violate(in, "there is no type for documents of namespace %q", ns.URI)
			return
		}
		if d := compareDoc(c, ns, doc); d != "" {
			c.Violate(in, "documents of namespace %q: %s", ns.URI, d)
			return
		}
	}
	if _, ok := code.DocType("urn:none"); ok {
		c.Violate(in, "there is a type for documents of a namespace without schema")
		return
	}
	c.Distinct(schemagen.Shape(m))
	c.Sample("%s", in)
}

func paren(t string) string { return "(" + t + ")" }

// compareDoc compares the elements of documents of a namespace with those that
// its schemas declare.
func compareDoc(c *core.Case, ns *schemagen.Namespace, doc *xsd.ComplexType) string {
	elems := make(map[xml.Name]xsd.Type)
	for _, e := range doc.Elements {
		if _, ok := elems[e.Name]; ok {
			return fmt.Sprintf("element %v is there twice", e.Name)
		}
		elems[e.Name] = e.Type
	}
	if len(elems) != len(ns.Elems) {
		return fmt.Sprintf("%d elements, want %d", len(elems), len(ns.Elems))
	}
	check := func(what, local string, r schemagen.Ref, in map[xml.Name]xsd.Type) string {
		c.Observe("top-level "+what, 1)
		t, ok := in[xml.Name{Space: ns.URI, Local: local}]
		if !ok || t == nil {
			return fmt.Sprintf("the %s do not include %s", what, local)
		}
		want := r.Builtin.Name()
		if r.Type != nil {
			if r.Type.Local == "" {
				return ""
			}
			want = xml.Name{Space: r.Type.NS.URI, Local: r.Type.Local}
		}
		if got := xsd.XMLName(t); got != want {
			return fmt.Sprintf("%s: %s has type %v, want %v", what, local, got, want)
		}
		return ""
	}
	for _, e := range ns.Elems {
		if d := check("elements", e.Local, e.Type, elems); d != "" {
			return d
		}
	}
	return ""
}
