package main

import (
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"
	"unicode"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "G02", Quick: 6400, Thorough: 100000, Run: runG02,
		Rule: "the struct types of the generated package (type-checked) have exactly the fields that the model of the schema calls for, by name in the field tag, kind and Go type; every named type of the selected namespaces is there",
		Need: map[string]int{"structs compared": 1500, "element fields": 5000, "attribute fields": 2000, "wildcard fields": 50, "text fields": 60,
			"simple types compared": 100, "anonymous structs compared": 20, "inherited fields": 300, "namespaces left out": 30, "comments compared": 1500, "comments on restrictions": 150, "types named after fields": 100, "schemas with colliding field names": 150},
	})
}

// A fieldView says which struct fields the documents of a type call for.
type fieldView struct {
	elems     []schemagen.XElem // in the order of documents
	attrs     []schemagen.XAttr
	wildcard  *schemagen.XElem
	text      *schemagen.Ref
	inherited int
}

// viewOf collects the fields of a type and the types that it is derived from.
func viewOf(t *schemagen.Type) fieldView {
	var v fieldView
	seen := map[xml.Name]bool{}
	for b := t; b != nil; b = schemagen.BaseOf(b) {
		var own []schemagen.XElem
		for _, x := range schemagen.Elements(b.Content, b.NS) {
			x := x
			if x.Wildcard {
				if v.wildcard == nil {
					v.wildcard = &x
				}
				v.wildcard.Plural = v.wildcard.Plural || x.Plural
				continue
			}
			if !seen[x.Name] {
				seen[x.Name] = true
				own = append(own, x)
				if b != t {
					v.inherited++
				}
			}
		}
		v.elems = append(own, v.elems...)
	}
	v.attrs = schemagen.AllAttributes(t)
	if t.SimpleContent {
		r := schemagen.TextType(t)
		v.text = &r
	}
	return v
}

// A typeJudge compares types of a generated package with the model.
type typeJudge struct {
	c      *core.Case
	pkg    *types.Package
	nameOf func(xml.Name) string
	slices bool
	mixed  bool // the schema has types with mixed content
	drop   func(t *schemagen.Type, v *fieldView)
	seen   map[*schemagen.Type]bool
	// The Go names that anonymous types get from their elements and
	// attributes, with option UseFieldNames, if nothing else has that name.
	field map[*schemagen.Type]string
	// Comments on the types, if they are compared
	docs map[string]string
}

// documented compares the comment on a type with the annotation of the type.
func (j *typeJudge) documented(t *schemagen.Type, name string) string {
	if j.docs == nil {
		return ""
	}
	want, restricted := schemagen.Describe(t)
	have := strings.FieldsFunc(j.docs[name], func(r rune) bool { return unicode.IsSpace(r) || restricted && r == ',' })
	if !restricted && t.Simple && len(want) == 0 {
		return ""
	}
	j.c.Observe("comments compared", 1)
	if restricted {
		j.c.Observe("comments on restrictions", 1)
	} else if strings.Join(want, " ") != strings.Join(have, " ") {
		return fmt.Sprintf("%s has the comment %q, the annotation is %q", name, have, want)
	}
	i := 0
	for _, w := range have {
		if i < len(want) && w == want[i] {
			i++
		}
	}
	if i < len(want) {
		return fmt.Sprintf("%s: the comment %q does not mention %q", name, j.docs[name], want[i:])
	}
	return ""
}

func isTime(t types.Type) bool {
	if t.String() == "time.Time" {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 3 && s.Field(0).Name() == "wall" && s.Field(0).Pkg().Path() == "time"
}

func basicIs(t types.Type, want string) bool {
	if want == "time.Time" {
		return isTime(t)
	}
	if want == "[]byte" {
		s, ok := t.Underlying().(*types.Slice)
		return ok && s.Elem().String() == "byte"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch want {
	case "signed":
		return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
	case "unsigned":
		return b.Info()&types.IsUnsigned != 0
	}
	return b.Name() == want
}

// simple compares a Go type with a simple type.
func (j *typeJudge) simple(r schemagen.Ref, got types.Type) string {
	if n, ok := got.(*types.Named); ok && n.Obj().Pkg() == j.pkg && r.Type != nil && r.Type.Local != "" {
		if want := j.nameOf(xml.Name{Space: r.Type.NS.URI, Local: r.Type.Local}); n.Obj().Name() != want {
			return fmt.Sprintf("Go type %s, want %s", n.Obj().Name(), want)
		}
	}
	if n, ok := got.(*types.Named); ok && n.Obj().Pkg() == j.pkg && r.Type != nil && j.field[r.Type] != "" {
		if want := j.field[r.Type]; n.Obj().Name() != want {
			return fmt.Sprintf("Go type %s, want the name of the field, %s", n.Obj().Name(), want)
		}
		j.c.Observe("types named after fields", 1)
	}
	b, list, union := schemagen.Primitive(r)
	switch {
	case union:
		if !basicIs(got, "string") {
			return fmt.Sprintf("Go type %v for a union", got)
		}
		return ""
	case list || schemagen.IsListBuiltin(b):
		item := "string"
		if list {
			item = schemagen.GoType(b)
		}
		s, ok := got.Underlying().(*types.Slice)
		if !ok || !basicIs(s.Elem(), item) {
			return fmt.Sprintf("Go type %v (%v) for a list of %s", got, got.Underlying(), item)
		}
		return ""
	}
	if !basicIs(got, schemagen.GoType(b)) {
		return fmt.Sprintf("Go type %v (%v) for %v, want %s", got, got.Underlying(), b, schemagen.GoType(b))
	}
	return ""
}

// ref compares the type of a field with the type of an element or attribute.
func (j *typeJudge) ref(r schemagen.Ref, got types.Type, path string) string {
	t := r.Type
	if t == nil || t.Simple {
		if d := j.simple(r, got); d != "" {
			return path + ": " + d
		}
		return ""
	}
	if p, ok := got.(*types.Pointer); ok {
		got = p.Elem()
	}
	n, ok := got.(*types.Named)
	v := viewOf(t)
	j.drop(t, &v)
	if v.text != nil && len(v.attrs) == 0 && (!ok || t.Local == "" || n.Obj().Name() != j.goName(t)) {
		// Nothing but text
		if d := j.simple(*v.text, got); d != "" {
			return path + ": " + d
		}
		return ""
	}
	if !ok || n.Obj().Pkg() != j.pkg {
		return fmt.Sprintf("%s: Go type %v for a complex type", path, got)
	}
	if t.Local != "" && n.Obj().Name() != j.goName(t) {
		return fmt.Sprintf("%s: Go type %v, want %s", path, n.Obj().Name(), j.goName(t))
	}
	if want := j.field[t]; want != "" {
		if n.Obj().Name() != want {
			return fmt.Sprintf("%s: Go type %s, want the name of the field, %s", path, n.Obj().Name(), want)
		}
		j.c.Observe("types named after fields", 1)
	}
	return j.named(t, n, path)
}

// fieldNames finds the anonymous types that get the names of their elements and
// attributes.
func fieldNames(m *schemagen.Model, goName func(xml.Name) string) map[*schemagen.Type]string {
	field := map[*schemagen.Type]string{}
	taken := map[string]int{}
	seen := map[*schemagen.Type]bool{}
	var add func(local string, r schemagen.Ref)
	var particle func(p *schemagen.Particle)
	var content func(t *schemagen.Type)
	add = func(local string, r schemagen.Ref) {
		if t := r.Type; t != nil && t.Local == "" {
			// A reference may be a copy of the type.
			name := goName(xml.Name{Local: local})
			field[t] = name
			taken[name]++
			if !seen[t] {
				seen[t] = true
				content(t)
			}
		}
	}
	content = func(t *schemagen.Type) {
		particle(t.Content)
		for _, a := range schemagen.AllAttributes(t) {
			add(a.Name.Local, a.Type)
		}
	}
	particle = func(p *schemagen.Particle) {
		if p == nil {
			return
		}
		switch p.Kind {
		case schemagen.Element:
			d := p.Elem
			if d.Ref != nil {
				d = d.Ref
			}
			add(d.Local, d.Type)
		case schemagen.GroupRef:
			particle(p.Group.Content)
		}
		for _, q := range p.Parts {
			particle(q)
		}
	}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			taken[goName(xml.Name{Space: ns.URI, Local: t.Local})]++
			content(t)
		}
		for _, e := range ns.Elems {
			add(e.Local, e.Type)
		}
		for _, g := range ns.Groups {
			particle(g.Content)
		}
		for _, g := range ns.AttrGroups {
			for _, a := range schemagen.Attributes(g.Items, ns) {
				add(a.Name.Local, a.Type)
			}
		}
		for _, a := range ns.Attrs {
			add(a.Local, a.Type)
		}
	}
	for t, name := range field {
		if taken[name] > 1 {
			delete(field, t)
		}
	}
	return field
}

func (j *typeJudge) goName(t *schemagen.Type) string {
	return j.nameOf(xml.Name{Space: t.NS.URI, Local: t.Local})
}

// named compares a declared type with a complex type.
func (j *typeJudge) named(t *schemagen.Type, n *types.Named, path string) string {
	if j.seen[t] {
		return ""
	}
	j.seen[t] = true
	if t.Local == "" {
		j.c.Observe("anonymous structs compared", 1)
	}
	path += "(" + n.Obj().Name() + ")"
	if !n.Obj().Exported() && t.Local != "" {
		return path + ": the type is not exported"
	}
	v := viewOf(t)
	j.drop(t, &v)
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		if _, ok := n.Underlying().(*types.Slice); ok && j.slices && v.wildcard != nil && v.wildcard.Plural && len(v.elems)+len(v.attrs) == 0 && v.text == nil {
			j.c.Observe("wildcard slices", 1)
			return ""
		}
		return fmt.Sprintf("%s: %v for a complex type", path, n.Underlying())
	}
	j.c.Observe("structs compared", 1)
	j.c.Observe("inherited fields", v.inherited)
	if d := j.documented(t, n.Obj().Name()); d != "" {
		return path + ": " + d
	}
	fields := map[string]*types.Var{}
	index := map[*types.Var]int{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || f.Embedded() {
			return fmt.Sprintf("%s: field %s cannot hold content", path, f.Name())
		}
		parts := strings.Split(reflect.StructTag(s.Tag(i)).Get("xml"), ",")
		kind := "element"
		for _, o := range parts[1:] {
			switch o {
			case "attr":
				kind = "attribute"
			case "chardata":
				kind = "text"
			case "any":
				kind = "any"
			}
		}
		key := kind + " " + parts[0]
		if fields[key] != nil {
			return fmt.Sprintf("%s: fields %s and %s are both for %s", path, fields[key].Name(), f.Name(), key)
		}
		fields[key] = f
		index[f] = i
	}
	take := func(key string) *types.Var {
		f := fields[key]
		delete(fields, key)
		return f
	}
	last := -1
	for _, x := range v.elems {
		f := take("element " + x.Name.Space + " " + x.Name.Local)
		if f == nil {
			return fmt.Sprintf("%s: no field for element %v", path, x.Name)
		}
		j.c.Observe("element fields", 1)
		if index[f] < last {
			return fmt.Sprintf("%s: the field %s does not come after those of the elements before it", path, f.Name())
		}
		last = index[f]
		ft := f.Type()
		if x.Plural {
			sl, ok := ft.(*types.Slice)
			if !ok {
				return fmt.Sprintf("%s: field %s has type %v, but the element repeats", path, f.Name(), ft)
			}
			ft = sl.Elem()
		}
		if d := j.ref(x.Type, ft, path+"."+f.Name()); d != "" {
			return d
		}
	}
	for _, x := range v.attrs {
		name := schemagen.AttrName(x)
		key := "attribute " + name.Local
		if name.Space != "" {
			key = "attribute " + name.Space + " " + name.Local
		}
		f := take(key)
		if f == nil {
			return fmt.Sprintf("%s: no field for attribute %v", path, name)
		}
		j.c.Observe("attribute fields", 1)
		r := x.Type
		if x.XML {
			r = schemagen.B(xsd.XMLLang)
		}
		if d := j.ref(r, f.Type(), path+"."+f.Name()); d != "" {
			return d
		}
	}
	if w := v.wildcard; w != nil {
		f := take("any ")
		if f == nil {
			return path + ": no field for the wildcard"
		}
		j.c.Observe("wildcard fields", 1)
	}
	if v.text != nil {
		f := take("text ")
		if f == nil {
			return path + ": no field for character data"
		}
		j.c.Observe("text fields", 1)
		if d := j.ref(*v.text, f.Type(), path+"."+f.Name()); d != "" {
			return d
		}
	} else if schemagen.IsMixed(t) {
		take("text ")
	}
	for key, f := range fields {
		return fmt.Sprintf("%s: field %s for %s, which the type does not have", path, f.Name(), key)
	}
	return ""
}

// declared compares the declaration for a named type.
func (j *typeJudge) declared(t *schemagen.Type) string {
	name := j.goName(t)
	path := fmt.Sprintf("{%s}%s", t.NS.URI, t.Local)
	obj, _ := j.pkg.Scope().Lookup(name).(*types.TypeName)
	if t.Simple {
		if obj == nil {
			// Types that are equal to a Go type need no declaration.
			_, list, union := schemagen.Primitive(schemagen.Ref{Type: t})
			if list || t.Union || isWorthy(t) && !union {
				return fmt.Sprintf("%s: there is no type %s", path, name)
			}
			return ""
		}
		j.c.Observe("simple types compared", 1)
		if d := j.simple(schemagen.Ref{Type: t}, obj.Type()); d != "" {
			return path + ": " + d
		}
		if d := j.documented(t, name); d != "" {
			return path + ": " + d
		}
		return ""
	}
	if obj == nil {
		v := viewOf(t)
		j.drop(t, &v)
		if v.text != nil && len(v.attrs) == 0 {
			return ""
		}
		return fmt.Sprintf("%s: there is no type %s", path, name)
	}
	n, ok := obj.Type().(*types.Named)
	if !ok {
		return fmt.Sprintf("%s: %v", path, obj)
	}
	return j.named(t, n, path)
}

// isWorthy tells if a restriction is documented on a type of its own.
func isWorthy(t *schemagen.Type) bool {
	_, restricted := schemagen.Describe(t)
	return restricted
}

func newJudge(c *core.Case, pkg *types.Package, o *optSet) *typeJudge {
	return &typeJudge{c: c, pkg: pkg, nameOf: o.config().NameOf, slices: o.slices, seen: map[*schemagen.Type]bool{}, drop: func(*schemagen.Type, *fieldView) {}}
}

func runG02(c *core.Case) {
	cfg := genConfig(c)
	cfg.Mixed = c.Pct(25)
	cfg.PlainNames = c.Pct(20)
	clash(c, &cfg)
	m, _, docs := randomSchema(c, cfg, anyLayout(c))
	o := baseOptions(c, cfg.PlainNames)
	selected := m.NS
	if len(m.NS) > 1 && c.Pct(40) {
		perm := c.Perm(len(m.NS))[:1+c.Intn(len(m.NS)-1)]
		selected = nil
		var uris []string
		for _, i := range perm {
			selected = append(selected, m.NS[i])
			uris = append(uris, m.NS[i].URI)
		}
		o.add(fmt.Sprintf("Namespaces %q", uris), xsdgen.Namespaces(uris...))
		c.Observe("namespaces left out", len(m.NS)-len(selected))
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := writeDocs(c, dir, docs)
	in := "options: " + o.String() + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	src, err := o.config().GenSource(files...)
	c.Eval(1)
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return
	}
	in += "\n\n" + string(src)
	pkg, file, err := typeCheck(c, src)
	if err != nil {
		c.Violate(in, "the generated code does not compile: %v", err)
		return
	}
	c.Distinct(schemagen.Shape(m))
	c.Sample("%s", in)
	j := newJudge(c, pkg, o)
	if o.fieldNames && len(selected) == len(m.NS) {
		j.field = fieldNames(m, j.nameOf)
	}
	j.docs = map[string]string{}
	for _, d := range file.Decls {
		if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.TYPE {
			for _, s := range d.Specs {
				j.docs[s.(*ast.TypeSpec).Name.Name] = d.Doc.Text()
			}
		}
	}
	for _, ns := range selected {
		for _, t := range ns.Types {
			if d := j.declared(t); d != "" {
				c.Violate(in, "%s", d)
				return
			}
		}
	}
	// Everything that is exported is a type.
	for _, n := range pkg.Scope().Names() {
		if obj := pkg.Scope().Lookup(n); obj.Exported() {
			if _, ok := obj.(*types.TypeName); !ok {
				c.Violate(in, "unexpected declaration %v", obj)
				return
			}
			c.Observe("exported types", 1)
		}
	}
}
