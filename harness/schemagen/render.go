package schemagen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"aqwari.net/xml/xsd"
)

func sortStrings(s []string) { sort.Strings(s) }

// Layout selects how a model is spread over documents. None of it changes what
// the model means.
type Layout struct {
	Reorder bool // the order of components
	Split   bool // a namespace may be spread over several schemas
	Embed   bool // several schemas in one document
	Noise   bool // comments, foreign attributes, white space
	Imports bool // import and include elements
}

// A Part is one schema element.
type Part struct {
	NS    *Namespace
	comps []*node
	Names map[string]bool // declared types
	Types []*Type
	Elems []*Elem
	Comps []interface{} // *Type, *Elem, *Attr, *Group or *AttrGroup, in order
	Doc   []string
}

type node struct {
	local  string
	attrs  []nattr
	kids   []*node
	text   string
	extra  string // raw, before the children
	after  string // raw, after the element
	origin interface{}
}

type nattr struct {
	name, value string
	qnames      []xml.Name // instead of value
}

func (n *node) attr(name, value string) { n.attrs = append(n.attrs, nattr{name: name, value: value}) }
func (n *node) qattr(name string, q ...xml.Name) {
	n.attrs = append(n.attrs, nattr{name: name, qnames: q})
}
func (n *node) add(k ...*node) { n.kids = append(n.kids, k...) }

// A Renderer writes models as schema documents.
type Renderer struct {
	*rand.Rand
	Layout
	Parts []*Part
	// Parts per document, after Render
	Docs [][]*Part
	// Fault selects what to break; Faulted tells what was broken.
	Fault   string
	Faulted string
}

func (r *Renderer) pct(p int) bool { return r.Intn(100) < p }

func (r *Renderer) typeName(ref Ref) xml.Name {
	if ref.Type == nil {
		return ref.Builtin.Name()
	}
	return xml.Name{Space: ref.Type.NS.URI, Local: ref.Type.Local}
}

func (r *Renderer) annotation(n *node, docs []string) {
	if len(docs) == 0 {
		if r.Noise && r.pct(5) {
			a := &node{local: "annotation"}
			a.add(&node{local: "appinfo", extra: `<n:x xmlns:n="urn:note"><n:y/>t</n:x>`})
			n.add(a)
		}
		return
	}
	a := &node{local: "annotation"}
	for _, d := range docs {
		if r.Noise && r.pct(20) {
			a.add(&node{local: "appinfo", text: "info"})
		}
		a.add(&node{local: "documentation", text: d})
	}
	n.add(a)
}

// ignored adds documentation that is not reported.
func (r *Renderer) ignored(n *node) {
	if r.Noise && r.pct(3) {
		r.annotation(n, []string{"Not reported."})
	}
}

// typeAttr writes a reference to a type as an attribute, or the type itself as a
// child.
func (r *Renderer) typeAttr(n *node, attr string, ref Ref) {
	if ref.Type != nil && ref.Type.Local == "" {
		n.add(r.typeNode(ref.Type))
		return
	}
	n.qattr(attr, r.typeName(ref))
}

func (r *Renderer) boolAttr(n *node, name string, v bool) {
	switch {
	case v:
		n.attr(name, []string{"true", "1"}[r.Intn(2)])
	case r.pct(10):
		n.attr(name, []string{"false", "0"}[r.Intn(2)])
	}
}

func (r *Renderer) typeNode(t *Type) *node {
	n := &node{origin: t}
	if t.Simple {
		n.local = "simpleType"
	} else {
		n.local = "complexType"
	}
	if t.Local != "" {
		n.attr("name", t.Local)
	}
	r.annotation(n, t.Doc)
	if t.Simple {
		n.add(r.simpleContent(t))
		return n
	}
	r.boolAttr(n, "abstract", t.Abstract)
	if t.MixedContent {
		// What the content element says takes precedence.
		r.boolAttr(n, "mixed", r.pct(50))
	} else {
		r.boolAttr(n, "mixed", t.Mixed)
	}
	if t.Shorthand {
		r.body(n, t)
		return n
	}
	c := &node{local: "complexContent"}
	if t.SimpleContent {
		c.local = "simpleContent"
	} else if t.MixedContent {
		c.attr("mixed", fmt.Sprint(t.Mixed))
	}
	r.annotation(c, t.ContentDoc)
	d := &node{local: "restriction", origin: t}
	if t.Extends {
		d.local = "extension"
	}
	r.ignored(d)
	d.qattr("base", r.typeName(t.Base))
	r.body(d, t)
	c.add(d)
	n.add(c)
	return n
}

func (r *Renderer) simpleContent(t *Type) *node {
	switch {
	case t.List:
		n := &node{local: "list", origin: t}
		r.ignored(n)
		r.typeAttr(n, "itemType", t.Base)
		return n
	case t.Union:
		n := &node{local: "union", origin: t}
		r.ignored(n)
		var names []xml.Name
		for _, m := range t.Members {
			if m.Type == nil || m.Type.Local != "" {
				names = append(names, r.typeName(m))
			}
		}
		if len(names) > 0 {
			n.qattr("memberTypes", names...)
		}
		for _, m := range t.Members {
			if m.Type != nil && m.Type.Local == "" {
				n.add(r.typeNode(m.Type))
			}
		}
		return n
	}
	n := &node{local: "restriction", origin: t}
	r.annotation(n, t.FacetDoc)
	r.typeAttr(n, "base", t.Base)
	for _, f := range t.Facets {
		k := &node{local: f.Name, origin: f}
		k.attr("value", f.Value)
		r.ignored(k)
		n.add(k)
	}
	return n
}

func (r *Renderer) body(n *node, t *Type) {
	if t.Content != nil {
		n.add(r.particle(t.Content))
	}
	for _, it := range t.Attrs {
		n.add(r.attrItem(it))
	}
}

func (r *Renderer) occurs(n *node, p *Particle) {
	if p.Min != 1 || r.pct(10) {
		n.attr("minOccurs", fmt.Sprint(p.Min))
	}
	switch {
	case p.Max < 0:
		n.attr("maxOccurs", "unbounded")
	case p.Max != 1 || r.pct(10):
		n.attr("maxOccurs", fmt.Sprint(p.Max))
	}
}

func (r *Renderer) particle(p *Particle) *node {
	n := &node{origin: p}
	switch p.Kind {
	case Sequence, Choice, All:
		n.local = []string{"sequence", "choice", "all"}[p.Kind]
		r.ignored(n)
		for _, q := range p.Parts {
			n.add(r.particle(q))
		}
	case Any:
		n.local = "any"
		r.ignored(n)
		if r.pct(50) {
			n.attr("processContents", "lax")
		}
	case GroupRef:
		n.local = "group"
		r.ignored(n)
		n.qattr("ref", xml.Name{Space: p.Group.NS.URI, Local: p.Group.Local})
	case Element:
		n = r.elem(p.Elem)
		n.origin = p
	}
	r.occurs(n, p)
	return n
}

func (r *Renderer) elem(e *Elem) *node {
	n := &node{local: "element", origin: e}
	if e.Ref != nil {
		n.qattr("ref", xml.Name{Space: e.Ref.NS.URI, Local: e.Ref.Local})
		if e.SetDefault {
			n.attr("default", e.Default)
		}
		if e.SetNillable {
			n.attr("nillable", fmt.Sprint(e.Nillable))
		}
		return n
	}
	n.attr("name", e.Local)
	r.annotation(n, e.Doc)
	if !e.NoType {
		r.typeAttr(n, "type", e.Type)
	}
	if e.Default != "" {
		n.attr("default", e.Default)
	}
	r.boolAttr(n, "nillable", e.Nillable)
	r.boolAttr(n, "abstract", e.Abstract)
	return n
}

func (r *Renderer) attrItem(it AttrItem) *node {
	if it.Group != nil {
		n := &node{local: "attributeGroup", origin: it}
		r.ignored(n)
		n.qattr("ref", xml.Name{Space: it.Group.NS.URI, Local: it.Group.Local})
		return n
	}
	return r.attribute(it.Attr)
}

func (r *Renderer) attribute(a *Attr) *node {
	n := &node{local: "attribute", origin: a}
	switch {
	case a.XML:
		n.qattr("ref", xml.Name{Space: XMLNS, Local: a.Local})
	case a.Ref != nil:
		n.qattr("ref", xml.Name{Space: a.Ref.NS.URI, Local: a.Ref.Local})
		if a.SetDefault {
			n.attr("default", a.Default)
		}
	default:
		n.attr("name", a.Local)
		r.annotation(n, a.Doc)
		if !a.NoType {
			r.typeAttr(n, "type", a.Type)
		}
		if a.Default != "" {
			n.attr("default", a.Default)
		}
		if a.Form != "" {
			n.attr("form", a.Form)
		}
	}
	if a.Use != "" {
		n.attr("use", a.Use)
	}
	return n
}

// components renders the components of a namespace.
func (r *Renderer) components(ns *Namespace) []*node {
	var all []*node
	for _, t := range ns.Types {
		all = append(all, r.typeNode(t))
	}
	for _, e := range ns.Elems {
		all = append(all, r.elem(e))
	}
	for _, a := range ns.Attrs {
		all = append(all, r.attribute(a))
	}
	for _, g := range ns.Groups {
		n := &node{local: "group", origin: g}
		n.attr("name", g.Local)
		r.ignored(n)
		// The content of a group has no occurrence.
		k := r.particle(g.Content)
		n.add(k)
		var attrs []nattr
		for _, a := range k.attrs {
			if a.name != "minOccurs" && a.name != "maxOccurs" {
				attrs = append(attrs, a)
			}
		}
		k.attrs = attrs
		all = append(all, n)
	}
	for _, g := range ns.AttrGroups {
		n := &node{local: "attributeGroup", origin: g}
		n.attr("name", g.Local)
		r.ignored(n)
		for _, it := range g.Items {
			n.add(r.attrItem(it))
		}
		all = append(all, n)
	}
	if r.Reorder {
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	}
	return all
}

// Render writes the documents of a model.
func (r *Renderer) Render(m *Model) [][]byte {
	r.Parts = nil
	for _, ns := range m.NS {
		comps := r.components(ns)
		k := 1
		if r.Split && r.pct(50) {
			k = 1 + r.Intn(3)
		}
		parts := make([]*Part, k)
		for i := range parts {
			parts[i] = &Part{NS: ns, Names: map[string]bool{}}
		}
		for _, c := range comps {
			p := parts[r.Intn(k)]
			p.comps = append(p.comps, c)
			p.Comps = append(p.Comps, c.origin)
			switch o := c.origin.(type) {
			case *Type:
				p.Names[o.Local] = true
				p.Types = append(p.Types, o)
			case *Elem:
				p.Elems = append(p.Elems, o)
			}
		}
		if len(ns.Doc) > 0 {
			a := &node{}
			r.annotation(a, ns.Doc)
			parts[0].comps = append(a.kids, parts[0].comps...)
			parts[0].Doc = ns.Doc
		}
		r.Parts = append(r.Parts, parts...)
	}
	if r.Reorder {
		r.Shuffle(len(r.Parts), func(i, j int) { r.Parts[i], r.Parts[j] = r.Parts[j], r.Parts[i] })
	}
	r.Faulted = ""
	if r.Fault != "" {
		r.Faulted = r.fault()
	}
	var docs [][]byte
	r.Docs = nil
	for i := 0; i < len(r.Parts); {
		k := 1
		wrap := false
		if r.Embed && r.pct(50) {
			wrap = true
			k = 1 + r.Intn(3)
			if i+k > len(r.Parts) {
				k = len(r.Parts) - i
			}
		}
		group := r.Parts[i : i+k]
		i += k
		r.Docs = append(r.Docs, group)
		docs = append(docs, r.document(group, wrap, m))
	}
	return docs
}

func escape(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

type env map[string]string // prefix -> uri

func (r *Renderer) document(parts []*Part, wrap bool, m *Model) []byte {
	var b bytes.Buffer
	if r.pct(50) {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if r.Noise && r.pct(30) {
		b.WriteString("<!-- a schema -->\n")
	}
	outer := env{}
	if wrap {
		b.WriteString(`<w:types xmlns:w="urn:wrapper"`)
		if r.pct(50) {
			outer["xs"] = XS
			fmt.Fprintf(&b, ` xmlns:xs="%s"`, XS)
		}
		b.WriteString(">\n")
	}
	for _, p := range parts {
		r.schema(&b, p, outer, m)
	}
	if wrap {
		b.WriteString("</w:types>\n")
	}
	return b.Bytes()
}

func (r *Renderer) schema(b *bytes.Buffer, p *Part, outer env, m *Model) {
	e := env{}
	for k, v := range outer {
		e[k] = v
	}
	var decl []string
	declare := func(prefix, uri string) {
		if _, ok := e[prefix]; ok && e[prefix] == uri {
			return
		}
		e[prefix] = uri
		if prefix == "" {
			decl = append(decl, fmt.Sprintf(`xmlns="%s"`, escape(uri)))
		} else {
			decl = append(decl, fmt.Sprintf(`xmlns:%s="%s"`, prefix, escape(uri)))
		}
	}
	prefixes := []string{"tns", "t", "p", "q", "ns1", "a-b", "o"}
	perm := r.Perm(len(prefixes))
	k := 0
	next := func() string {
		if k++; k > len(perm) {
			return fmt.Sprint("more", k)
		}
		return prefixes[perm[k-1]]
	}
	noNS := p.NS.URI == ""
	xsp := []string{"", "xs", "xsd", "s"}[r.Intn(4)]
	if xsp == "" && noNS {
		xsp = "xs"
	}
	declare(xsp, XS)
	hasDefault := xsp == ""
	for _, ns := range m.NS {
		if ns.URI == "" {
			continue
		}
		switch {
		case ns == p.NS && !hasDefault && r.pct(40):
			hasDefault = true
			declare("", ns.URI)
			if r.pct(30) {
				declare(next(), ns.URI)
			}
		case ns != p.NS && !hasDefault && !noNS && r.pct(15):
			hasDefault = true
			declare("", ns.URI)
		case r.pct(85):
			declare(next(), ns.URI)
		}
	}
	r.Shuffle(len(decl), func(i, j int) { decl[i], decl[j] = decl[j], decl[i] })
	name := "schema"
	if xsp != "" {
		name = xsp + ":schema"
	}
	fmt.Fprintf(b, "<%s %s", name, strings.Join(decl, " "))
	if !noNS {
		fmt.Fprintf(b, ` targetNamespace="%s"`, escape(p.NS.URI))
	}
	b.WriteString(` elementFormDefault="qualified">` + "\n")
	if r.Imports {
		for _, ns := range m.NS {
			if ns != p.NS {
				w := &node{local: "import"}
				w.attr("namespace", ns.URI)
				r.write(b, w, e, 1)
			}
		}
	}
	for _, c := range p.comps {
		r.write(b, c, e, 1)
	}
	fmt.Fprintf(b, "</%s>\n", name)
}

func (r *Renderer) write(b *bytes.Buffer, n *node, outer env, depth int) {
	e := outer
	var decl []string
	declare := func(prefix, uri string) {
		if prefix == "" {
			return
		}
		ne := env{}
		for k, v := range e {
			ne[k] = v
		}
		ne[prefix] = uri
		e = ne
		decl = append(decl, fmt.Sprintf(` xmlns:%s="%s"`, prefix, escape(uri)))
	}
	var attrs []string
	for _, a := range n.attrs {
		v := a.value
		if a.qnames != nil {
			var vs []string
			for _, q := range a.qnames {
				vs = append(vs, r.qname(q, e, declare, depth))
				if r.Noise && r.pct(10) {
					vs[len(vs)-1] += " "
				}
			}
			v = strings.Join(vs, " ")
			if len(a.qnames) == 1 {
				v = strings.TrimSpace(v)
			}
		}
		attrs = append(attrs, fmt.Sprintf(` %s="%s"`, a.name, escape(v)))
	}
	if r.Noise {
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
		if r.pct(3) {
			attrs = append(attrs, ` n:hint="1" xmlns:n="urn:note"`)
		}
	}
	// The name, with one of the prefixes of the schema namespace.
	var ps []string
	for p, u := range e {
		if u == XS {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	name := n.local
	if p := ps[r.Intn(len(ps))]; p != "" {
		name = p + ":" + n.local
	}
	ind := strings.Repeat(" ", depth)
	b.WriteString(ind + "<" + name + strings.Join(decl, "") + strings.Join(attrs, ""))
	if n.text == "" && n.extra == "" && len(n.kids) == 0 && r.pct(80) {
		b.WriteString("/>\n")
		return
	}
	b.WriteString(">")
	b.WriteString(n.extra)
	if n.text != "" {
		b.WriteString(escape(n.text))
	} else {
		b.WriteString("\n")
		for _, k := range n.kids {
			if r.Noise && r.pct(4) {
				b.WriteString("<!-- <element ref='x'/> -->")
			}
			r.write(b, k, e, depth+1)
		}
		b.WriteString(ind)
	}
	b.WriteString("</" + name + ">\n")
}

func (r *Renderer) qname(q xml.Name, e env, declare func(string, string), depth int) string {
	if q.Space == XMLNS {
		return "xml:" + q.Local
	}
	if q.Space == "" {
		return q.Local
	}
	var ps []string
	for p, u := range e {
		if u == q.Space {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	if len(ps) == 0 || r.Noise && r.pct(4) {
		p := ""
		for i := 0; p == "" || e[p] != "" && i < 100; i++ {
			p = fmt.Sprintf("l%d", r.Intn(3+i))
		}
		declare(p, q.Space)
		ps = []string{p}
	}
	if p := ps[r.Intn(len(ps))]; p != "" {
		return p + ":" + q.Local
	}
	return q.Local
}

// Builtin is a shorthand.
type Builtin = xsd.Builtin
