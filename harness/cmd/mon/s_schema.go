package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
)

func init() {
	register(&core.Prop{
		ID: "S01", Quick: 9000, Thorough: 90000, Run: runS01,
		Rule: "random schema sets (several namespaces, references, groups, anonymous types, recursion): every type reachable from the parsed schemas is a built-in or filed under its own name in one of them, every chain of bases ends, FindType is compared with the declared types and their bases for all names of the model; non-trivial: at least one derivation from a declared type",
		Need: map[string]int{"types reached": 10000, "lookups": 20000, "aliases": 200},
	})
	register(&core.Prop{
		ID: "S02", Quick: 10000, Thorough: 100000, Run: runS02,
		Rule: "random schema models rendered as documents; every parsed type is compared (as a graph, anonymous types by structure) with what the model predicts for names, bases, elements, attributes, occurrence, defaults, documentation, wildcards, mixed content, unions, lists and facets; non-trivial: at least one complex type with elements",
		Need: map[string]int{"types compared": 15000, "elements": 10000, "attributes": 5000, "anonymous types": 2000, "facets": 1000, "plural elements": 1000},
		Known: map[string]func() (string, bool){
			"foreign-element": func() (string, bool) {
				s, err := xsd.Parse([]byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:o="urn:o" targetNamespace="urn:t" elementFormDefault="qualified"><complexType name="C"><sequence><element name="e" type="o:T"/></sequence></complexType></schema>`),
					[]byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:o"><simpleType name="T"><restriction base="string"/></simpleType></schema>`))
				if err != nil {
					return err.Error(), false
				}
				c, _ := s[0].Types[xml.Name{Space: "urn:t", Local: "C"}].(*xsd.ComplexType)
				return "a local element of a named type of another namespace is reported in the namespace of its type", c != nil && len(c.Elements) == 1 && c.Elements[0].Name.Space == "urn:o"
			},
			"default-namespace": func() (string, bool) {
				s, err := xsd.Parse([]byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="urn:d"><xs:simpleType name="T"><xs:restriction base="xs:string"/></xs:simpleType></xs:schema>`))
				if err != nil {
					return err.Error(), false
				}
				return "names declared in a schema without a target namespace are reported in the default namespace of the document, if it has one", s[0].Types[xml.Name{Space: "urn:d", Local: "T"}] != nil
			},
			"qualified-attribute": func() (string, bool) {
				s, err := xsd.Parse([]byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t"><attribute name="a" type="string"/><complexType name="C"><attribute ref="t:a"/></complexType></schema>`))
				if err != nil {
					return err.Error(), false
				}
				c, _ := s[0].Types[xml.Name{Space: "urn:t", Local: "C"}].(*xsd.ComplexType)
				if c == nil || len(c.Attributes) != 1 {
					return "", false
				}
				for _, a := range c.Attributes[0].Attr {
					if a.Name.Local == "form" {
						return "", false
					}
				}
				return "a reference to a global attribute of the same namespace is not told apart from an unqualified attribute", true
			},
		},
	})
	register(&core.Prop{
		ID: "S03", Quick: 6000, Thorough: 60000, Run: runS03,
		Rule: "random schema models and the same models with a random part of their references, groups, attribute groups and anonymous types written out, and shorthand toggled; both parsed, all types compared as graphs; non-trivial: at least one reference or anonymous type was written out",
		Need: map[string]int{"element references": 500, "groups": 500, "attribute groups": 300, "attribute references": 200, "anonymous types": 1000, "shorthand": 1000},
	})
	register(&core.Prop{
		ID: "S04", Quick: 2400, Thorough: 30000, Run: runS04,
		Rule: "one model rendered in several layouts (order of declarations and documents, one namespace spread over several schemas, embedding, noise); schemas returned are compared with the schema elements of the documents in number, order and declared names, all types with those of the first layout, the caller's slice (spare capacity included) and bytes with copies, and a second parse with the first; non-trivial: a namespace is spread over several schemas",
		Need: map[string]int{"layouts": 4000, "split namespaces": 500, "embedded documents": 500},
	})
}

var standardSchemas = func() int {
	t, err := xsd.Normalize()
	if err != nil {
		panic(err)
	}
	return len(t)
}()

func anyLayout(c *core.Case) schemagen.Layout {
	return schemagen.Layout{Reorder: c.Pct(80), Split: c.Pct(40), Embed: c.Pct(40), Noise: c.Pct(70), Imports: c.Pct(50)}
}

func joinDocuments(docs [][]byte) string {
	return string(bytes.Join(docs, []byte("\n<!-- next document -->\n")))
}

// matchSchemas compares parsed schemas with the model they were rendered from.
// count is called with what was seen.
func matchSchemas(m *schemagen.Model, r *schemagen.Renderer, schemas []xsd.Schema, count func(string, int)) string {
	if want := len(r.Parts) + standardSchemas + 1; len(schemas) != want {
		return fmt.Sprintf("%d schemas, want %d", len(schemas), want)
	}
	names := schemagen.ModelNames(m)
	anonymous := map[xml.Name]bool{}
	for i, part := range r.Parts {
		s := schemas[i]
		if s.TargetNS != part.NS.URI {
			return fmt.Sprintf("schema %d has target namespace %q, want %q", i, s.TargetNS, part.NS.URI)
		}
		if want := strings.Join(trimAll(part.Doc), "\n\n"); s.Doc != want {
			return fmt.Sprintf("schema %d has documentation %q, want %q", i, s.Doc, want)
		}
		expected := map[xml.Name]bool{}
		self := xml.Name{Space: part.NS.URI, Local: "_self"}
		expected[self] = true
		for _, t := range part.Types {
			name := xml.Name{Space: part.NS.URI, Local: t.Local}
			expected[name] = true
			got := s.Types[name]
			if got == nil {
				return fmt.Sprintf("type %v is missing from schema %d", name, i)
			}
			if xsd.XMLName(got) != name {
				return fmt.Sprintf("type %v is filed as %v", xsd.XMLName(got), name)
			}
			if d := schemagen.Diff(schemagen.ModelView(t), names.View(got)); d != "" {
				return fmt.Sprintf("type %v: %s", name, d)
			}
			count("types compared", 1)
			switch t := got.(type) {
			case *xsd.SimpleType:
				if t.Anonymous {
					return fmt.Sprintf("type %v is flagged as anonymous", name)
				}
				if len(t.Restriction.Enum) > 0 || t.Restriction.Min != 0 || t.Restriction.Max != 0 || t.Restriction.MaxLength != 0 || !t.Restriction.MinDate.IsZero() || t.Restriction.Pattern != nil {
					count("facets", 1)
				}
			case *xsd.ComplexType:
				if t.Anonymous {
					return fmt.Sprintf("type %v is flagged as anonymous", name)
				}
				count("elements", len(t.Elements))
				count("attributes", len(t.Attributes))
				for _, e := range t.Elements {
					if e.Plural {
						count("plural elements", 1)
					}
				}
			}
		}
		if s.Types[self] == nil {
			return fmt.Sprintf("schema %d has no _self type", i)
		}
		if d := schemagen.Diff(schemagen.SelfView(part), names.View(s.Types[self])); d != "" {
			return fmt.Sprintf("top-level elements of schema %d: %s", i, d)
		}
		// Anonymous types are filed under names of their own; other
		// top-level elements as aliases of their type.
		want := 0
		for _, comp := range part.Comps {
			want += schemagen.Anonymous(comp)
		}
		elems := map[xml.Name]xsd.Type{}
		for _, e := range s.Types[self].(*xsd.ComplexType).Elements {
			name := e.Name
			name.Space = part.NS.URI // see the known findings
			elems[name] = e.Type
		}
		n := 0
		for key, t := range s.Types {
			if expected[key] {
				continue
			}
			if xsd.XMLName(t) == key {
				if et, ok := elems[key]; ok && et == t && names[key] {
					count("aliases", 1)
					continue
				}
				if anonymous[key] || names[key] {
					return fmt.Sprintf("the name %v of an anonymous type is used twice", key)
				}
				anonymous[key] = true
				n++
				if key.Space != part.NS.URI {
					return fmt.Sprintf("anonymous type %v in schema %q", key, part.NS.URI)
				}
				flagged := false
				switch t := t.(type) {
				case *xsd.SimpleType:
					flagged = t.Anonymous
				case *xsd.ComplexType:
					flagged = t.Anonymous
				}
				if generated := strings.HasPrefix(key.Local, "_anon"); generated != flagged {
					return fmt.Sprintf("anonymous type %v: flag is %v", key, flagged)
				}
				if !flagged && !declared(part, key.Local) {
					return fmt.Sprintf("anonymous type %v is not named after an element or attribute", key)
				}
				continue
			}
			if et, ok := elems[key]; !ok || et != t {
				return fmt.Sprintf("%v is neither a declared type nor an alias of a top-level element", key)
			}
			count("aliases", 1)
		}
		if n != want {
			return fmt.Sprintf("schema %d has %d anonymous types, want %d", i, n, want)
		}
		count("anonymous types", n)
		for name := range elems {
			if s.Types[name] == nil {
				return fmt.Sprintf("there is no type for the top-level element %v", name)
			}
		}
	}
	return ""
}

func trimAll(l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, strings.TrimSpace(s))
	}
	return out
}

// declared tells if an element or attribute of the name is declared in a part.
func declared(p *schemagen.Part, local string) bool {
	return strings.Contains(schemagen.DeclaredNames(p), "\x00"+local+"\x00")
}

func runS02(c *core.Case) {
	m, r, docs := randomSchema(c, schemagen.Config{ForeignTypes: c.Pct(30)}, anyLayout(c))
	schemas, err := xsd.Parse(docs...)
	if err != nil {
		c.Violate(joinDocuments(docs), "valid schema rejected: %v", err)
		return
	}
	nontrivial := 0
	d := matchSchemas(m, r, schemas, func(k string, n int) {
		c.Observe(k, n)
		if k == "types compared" {
			c.Eval(n)
		}
		if k == "elements" {
			nontrivial += n
		}
	})
	if d != "" {
		c.Violate(joinDocuments(docs), "%s", d)
		return
	}
	if nontrivial > 0 {
		c.Distinct(schemagen.Shape(m))
	}
	c.Sample("%s", docs[0])
}

func randomSchema(c *core.Case, cfg schemagen.Config, l schemagen.Layout) (*schemagen.Model, *schemagen.Renderer, [][]byte) {
	m := schemagen.New(c.Rand, cfg).Model()
	r := &schemagen.Renderer{Rand: c.Rand, Layout: l}
	docs := r.Render(m)
	c.Ctx("%s", joinDocuments(docs))
	return m, r, docs
}

// walkTypes visits every type that can be reached from the schemas.
func walkTypes(schemas []xsd.Schema, visit func(t xsd.Type, path string) string) string {
	seen := map[xsd.Type]bool{}
	type item struct {
		t    xsd.Type
		path string
	}
	var todo []item
	push := func(t xsd.Type, path string) {
		if t == nil || !seen[t] {
			if t != nil {
				seen[t] = true
			}
			todo = append(todo, item{t, path})
		}
	}
	for _, s := range schemas {
		for name, t := range s.Types {
			push(t, fmt.Sprint(name))
		}
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if d := visit(it.t, it.path); d != "" {
			return it.path + ": " + d
		}
		switch t := it.t.(type) {
		case *xsd.SimpleType:
			push(t.Base, it.path+" base")
			for _, u := range t.Union {
				push(u, it.path+" member")
			}
		case *xsd.ComplexType:
			push(t.Base, it.path+" base")
			for _, e := range t.Elements {
				push(e.Type, it.path+" element "+e.Name.Local)
			}
			for _, a := range t.Attributes {
				push(a.Type, it.path+" attribute "+a.Name.Local)
			}
		}
	}
	return ""
}

// closedGraph checks the structure of parsed schemas, whatever they were parsed
// from.
func closedGraph(schemas []xsd.Schema, count func(string, int)) string {
	filed := map[xsd.Type]bool{}
	for i, s := range schemas {
		for name, t := range s.Types {
			if xsd.XMLName(t) == name {
				filed[t] = true
				continue
			}
			// Known finding: without a target namespace, names are taken
			// from the default namespace.
			if s.TargetNS == "" && name.Local == "_self" {
				filed[t] = true
				continue
			}
			// An alias of a top-level element.
			count("aliases", 1)
			self, ok := s.Types[xml.Name{Space: s.TargetNS, Local: "_self"}].(*xsd.ComplexType)
			if !ok {
				return fmt.Sprintf("schema %d: type %v is filed as %v", i, xsd.XMLName(t), name)
			}
			found := false
			for _, e := range self.Elements {
				found = found || e.Name.Local == name.Local && e.Type == t
			}
			if !found {
				return fmt.Sprintf("schema %d: type %v is filed as %v", i, xsd.XMLName(t), name)
			}
		}
	}
	return walkTypes(schemas, func(t xsd.Type, path string) string {
		count("types reached", 1)
		switch t := t.(type) {
		case nil:
			return "type is nil"
		case xsd.Builtin:
			if b, err := xsd.ParseBuiltin(t.Name()); err != nil || b != t {
				return fmt.Sprintf("built-in %d is not known by its name %v", int(t), t.Name())
			}
			return ""
		case *xsd.SimpleType, *xsd.ComplexType:
			if !filed[t] {
				return fmt.Sprintf("type %v is not declared by any schema under that name", xsd.XMLName(t))
			}
		default:
			return fmt.Sprintf("type is a %T", t)
		}
		seen := map[xsd.Type]bool{}
		for b := t; ; {
			if seen[b] {
				return "circular derivation"
			}
			seen[b] = true
			next := xsd.Base(b)
			if next == nil {
				if _, ok := b.(xsd.Builtin); !ok {
					return fmt.Sprintf("chain of bases ends in %T", b)
				}
				break
			}
			b = next
		}
		return ""
	})
}

func runS01(c *core.Case) {
	m, r, docs := randomSchema(c, schemagen.Config{ForeignTypes: true, Types: 10}, anyLayout(c))
	schemas, err := xsd.Parse(docs...)
	if err != nil {
		c.Violate(joinDocuments(docs), "valid schema rejected: %v", err)
		return
	}
	if d := closedGraph(schemas, c.Observe); d != "" {
		c.Violate(joinDocuments(docs), "%s", d)
		return
	}
	// Lookup: declared types, and the types they are derived from.
	derived := false
	var all []xml.Name
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			all = append(all, xml.Name{Space: ns.URI, Local: t.Local})
			derived = derived || t.Base.Type != nil
		}
		all = append(all, xml.Name{Space: ns.URI, Local: "no such type"}, xml.Name{Space: "urn:none", Local: ns.Types[0].Local})
	}
	for _, b := range []xsd.Builtin{xsd.String, xsd.AnyType, xsd.AnySimpleType, xsd.Int, xsd.UnsignedShort, xsd.NMTOKENS} {
		all = append(all, b.Name())
	}
	for i := range r.Parts {
		s := &schemas[i]
		want := map[xml.Name]xsd.Type{}
		for _, t := range s.Types {
			for b := t; b != nil; b = xsd.Base(b) {
				want[xsd.XMLName(b)] = b
			}
		}
		for _, name := range all {
			got := s.FindType(name)
			c.Observe("lookups", 1)
			c.Eval(1)
			if got != want[name] {
				c.Violate(joinDocuments(docs), "FindType(%v) in schema %d is %v, want %v", name, i, got, want[name])
				return
			}
		}
		for name, t := range want {
			if got := s.FindType(name); got != t {
				c.Violate(joinDocuments(docs), "FindType(%v) in schema %d is %v, want %v", name, i, got, t)
				return
			}
			c.Observe("lookups", 1)
		}
	}
	if derived {
		c.Distinct(schemagen.Shape(m))
	}
}

func runS03(c *core.Case) {
	cfg := schemagen.Config{}
	m := schemagen.New(c.Rand, cfg).Model()
	r1 := &schemagen.Renderer{Rand: c.Rand, Layout: anyLayout(c)}
	docs1 := r1.Render(m)
	c.Ctx("%s", joinDocuments(docs1))
	s1, err := xsd.Parse(docs1...)
	if err != nil {
		c.Violate(joinDocuments(docs1), "valid schema rejected: %v", err)
		return
	}
	e, n := schemagen.Expand(c.Rand, m, []int{20, 60, 100}[c.Intn(3)])
	r2 := &schemagen.Renderer{Rand: c.Rand, Layout: anyLayout(c)}
	docs2 := r2.Render(e)
	input := joinDocuments(docs1) + "\n<!-- written out -->\n" + joinDocuments(docs2)
	c.Ctx("%s", input)
	s2, err := xsd.Parse(docs2...)
	if err != nil {
		c.Violate(input, "written out schema rejected: %v", err)
		return
	}
	names := schemagen.ModelNames(m)
	if d := sameTypes(names, s1[:len(r1.Parts)], s2[:len(r2.Parts)]); d != "" {
		c.Violate(input, "%s", d)
		return
	}
	c.Observe("element references", n.Elems)
	c.Observe("attribute references", n.Attrs)
	c.Observe("groups", n.Groups)
	c.Observe("attribute groups", n.AttrGroups)
	c.Observe("anonymous types", n.Anonymous)
	c.Observe("shorthand", n.Shorthand)
	c.Eval(len(names))
	if n != (schemagen.Counts{}) {
		c.Distinct(fmt.Sprint(n, schemagen.Shape(m)))
	}
}

// typesByName collects the named types of schemas, and the top-level elements
// of each namespace as one type.
func typesByName(names schemagen.Names, schemas []xsd.Schema) (map[xml.Name]xsd.Type, string) {
	all := map[xml.Name]xsd.Type{}
	for _, s := range schemas {
		for key, t := range s.Types {
			if !names[key] || xsd.XMLName(t) != key {
				continue
			}
			if all[key] != nil && all[key] != t {
				return nil, fmt.Sprintf("type %v is declared by two schemas", key)
			}
			all[key] = t
		}
		self := xml.Name{Space: s.TargetNS, Local: "_self"}
		st, ok := s.Types[self].(*xsd.ComplexType)
		if !ok {
			return nil, fmt.Sprintf("no _self in schema %q", s.TargetNS)
		}
		sum, _ := all[self].(*xsd.ComplexType)
		if sum == nil {
			sum = &xsd.ComplexType{Base: st.Base, Name: self}
			all[self] = sum
		}
		sum.Elements = append(sum.Elements, st.Elements...)
	}
	for _, t := range all {
		if c, ok := t.(*xsd.ComplexType); ok && c.Name.Local == "_self" {
			sort.Slice(c.Elements, func(i, j int) bool { return c.Elements[i].Name.Local < c.Elements[j].Name.Local })
		}
	}
	return all, ""
}

func sameTypes(names schemagen.Names, a, b []xsd.Schema) string {
	ta, d := typesByName(names, a)
	if d != "" {
		return d
	}
	tb, d := typesByName(names, b)
	if d != "" {
		return d
	}
	var keys []xml.Name
	for k := range ta {
		keys = append(keys, k)
	}
	for k := range tb {
		if ta[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if ta[k] == nil || tb[k] == nil {
			return fmt.Sprintf("type %v is in one result only", k)
		}
		if d := schemagen.Diff(names.View(ta[k]), names.View(tb[k])); d != "" {
			return fmt.Sprintf("type %v: %s", k, d)
		}
	}
	return ""
}

func runS04(c *core.Case) {
	m := schemagen.New(c.Rand, schemagen.Config{ForeignTypes: c.Pct(30)}).Model()
	names := schemagen.ModelNames(m)
	var first []xsd.Schema
	var firstDocs [][]byte
	for k := 0; k < 4; k++ {
		l := schemagen.Layout{Reorder: true, Split: true, Embed: true, Noise: true, Imports: c.Pct(50)}
		if k == 0 {
			l = schemagen.Layout{}
		}
		r := &schemagen.Renderer{Rand: c.Rand, Layout: l}
		docs := r.Render(m)
		c.Ctx("%s", joinDocuments(docs))
		// A list with spare capacity that belongs to someone else.
		spare := make([][]byte, len(docs), len(docs)+8)
		copy(spare, docs)
		full := spare[:cap(spare)]
		for i := len(docs); i < len(full); i++ {
			full[i] = []byte(fmt.Sprint("mine ", i))
		}
		before := make([][]byte, len(full))
		for i, d := range full {
			before[i] = append([]byte{}, d...)
		}
		schemas, err := xsd.Parse(spare...)
		if err != nil {
			c.Violate(joinDocuments(docs), "valid schema rejected: %v", err)
			return
		}
		for i, d := range full {
			if !bytes.Equal(d, before[i]) {
				c.Violate(joinDocuments(docs), "parsing changed entry %d of the caller's list of %d documents to %.200q", i, len(docs), d)
				return
			}
		}
		if want := len(r.Parts) + standardSchemas + 1; len(schemas) != want {
			c.Violate(joinDocuments(docs), "%d schemas, want %d", len(schemas), want)
			return
		}
		uris := map[string]int{}
		for i, p := range r.Parts {
			uris[p.NS.URI]++
			if schemas[i].TargetNS != p.NS.URI {
				c.Violate(joinDocuments(docs), "schema %d is that of %q, want %q", i, schemas[i].TargetNS, p.NS.URI)
				return
			}
			for name := range p.Names {
				q := xml.Name{Space: p.NS.URI, Local: name}
				if t := schemas[i].Types[q]; t == nil || xsd.XMLName(t) != q {
					c.Violate(joinDocuments(docs), "type %v is missing from schema %d, which declares it", q, i)
					return
				}
			}
			for name, t := range schemas[i].Types {
				alias := false
				for _, e := range p.Elems {
					alias = alias || e.Local == name.Local
				}
				if names[name] && xsd.XMLName(t) == name && !p.Names[name.Local] && !alias {
					c.Violate(joinDocuments(docs), "type %v is in schema %d, which does not declare it", name, i)
					return
				}
			}
		}
		std := schemas[len(r.Parts):]
		for _, s := range std {
			for name := range s.Types {
				if names[name] {
					c.Violate(joinDocuments(docs), "type %v is in a standard schema", name)
					return
				}
			}
		}
		mine := schemas[:len(r.Parts)]
		c.Observe("layouts", 1)
		c.Eval(1)
		for _, d := range r.Docs {
			if len(d) > 1 {
				c.Observe("embedded documents", 1)
			}
		}
		for _, n := range uris {
			if n > 1 {
				c.Observe("split namespaces", 1)
				c.Distinct(schemagen.Shape(m))
			}
		}
		again, err := xsd.Parse(docs...)
		if err != nil {
			c.Violate(joinDocuments(docs), "second parse fails: %v", err)
			return
		}
		if d := sameTypes(names, mine, again[:len(r.Parts)]); d != "" {
			c.Violate(joinDocuments(docs), "second parse: %s", d)
			return
		}
		if first == nil {
			first, firstDocs = mine, docs
			continue
		}
		if d := sameTypes(names, first, mine); d != "" {
			c.Violate(joinDocuments(firstDocs)+"\n<!-- other layout -->\n"+joinDocuments(docs), "%s", d)
			return
		}
	}
}
