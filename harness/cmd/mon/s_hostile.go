package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

func init() {
	register(&core.Prop{
		ID: "S05", Quick: 100000, Thorough: 1000000, Run: runS05,
		Rule: "random documents with 0 to 5 embedded schemas (at any depth) that hold imports, includes, look-alikes in other namespaces, comments and CDATA; result compared with the generator's list; non-trivial: at least one import or include is embedded below the root",
		Need: map[string]int{"imports": 5000, "includes": 5000, "look-alikes": 1000, "schemas": 5000},
	})
	register(&core.Prop{
		ID: "S06", Quick: 15000, Thorough: 200000, Run: runS06, CPU: 30,
		Rule: "rendered random schema models with one planted fault (dangling type or reference, malformed number or boolean, circular derivation or group) must be rejected; hostile structural edits and byte mutations must end in an error or in schemas that satisfy the structural guarantees of S01, and so must normalisation and lookups; non-trivial: the fault was planted, or the mutated input is well-formed",
		Need: map[string]int{"dangling type": 150, "dangling reference": 100, "bad number": 150, "bad boolean": 150, "circular derivation": 100, "circular group": 100, "hostile": 600, "hostile accepted": 50, "mutated": 400},
	})
	register(&core.Prop{
		ID: "S07", Quick: 5000, Thorough: 60000, Run: runS07,
		Rule: "random schema sets normalised; each returned tree is checked for leftover references, anonymous or nested types, duplicate type names, shorthand, and unresolvable type names, then serialised and parsed again and compared as graphs with the parse of the original; non-trivial: the set has a reference or an anonymous type",
		Need: map[string]int{"types": 10000, "declarations": 20000, "reparsed sets": 1000},
	})
}

func runS05(c *core.Case) {
	var want, includes []xsd.Ref
	embedded := false
	loc := func() (string, bool) {
		if c.Pct(20) {
			return "", false
		}
		return c.Pick("a.xsd", "../b.xsd", "http://example.org/x?a=1&b=2", "", "é ü.xsd", "c \"d\".xsd", "<e>"), true
	}
	attr := func(name, v string) string { return fmt.Sprintf(` %s="%s"`, name, escapeAttr(v)) }
	var b strings.Builder
	schema := func(depth int) {
		p := c.Pick("", "xs:", "s:")
		ns, has := c.Pick("urn:a", "urn:b", "http://example.org/?x&y", ""), c.Pct(85)
		decl := fmt.Sprintf(` xmlns%s="%s"`, strings.TrimSuffix(":"+strings.TrimSuffix(p, ":"), ":"), schemagen.XS)
		fmt.Fprintf(&b, "<%sschema%s", p, decl)
		if has {
			b.WriteString(attr("targetNamespace", ns))
		} else {
			ns = ""
		}
		b.WriteString(">")
		c.Observe("schemas", 1)
		k := c.Intn(6)
		if c.Intn(100) == 0 {
			k = 20 + c.Intn(200)
		}
		for ; k > 0; k-- {
			if c.Pct(40) {
				b.WriteString("\n  ")
			}
			l, ok := loc()
			switch c.Intn(9) {
			case 0, 1, 2:
				n, hasNS := c.Pick("urn:a", "urn:c", "x&y", ""), c.Pct(85)
				b.WriteString("<" + p + "import")
				as := []string{}
				if hasNS {
					as = append(as, attr("namespace", n))
				} else {
					n = ""
				}
				if ok {
					as = append(as, attr("schemaLocation", l))
				}
				c.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
				b.WriteString(strings.Join(as, "") + "/>")
				want = append(want, xsd.Ref{Namespace: n, Location: l})
				c.Observe("imports", 1)
				embedded = embedded || depth > 0
			case 3, 4, 5:
				b.WriteString("<" + p + "include")
				if ok {
					b.WriteString(attr("schemaLocation", l))
				}
				if c.Pct(10) {
					b.WriteString(attr("id", "i1"))
				}
				b.WriteString("></" + p + "include>")
				includes = append(includes, xsd.Ref{Namespace: ns, Location: l})
				c.Observe("includes", 1)
				embedded = embedded || depth > 0
			case 6:
				b.WriteString(`<w:import xmlns:w="http://schemas.xmlsoap.org/wsdl/" namespace="urn:no" location="no"/>`)
				c.Observe("look-alikes", 1)
			case 7:
				b.WriteString(c.Pick("<!-- <"+p+"import namespace='urn:no'/> -->", "<"+p+"annotation><"+p+"documentation><![CDATA[<include schemaLocation='no'/>]]></"+p+"documentation></"+p+"annotation>", "<"+p+"element name='import' type='"+p+"string'/>", "<import xmlns='' namespace='urn:no'/>"))
				c.Observe("look-alikes", 1)
			case 8:
				b.WriteString("<" + p + "redefine schemaLocation='other.xsd'/>")
			}
		}
		b.WriteString("</" + p + "schema>")
	}
	if c.Pct(40) {
		schema(0)
	} else {
		b.WriteString("<root>")
		depth := 1
		for k := c.Intn(5); k > 0; k-- {
			for c.Pct(40) {
				b.WriteString("<in>")
				depth++
			}
			schema(depth)
			for depth > 1 && c.Pct(50) {
				b.WriteString("</in>")
				depth--
			}
		}
		for ; depth > 1; depth-- {
			b.WriteString("</in>")
		}
		b.WriteString("</root>")
	}
	want = append(want, includes...)
	doc := []byte(b.String())
	c.Ctx("%s", doc)
	got, err := xsd.Imports(append([]byte{}, doc...))
	c.Eval(1)
	if err != nil {
		c.Violate(b.String(), "Imports fails: %v", err)
		return
	}
	if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
		c.Violate(b.String(), "Imports is %q, want %q", got, want)
		return
	}
	if embedded {
		c.Distinct(b.String())
	}
	// Malformed documents are reported.
	if len(doc) > 20 {
		cut := doc[:1+c.Intn(len(doc)-2)]
		if _, err := xsd.Imports(cut); err == nil {
			c.Violate(string(cut), "Imports accepts a truncated document")
		}
	}
}

func escapeAttr(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func runS06(c *core.Case) {
	m := schemagen.New(c.Rand, schemagen.Config{Types: 5, NoRepeats: c.Pct(50)}).Model()
	r := &schemagen.Renderer{Rand: c.Rand, Layout: schemagen.Layout{Reorder: c.Pct(50), Split: c.Pct(20), Embed: c.Pct(30)}}
	kind := c.Intn(10)
	switch {
	case kind < 6:
		r.Fault = schemagen.Faults[kind]
		if r.Fault == schemagen.DanglingType {
			// The type of a repeated declaration is not looked at.
			m = schemagen.New(c.Rand, schemagen.Config{Types: 5, NoRepeats: true}).Model()
		}
	case kind < 8:
		r.Fault = schemagen.Hostile
	}
	docs := r.Render(m)
	if r.Fault != "" && r.Faulted == "" {
		c.Observe("no place for a fault", 1)
		return
	}
	if kind >= 8 {
		i := c.Intn(len(docs))
		switch c.Intn(4) {
		case 0:
			g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 12, Mixed: true})
			docs[i] = g.Render(g.Doc(), nil)
		default:
			docs[i] = mutateSchema(c, docs[i])
		}
		c.Observe("mutated", 1)
	}
	input := joinDocuments(docs)
	c.Ctx("%s\n%s", r.Faulted, input)
	schemas, err := xsd.Parse(docs...)
	c.Eval(1)
	trees, nerr := xsd.Normalize(docs...)
	if nerr != nil && err == nil {
		c.Violate(input, "Parse accepts documents that Normalize rejects: %v", nerr)
		return
	}
	if nerr == nil {
		for _, t := range trees[:len(trees)-standardSchemas] {
			xmltree.Marshal(t)
		}
	}
	if r.Fault != "" && r.Fault != schemagen.Hostile {
		c.Observe(r.Fault, 1)
		c.Distinct(r.Faulted)
		if err == nil {
			c.Violate(input, "%s accepted: %s", r.Fault, r.Faulted)
			return
		}
		c.Sample("%s: %v", r.Faulted, err)
		return
	}
	if r.Fault == schemagen.Hostile {
		c.Observe("hostile", 1)
		c.Distinct(r.Faulted)
	}
	if err != nil {
		return
	}
	if r.Fault == schemagen.Hostile {
		c.Observe("hostile accepted", 1)
	} else {
		c.Observe("mutated accepted", 1)
	}
	if d := closedGraph(schemas, func(string, int) {}); d != "" {
		c.Violate(input, "%s: accepted, but %s", r.Faulted, d)
		return
	}
	for i := range schemas[:len(schemas)-standardSchemas] {
		s := &schemas[i]
		s.FindType(xml.Name{Space: s.TargetNS, Local: "no such type"})
		for name, t := range s.Types {
			if xsd.XMLName(t) == name && s.FindType(name) == nil {
				c.Violate(input, "FindType does not find %v", name)
				return
			}
		}
	}
}

// mutateSchema changes some bytes, mostly within tags.
func mutateSchema(c *core.Case, doc []byte) []byte {
	doc = append([]byte{}, doc...)
	for k := 1 + c.Intn(4); k > 0 && len(doc) > 0; k-- {
		switch c.Intn(6) {
		case 0: // swap two attribute values
			vals := quoted(doc)
			if len(vals) > 1 {
				a, b := vals[c.Intn(len(vals))], vals[c.Intn(len(vals))]
				if a[0] > b[0] {
					a, b = b, a
				}
				if a[1] <= b[0] {
					var out []byte
					out = append(out, doc[:a[0]]...)
					out = append(out, doc[b[0]:b[1]]...)
					out = append(out, doc[a[1]:b[0]]...)
					out = append(out, doc[a[0]:a[1]]...)
					out = append(out, doc[b[1]:]...)
					doc = out
				}
			}
		case 1: // copy an attribute value
			vals := quoted(doc)
			if len(vals) > 1 {
				a, b := vals[c.Intn(len(vals))], vals[c.Intn(len(vals))]
				v := append([]byte{}, doc[b[0]:b[1]]...)
				doc = append(append(append([]byte{}, doc[:a[0]]...), v...), doc[a[1]:]...)
			}
		case 2: // empty value
			if vals := quoted(doc); len(vals) > 0 {
				a := vals[c.Intn(len(vals))]
				doc = append(doc[:a[0]:a[0]], doc[a[1]:]...)
			}
		case 3: // rename an attribute
			i := c.Intn(len(doc))
			for _, w := range []string{"type=", "name=", "base=", "ref=", "value="} {
				if j := bytes.Index(doc[i:], []byte(w)); j >= 0 && c.Pct(50) {
					n := []byte(c.Pick("type=", "name=", "base=", "ref=", "id=", "mixed=", "minOccurs="))
					doc = append(append(append([]byte{}, doc[:i+j]...), n...), doc[i+j+len(w):]...)
					break
				}
			}
		case 4: // flip a byte
			doc[c.Intn(len(doc))] = "<>/=\"' :#&ax\x00\xff"[c.Intn(14)]
		case 5: // remove or repeat a piece
			i := c.Intn(len(doc))
			j := i + c.Intn(40)
			if j > len(doc) {
				j = len(doc)
			}
			if c.Pct(50) {
				doc = append(doc[:i:i], doc[j:]...)
			} else {
				doc = append(append(append([]byte{}, doc[:j]...), doc[i:j]...), doc[j:]...)
			}
		}
	}
	return doc
}

// quoted lists the ranges between double quotes.
func quoted(doc []byte) (out [][2]int) {
	open := -1
	for i, ch := range doc {
		if ch != '"' {
			continue
		}
		if open < 0 {
			open = i + 1
		} else {
			out = append(out, [2]int{open, i})
			open = -1
		}
	}
	return out
}

func runS07(c *core.Case) {
	m, r, docs := randomSchema(c, schemagen.Config{ForeignTypes: c.Pct(30)}, anyLayout(c))
	input := joinDocuments(docs)
	trees, err := xsd.Normalize(docs...)
	if err != nil {
		c.Violate(input, "valid schema rejected: %v", err)
		return
	}
	if len(trees) != len(r.Parts)+standardSchemas {
		c.Violate(input, "%d trees, want %d", len(trees), len(r.Parts)+standardSchemas)
		return
	}
	isXS := func(el *xmltree.Element, locals ...string) bool {
		if el.Name.Space != schemagen.XS {
			return false
		}
		for _, l := range locals {
			if el.Name.Local == l {
				return true
			}
		}
		return false
	}
	declared := map[xml.Name]bool{}
	for i, root := range trees {
		tns := root.Attr("", "targetNamespace")
		for j := range root.Children {
			t := &root.Children[j]
			if !isXS(t, "simpleType", "complexType") {
				continue
			}
			name := xml.Name{Space: tns, Local: t.Attr("", "name")}
			if declared[name] {
				c.Violate(input, "type name %v is used twice", name)
				return
			}
			declared[name] = true
			if i < len(r.Parts) {
				c.Observe("types", 1)
			}
		}
	}
	var bad string
	var check func(el *xmltree.Element, depth int, path string)
	check = func(el *xmltree.Element, depth int, path string) {
		path += "/" + el.Name.Local + "[" + el.Attr("", "name") + "]"
		if bad != "" || isXS(el, "annotation") {
			return
		}
		switch {
		case isXS(el, "element", "attribute", "group", "attributeGroup") && el.Attr("", "ref") != "":
			bad = path + ": reference left"
		case isXS(el, "simpleType", "complexType"):
			if el.Attr("", "name") == "" {
				bad = path + ": type without a name"
			} else if depth != 1 {
				bad = path + ": type below the top level"
			} else if isXS(el, "complexType") {
				n := 0
				for i := range el.Children {
					k := &el.Children[i]
					if isXS(k, "simpleContent", "complexContent") {
						n++
					} else if !isXS(k, "annotation") {
						bad = path + ": shorthand left"
					}
				}
				if n != 1 && bad == "" {
					bad = fmt.Sprintf("%s: %d content elements", path, n)
				}
			}
		}
		for _, name := range []string{"type", "itemType", "base", "memberTypes"} {
			v, need := el.Attr("", name), false
			switch name {
			case "type":
				need = isXS(el, "element", "attribute")
				if !need {
					v = ""
				}
			case "itemType":
				need = isXS(el, "list")
			case "base":
				need = isXS(el, "restriction", "extension")
			}
			if need && strings.TrimSpace(v) == "" && bad == "" {
				bad = path + ": no " + name
			}
			for _, q := range strings.Fields(v) {
				c.Observe("declarations", 1)
				name := el.Resolve(q)
				if _, err := xsd.ParseBuiltin(name); err != nil && !declared[name] && bad == "" {
					bad = fmt.Sprintf("%s: %s is %v, which is no type", path, q, name)
				}
			}
		}
		for i := range el.Children {
			check(&el.Children[i], depth+1, path)
		}
	}
	var normalised [][]byte
	for _, root := range trees[:len(r.Parts)] {
		check(root, 0, "")
		if bad != "" {
			c.Violate(input, "normalised: %s\n%s", bad, xmltree.MarshalIndent(root, "", " "))
			return
		}
		normalised = append(normalised, xmltree.Marshal(root))
	}
	c.Eval(len(r.Parts))
	before, err := xsd.Parse(docs...)
	if err != nil {
		c.Violate(input, "valid schema rejected: %v", err)
		return
	}
	all := input + "\n<!-- normalised -->\n" + joinDocuments(normalised)
	after, err := xsd.Parse(normalised...)
	if err != nil {
		c.Violate(all, "normalised schema rejected: %v", err)
		return
	}
	c.Observe("reparsed sets", 1)
	if len(before) != len(after) {
		c.Violate(all, "%d schemas, but %d after normalisation", len(before), len(after))
		return
	}
	// Every type has a name now, and keeps it.
	names := schemagen.Names{}
	for _, s := range before[:len(r.Parts)] {
		for name, t := range s.Types {
			if xsd.XMLName(t) == name {
				names[name] = true
			}
		}
	}
	for i := range r.Parts {
		self := xml.Name{Space: r.Parts[i].NS.URI, Local: "_self"}
		names[self] = false
		if d := schemagen.Diff(names.View(before[i].Types[self]), names.View(after[i].Types[self])); d != "" {
			c.Violate(all, "top-level elements of schema %d: %s", i, d)
			return
		}
	}
	if d := sameTypes(names, before[:len(r.Parts)], after[:len(r.Parts)]); d != "" {
		c.Violate(all, "after normalisation: %s", d)
		return
	}
	if refs := strings.Contains(input, "ref="); refs || strings.Contains(string(joinDocuments(normalised)), "_anon") {
		c.Distinct(schemagen.Shape(m))
	}
}
