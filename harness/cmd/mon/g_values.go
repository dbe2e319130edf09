package main

import (
	"fmt"
	"strings"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	need := map[string]int{"values compared": 60000, "zero values in documents": 1000}
	for _, b := range schemagen.AllBuiltins {
		need["built-in "+b.String()] = 1
	}
	register(&core.Prop{ID: "G04", Quick: 64, Thorough: 2000, Run: runG04, MemMB: -1, CPU: 120,
		Rule: "every value of every built-in, as element, repeated element, attribute, list item, and text of an element with attributes, directly and through a named type, decodes to the Go value that the lexical form denotes and encodes to a lexical form of that value",
		Need: need,
		Known: map[string]func() (string, bool){
			"infinity": func() (string, bool) {
				return "infinite floats and doubles are encoded as +Inf and -Inf, which are not in the lexical space", probeValue("double", "INF", "+Inf")
			},
			"decimal-exponent": func() (string, bool) {
				return "decimals from 1e21, or below 1e-4, that are not list items are encoded with an exponent, which is not in the lexical space", probeValue("decimal", "0.00001", "1e-05")
			},
		},
	})
}

// valueModel makes a schema with one built-in in every position.
func valueModel(c *core.Case, list []xsd.Builtin) *schemagen.Model {
	ns := &schemagen.Namespace{URI: "urn:values"}
	m := &schemagen.Model{NS: []*schemagen.Namespace{ns}}
	elem := func(local string, r schemagen.Ref, min, max int) *schemagen.Particle {
		return &schemagen.Particle{Kind: schemagen.Element, Min: min, Max: max, Elem: &schemagen.Elem{NS: ns, Local: local, Type: r}}
	}
	attr := func(local string, r schemagen.Ref, use string) schemagen.AttrItem {
		return schemagen.AttrItem{Attr: &schemagen.Attr{NS: ns, Local: local, Type: r, Use: use}, Host: ns}
	}
	add := func(t *schemagen.Type) schemagen.Ref {
		t.NS = ns
		ns.Types = append(ns.Types, t)
		return schemagen.Ref{Type: t}
	}
	for i, b := range list {
		c.Observe("built-in "+b.String(), 1)
		name := func(s string) string { return fmt.Sprintf("%s%s%d", s, b.String(), i) }
		direct := schemagen.B(b)
		named := add(&schemagen.Type{Local: name("Named"), Simple: true, Base: direct})
		if c.Pct(50) {
			named.Type.Facets = []schemagen.Facet{{Name: "maxLength", Value: "5000"}}
		}
		derived := add(&schemagen.Type{Local: name("Derived"), Simple: true, Base: named})
		refs := []schemagen.Ref{direct, named, derived}
		if !schemagen.IsListBuiltin(b) {
			listed := add(&schemagen.Type{Local: name("List"), Simple: true, List: true, Base: []schemagen.Ref{direct, named}[c.Intn(2)]})
			short := add(&schemagen.Type{Local: name("Short"), Simple: true, Base: listed})
			anon := schemagen.Ref{Type: &schemagen.Type{NS: ns, Simple: true, List: true, Base: direct}}
			refs = append(refs, listed, short, anon)
		}
		anon := schemagen.Ref{Type: &schemagen.Type{NS: ns, Simple: true, Base: direct}}
		refs = append(refs, anon)
		all := &schemagen.Type{Local: name("All"), Base: schemagen.B(xsd.AnyType)}
		seq := &schemagen.Particle{Kind: schemagen.Sequence, Min: 1, Max: 1}
		all.Content = seq
		for k, r := range refs {
			if r.Type != nil && r.Type.Local == "" && c.Pct(50) {
				continue // an anonymous type belongs to one place
			}
			places := []func(){
				func() { seq.Parts = append(seq.Parts, elem(fmt.Sprintf("one%d", k), r, 1, 1)) },
				func() { seq.Parts = append(seq.Parts, elem(fmt.Sprintf("opt%d", k), r, 0, 1)) },
				func() { seq.Parts = append(seq.Parts, elem(fmt.Sprintf("many%d", k), r, c.Intn(2), -1)) },
				func() { all.Attrs = append(all.Attrs, attr(fmt.Sprintf("req%d", k), r, "required")) },
				func() { all.Attrs = append(all.Attrs, attr(fmt.Sprintf("att%d", k), r, "optional")) },
				func() {
					add(&schemagen.Type{Local: fmt.Sprintf("%s%c", name("Text"), 'A'+k), SimpleContent: true, Extends: true, Base: r,
						Attrs: []schemagen.AttrItem{attr("note", schemagen.B(xsd.String), "optional")}})
				},
			}
			if r.Type != nil && r.Type.Local == "" {
				places = places[:5]
				places[c.Intn(5)]()
				continue
			}
			for _, p := range places {
				p()
			}
		}
		add(all)
	}
	return m
}

func runG04(c *core.Case) {
	b := newBatch(c)
	defer b.remove()
	b.race = c.Idx%4 == 0
	// Every built-in takes part in every third case.
	var pkgs []*genPkg
	for p := 0; p < 5; p++ {
		var list []xsd.Builtin
		for k := 0; k < 3; k++ {
			list = append(list, schemagen.AllBuiltins[(c.Idx*15+p*3+k)%len(schemagen.AllBuiltins)])
		}
		m := valueModel(c, list)
		r := &schemagen.Renderer{Rand: c.Rand, Layout: schemagen.Layout{}}
		docs := r.Render(m)
		o := baseOptions(c, true)
		if pkg := b.generate(c, m, docs, o); pkg != nil {
			pkgs = append(pkgs, pkg)
			c.Sample("%s", pkg.input)
		}
	}
	if c.Violated() {
		return
	}
	if d := b.build(c, driverMain); d != "" {
		c.Violate("", "the generated packages do not compile: %s", d)
		return
	}
	var jobs []instJob
	for _, p := range pkgs {
		jobs = append(jobs, p.instances(c, 12)...)
	}
	for _, j := range jobs {
		c.Distinct(string(j.doc))
	}
	b.runInstances(c, jobs)
}

// probeValue tells if a value of a type is encoded as given.
func probeValue(typ, value, out string) bool {
	c := new(core.Case)
	b := newBatch(c)
	defer b.remove()
	schema := `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t" elementFormDefault="qualified">
<xs:complexType name="One"><xs:sequence><xs:element name="v" type="xs:` + typ + `"/></xs:sequence></xs:complexType></xs:schema>`
	src, err := new(xsdgen.Config).GenSource(writeFile(c, b.dir, "schema.xsd", []byte(schema)))
	if err != nil {
		return false
	}
	b.add(c, src, "ws", []string{"One"})
	if d := b.build(c, driverMain); d != "" {
		return false
	}
	var res []jobResult
	in := []job{{Type: "p0.One", Doc: `<w xmlns="urn:t"><v>` + value + `</v></w>`, Root: [2]string{"urn:t", "w"}}}
	if d := b.runDriver(c, in, &res, 60*time.Second); d != "" || len(res) != 1 {
		return false
	}
	return strings.Contains(res[0].Out, ">"+out+"<")
}
