package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsdgen"
	"encoding/xml"
)

func init() {
	register(&core.Prop{ID: "G01", Quick: 7200, Thorough: 120000, Run: runG01,
		Rule: "code generation succeeds on every generated schema set; the output is formatted, has the requested name, type-checks and imports the standard library only",
		Need: map[string]int{"struct types": 3000, "marshalling methods": 2000, "option IgnoreAttributes": 50, "option IgnoreElements": 50, "option OnlyTypes": 50, "option AllowType": 50, "option Namespaces": 50, "soap arrays": 300},
	})
}

// moreOptions adds options that leave out declarations and fields.
func (o *optSet) moreOptions(c *core.Case, m *schemagen.Model) {
	some := func(names []string) []string {
		var l []string
		for _, n := range names {
			if c.Pct(30) {
				l = append(l, n)
			}
		}
		return l
	}
	var elems, attrs []string
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			v := viewOf(t)
			for _, x := range v.elems {
				elems = append(elems, x.Name.Local)
			}
			for _, x := range v.attrs {
				attrs = append(attrs, x.Name.Local)
			}
		}
	}
	if c.Pct(15) {
		l := some(attrs)
		o.add(fmt.Sprintf("IgnoreAttributes %q", l), xsdgen.IgnoreAttributes(l...))
		c.Observe("option IgnoreAttributes", 1)
	}
	if c.Pct(15) {
		l := some(elems)
		o.add(fmt.Sprintf("IgnoreElements %q", l), xsdgen.IgnoreElements(l...))
		c.Observe("option IgnoreElements", 1)
	}
	ns := m.NS[c.Intn(len(m.NS))]
	if c.Pct(20) {
		o.add(fmt.Sprintf("Namespaces %q", ns.URI), xsdgen.Namespaces(ns.URI))
		c.Observe("option Namespaces", 1)
	}
	if len(ns.Types) == 0 {
		return
	}
	t := ns.Types[c.Intn(len(ns.Types))]
	switch c.Intn(8) {
	case 0:
		p := "^" + regexp.QuoteMeta(t.Local) + "$"
		if c.Pct(50) {
			p = c.Pick("[0-4]$", "a", "^[a-m]", ".", "none")
		}
		o.add("OnlyTypes "+p, xsdgen.OnlyTypes(p))
		c.Observe("option OnlyTypes", 1)
	case 1:
		name := xml.Name{Space: ns.URI, Local: t.Local}
		o.add(fmt.Sprintf("AllowType %v", name), xsdgen.AllowType(name))
		c.Observe("option AllowType", 1)
	}
}

func runG01(c *core.Case) {
	cfg := genConfig(c)
	cfg.Mixed = c.Pct(30)
	cfg.PlainNames = c.Pct(20)
	clash(c, &cfg)
	m, _, docs := randomSchema(c, cfg, anyLayout(c))
	if c.Pct(12) {
		s := newSoapSchema(c)
		m, docs = &schemagen.Model{NS: []*schemagen.Namespace{s.ns}}, [][]byte{s.doc}
		c.Observe("soap arrays", len(s.arrays))
	}
	o := baseOptions(c, cfg.PlainNames)
	o.moreOptions(c, m)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := writeDocs(c, dir, docs)
	in := "options: " + o.String() + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	src, err := o.config().GenSource(files...)
	c.Eval(1)
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return
	}
	in += "\n\n" + string(src)
	pkg, _, d := checkFile(c, src, o.pkg)
	if d != "" {
		c.Violate(in, "%s", d)
		return
	}
	c.Distinct(schemagen.Shape(m) + o.String())
	c.Sample("%s", in)
	for _, n := range pkg.Scope().Names() {
		obj, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if named, ok := obj.Type().(*types.Named); ok {
			c.Observe("marshalling methods", named.NumMethods())
		}
		switch obj.Type().Underlying().(type) {
		case *types.Struct:
			c.Observe("struct types", 1)
		case *types.Slice:
			c.Observe("slice types", 1)
		default:
			c.Observe("other types", 1)
		}
	}
}
