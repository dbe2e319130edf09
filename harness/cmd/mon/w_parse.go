package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/wsdl"
)

func init() {
	register(&core.Prop{ID: "W01", Quick: 120000, Thorough: 1200000, Run: runW01,
		Rule: "the definition parsed from a generated document is compared with the model it was written from: target namespace, documentation, messages with parts, ports with addresses and methods, operations with documentation, actions and messages",
		Need: map[string]int{"ports": 20000, "operations": 30000, "messages": 20000, "parts": 30000, "actions": 10000, "operations without output": 3000, "names of other namespaces": 5000, "bindings without port type": 1500, "ports without binding": 300,
			"HTTP ports": 2000, "documents with several services": 3000, "prefixes declared locally": 10000, "malformed documents": 300},
	})
}

// small schemas, for parts to refer to
func wsdlSchema(c *core.Case, goNames bool) *schemagen.Model {
	cfg := schemagen.Config{Namespaces: 2, Types: 4}
	if goNames {
		cfg = genConfig(c)
		cfg.Namespaces, cfg.Types = 2, 4
	}
	return schemagen.New(c.Rand, cfg).Model()
}

func runW01(c *core.Case) {
	schema := wsdlSchema(c, false)
	g := &wGen{Case: c}
	m := g.model(schema)
	var schemas [][]byte
	if c.Pct(30) {
		schemas = (&schemagen.Renderer{Rand: c.Rand}).Render(schema)
	}
	doc := m.render(c, schemas)
	in := string(doc)
	c.Ctx("%s", in)
	if c.Pct(5) {
		// Cut the document anywhere before its end.
		cut := doc[:1+c.Intn(len(doc)-1)]
		c.Eval(1)
		c.Observe("malformed documents", 1)
		if _, err := wsdl.Parse(cut); err == nil {
			if _, perr := schemagen.ParseNode(cut); perr != nil {
				c.Violate(string(cut), "a document that ends early was accepted")
			}
		}
		return
	}
	if _, err := schemagen.ParseNode(doc); err != nil {
		c.Fatal("generated document: %v\n%s", err, doc)
	}
	data := append([]byte(nil), doc...)
	keep := append([]byte(nil), data...)
	def, err := wsdl.Parse(data)
	c.Eval(1)
	if err != nil {
		c.Violate(in, "parsing failed: %v", err)
		return
	}
	if !bytes.Equal(keep, data) {
		c.Violate(in, "the caller's data was changed")
		return
	}
	if d := m.compare(c, def); d != "" {
		c.Violate(in, "%s", d)
		return
	}
	_ = def.String()
	c.Distinct(in)
	c.Sample("%s", in)
	if len(m.Services) > 1 {
		c.Observe("documents with several services", 1)
	}
}

func (m *wModel) compare(c *core.Case, def *wsdl.Definition) string {
	if def.TargetNS != m.TNS {
		return fmt.Sprintf("target namespace %q, want %q", def.TargetNS, m.TNS)
	}
	var docs []string
	for _, s := range m.Services {
		if d := strings.Join(s.Docs, "\n"); d != "" {
			docs = append(docs, d)
		}
	}
	if want := strings.Join(docs, "\n"); def.Doc != want {
		return fmt.Sprintf("documentation %q, want %q", def.Doc, want)
	}
	if len(def.Message) != len(m.Msgs) {
		return fmt.Sprintf("%d messages, want %d", len(def.Message), len(m.Msgs))
	}
	for _, msg := range m.Msgs {
		name := xml.Name{Space: m.TNS, Local: msg.Name}
		got, ok := def.Message[name]
		if !ok {
			return fmt.Sprintf("message %v is missing", name)
		}
		c.Observe("messages", 1)
		if got.Name != name {
			return fmt.Sprintf("message %v is called %v", name, got.Name)
		}
		if len(got.Parts) != len(msg.Parts) {
			return fmt.Sprintf("message %v has %d parts, want %d", name, len(got.Parts), len(msg.Parts))
		}
		for i, p := range msg.Parts {
			q := got.Parts[i]
			c.Observe("parts", 1)
			if q.Name != p.Name {
				return fmt.Sprintf("message %v: part %d is called %q, want %q", name, i, q.Name, p.Name)
			}
			var typ, elem xml.Name
			switch {
			case p.NoType.Local != "":
				typ = p.NoType
				c.Observe("parts called like bindings", 1)
			case p.NoElem.Local != "":
				elem = p.NoElem
			case p.Elem != nil:
				elem = xml.Name{Space: p.Elem.NS.URI, Local: p.Elem.Local}
			case p.Ref.Type != nil:
				typ = xml.Name{Space: p.Ref.Type.NS.URI, Local: p.Ref.Type.Local}
			default:
				typ = p.Ref.Builtin.Name()
			}
			// The namespace of a name that is not given means nothing.
			if q.Type.Local == "" {
				q.Type.Space = ""
			}
			if q.Element.Local == "" {
				q.Element.Space = ""
			}
			if q.Type != typ || q.Element != elem {
				return fmt.Sprintf("message %v: part %s has type %v and element %v, want %v and %v", name, p.Name, q.Type, q.Element, typ, elem)
			}
		}
	}
	ports := m.ports()
	if len(def.Ports) != len(ports) {
		return fmt.Sprintf("%d ports, want %d", len(def.Ports), len(ports))
	}
	for i, p := range ports {
		q := def.Ports[i]
		c.Observe("ports", 1)
		if q.Name != p.Name || q.Address != p.Address {
			return fmt.Sprintf("port %d is %s at %q, want %s at %q", i, q.Name, q.Address, p.Name, p.Address)
		}
		if want := p.Binding.method(); q.Method != want {
			return fmt.Sprintf("port %s has method %q, want %q", p.Name, q.Method, want)
		}
		if p.Binding == nil {
			c.Observe("ports without binding", 1)
			if len(q.Operations) > 0 {
				return fmt.Sprintf("port %s has no binding, but %d operations", p.Name, len(q.Operations))
			}
			continue
		}
		if p.Binding.Kind == "http" {
			c.Observe("HTTP ports", 1)
		}
		ops := p.Binding.Type.Ops
		if p.Binding.Space != "" {
			ops = nil
			c.Observe("bindings without port type", 1)
		}
		if len(q.Operations) != len(ops) {
			return fmt.Sprintf("port %s has %d operations, want %d", p.Name, len(q.Operations), len(ops))
		}
		for i, op := range ops {
			r := q.Operations[i]
			c.Observe("operations", 1)
			where := fmt.Sprintf("port %s: operation %s: ", p.Name, op.Name)
			if want := (xml.Name{Space: m.TNS, Local: op.Name}); r.Name != want {
				return fmt.Sprintf("%sname %v, want %v", where, r.Name, want)
			}
			if want := strings.Join(op.Docs, "\n"); r.Doc != want {
				return fmt.Sprintf("%sdocumentation %q, want %q", where, r.Doc, want)
			}
			if want := p.Binding.Actions[op]; r.SOAPAction != want {
				return fmt.Sprintf("%saction %q, want %q", where, r.SOAPAction, want)
			} else if want != "" {
				c.Observe("actions", 1)
			}
			if want := (xml.Name{Space: or(op.InSpace, m.TNS), Local: op.In.Name}); r.Input != want {
				return fmt.Sprintf("%sinput %v, want %v", where, r.Input, want)
			}
			if op.Out == nil {
				c.Observe("operations without output", 1)
				if r.Output.Local != "" {
					return fmt.Sprintf("%soutput %v, want none", where, r.Output)
				}
			} else if want := (xml.Name{Space: or(op.OutSpace, m.TNS), Local: op.Out.Name}); r.Output != want {
				return fmt.Sprintf("%soutput %v, want %v", where, r.Output, want)
			}
		}
	}
	return ""
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
