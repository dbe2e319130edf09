package main

import (
	"encoding/xml"
	"fmt"
	"regexp"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
)

const (
	wsdlURI   = "http://schemas.xmlsoap.org/wsdl/"
	soapURI   = "http://schemas.xmlsoap.org/wsdl/soap/"
	soap12URI = "http://schemas.xmlsoap.org/wsdl/soap12/"
	httpURI   = "http://schemas.xmlsoap.org/wsdl/http/"
)

// The model of a WSDL document.
type (
	wPart struct {
		Name string
		Ref  schemagen.Ref   // type, or
		Elem *schemagen.Elem // element
		// A type or element that does not exist
		NoType, NoElem xml.Name
	}
	wMsg struct {
		Name  string
		Parts []wPart
	}
	wOp struct {
		Name    string
		Docs    []string
		In, Out *wMsg // no Out: one-way
		// Names of messages that are not declared in this document, or ""
		InSpace, OutSpace string
	}
	wPortType struct {
		Name string
		Ops  []*wOp
	}
	wBinding struct {
		Name    string
		Type    *wPortType
		Kind    string // soap, soap12, http
		Verb    string
		Actions map[*wOp]string
		// The type is not declared in this document. Its name is in this
		// namespace.
		Space string
	}
	wPort struct {
		Name, Address string
		Binding       *wBinding // nil: the reference dangles
		Nowhere       xml.Name
	}
	wService struct {
		Name  string
		Docs  []string
		Ports []*wPort
	}
	wModel struct {
		TNS       string
		Schema    *schemagen.Model
		Msgs      []*wMsg
		PortTypes []*wPortType
		Bindings  []*wBinding
		Services  []*wService
	}
)

func (p wPart) typ() schemagen.Ref {
	if p.Elem != nil {
		return p.Elem.Type
	}
	return p.Ref
}

// ports lists the ports of all services.
func (m *wModel) ports() (l []*wPort) {
	for _, s := range m.Services {
		l = append(l, s.Ports...)
	}
	return l
}

func (b *wBinding) method() string {
	if b == nil || b.Kind != "http" || b.Verb == "" {
		return "POST"
	}
	return strings.ToUpper(b.Verb)
}

// A wGen makes WSDL models.
type wGen struct {
	*core.Case
	// For code generation: names that give distinct Go identifiers, with
	// characters that have to be replaced if Odd is set.
	Go, Odd bool
	n       int
	// Plain messages are needed by every input.
	Echo bool
	// What there is an unusual amount of, 0 for nothing.
	huge int
}

const (
	wHugeMsgs = 1 + iota
	wHugeParts
	wHugeTypes
	wHugeOps
	wHugeBindings
	wHugePorts
	wHugeKinds
)

// many returns a size: n most of the time, and a large one if the model is to
// have much of this kind.
func (g *wGen) many(kind, n int) int {
	if g.huge == kind && g.Pct(50) {
		return n + 5 + g.Intn(40)
	}
	return n
}

var wNames = []string{"a", "Get.Item", "get-x", "état", "_x", "List1", "message", "part", "input", "operation", "port", "binding", "名前", "x.y.z", "definitions", "Item", "item", "A"}

// Names for parts of messages that are easily confused with other names in a
// Go function.
var wPartNames = []string{"c", "ctx", "err", "input", "output", "result", "v", "time", "type", "range", "string", "int", "bool", "error",
	"byte", "xml", "context", "req", "x_y", "Value", "id", "nil", "true", "append", "len", "float64", "http", "args", "Args", "func", "uint", "int64", "ws",
	"break", "case", "chan", "const", "continue", "defer", "else", "fallthrough", "for", "go", "goto", "if", "import", "interface", "map", "package", "return", "select", "switch", "var",
	"body", "name", "xMLNS", "envelope", "message", "default", "é", "struct", "client", "c_", "fmt", "parameters"}

func (g *wGen) name(used map[string]bool, plain string) string {
	for try := 0; ; try++ {
		var s string
		switch {
		case g.Go:
			g.n++
			s = plain
			if g.Odd {
				s += g.Pick("", "", "-x", ".y")
			}
			s = fmt.Sprintf("%s%d", s, g.n)
			if g.Pct(30) {
				s = strings.ToLower(s[:1]) + s[1:]
			}
		case try < 5 && g.Pct(60):
			s = g.Pick(wNames...)
		default:
			g.n++
			s = fmt.Sprintf("%s%d", plain, g.n)
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func (g *wGen) docs() (l []string) {
	if g.Pct(50) {
		return nil
	}
	for k := 1 + g.Intn(2); k > 0; k-- {
		l = append(l, g.Pick("Returns the item.", "x", "Several words, 'quoted' and \"so\".", "Ünïcode — text", "two\nlines", " spaced  out ", "// slashes", "/* star */", "percent %d %s {{.X}}", ""))
	}
	return l
}

// part makes a part of a message.
func (g *wGen) part(m *schemagen.Model, name string) wPart {
	p := wPart{Name: name}
	var types []*schemagen.Type
	var elems []*schemagen.Elem
	for _, ns := range m.NS {
		types = append(types, ns.Types...)
		for _, e := range ns.Elems {
			elems = append(elems, e)
		}
	}
	switch {
	case len(elems) > 0 && g.Pct(35):
		p.Elem = elems[g.Intn(len(elems))]
		g.Observe("parts that are elements", 1)
	case len(types) > 0 && g.Pct(50):
		p.Ref = schemagen.Ref{Type: types[g.Intn(len(types))]}
		g.Observe("parts of schema types", 1)
	default:
		p.Ref = schemagen.B(schemagen.AllBuiltins[g.Intn(len(schemagen.AllBuiltins))])
		g.Observe("parts of built-in types", 1)
	}
	return p
}

var notIdent = regexp.MustCompile(`[^_\pL\pN]`)

func (g *wGen) model(schema *schemagen.Model) *wModel {
	m := &wModel{Schema: schema, TNS: g.Pick("http://www.example.com/ws", "urn:ws", "http://example.com/x?a=1&b=2", "urn:Ünï", "ns-1", "urn:a")}
	if g.huge = 0; g.Pct(4) {
		g.huge = 1 + g.Intn(wHugeKinds-1)
		g.Observe("large services", 1)
	}
	used := map[string]bool{}
	for k := g.many(wHugeMsgs, 1+g.Intn(5)); k > 0; k-- {
		msg := &wMsg{Name: g.name(used, g.Pick("Request", "Response", "getItem", "Item"))}
		if g.Go && g.Pct(12) && len(m.Msgs) > 0 {
			// Like another message, for Go.
			n := m.Msgs[g.Intn(len(m.Msgs))].Name
			switch g.Intn(3) {
			case 0:
				n = strings.ToLower(n[:1]) + n[1:]
			case 1:
				n = strings.ToUpper(n[:1]) + n[1:]
			case 2:
				n = n[:1] + g.Pick(".", "-") + n[1:]
			}
			if !used[n] && n[0] < 0x80 {
				used[n] = true
				msg.Name = n
				g.Observe("messages with almost the same name", 1)
			}
		}
		if g.Go && g.Pct(25) {
			// Like a type
			ns := schema.NS[g.Intn(len(schema.NS))]
			if len(ns.Types) > 0 {
				if n := ns.Types[g.Intn(len(ns.Types))].Local; !used[n] {
					used[n] = true
					msg.Name = n
					g.Observe("messages called like types", 1)
				}
			}
		}
		seen := map[string]bool{}
		n := g.Intn(4)
		if g.Pct(20) {
			n = g.Intn(8)
		}
		for n = g.many(wHugeParts, n); n > 0; n-- {
			name := g.Pick(wPartNames...)
			if !g.Go || g.Pct(20) {
				name = g.Pick("a", "b", "first-name", "x.y", "part", "type", "element", "parameters", "body", "A")
			}
			if g.Go && g.Pct(8) {
				if ns := schema.NS[g.Intn(len(schema.NS))]; len(ns.Types) > 0 {
					name = ns.Types[g.Intn(len(ns.Types))].Local
				}
			}
			id := strings.Title(notIdent.ReplaceAllString(name, ""))
			if !g.Go {
				id = name
			}
			if seen[id] && g.huge == wHugeParts {
				name = fmt.Sprintf("part%d", n)
				id = "P" + name[1:]
			}
			if seen[id] {
				continue
			}
			seen[id] = true
			msg.Parts = append(msg.Parts, g.part(schema, name))
		}
		m.Msgs = append(m.Msgs, msg)
	}
	anyMsg := func() *wMsg { return m.Msgs[g.Intn(len(m.Msgs))] }
	used = map[string]bool{}
	ops := map[string]bool{}
	for k := g.many(wHugeTypes, 1+g.Intn(3)); k > 0; k-- {
		if !g.Go || g.Pct(70) {
			ops = map[string]bool{}
		}
		pt := &wPortType{Name: g.name(used, "Things")}
		for n := g.many(wHugeOps, g.Intn(5)); n > 0; n-- {
			op := &wOp{Name: g.name(ops, g.Pick("GetItem", "List", "put")), Docs: g.docs(), In: anyMsg(), Out: anyMsg()}
			if g.Pct(15) {
				op.Out = nil
			}
			if !g.Go && g.Pct(5) {
				op.InSpace = g.foreign()
			}
			if !g.Go && g.Pct(5) {
				op.OutSpace = g.foreign()
			}
			if g.Go && g.Pct(20) && len(m.PortTypes) > 0 {
				// Another port type has an operation of the same name.
				if o := m.PortTypes[g.Intn(len(m.PortTypes))].Ops; len(o) > 0 {
					n := o[g.Intn(len(o))].Name
					if !ops[n] {
						op.Name = n
						ops[n] = true
					}
				}
			}
			pt.Ops = append(pt.Ops, op)
		}
		m.PortTypes = append(m.PortTypes, pt)
	}
	if g.Echo {
		pt := m.PortTypes[0]
		for _, msg := range m.Msgs {
			pt.Ops = append(pt.Ops, &wOp{Name: g.name(ops, "Make"), In: anyMsg(), Out: msg})
		}
	}
	used = map[string]bool{}
	for i, k := 0, g.many(wHugeBindings, 1+g.Intn(4)); i < k; i++ {
		b := &wBinding{Name: g.name(used, "Bind"), Type: m.PortTypes[g.Intn(len(m.PortTypes))], Kind: g.Pick("soap", "soap", "soap", "soap12", "http"), Actions: map[*wOp]string{}}
		if g.Echo && i == 0 {
			b.Type, b.Kind = m.PortTypes[0], g.Pick("soap", "soap12")
		}
		if !g.Go && g.Pct(5) {
			b.Space = g.foreign()
		}
		if b.Kind == "http" {
			b.Verb = g.Pick("GET", "POST", "get", "", "Post", "PUT", "put", "DELETE")
		} else {
			for _, op := range b.Type.Ops {
				if g.Pct(85) {
					b.Actions[op] = g.Pick("http://example.com/act?x=1&y=%20", "urn:act", "", "act ion", "\"quoted\"", "a%b%d") + op.Name
				}
			}
		}
		m.Bindings = append(m.Bindings, b)
	}
	if !g.Go && g.Pct(10) {
		// A part that looks like a binding: its name is that of a binding,
		// and its type has the name of a port type.
		msg, b := anyMsg(), m.Bindings[g.Intn(len(m.Bindings))]
		taken := false
		for _, p := range msg.Parts {
			taken = taken || p.Name == b.Name
		}
		if !taken {
			pt := m.PortTypes[g.Intn(len(m.PortTypes))]
			msg.Parts = append(msg.Parts, wPart{Name: b.Name, NoType: xml.Name{Space: m.TNS, Local: pt.Name}})
		}
	}
	usedPorts := map[string]bool{}
	used = map[string]bool{}
	for k := 1 + g.Intn(2); k > 0; k-- {
		s := &wService{Name: g.name(used, "Service"), Docs: g.docs()}
		if !g.Go {
			usedPorts = map[string]bool{}
		}
		n := g.Intn(4)
		if len(m.Services) == 0 && n == 0 {
			n = 1
		}
		for n = g.many(wHugePorts, n); n > 0; n-- {
			p := &wPort{Name: g.name(usedPorts, "Port"), Binding: m.Bindings[g.Intn(len(m.Bindings))],
				Address: g.Pick("http://www.example.com/ws", "http://example.com/a/b?x=1&y=2", "http://localhost:8080/", "http://xn--e1afmkfd.example/%20x") + g.Pick("", "/1", "/2")}
			if g.Echo && len(m.Services) == 0 && len(s.Ports) == 0 {
				p.Binding = m.Bindings[0]
			}
			if !g.Go && g.Pct(5) {
				p.Nowhere = xml.Name{Space: m.TNS, Local: "nowhere"}
				if g.Pct(50) {
					p.Nowhere = xml.Name{Space: g.foreign(), Local: p.Binding.Name}
				}
				p.Binding = nil
			}
			s.Ports = append(s.Ports, p)
		}
		m.Services = append(m.Services, s)
	}
	return m
}

// foreign picks a namespace that the service is not in.
func (g *wGen) foreign() string { return g.Pick(wsdlURI, soapURI, schemagen.XS) }

// A wWriter writes a model as a document.
type wWriter struct {
	*core.Case
	m      *wModel
	w      string            // prefix of the WSDL namespace
	prefix map[string]string // namespace -> prefix, on the root
	local  int
}

var xmlProlog = regexp.MustCompile(`(?s)^\s*<\?xml.*?\?>`)

// render writes the document. The schemas are embedded in it.
func (m *wModel) render(c *core.Case, schemas [][]byte) []byte {
	w := &wWriter{Case: c, m: m, prefix: map[string]string{}}
	unqualified := false
	for _, ns := range m.Schema.NS {
		unqualified = unqualified || ns.URI == ""
	}
	taken := map[string]bool{}
	declare := func(uri string, names ...string) {
		for {
			p := c.Pick(names...)
			if !taken[p] {
				taken[p] = true
				w.prefix[uri] = p
				return
			}
			names = append(names, fmt.Sprintf("p%d", len(taken)))
		}
	}
	if unqualified {
		declare(wsdlURI, "wsdl", "w")
	} else {
		declare(wsdlURI, "", "", "wsdl")
	}
	// The default namespace may be that of the schema or the service.
	if _, ok := w.prefix[m.TNS]; !ok {
		if unqualified {
			declare(m.TNS, "tns", "t")
		} else {
			declare(m.TNS, "tns", "t", "")
		}
	}
	declare(schemagen.XS, "xsd", "s", "xs")
	declare(soapURI, "soap", "sp")
	declare(soap12URI, "soap12", "s12")
	declare(httpURI, "http", "h")
	for _, ns := range m.Schema.NS {
		if _, ok := w.prefix[ns.URI]; !ok && ns.URI != "" {
			declare(ns.URI, "types", "q", "ns1")
		}
	}
	w.w = w.prefix[wsdlURI]
	if w.w != "" {
		w.w += ":"
	}
	var uris []string
	for _, u := range []string{wsdlURI, m.TNS, schemagen.XS, soapURI, soap12URI, httpURI} {
		uris = append(uris, u)
	}
	for _, ns := range m.Schema.NS {
		if ns.URI != "" && ns.URI != m.TNS {
			uris = append(uris, ns.URI)
		}
	}
	attrs := []string{fmt.Sprintf(` targetNamespace="%s"`, escapeAttr(m.TNS))}
	if c.Pct(50) {
		attrs = append(attrs, ` name="Defs"`)
	}
	for _, u := range uris {
		p := w.prefix[u]
		if p != "" {
			p = ":" + p
		}
		attrs = append(attrs, fmt.Sprintf(` xmlns%s="%s"`, p, escapeAttr(u)))
	}
	c.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	var b strings.Builder
	if c.Pct(60) {
		b.WriteString(c.Pick("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", "<!-- service -->\n"))
	}
	b.WriteString("<" + w.w + "definitions" + strings.Join(attrs, "") + ">\n")
	var parts []string
	if len(schemas) > 0 {
		var t strings.Builder
		t.WriteString("<" + w.w + "types>")
		for _, s := range schemas {
			t.WriteString(xmlProlog.ReplaceAllString(string(s), ""))
		}
		t.WriteString("</" + w.w + "types>")
		parts = append(parts, t.String())
	}
	for _, x := range m.Msgs {
		parts = append(parts, w.message(x))
	}
	for _, x := range m.PortTypes {
		parts = append(parts, w.portType(x))
	}
	for _, x := range m.Bindings {
		parts = append(parts, w.binding(x))
	}
	if c.Pct(50) {
		c.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	at := 0
	for _, x := range m.Services {
		s := w.service(x)
		if c.Pct(70) {
			parts = append(parts, s)
			at = len(parts)
			continue
		}
		// Services keep their order.
		at += c.Intn(len(parts) + 1 - at)
		parts = append(parts[:at], append([]string{s}, parts[at:]...)...)
		at++
	}
	if c.Pct(30) {
		b.WriteString(w.doc("not for output"))
	}
	for _, p := range parts {
		b.WriteString(p + "\n")
		b.WriteString(w.noise())
		if c.Pct(4) {
			b.WriteString(w.decoy())
		}
	}
	b.WriteString("</" + w.w + "definitions>")
	return []byte(b.String())
}

func (w *wWriter) noise() string {
	if w.Pct(85) {
		return ""
	}
	return w.Pick("<!-- <message name='no'/> -->", `<x:ext xmlns:x="urn:ext" name="no"><x:message name="no"/><x:service name="no"><x:port name="no"/></x:service></x:ext>`,
		`<x:ext xmlns:x="urn:ext"><x:part name="no" type="no"/><x:address location="no"/><x:binding verb="no"/><x:input message="no"/><x:output message="no"/><x:operation soapAction="no" name="no"/><x:documentation>no</x:documentation></x:ext>`, "\n\n", "<?pi message?>")
}

// decoy writes an element of another language that is called like something
// in the service.
func (w *wWriter) decoy() string {
	w.Observe("elements of other namespaces with the name of another", 1)
	x := w.m.Bindings[w.Intn(len(w.m.Bindings))]
	pt := w.m.PortTypes[w.Intn(len(w.m.PortTypes))]
	msg := w.m.Msgs[w.Intn(len(w.m.Msgs))]
	ns := w.Pick("urn:ext", "http://schemas.xmlsoap.org/wsdl", "http://www.w3.org/ns/wsdl", w.m.TNS)
	op := fmt.Sprintf(`<%[1]soperation name="decoy"><%[1]sinput%[2]s/><%[1]soutput%[2]s/></%[1]soperation>`, w.w, w.ref("message", w.tns(msg.Name), true))
	switch w.Intn(3) {
	case 0:
		return fmt.Sprintf(`<d:binding xmlns:d="%s" name="%s"%s><%sbinding verb="TRACE"/></d:binding>`, escapeAttr(ns), x.Name, w.ref("type", w.tns(pt.Name), false), w.prefix[httpURI]+":")
	case 1:
		return fmt.Sprintf(`<d:portType xmlns:d="%s" name="%s">%s</d:portType>`, escapeAttr(ns), pt.Name, op)
	}
	return fmt.Sprintf(`<d:message xmlns:d="%s" name="%s"><%spart name="decoy"%s/></d:message>`, escapeAttr(ns), msg.Name, w.w, w.ref("type", xml.Name{Space: schemagen.XS, Local: "string"}, true))
}

func (w *wWriter) doc(s string) string {
	return "<" + w.w + "documentation>" + s + "</" + w.w + "documentation>"
}

func (w *wWriter) docs(l []string) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(w.doc(s))
	}
	return b.String()
}

// ref writes an attribute that refers to a name. Leaf elements may declare
// the prefix on their own.
func (w *wWriter) ref(attr string, name xml.Name, leaf bool) string {
	if name.Space == "" {
		return fmt.Sprintf(` %s="%s"`, attr, name.Local)
	}
	p := w.prefix[name.Space]
	if leaf && w.Pct(25) {
		w.local++
		p = fmt.Sprintf("l%d", w.local%3)
		if w.Pct(40) {
			// Redeclare a prefix that means something else outside.
			if o := w.prefix[schemagen.XS]; o+":" != w.w {
				p = o
			}
		}
		as := []string{fmt.Sprintf(` xmlns:%s="%s"`, p, escapeAttr(name.Space)), fmt.Sprintf(` %s="%s:%s"`, attr, p, name.Local)}
		w.Shuffle(2, func(i, j int) { as[i], as[j] = as[j], as[i] })
		w.Observe("prefixes declared locally", 1)
		return as[0] + as[1]
	}
	if p != "" {
		p += ":"
	}
	return fmt.Sprintf(` %s="%s%s"`, attr, p, name.Local)
}

// name returns a name in a namespace, or else in the target namespace.
func (w *wWriter) name(local, space string) xml.Name {
	if space == "" {
		return w.tns(local)
	}
	w.Observe("names of other namespaces", 1)
	return xml.Name{Space: space, Local: local}
}

func (w *wWriter) tns(local string) xml.Name { return xml.Name{Space: w.m.TNS, Local: local} }

// attrs joins attributes in any order.
func (w *wWriter) attrs(as ...string) string {
	w.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return strings.Join(as, "")
}

func (w *wWriter) message(m *wMsg) string {
	var b strings.Builder
	fmt.Fprintf(&b, `<%smessage name="%s">`, w.w, m.Name)
	if w.Pct(20) {
		b.WriteString(w.doc("about the message"))
	}
	for _, p := range m.Parts {
		name := fmt.Sprintf(` name="%s"`, p.Name)
		ref := ""
		switch {
		case p.NoType.Local != "":
			ref = w.ref("type", p.NoType, true)
		case p.NoElem.Local != "":
			ref = w.ref("element", p.NoElem, true)
		case p.Elem != nil:
			ref = w.ref("element", xml.Name{Space: p.Elem.NS.URI, Local: p.Elem.Local}, true)
		case p.Ref.Type != nil:
			ref = w.ref("type", xml.Name{Space: p.Ref.Type.NS.URI, Local: p.Ref.Type.Local}, true)
		default:
			ref = w.ref("type", p.Ref.Builtin.Name(), true)
		}
		fmt.Fprintf(&b, "<%spart%s/>", w.w, w.attrs(name, ref))
		b.WriteString(w.noise())
	}
	return b.String() + "</" + w.w + "message>"
}

func (w *wWriter) portType(p *wPortType) string {
	var b strings.Builder
	fmt.Fprintf(&b, `<%sportType name="%s">`, w.w, p.Name)
	if w.Pct(20) {
		b.WriteString(w.doc("about the port type"))
	}
	for _, op := range p.Ops {
		fmt.Fprintf(&b, `<%soperation name="%s"`, w.w, op.Name)
		if w.Pct(20) {
			b.WriteString(` parameterOrder="a b"`)
		}
		b.WriteString(">")
		b.WriteString(w.docs(op.Docs))
		io := func(kind string, m *wMsg, space string) {
			as := []string{w.ref("message", w.name(m.Name, space), true)}
			if w.Pct(30) {
				as = append(as, ` name="n"`)
			}
			fmt.Fprintf(&b, "<%s%s%s/>", w.w, kind, w.attrs(as...))
		}
		io("input", op.In, op.InSpace)
		b.WriteString(w.noise())
		if op.Out != nil {
			io("output", op.Out, op.OutSpace)
		}
		if w.Pct(25) {
			fmt.Fprintf(&b, `<%sfault name="f"%s/>`, w.w, w.ref("message", w.tns("Failure"), true))
		}
		fmt.Fprintf(&b, "</%soperation>", w.w)
	}
	return b.String() + "</" + w.w + "portType>"
}

func (w *wWriter) binding(x *wBinding) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<%sbinding%s>", w.w, w.attrs(fmt.Sprintf(` name="%s"`, x.Name), w.ref("type", w.name(x.Type.Name, x.Space), false)))
	if w.Pct(20) {
		b.WriteString(w.doc("about the binding"))
	}
	uri := map[string]string{"soap": soapURI, "soap12": soap12URI, "http": httpURI}[x.Kind]
	p := w.prefix[uri] + ":"
	switch {
	case x.Kind != "http":
		fmt.Fprintf(&b, `<%sbinding style="%s" transport="http://schemas.xmlsoap.org/soap/http"/>`, p, w.Pick("rpc", "document"))
	case x.Verb == "":
		fmt.Fprintf(&b, `<%sbinding/>`, p)
	default:
		fmt.Fprintf(&b, `<%sbinding verb="%s"/>`, p, x.Verb)
	}
	ops := append([]*wOp(nil), x.Type.Ops...)
	w.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, op := range ops {
		b.WriteString(w.noise())
		if w.Pct(5) {
			fmt.Fprintf(&b, `<x:operation xmlns:x="urn:ext" name="%s"><%soperation soapAction="no"/></x:operation>`, op.Name, p)
		}
		action, ok := x.Actions[op]
		if !ok && w.Pct(30) {
			continue
		}
		fmt.Fprintf(&b, `<%soperation name="%s">`, w.w, op.Name)
		if w.Pct(20) {
			b.WriteString(w.doc("about the operation of the binding"))
		}
		switch {
		case ok:
			fmt.Fprintf(&b, `<%soperation%s/>`, p, w.attrs(fmt.Sprintf(` soapAction="%s"`, escapeAttr(action)), ` style="document"`))
		case x.Kind == "http":
			fmt.Fprintf(&b, `<%soperation location="/%s"/>`, p, op.Name)
		}
		if x.Kind != "http" {
			fmt.Fprintf(&b, `<%sinput><%sbody use="literal"/></%sinput>`, w.w, p, w.w)
			if w.Pct(20) {
				fmt.Fprintf(&b, `<%soutput name="n"><%sheader%s part="a" use="literal"/><%sbody use="literal"/></%soutput>`, w.w, p, w.ref("message", w.tns("no"), true), p, w.w)
			}
		}
		fmt.Fprintf(&b, "</%soperation>", w.w)
	}
	return b.String() + "</" + w.w + "binding>"
}

func (w *wWriter) service(s *wService) string {
	var b strings.Builder
	fmt.Fprintf(&b, `<%sservice name="%s">`, w.w, s.Name)
	b.WriteString(w.docs(s.Docs))
	for _, p := range s.Ports {
		name := p.Nowhere
		kind := "soap"
		if p.Binding != nil {
			name, kind = w.tns(p.Binding.Name), p.Binding.Kind
		}
		fmt.Fprintf(&b, "<%sport%s>", w.w, w.attrs(fmt.Sprintf(` name="%s"`, p.Name), w.ref("binding", name, false)))
		if w.Pct(15) {
			b.WriteString(w.doc("about the port"))
		}
		b.WriteString(w.noise())
		uri := map[string]string{"soap": soapURI, "soap12": soap12URI, "http": httpURI}[kind]
		fmt.Fprintf(&b, `<%s:address location="%s"/>`, w.prefix[uri], escapeAttr(p.Address))
		fmt.Fprintf(&b, "</%sport>", w.w)
		b.WriteString(w.noise())
	}
	return b.String() + "</" + w.w + "service>"
}
