package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"strings"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

const (
	soapEnc = "http://schemas.xmlsoap.org/soap/encoding/"
	wsdlNS  = "http://schemas.xmlsoap.org/wsdl/"
)

func init() {
	register(&core.Prop{ID: "G09", Quick: 48, Thorough: 1000, Run: runG09, MemMB: -1, CPU: 120,
		Rule: "the Go type of each SOAP array is a slice of (or a struct with a slice of) its item type; documents with items decode to their values in order and encode to the same values in order, with the type of the items; the code for other types is that generated without the options",
		Need: map[string]int{"arrays compared": 1500, "array documents": 6000, "items": 15000, "unaffected types": 800, "arrays of arrays": 100, "arrays of dates, times or binary values": 150, "arrays of structs": 200},
		Known: map[string]func() (string, bool){"item-error": func() (string, bool) {
			return "an item that cannot be decoded is dropped from the slice, without an error", probeItemError()
		}},
	})
}

// A soapArray is an array declaration.
type soapArray struct {
	name  string
	item  schemagen.Ref // unless of is set
	of    *soapArray
	xml   xml.Name // of the item type
	plain bool
}

// A soapSchema is a schema with array declarations.
type soapSchema struct {
	ns     *schemagen.Namespace
	doc    []byte
	arrays []*soapArray
	others []string // XML names of other complex types
}

func newSoapSchema(c *core.Case) *soapSchema {
	ns := &schemagen.Namespace{URI: c.Pick("urn:arr", "http://example.org/arrays/", "tns")}
	s := &soapSchema{ns: ns}
	xs, enc, wsdl, tns := c.Pick("xs", "xsd", "s"), c.Pick("soapenc", "SOAP-ENC", "e"), c.Pick("wsdl", "w"), c.Pick("tns", "t")
	var b bytes.Buffer
	fmt.Fprintf(&b, `<%s:schema xmlns:%s="%s" xmlns:%s="%s" xmlns:%s="%s" xmlns:%s="%s" targetNamespace="%s" elementFormDefault="qualified">`+"\n",
		xs, xs, schemagen.XS, enc, soapEnc, wsdl, wsdlNS, tns, ns.URI, ns.URI)
	elem := func(local string, r schemagen.Ref, min, max int) *schemagen.Particle {
		return &schemagen.Particle{Kind: schemagen.Element, Min: min, Max: max, Elem: &schemagen.Elem{NS: ns, Local: local, Type: r}}
	}
	seq := func(p ...*schemagen.Particle) *schemagen.Particle {
		return &schemagen.Particle{Kind: schemagen.Sequence, Min: 1, Max: 1, Parts: p}
	}
	color := &schemagen.Type{NS: ns, Local: "Color", Simple: true, Base: schemagen.B(xsd.String), Facets: []schemagen.Facet{{Name: "enumeration", Value: "red"}, {Name: "enumeration", Value: "x"}}}
	day := &schemagen.Type{NS: ns, Local: "Day", Simple: true, Base: schemagen.B(xsd.Date)}
	point := &schemagen.Type{NS: ns, Local: "Point", Base: schemagen.B(xsd.AnyType)}
	point.Content = seq(elem("x", schemagen.B(xsd.Int), 1, 1), elem("y", schemagen.B(xsd.Double), 1, 1), elem("when", schemagen.B(xsd.DateTime), 1, 1))
	point.Attrs = []schemagen.AttrItem{{Attr: &schemagen.Attr{NS: ns, Local: "label", Type: schemagen.B(xsd.String), Use: "required"}, Host: ns}}
	ns.Types = []*schemagen.Type{color, day, point}
	fmt.Fprintf(&b, `<%[1]s:simpleType name="Color"><%[1]s:restriction base="%[1]s:string"><%[1]s:enumeration value="red"/><%[1]s:enumeration value="x"/></%[1]s:restriction></%[1]s:simpleType>
<%[1]s:simpleType name="Day"><%[1]s:restriction base="%[1]s:date"/></%[1]s:simpleType>
<%[1]s:complexType name="Point"><%[1]s:sequence><%[1]s:element name="x" type="%[1]s:int"/><%[1]s:element name="y" type="%[1]s:double"/><%[1]s:element name="when" type="%[1]s:dateTime"/></%[1]s:sequence><%[1]s:attribute name="label" type="%[1]s:string" use="required"/></%[1]s:complexType>
<%[1]s:complexType name="Many"><%[1]s:sequence><%[1]s:element name="p" type="%[2]s:Point" maxOccurs="unbounded"/></%[1]s:sequence></%[1]s:complexType>
<%[1]s:complexType name="Holder"><%[1]s:sequence><%[1]s:element name="a" type="%[2]s:Arr0" minOccurs="0"/><%[1]s:element name="d" type="%[1]s:date"/></%[1]s:sequence></%[1]s:complexType>
`, xs, tns)
	// Not an array of a certain type
	loose := fmt.Sprintf(`<%[1]s:complexType name="Loose"><%[1]s:complexContent><%[1]s:%[3]s base="%[2]s:Array"><%[1]s:attribute name="more" type="%[1]s:int"/></%[1]s:%[3]s></%[1]s:complexContent></%[1]s:complexType>`+"\n", xs, enc, c.Pick("restriction", "extension"))
	if c.Pct(50) {
		b.WriteString(loose)
	}
	s.others = []string{"Color", "Day", "Point", "Many", "Holder", "Loose"}
	n := 3 + c.Intn(6)
	for i := 0; i < n; i++ {
		a := &soapArray{name: fmt.Sprintf("Arr%d", i)}
		var q string
		switch k := c.Intn(10); {
		case k < 1:
			a.item, q = schemagen.Ref{Type: color}, tns+":Color"
		case k < 2:
			a.item, q = schemagen.Ref{Type: day}, tns+":Day"
		case k < 4:
			a.item, q = schemagen.Ref{Type: point}, tns+":Point"
			c.Observe("arrays of structs", 1)
		case k < 5 && i > 0:
			a.of = s.arrays[c.Intn(i)]
			q = tns + ":" + a.of.name
			c.Observe("arrays of arrays", 1)
		default:
			t := schemagen.AllBuiltins[c.Intn(len(schemagen.AllBuiltins))]
			if c.Pct(30) {
				t = []xsd.Builtin{xsd.Date, xsd.DateTime, xsd.Time, xsd.GYear, xsd.Base64Binary, xsd.HexBinary, xsd.NMTOKENS}[c.Intn(7)]
			}
			a.item, q = schemagen.B(t), xs+":"+t.Name().Local
			switch schemagen.GoType(t) {
			case "time.Time", "[]byte", "[]string":
				c.Observe("arrays of dates, times or binary values", 1)
			}
		}
		a.xml = xml.Name{Space: ns.URI, Local: q[strings.Index(q, ":")+1:]}
		if strings.HasPrefix(q, xs+":") {
			a.xml.Space = schemagen.XS
		}
		doc := ""
		if c.Pct(30) {
			doc = fmt.Sprintf("<%[1]s:annotation><%[1]s:documentation>An array.</%[1]s:documentation></%[1]s:annotation>", xs)
		}
		fmt.Fprintf(&b, `<%[1]s:complexType name="%[2]s">%[3]s<%[1]s:complexContent><%[1]s:restriction base="%[4]s:Array"><%[1]s:attribute ref="%[4]s:arrayType" %[5]s:arrayType="%[6]s%[7]s"/></%[1]s:restriction></%[1]s:complexContent></%[1]s:complexType>`+"\n",
			xs, a.name, doc, enc, wsdl, q, c.Pick("[]", "[]", "[]", "[4]", "[100]", "[,]", "[2,3]", "[] "))
		s.arrays = append(s.arrays, a)
	}
	if !bytes.Contains(b.Bytes(), []byte(loose)) {
		b.WriteString(loose)
	}
	fmt.Fprintf(&b, "</%s:schema>\n", xs)
	s.doc = b.Bytes()
	return s
}

// goArray compares the Go type of an array.
func (s *soapSchema) goArray(j *typeJudge, a *soapArray, t types.Type, slices bool) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() != a.name {
		return fmt.Sprintf("%s: Go type %v", a.name, t)
	}
	var item types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !slices {
			return a.name + " is a slice"
		}
		item = u.Elem()
	case *types.Struct:
		if slices {
			return a.name + " is a struct"
		}
		var attrs []string
		for i := 0; i < u.NumFields(); i++ {
			if tag := u.Tag(i); strings.Contains(tag, ",any") {
				sl, ok := u.Field(i).Type().(*types.Slice)
				if !ok {
					return fmt.Sprintf("%s: the items have type %v", a.name, u.Field(i).Type())
				}
				item = sl.Elem()
			} else {
				attrs = append(attrs, tag)
			}
		}
		if got := strings.Join(attrs, " "); got != `xml:"offset,attr,omitempty" xml:"id,attr,omitempty" xml:"href,attr,omitempty"` {
			return fmt.Sprintf("%s: other fields are %s", a.name, got)
		}
	}
	if item == nil {
		return fmt.Sprintf("%s: Go type %v", a.name, t.Underlying())
	}
	if a.of != nil {
		return s.goArray(j, a.of, item, slices)
	}
	return j.ref(a.item, item, a.name+" items")
}

// An arrayInst is an element with items.
type arrayInst struct {
	arr   *soapArray
	name  xml.Name
	items []*schemagen.Inst
	subs  []*arrayInst
}

func (s *soapSchema) instance(c *core.Case, g *schemagen.Instances, a *soapArray, name xml.Name, slices bool) *arrayInst {
	in := &arrayInst{arr: a, name: name}
	item := xml.Name{Local: c.Pick("item", "Item", "i", a.xml.Local)}
	for n := c.Intn(5); n > 0; n-- {
		if c.Pct(20) {
			item.Space = c.Pick("", s.ns.URI, "urn:other")
		}
		if a.of != nil {
			in.subs = append(in.subs, s.instance(c, g, a.of, item, slices))
			continue
		}
		e, err := g.Make(item, a.item)
		if err != nil {
			c.Fatal("%v", err)
		}
		if z, ok := schemagen.ZeroLexical(c.Rand, a.item); ok && e.Leaf && c.Pct(15) {
			e.Text = z
		}
		in.items = append(in.items, e)
	}
	return in
}

func (in *arrayInst) size() int { return len(in.items) + len(in.subs) }

// write prints the document; prefixes are declared on each element.
func (in *arrayInst) write(c *core.Case, g *schemagen.Instances, b *bytes.Buffer) {
	name, decl := in.name.Local, ""
	if in.name.Space != "" {
		name, decl = "p:"+name, fmt.Sprintf(` xmlns:p="%s"`, in.name.Space)
	}
	if c.Pct(60) {
		decl += fmt.Sprintf(` xmlns:q="%s" xmlns:enc="%s" enc:arrayType="q:%s[%d]"`, in.arr.xml.Space, soapEnc, in.arr.xml.Local, in.size())
	}
	fmt.Fprintf(b, "<%s%s>", name, decl)
	ws := func() {
		switch c.Intn(8) {
		case 0:
			b.WriteString("\n  ")
		case 1:
			b.WriteString("<!-- c -->")
		}
	}
	for _, e := range in.items {
		ws()
		doc := g.Write(e)
		if i := bytes.Index(doc, []byte("?>")); i >= 0 {
			doc = doc[i+2:]
		}
		b.Write(doc)
	}
	for _, sub := range in.subs {
		ws()
		sub.write(c, g, b)
	}
	ws()
	fmt.Fprintf(b, "</%s>", name)
}

// goValue compares the decoded value.
func (in *arrayInst) goValue(m *schemagen.Match, v interface{}, slices bool) string {
	if !slices {
		f, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: %v", in.arr.name, v)
		}
		v = f["any"]
	}
	l, ok := v.([]interface{})
	if !ok || len(l) != in.size() {
		return fmt.Sprintf("%s: %d items decoded to %v", in.arr.name, in.size(), v)
	}
	for i, e := range in.items {
		if d := m.GoValue(e, l[i]); d != "" {
			return fmt.Sprintf("%s: item %d: %s", in.arr.name, i, d)
		}
	}
	for i, sub := range in.subs {
		if d := sub.goValue(m, l[i], slices); d != "" {
			return fmt.Sprintf("%s: item %d: %s", in.arr.name, i, d)
		}
	}
	return ""
}

// document compares the encoded element.
func (in *arrayInst) document(m *schemagen.Match, n *schemagen.Node, slices bool) string {
	if len(n.Kids) != in.size() {
		return fmt.Sprintf("%s: %d items encoded to %d elements", in.arr.name, in.size(), len(n.Kids))
	}
	if slices {
		typ := xml.Name{}
		for _, a := range n.Attrs {
			if a.Name.Local == "arrayType" {
				if i := strings.Index(a.Value, ":"); i > 0 && strings.HasSuffix(a.Value, "[]") {
					typ = xml.Name{Space: n.NS[a.Value[:i]], Local: strings.TrimSuffix(a.Value[i+1:], "[]")}
				}
			}
		}
		want := in.arr.xml
		if t := in.arr.item.Type; t != nil && t.Simple && len(t.Facets) == 0 && typ != want {
			// Types that add nothing to a built-in are replaced by it.
			b, _, _ := schemagen.Primitive(in.arr.item)
			want = b.Name()
		}
		if typ != want {
			return fmt.Sprintf("%s: arrayType %v, want %v", in.arr.name, typ, want)
		}
	}
	for i, k := range n.Kids {
		if slices && k.Name.Local != "item" {
			return fmt.Sprintf("%s: item %d is called %v", in.arr.name, i, k.Name)
		}
		if in.subs != nil {
			if d := in.subs[i].document(m, k, slices); d != "" {
				return fmt.Sprintf("%s: item %d: %s", in.arr.name, i, d)
			}
			continue
		}
		e := *in.items[i]
		e.Name = k.Name
		if d := m.Document(&e, k); d != "" {
			return fmt.Sprintf("%s: item %d: %s", in.arr.name, i, d)
		}
	}
	return ""
}

// declText prints the declaration and the methods of a type.
func declText(src []byte, name string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return ""
	}
	var b bytes.Buffer
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.TYPE && d.Specs[0].(*ast.TypeSpec).Name.Name == name {
				printer.Fprint(&b, fset, d)
			}
		case *ast.FuncDecl:
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok && id.Name == name {
					b.WriteString("\n")
					printer.Fprint(&b, fset, d)
				}
			}
		}
	}
	return b.String()
}

func runG09(c *core.Case) {
	b := newBatch(c)
	defer b.remove()
	b.race = c.Idx%4 == 0
	type entry struct {
		s      *soapSchema
		name   string
		slices bool
		in     string
	}
	var list []entry
	for i := 0; i < 10; i++ {
		s := newSoapSchema(c)
		o := &optSet{pkg: "ws"}
		slices := true
		ignore := func() { o.add("IgnoreAttributes", xsdgen.IgnoreAttributes("offset", "id", "href")) }
		switch c.Intn(4) {
		case 0:
			o.add("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType())
			slices = false
		case 1:
			o.add("DefaultOptions", xsdgen.DefaultOptions...)
		case 2:
			o.add("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType())
			o.add("SOAPArrayAsSlice", xsdgen.SOAPArrayAsSlice())
			ignore()
		case 3:
			ignore()
			o.add("SOAPArrayAsSlice", xsdgen.SOAPArrayAsSlice())
			o.add("UseFieldNames", xsdgen.UseFieldNames())
			o.add("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType())
		}
		o.slices = slices
		file := writeFile(c, b.dir, fmt.Sprintf("s%d.xsd", i), s.doc)
		in := "options: " + o.String() + "\n" + string(s.doc)
		c.Ctx("%s", in)
		src, err := o.config().GenSource(file)
		c.Eval(1)
		if err != nil {
			c.Violate(in, "generation failed: %v", err)
			return
		}
		in += "\n\n" + string(src)
		pkg, _, d := checkFile(c, src, o.pkg)
		if d != "" {
			c.Violate(in, "%s", d)
			return
		}
		c.Sample("%s", in)
		c.Distinct(in)
		j := newJudge(c, pkg, o)
		var names []string
		for _, a := range s.arrays {
			obj := pkg.Scope().Lookup(a.name)
			if obj == nil {
				c.Violate(in, "there is no type %s", a.name)
				return
			}
			j.seen = map[*schemagen.Type]bool{}
			if d := s.goArray(j, a, obj.Type(), slices); d != "" {
				c.Violate(in, "%s", d)
				return
			}
			c.Observe("arrays compared", 1)
			names = append(names, a.name)
		}
		names = append(names, "Holder")
		// Other types
		cfg := new(xsdgen.Config)
		if o.opts != nil && !strings.HasPrefix(o.desc[0], "Handle") || len(o.opts) > 1 {
			cfg.Option(xsdgen.IgnoreAttributes("offset", "id", "href"))
		}
		plain, err := cfg.GenSource(file)
		if err != nil {
			c.Violate(in, "generation without options failed: %v", err)
			return
		}
		for _, n := range s.others {
			if got, want := declText(src, n), declText(plain, n); got != want {
				c.Violate(in, "the code for %s, which is not an array, differs from that without options:\n%s\n---\n%s", n, got, want)
				return
			}
			c.Observe("unaffected types", 1)
		}
		list = append(list, entry{s, b.add(c, src, o.pkg, names), slices, in})
	}
	if d := b.build(c, driverMain); d != "" {
		c.Violate("", "the generated packages do not compile: %s", d)
		return
	}
	var jobs []job
	var insts []*arrayInst
	var from []entry
	held := map[int]bool{} // jobs for Holder
	g := &schemagen.Instances{Rand: c.Rand, Pad: true, Present: 100, Zero: 10}
	for _, e := range list {
		for _, a := range e.s.arrays {
			for k := 0; k < 6; k++ {
				root := xml.Name{Space: e.s.ns.URI, Local: "root"}
				in := e.s.instance(c, g, a, root, e.slices)
				var doc bytes.Buffer
				in.write(c, g, &doc)
				if _, err := schemagen.ParseNode(doc.Bytes()); err != nil {
					c.Fatal("%v\n%s", err, doc.Bytes())
				}
				jobs = append(jobs, job{Type: e.name + "." + a.name, Doc: doc.String(), Root: [2]string{root.Space, root.Local}, ByValue: e.slices && c.Pct(50)})
				insts = append(insts, in)
				from = append(from, e)
			}
		}
		for k := 0; k < 4; k++ {
			// The array as a field
			in := e.s.instance(c, g, e.s.arrays[0], xml.Name{Space: e.s.ns.URI, Local: "a"}, e.slices)
			var doc bytes.Buffer
			fmt.Fprintf(&doc, `<root xmlns="%s">`, e.s.ns.URI)
			in.write(c, g, &doc)
			doc.WriteString("<d>2021-03-04</d></root>")
			held[len(jobs)] = true
			jobs = append(jobs, job{Type: e.name + ".Holder", Doc: doc.String(), Root: [2]string{e.s.ns.URI, "root"}})
			insts = append(insts, in)
			from = append(from, e)
		}
	}
	var out []jobResult
	if d := b.runDriver(c, jobs, &out, 120*time.Second); d != "" {
		c.Violate(list[0].in, "%s", d)
		return
	}
	for i, r := range out {
		c.Eval(1)
		c.Observe("array documents", 1)
		c.Observe("items", insts[i].size())
		judge := judgeArray
		if held[i] {
			judge = judgeHolder
		}
		if d := judge(insts[i], r, from[i].slices); d != "" {
			c.Violate(fmt.Sprintf("%s\n\n--- instance of %s\n%s\n--- encoded as\n%s\n", from[i].in, jobs[i].Type, jobs[i].Doc, r.Out), "%s: %s", jobs[i].Type, d)
			return
		}
	}
}

func judgeArray(in *arrayInst, r jobResult, slices bool) string {
	var m schemagen.Match
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Decode != "":
		return "decoding failed: " + r.Decode
	}
	if d := in.goValue(&m, r.Value, slices); d != "" {
		return "decoded: " + d
	}
	if r.Encode != "" {
		return "encoding failed: " + r.Encode
	}
	n, err := schemagen.ParseNode([]byte(r.Out))
	if err != nil {
		return "the encoded document is not well-formed: " + err.Error()
	}
	if d := in.document(&m, n, slices); d != "" {
		return "encoded: " + d
	}
	if r.Again != "" {
		return "decoding the encoded document failed: " + r.Again
	}
	if r.Shared != "" {
		return "decoding another document into the value changed a copy: " + r.Shared
	}
	if !r.Same {
		return "decoding the encoded document gives another value: " + r.Diff
	}
	return ""
}

// judgeHolder judges an array that is a field of a struct.
func judgeHolder(in *arrayInst, r jobResult, slices bool) string {
	if r.Panic+r.Decode+r.Encode+r.Again != "" {
		return r.Panic + r.Decode + r.Encode + r.Again
	}
	if r.Shared != "" {
		return "decoding another document into the value changed a copy: " + r.Shared
	}
	if !r.Same {
		return "decoding the encoded document gives another value: " + r.Diff
	}
	var m schemagen.Match
	f, ok := r.Value.(map[string]interface{})
	if !ok || f["e "+in.name.Space+" d"] != "2021-03-04T00:00:00Z 0" {
		return fmt.Sprintf("decoded to %v", r.Value)
	}
	if d := in.goValue(&m, f["e "+in.name.Space+" a"], slices); d != "" {
		return "decoded: " + d
	}
	n, err := schemagen.ParseNode([]byte(r.Out))
	if err != nil {
		return "the encoded document is not well-formed: " + err.Error()
	}
	for _, k := range n.Kids {
		if k.Name == in.name {
			if d := in.document(&m, k, slices); d != "" {
				return "encoded: " + d
			}
			return ""
		}
	}
	if in.size() > 0 {
		return "encoded without the array"
	}
	return ""
}

func probeItemError() bool {
	c := new(core.Case)
	b := newBatch(c)
	defer b.remove()
	schema := `<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:e="` + soapEnc + `" xmlns:w="` + wsdlNS + `" targetNamespace="urn:t">
<complexType name="Ints"><complexContent><restriction base="e:Array"><attribute ref="e:arrayType" w:arrayType="xs:int[]"/></restriction></complexContent></complexType></schema>`
	o := &optSet{}
	o.add("", xsdgen.DefaultOptions...)
	src, err := o.config().GenSource(writeFile(c, b.dir, "schema.xsd", []byte(schema)))
	if err != nil {
		return false
	}
	b.add(c, src, "ws", []string{"Ints"})
	if d := b.build(c, driverMain); d != "" {
		return false
	}
	var out []jobResult
	in := []job{{Type: "p0.Ints", Doc: `<w><item>1</item><item>two</item><item>3</item></w>`, Root: [2]string{"", "w"}}}
	if d := b.runDriver(c, in, &out, 60*time.Second); d != "" || len(out) != 1 {
		return false
	}
	return out[0].Decode == ""
}
