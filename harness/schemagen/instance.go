package schemagen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	"aqwari.net/xml/xsd"
)

// An Inst is an element of an instance document.
type Inst struct {
	Name  xml.Name
	Type  Ref
	Attrs []InstAttr
	Kids  []*Inst
	Text  string
	// The element has character data only.
	Leaf bool
}

// An InstAttr is an attribute of an instance document.
type InstAttr struct {
	Name  xml.Name // Space is empty for unqualified attributes
	Type  Ref
	Value string
}

// Instances makes instance documents.
type Instances struct {
	*rand.Rand
	// Attributes and optional elements are present with this probability.
	Present int
	Pad     bool
	// Where the Go types can tell zero values from absence, values are zero
	// with this probability.
	Zero  int
	Zeros int
	// Nodes is the number of elements that were made.
	Nodes  int
	budget int
}

var errDeep = fmt.Errorf("no finite instance")

// Make makes an instance of a type. It fails if none of reasonable size exists.
func (g *Instances) Make(name xml.Name, r Ref) (*Inst, error) {
	g.budget = 400
	return g.elem(name, r, 0)
}

// BaseOf is the complex type that a complex type is derived from, or nil.
func BaseOf(t *Type) *Type {
	if b := t.Base.Type; b != nil && !b.Simple {
		return b
	}
	return nil
}

// TextType is the type of the character data of a type with simple content.
func TextType(t *Type) Ref {
	for BaseOf(t) != nil {
		t = BaseOf(t)
	}
	return t.Base
}

// AllAttributes lists the attributes of a type, inherited ones included.
func AllAttributes(t *Type) []XAttr {
	var out []XAttr
	seen := map[string]bool{}
	for ; t != nil; t = BaseOf(t) {
		for _, a := range Attributes(t.Attrs, t.NS) {
			if !seen[a.Name.Local] {
				seen[a.Name.Local] = true
				out = append(out, a)
			}
		}
	}
	return out
}

// AttrName is the name of an attribute in documents.
func AttrName(a XAttr) xml.Name {
	if a.Qualified || a.XML {
		return a.Name
	}
	return xml.Name{Local: a.Name.Local}
}

// LeafValue makes a lexical form for a simple type.
func LeafValue(r *rand.Rand, ref Ref, pad bool) string {
	b, list, union := Primitive(ref)
	if union {
		// Any member will do.
		var m Ref
		for t := ref; ; t = t.Type.Base {
			if t.Type.Union {
				m = t.Type.Members[r.Intn(len(t.Type.Members))]
				break
			}
		}
		b, list, union = Primitive(m)
		if union {
			b, list = xsd.String, false
		}
		pad = false
	}
	if list {
		return ListText(r, b)
	}
	return Lexical(r, b, pad)
}

func isLeaf(r Ref) bool { return r.Type == nil || r.Type.Simple }

func (g *Instances) elem(name xml.Name, r Ref, depth int) (*Inst, error) {
	g.Nodes++
	g.budget--
	if depth > 14 || g.budget < 0 {
		return nil, errDeep
	}
	e := &Inst{Name: name, Type: r}
	if isLeaf(r) {
		e.Leaf = true
		e.Text = LeafValue(g.Rand, r, g.Pad)
		return e, nil
	}
	t := r.Type
	for _, a := range AllAttributes(t) {
		if a.Optional && g.Intn(100) >= g.Present {
			continue
		}
		ref := a.Type
		if a.XML {
			ref = B(xsd.XMLLang)
		}
		v := LeafValue(g.Rand, ref, g.Pad)
		if !a.Optional && g.Intn(100) < g.Zero {
			if z, ok := ZeroLexical(g.Rand, ref); ok {
				v = z
				g.Zeros++
			}
		}
		e.Attrs = append(e.Attrs, InstAttr{Name: AttrName(a), Type: ref, Value: v})
	}
	if t.SimpleContent {
		e.Leaf = true
		e.Text = LeafValue(g.Rand, TextType(t), g.Pad)
		return e, nil
	}
	var err error
	e.Kids, err = g.content(t, depth)
	for _, k := range e.Kids {
		if g.Intn(100) < g.Zero && isLeaf(k.Type) && keepsZero(t, k.Name) {
			if z, ok := ZeroLexical(g.Rand, k.Type); ok {
				k.Text = z
				g.Zeros++
			}
		}
	}
	return e, err
}

// keepsZero tells if a field holds zero values: optional fields that do not
// repeat have the zero value when the element is absent.
func keepsZero(t *Type, name xml.Name) bool {
	for ; t != nil; t = BaseOf(t) {
		for _, x := range Elements(t.Content, t.NS) {
			if !x.Wildcard && x.Name == name && !x.Plural && (x.Optional || x.Nillable) {
				return false
			}
		}
	}
	return true
}

func (g *Instances) content(t *Type, depth int) ([]*Inst, error) {
	var kids []*Inst
	if b := BaseOf(t); b != nil && t.Extends {
		k, err := g.content(b, depth)
		if err != nil {
			return nil, err
		}
		kids = k
	}
	k, err := g.particle(t.Content, depth)
	return append(kids, k...), err
}

func (g *Instances) particle(p *Particle, depth int) ([]*Inst, error) {
	if p == nil || p.Kind == Any {
		return nil, nil
	}
	max := p.Max
	if max < 0 || max > p.Min+3 {
		max = p.Min + 3
	}
	n := p.Min
	if max > p.Min {
		switch {
		case depth > 4 || g.Intn(100) >= g.Present:
		default:
			n = p.Min + 1 + g.Intn(max-p.Min)
		}
	}
	var out []*Inst
	for ; n > 0; n-- {
		q := p
		if p.Kind == GroupRef {
			c := *p.Group.Content
			q = &c
		}
		switch q.Kind {
		case Element:
			d := q.Elem
			if d.Ref != nil {
				d = d.Ref
			}
			e, err := g.elem(xml.Name{Space: d.NS.URI, Local: d.Local}, d.Type, depth+1)
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		case Choice:
			if len(q.Parts) == 0 {
				continue
			}
			k, err := g.particle(q.Parts[g.Intn(len(q.Parts))], depth)
			if err != nil {
				return nil, err
			}
			out = append(out, k...)
		default:
			parts := append([]*Particle(nil), q.Parts...)
			if q.Kind == All {
				g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			}
			for _, s := range parts {
				k, err := g.particle(s, depth)
				if err != nil {
					return nil, err
				}
				out = append(out, k...)
			}
		}
	}
	return out, nil
}

// Write writes an instance as a document.
func (g *Instances) Write(e *Inst) []byte {
	var b bytes.Buffer
	if g.Intn(3) == 0 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	g.write(&b, e, map[string]string{}, "", 0)
	return b.Bytes()
}

func escapeText(s string, attr bool) string {
	s = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
	if attr {
		s = strings.NewReplacer(`"`, "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
	}
	return s
}

// write prints an element; env maps the prefixes in scope to namespaces, def is
// the default namespace.
func (g *Instances) write(b *bytes.Buffer, e *Inst, env map[string]string, def string, depth int) {
	if len(e.Kids) > 0 || depth == 0 {
		c := map[string]string{}
		for k, v := range env {
			c[k] = v
		}
		env = c
	}
	var decl []string
	prefix := func(ns string) string {
		var have []string
		for p, u := range env {
			if u == ns {
				have = append(have, p)
			}
		}
		if len(have) > 0 {
			sort.Strings(have)
			return have[g.Intn(len(have))]
		}
		p := fmt.Sprintf("%c%d", 'n'+rune(g.Intn(3)), len(env)+g.Intn(3)*10)
		for env[p] != "" {
			p += "x"
		}
		c := map[string]string{p: ns}
		for k, v := range env {
			c[k] = v
		}
		env = c
		decl = append(decl, fmt.Sprintf(` xmlns:%s="%s"`, p, escapeText(ns, true)))
		return p
	}
	name := e.Name.Local
	switch {
	case e.Name.Space == def:
	case e.Name.Space == "" || g.Intn(3) == 0:
		def = e.Name.Space
		decl = append(decl, fmt.Sprintf(` xmlns="%s"`, escapeText(def, true)))
	default:
		name = prefix(e.Name.Space) + ":" + name
	}
	var attrs []string
	for _, a := range e.Attrs {
		n := a.Name.Local
		switch a.Name.Space {
		case "":
		case XMLNS:
			n = "xml:" + n
		default:
			n = prefix(a.Name.Space) + ":" + n
		}
		attrs = append(attrs, fmt.Sprintf(` %s="%s"`, n, escapeText(a.Value, true)))
	}
	g.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	b.WriteString("<" + name + strings.Join(append(decl, attrs...), ""))
	switch {
	case e.Leaf:
		b.WriteString(">")
		if t := escapeText(e.Text, false); g.Intn(10) == 0 && !strings.Contains(e.Text, "]]>") && e.Text != "" {
			b.WriteString("<![CDATA[" + e.Text + "]]>")
		} else {
			b.WriteString(t)
		}
		b.WriteString("</" + name + ">")
	case len(e.Kids) == 0 && g.Intn(2) == 0:
		b.WriteString("/>")
	default:
		b.WriteString(">")
		for _, k := range e.Kids {
			switch g.Intn(8) {
			case 0:
				b.WriteString("\n" + strings.Repeat("  ", depth+1))
			case 1:
				b.WriteString("<!-- a <comment> -->")
			}
			g.write(b, k, env, def, depth+1)
		}
		b.WriteString("</" + name + ">")
	}
}

// A Node is an element of a parsed document.
type Node struct {
	Name  xml.Name
	Attrs []xml.Attr
	Kids  []*Node
	Text  string
	NS    map[string]string // declared here
}

// ParseNode reads a document with the standard decoder.
func ParseNode(doc []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	root := &Node{}
	stack := []*Node{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &Node{Name: tok.Name}
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					if n.NS == nil {
						n.NS = map[string]string{}
					}
					n.NS[strings.TrimPrefix(a.Name.Local, "xmlns")] = a.Value
					continue
				}
				if a.Name.Space == "xml" {
					a.Name.Space = XMLNS
				}
				n.Attrs = append(n.Attrs, a)
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(tok)
		}
	}
	if len(root.Kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.Kids))
	}
	return root.Kids[0], nil
}

// A Match compares instances with documents.
type Match struct {
	// Empty elements that stand for absent optional elements with complex
	// type, see the known findings of G03.
	Phantoms int
	Values   int
	// Elements that were compared for their order
	Ordered int
	// Types that consist of a wildcard that repeats are slices (option
	// SOAPArrayAsSlice).
	Slices bool
}

// WildcardOnly tells if a complex type has a wildcard that repeats and nothing
// else.
func WildcardOnly(t *Type) bool {
	if t == nil || t.Simple || len(AllAttributes(t)) > 0 {
		return false
	}
	plural := false
	for ; t != nil; t = BaseOf(t) {
		for _, x := range Elements(t.Content, t.NS) {
			if !x.Wildcard {
				return false
			}
			plural = plural || x.Plural
		}
	}
	return plural
}

func sameValue(r Ref, want, got string) string {
	b, list, union := Primitive(r)
	if union {
		if want != got {
			return fmt.Sprintf("value %q, want %q", got, want)
		}
		return ""
	}
	w, err := Value(b, list, want)
	if err != nil {
		return fmt.Sprintf("HARNESS: generated invalid %v %q: %v", b, want, err)
	}
	v, err := Value(b, list, got)
	if err != nil {
		return fmt.Sprintf("value %q of type %v: %v (want %q)", got, b, err, want)
	}
	if w != v {
		return fmt.Sprintf("value %q of type %v (list %v) denotes %s, want %q, %s", got, b, list, v, want, w)
	}
	return ""
}

// Document compares an instance with a document that should hold the same
// elements, attributes and values, but for the order of elements with different
// names.
func (m *Match) Document(e *Inst, n *Node) string {
	return m.document(e, n, "/"+e.Name.Local)
}

func (m *Match) document(e *Inst, n *Node, path string) string {
	if e.Name != n.Name {
		return fmt.Sprintf("%s: element %v, want %v", path, n.Name, e.Name)
	}
	got := map[xml.Name]string{}
	for _, a := range n.Attrs {
		if _, dup := got[a.Name]; dup {
			return fmt.Sprintf("%s: attribute %v twice", path, a.Name)
		}
		got[a.Name] = a.Value
	}
	for _, a := range e.Attrs {
		v, ok := got[a.Name]
		if !ok {
			return fmt.Sprintf("%s: attribute %v=%q is missing", path, a.Name, a.Value)
		}
		delete(got, a.Name)
		m.Values++
		if d := sameValue(a.Type, a.Value, v); d != "" {
			return fmt.Sprintf("%s: attribute %v: %s", path, a.Name, d)
		}
	}
	if m.Slices && WildcardOnly(e.Type.Type) {
		delete(got, xml.Name{Space: wsdlSpace, Local: "arrayType"})
	}
	for a, v := range got {
		return fmt.Sprintf("%s: unexpected attribute %v=%q", path, a, v)
	}
	if e.Leaf {
		r := e.Type
		if r.Type != nil && !r.Type.Simple {
			r = TextType(r.Type)
		}
		if len(n.Kids) > 0 {
			return fmt.Sprintf("%s: unexpected element %v", path, n.Kids[0].Name)
		}
		m.Values++
		if d := sameValue(r, e.Text, n.Text); d != "" {
			return path + ": " + d
		}
		return ""
	}
	want := map[xml.Name][]*Inst{}
	have := map[xml.Name][]*Node{}
	for _, k := range e.Kids {
		want[k.Name] = append(want[k.Name], k)
	}
	for _, k := range n.Kids {
		have[k.Name] = append(have[k.Name], k)
	}
	for _, k := range e.Kids {
		w, h := want[k.Name], have[k.Name]
		if w == nil {
			continue
		}
		delete(want, k.Name)
		delete(have, k.Name)
		if m.Slices && len(w) == 1 && len(h) == 0 && WildcardOnly(k.Type.Type) && !keepsZero(e.Type.Type, k.Name) {
			// The Go type is an empty slice; what wildcards match is not kept.
			continue
		}
		if len(w) != len(h) {
			return fmt.Sprintf("%s: %d elements %v, want %d", path, len(h), k.Name, len(w))
		}
		for i := range w {
			if d := m.document(w[i], h[i], fmt.Sprintf("%s/%s[%d]", path, k.Name.Local, i)); d != "" {
				return d
			}
		}
	}
	if d := m.order(e, n); d != "" {
		return path + ": " + d
	}
	for name, h := range have {
		if len(h) == 1 && isPhantom(e.Type.Type, h[0]) {
			m.Phantoms++
			continue
		}
		return fmt.Sprintf("%s: unexpected element %v", path, name)
	}
	return ""
}

// orderly tells if a content model fixes the order of elements.
func orderly(p *Particle) bool {
	switch {
	case p == nil || p.Kind == Any || p.Kind == Element:
		return true
	case p.Max != 1 || p.Kind == All:
		return false
	case p.Kind == GroupRef:
		return orderly(p.Group.Content)
	}
	for _, q := range p.Parts {
		if !orderly(q) {
			return false
		}
	}
	return true
}

// order compares the order of elements. Those that are not encoded by a type of
// their own, but by one for a built-in, come after the others, see the known
// findings.
func (m *Match) order(e *Inst, n *Node) string {
	for t := e.Type.Type; t != nil; t = BaseOf(t) {
		if !orderly(t.Content) {
			return ""
		}
	}
	class := map[xml.Name]int{}
	for _, k := range e.Kids {
		class[k.Name] = 1
		switch t := k.Type.Type; {
		case t == nil && helped(k.Type.Builtin):
			class[k.Name] = 2
		case t != nil && (t.Local == "" && t.Simple || t.SimpleContent):
			class[k.Name] = 3
		}
	}
	for c := 1; c <= 2; c++ {
		var want, have []xml.Name
		for _, k := range e.Kids {
			if class[k.Name] == c {
				want = append(want, k.Name)
			}
		}
		for _, k := range n.Kids {
			if class[k.Name] == c {
				have = append(have, k.Name)
			}
		}
		m.Ordered += len(want)
		for i := range want {
			// The same elements are there, but for absent ones of
			// the known findings.
			if len(have) == len(want) && have[i] != want[i] {
				return fmt.Sprintf("element %v comes before element %v", have[i], want[i])
			}
		}
	}
	return ""
}

// helped tells if the Go type of a built-in does not encode itself.
func helped(b xsd.Builtin) bool {
	if IsListBuiltin(b) {
		return true
	}
	switch GoType(b) {
	case "time.Time", "[]byte":
		return true
	}
	return false
}

const wsdlSpace = "http://schemas.xmlsoap.org/wsdl/"

// isPhantom tells if n stands for an absent element: it is optional and has
// a complex type, and there is no value inside.
func isPhantom(t *Type, n *Node) bool {
	for ; t != nil; t = BaseOf(t) {
		for _, x := range Elements(t.Content, t.NS) {
			if x.Name == n.Name && !x.Wildcard && !x.Plural && x.Optional && x.Type.Type != nil && !x.Type.Type.Simple {
				return zeroNode(n)
			}
		}
	}
	return false
}

func zeroText(s string) bool {
	switch s {
	case "", "0", "false", "0001-01-01Z", "0001-01-01T00:00:00Z", "---01Z", "--01Z", "--01-01Z", "0001Z", "0001-01Z", "00:00:00Z":
		return true
	}
	return false
}

func zeroNode(n *Node) bool {
	if !zeroText(n.Text) {
		return false
	}
	for _, a := range n.Attrs {
		if a.Name.Space == wsdlSpace && a.Name.Local == "arrayType" {
			continue // of an empty slice
		}
		if !zeroText(a.Value) {
			return false
		}
	}
	for _, k := range n.Kids {
		if !zeroNode(k) {
			return false
		}
	}
	return true
}

// GoValue compares an instance with the Go value that it was decoded to, in
// the form printed by the driver: structs are maps from "a ", "e " or "t" and
// the name in the field tag to values; slices and lists are lists, other values
// are strings in the form of Value.
func (m *Match) GoValue(e *Inst, v interface{}) string {
	return m.goValue(e, v, "/"+e.Name.Local)
}

func (m *Match) leaf(r Ref, text string, v interface{}, path string) string {
	m.Values++
	b, list, union := Primitive(r)
	want := text
	if !union {
		w, err := Value(b, list, text)
		if err != nil {
			return fmt.Sprintf("HARNESS: %s: generated invalid %v %q", path, b, text)
		}
		want = w
	}
	var got string
	switch v := v.(type) {
	case string:
		got = v
	case []interface{}:
		var l []string
		for _, s := range v {
			s, ok := s.(string)
			if !ok {
				return fmt.Sprintf("%s: %v for text %q", path, v, text)
			}
			l = append(l, s)
		}
		got = fmt.Sprintf("%q", l)
	default:
		return fmt.Sprintf("%s: Go value %v for text %q", path, v, text)
	}
	if got != want {
		return fmt.Sprintf("%s: Go value %s, but the text %q of type %v (list %v) denotes %s", path, got, text, b, list, want)
	}
	return ""
}

func isZero(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return true
	case string:
		return zeroText(v) || strings.HasPrefix(v, "0001-01-01T00:00:00Z 0")
	case []interface{}:
		return len(v) == 0
	case map[string]interface{}:
		for _, f := range v {
			if !isZero(f) {
				return false
			}
		}
		return true
	}
	return false
}

func isList(r Ref) bool {
	b, list, union := Primitive(r)
	return !union && (list || IsListBuiltin(b))
}

func (m *Match) goValue(e *Inst, v interface{}, path string) string {
	fields, ok := v.(map[string]interface{})
	if isLeaf(e.Type) {
		return m.leaf(e.Type, e.Text, v, path)
	}
	if m.Slices && !ok && isZero(v) && WildcardOnly(e.Type.Type) {
		return ""
	}
	if !ok {
		if len(e.Attrs) == 0 && e.Leaf {
			// A type without attributes is its character data.
			return m.leaf(TextType(e.Type.Type), e.Text, v, path)
		}
		return fmt.Sprintf("%s: Go value %v for an element with complex type", path, v)
	}
	used := map[string]bool{}
	for _, a := range e.Attrs {
		key := "a " + a.Name.Local
		if a.Name.Space != "" {
			key = "a " + a.Name.Space + " " + a.Name.Local
		}
		f, ok := fields[key]
		if !ok {
			return fmt.Sprintf("%s: no field for attribute %v", path, a.Name)
		}
		used[key] = true
		if d := m.leaf(a.Type, a.Value, f, path+"/@"+a.Name.Local); d != "" {
			return d
		}
	}
	if e.Leaf {
		f, ok := fields["t"]
		if !ok {
			return fmt.Sprintf("%s: no field for character data", path)
		}
		used["t"] = true
		if d := m.leaf(TextType(e.Type.Type), e.Text, f, path); d != "" {
			return d
		}
	}
	groups := map[string][]*Inst{}
	var order []string
	for _, k := range e.Kids {
		key := "e " + k.Name.Space + " " + k.Name.Local
		if groups[key] == nil {
			order = append(order, key)
		}
		groups[key] = append(groups[key], k)
	}
	for _, key := range order {
		f, ok := fields[key]
		kids := groups[key]
		if !ok {
			return fmt.Sprintf("%s: no field for element %v", path, kids[0].Name)
		}
		used[key] = true
		l, plural := f.([]interface{})
		if k := kids[0]; plural && isLeaf(k.Type) && isList(k.Type) {
			plural = len(l) == 0 && (len(kids) > 1 || strings.TrimSpace(k.Text) != "")
			if len(l) > 0 {
				_, plural = l[0].([]interface{})
			}
		} else if t := k.Type.Type; plural && t != nil && t.SimpleContent && isList(TextType(t)) && len(l) > 0 {
			// A list without attributes
			if _, flat := l[0].(string); flat {
				plural = false
			}
		} else if plural && m.Slices && len(l) == 0 && WildcardOnly(t) {
			// A single slice
			plural = false
		}
		if !plural {
			l = []interface{}{f}
		}
		if len(l) != len(kids) {
			return fmt.Sprintf("%s: %d values for %d elements %v", path, len(l), len(kids), kids[0].Name)
		}
		for i, k := range kids {
			if d := m.goValue(k, l[i], fmt.Sprintf("%s/%s[%d]", path, k.Name.Local, i)); d != "" {
				return d
			}
		}
	}
	for key, f := range fields {
		if !used[key] && !isZero(f) {
			return fmt.Sprintf("%s: field %s is %v, nothing in the document says so", path, key, f)
		}
	}
	return ""
}
