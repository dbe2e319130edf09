package schemagen

import (
	"encoding/xml"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"aqwari.net/xml/xsd"
)

// A View describes a type: what is seen of it, and the types it refers to. Types
// without a name of their own are compared by their description.
type View struct {
	Label string
	Edges []func() *View
	id    interface{}
}

func leaf(label string) *View { return &View{Label: label, id: label} }

// Diff compares two descriptions, which may be cyclic.
func Diff(a, b *View) string {
	seen := map[[2]interface{}]bool{}
	var cmp func(a, b *View, path string) string
	cmp = func(a, b *View, path string) string {
		if a.id != nil && b.id != nil {
			key := [2]interface{}{a.id, b.id}
			if seen[key] {
				return ""
			}
			seen[key] = true
		}
		if a.Label == "*" || b.Label == "*" {
			return ""
		}
		if a.Label != b.Label {
			return fmt.Sprintf("%s:\n  %s\n  %s", path, a.Label, b.Label)
		}
		if len(a.Edges) != len(b.Edges) {
			return fmt.Sprintf("%s: %d and %d types in %s", path, len(a.Edges), len(b.Edges), a.Label)
		}
		for i := range a.Edges {
			if d := cmp(a.Edges[i](), b.Edges[i](), fmt.Sprintf("%s/%d", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	return cmp(a, b, "")
}

// XElem is an element as it is expected to be reported.
type XElem struct {
	Doc      string
	Name     xml.Name
	Wildcard bool
	Type     Ref
	Abstract bool
	Plural   bool
	Optional bool
	Nillable bool
	Default  string
	// The declaration
	Decl *Elem
}

// XAttr is an attribute as it is expected to be reported.
type XAttr struct {
	Doc       string
	Name      xml.Name
	Qualified bool
	Type      Ref
	Default   string
	Optional  bool
	XML       bool
	Plural    bool // of a list type
	Decl      *Attr
}

func joinDocs(docs []string) string {
	var l []string
	for _, d := range docs {
		l = append(l, strings.TrimSpace(d))
	}
	return strings.TrimSpace(strings.Join(l, "\n\n"))
}

func typeNS(r Ref) string { return r.Type.NS.URI }

// elemView is the meaning of an element declaration in the content of a type.
func elemView(e *Elem, qualified bool) XElem {
	d := e
	if e.Ref != nil {
		d = e.Ref
	}
	x := XElem{Doc: joinDocs(d.Doc), Name: xml.Name{Space: d.NS.URI, Local: d.Local}, Type: d.Type, Abstract: d.Abstract, Nillable: d.Nillable, Default: d.Default, Decl: d}
	if e.Ref != nil {
		if e.SetDefault {
			x.Default = e.Default
		}
		if e.SetNillable {
			x.Nillable = e.Nillable
		}
	} else if !qualified && d.Type.Type != nil {
		// Known finding: the element takes the namespace of its type.
		x.Name.Space = typeNS(d.Type)
	}
	return x
}

func joinX(a, b XElem) XElem {
	if a.Doc != "" {
		a.Doc += "\n"
	}
	a.Doc += b.Doc
	a.Abstract = a.Abstract && b.Abstract
	a.Plural = a.Plural || b.Plural
	a.Optional = a.Optional || b.Optional
	a.Nillable = a.Nillable || b.Nillable
	if a.Default != b.Default {
		a.Default = ""
	}
	return a
}

// Elements lists the elements of a content model, in document order.
func Elements(p *Particle, host *Namespace) []XElem {
	l := particles(p, host, false)
	var out []XElem
	for _, e := range l {
		if e.Wildcard {
			out = append(out, e)
		}
	}
	for _, e := range l {
		if !e.Wildcard {
			out = append(out, e)
		}
	}
	return out
}

func particles(p *Particle, host *Namespace, qualified bool) []XElem {
	if p == nil {
		return nil
	}
	plural := p.Max < 0 || p.Max > 1 || p.Min > 1
	var out []XElem
	switch p.Kind {
	case Element:
		x := elemView(p.Elem, qualified)
		x.Plural = plural
		x.Optional = p.Min == 0 || x.Default != ""
		return []XElem{x}
	case Any:
		return []XElem{{Wildcard: true, Plural: plural, Type: B(xsd.AnyType)}}
	case GroupRef:
		q := *p.Group.Content
		q.Min, q.Max = p.Min, p.Max
		return particles(&q, p.Group.NS, qualified || p.Group.NS != host)
	}
	for _, q := range p.Parts {
		sub := particles(q, host, qualified)
	next:
		for _, x := range sub {
			for i := range out {
				if out[i].Name == x.Name && out[i].Wildcard == x.Wildcard {
					j := joinX(out[i], x)
					j.Plural = j.Plural || p.Kind != Choice
					out[i] = j
					continue next
				}
			}
			out = append(out, x)
		}
	}
	for i := range out {
		if (p.Min == 0 || p.Kind == Choice) && !out[i].Wildcard {
			out[i].Optional = true
		}
		out[i].Plural = out[i].Plural || plural
	}
	return out
}

// Attributes lists the attributes of a type.
func Attributes(items []AttrItem, host *Namespace) []XAttr {
	var out []XAttr
	for _, it := range items {
		if it.Group != nil {
			out = append(out, Attributes(it.Group.Items, host)...)
			continue
		}
		a := it.Attr
		d := a
		if a.Ref != nil {
			d = a.Ref
		}
		x := XAttr{Doc: joinDocs(d.Doc), Name: xml.Name{Space: d.NS.URI, Local: d.Local}, Type: d.Type, Default: d.Default, Optional: a.Use != "required", Decl: d}
		for r := d.Type; r.Type != nil; r = r.Type.Base {
			x.Plural = x.Plural || r.Type.List
		}
		x.Qualified = a.Form == "qualified" || a.Ref != nil && d.NS != a.NS
		if a.SetDefault {
			x.Default = a.Default
		}
		if a.XML {
			x.Name.Space, x.Qualified, x.XML, x.Doc = XMLNS, true, true, ""
		}
		out = append(out, x)
	}
	return out
}

// IsMixed tells if a complex type is reported as mixed.
func IsMixed(t *Type) bool {
	switch {
	case t.SimpleContent || t.Mixed:
		return true
	case !t.Extends:
		return false
	case t.Base.Type == nil:
		return t.Base.Builtin == xsd.AnyType
	case t.Base.Type.Simple:
		return true
	}
	return IsMixed(t.Base.Type)
}

func elemLabel(x XElem) string {
	return fmt.Sprintf("<%s %s wild=%v plural=%v opt=%v nil=%v abs=%v def=%q doc=%q>", x.Name.Space, x.Name.Local, x.Wildcard, x.Plural, x.Optional, x.Nillable, x.Abstract, x.Default, x.Doc)
}

func attrLabel(x XAttr) string {
	s := x.Name.Local
	if x.Qualified {
		s = x.Name.Space + " " + s
	}
	if x.XML {
		return fmt.Sprintf("@%s opt=%v", s, x.Optional)
	}
	return fmt.Sprintf("@%s opt=%v list=%v def=%q doc=%q", s, x.Optional, x.Plural, x.Default, x.Doc)
}

func modelEdge(r Ref) func() *View {
	return func() *View {
		switch {
		case r.Type == nil:
			return leaf(fmt.Sprint("builtin ", r.Builtin))
		case r.Type.named():
			return leaf(fmt.Sprintf("type %q %q", r.Type.NS.URI, r.Type.Local))
		}
		return ModelView(r.Type)
	}
}

// ModelView describes a type of the model.
func ModelView(t *Type) *View {
	v := &View{id: t}
	if t.Simple {
		base := t.Base
		if t.Union {
			base = B(xsd.AnySimpleType)
		}
		v.Edges = append(v.Edges, modelEdge(base))
		for _, m := range t.Members {
			v.Edges = append(v.Edges, modelEdge(m))
		}
		v.Label = fmt.Sprintf("simple list=%v union=%d doc=%q %s", t.List, len(t.Members), joinDocs(t.Doc), modelFacets(t))
		return v
	}
	elems, attrs := Elements(t.Content, t.NS), Attributes(t.Attrs, t.NS)
	v.Label = complexLabel(t.Extends, IsMixed(t), t.Abstract, joinDocs(append(append([]string{}, t.Doc...), t.ContentDoc...)), elems, attrs)
	v.Edges = append(v.Edges, modelEdge(t.Base))
	for _, e := range elems {
		v.Edges = append(v.Edges, modelEdge(e.Type))
	}
	for _, a := range attrs {
		if a.XML {
			v.Edges = append(v.Edges, func() *View { return leaf("*") })
			continue
		}
		v.Edges = append(v.Edges, modelEdge(a.Type))
	}
	return v
}

// SelfView describes the pseudo type whose elements are the top-level elements
// of a schema.
func SelfView(p *Part) *View {
	var elems []XElem
	for _, e := range p.Elems {
		x := elemView(e, false)
		x.Optional = x.Default != ""
		elems = append(elems, x)
	}
	v := &View{id: p, Label: complexLabel(false, false, false, "", elems, nil)}
	v.Edges = append(v.Edges, modelEdge(B(xsd.AnyType)))
	for _, e := range elems {
		v.Edges = append(v.Edges, modelEdge(e.Type))
	}
	return v
}

func complexLabel(ext, mixed, abstract bool, doc string, elems []XElem, attrs []XAttr) string {
	var b strings.Builder
	fmt.Fprintf(&b, "complex ext=%v mixed=%v abstract=%v doc=%q", ext, mixed, abstract, doc)
	for _, e := range elems {
		b.WriteString("\n    " + elemLabel(e))
	}
	for _, a := range attrs {
		b.WriteString("\n    " + attrLabel(a))
	}
	return b.String()
}

type facets struct {
	Enum                         []string
	Min, Max                     float64
	Length, MinLength, MaxLength int
	TotalDigits, Precision       int
	MinDate, MaxDate             string
	Pattern                      string
	Doc                          string
	Unparsed                     bool
}

func modelFacets(t *Type) string {
	return fmt.Sprintf("%+q", fmt.Sprintf("%+v", t.facets()))
}

// Describe says what the comment on the generated type has to mention: the
// values, the pattern or the length that a simple type is restricted to, or else
// the annotation. Documented tells if a restriction is what there is to mention.
func Describe(t *Type) (words []string, restricted bool) {
	doc := strings.Fields(joinDocs(append(append([]string{}, t.Doc...), t.ContentDoc...)))
	if !t.Simple {
		return doc, false
	}
	b, list, union := Primitive(Ref{Type: t})
	if list || !union && IsListBuiltin(b) || t.Union {
		return doc, false
	}
	switch GoType(b) {
	case "time.Time", "[]byte":
		return doc, false
	}
	f := t.facets()
	switch {
	case len(f.Enum) > 0:
		for _, v := range f.Enum {
			words = append(words, strings.Fields(v)...)
		}
		return words, true
	case f.Pattern != "":
		return strings.Fields(f.Pattern), true
	case f.MaxLength < 0:
		return nil, true
	case f.MaxLength != 0:
		return []string{strconv.Itoa(f.MaxLength)}, true
	case f.MinLength != 0:
		return []string{strconv.Itoa(f.MinLength)}, true
	}
	return nil, false
}

func (t *Type) facets() facets {
	var f facets
	num := func(s string) int {
		s = strings.TrimSpace(s)
		if s == "unbounded" {
			return -1
		}
		n, _ := strconv.Atoi(s)
		return n
	}
	prim, _, _ := Primitive(t.Base)
	var pat *regexp.Regexp
	for _, x := range t.Facets {
		var date string
		var dec float64
		if strings.Contains(x.Name, "clusive") {
			switch {
			case prim == xsd.Date || prim == xsd.DateTime:
				date = modelDate(strings.TrimSpace(x.Value))
			case numeric(prim) || prim == xsd.GYear:
				dec, _ = strconv.ParseFloat(strings.TrimSpace(x.Value), 64)
			}
		}
		switch x.Name {
		case "enumeration":
			f.Enum = append(f.Enum, x.Value)
		case "minInclusive", "minExclusive":
			f.Min, f.MinDate = dec, date
		case "maxInclusive", "maxExclusive":
			f.Max, f.MaxDate = dec, date
		case "length":
			f.Length = num(x.Value)
		case "minLength":
			f.MinLength = num(x.Value)
		case "maxLength":
			f.MaxLength = num(x.Value)
		case "totalDigits":
			f.TotalDigits = num(x.Value)
		case "fractionDigits":
			f.Precision = num(x.Value)
		case "pattern":
			s := x.Value
			if pat != nil {
				s = pat.String() + "|" + s
			}
			var err error
			pat, err = regexp.Compile(s)
			f.Unparsed = f.Unparsed || err != nil
		}
	}
	if pat != nil {
		f.Pattern = pat.String()
	}
	f.Doc = joinDocs(t.FacetDoc)
	return f
}

func modelDate(s string) string {
	for _, l := range []string{"2006-01-02", "2006-01-02Z07:00", "2006-01-02T15:04:05", "2006-01-02T15:04:05Z07:00"} {
		if t, err := time.Parse(l, s); err == nil {
			return t.UTC().Format(time.RFC3339Nano)
		}
	}
	return "?" + s
}

var patternMsg = regexp.MustCompile(`(?s)\s*This type must conform to the pattern .*`)

func parsedFacets(r xsd.Restriction) string {
	f := facets{Enum: r.Enum, Min: r.Min, Max: r.Max, Length: r.Length, MinLength: r.MinLength, MaxLength: r.MaxLength, TotalDigits: r.TotalDigits, Precision: r.Precision}
	if !r.MinDate.IsZero() {
		f.MinDate = r.MinDate.UTC().Format(time.RFC3339Nano)
	}
	if !r.MaxDate.IsZero() {
		f.MaxDate = r.MaxDate.UTC().Format(time.RFC3339Nano)
	}
	if r.Pattern != nil {
		f.Pattern = r.Pattern.String()
	}
	// Patterns that are not parsed are mentioned.
	f.Unparsed = patternMsg.MatchString(r.Doc)
	f.Doc = patternMsg.ReplaceAllString(r.Doc, "")
	return fmt.Sprintf("%+q", fmt.Sprintf("%+v", f))
}

// Names is the set of types that have a name of their own.
type Names map[xml.Name]bool

// ModelNames lists the named types of a model.
func ModelNames(m *Model) Names {
	n := Names{}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			if t.named() {
				n[xml.Name{Space: ns.URI, Local: t.Local}] = true
			}
		}
	}
	return n
}

func (n Names) edge(t xsd.Type) func() *View {
	return func() *View {
		switch t := t.(type) {
		case nil:
			return leaf("nil")
		case xsd.Builtin:
			return leaf(fmt.Sprint("builtin ", t))
		case *xsd.SimpleType, *xsd.ComplexType:
			if name := xsd.XMLName(t); n[name] {
				return leaf(fmt.Sprintf("type %q %q", name.Space, name.Local))
			}
			return n.View(t)
		}
		return leaf(fmt.Sprintf("%T", t))
	}
}

// View describes a parsed type.
func (n Names) View(t xsd.Type) *View {
	v := &View{id: t}
	switch t := t.(type) {
	case *xsd.SimpleType:
		v.Edges = append(v.Edges, n.edge(t.Base))
		for _, m := range t.Union {
			v.Edges = append(v.Edges, n.edge(m))
		}
		v.Label = fmt.Sprintf("simple list=%v union=%d doc=%q %s", t.List, len(t.Union), t.Doc, parsedFacets(t.Restriction))
	case *xsd.ComplexType:
		var elems []XElem
		var attrs []XAttr
		v.Edges = append(v.Edges, n.edge(t.Base))
		for _, e := range t.Elements {
			elems = append(elems, XElem{Doc: e.Doc, Name: e.Name, Wildcard: e.Wildcard, Abstract: e.Abstract, Plural: e.Plural, Optional: e.Optional, Nillable: e.Nillable, Default: e.Default})
			v.Edges = append(v.Edges, n.edge(e.Type))
		}
		for _, a := range t.Attributes {
			x := XAttr{Doc: a.Doc, Name: a.Name, Default: a.Default, Optional: a.Optional, Plural: a.Plural, XML: a.Name.Space == XMLNS}
			for _, y := range a.Attr {
				if y.Name.Space == "" && y.Name.Local == "form" && y.Value == "qualified" {
					x.Qualified = true
				}
			}
			attrs = append(attrs, x)
			v.Edges = append(v.Edges, n.edge(a.Type))
		}
		v.Label = complexLabel(t.Extends, t.Mixed, t.Abstract, t.Doc, elems, attrs)
	default:
		v.Label = fmt.Sprintf("%T %v", t, t)
	}
	return v
}

// Shape summarises a model, for evidence.
func Shape(m *Model) string {
	var parts []string
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			v := ModelView(t)
			parts = append(parts, v.Label)
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

// Anonymous counts the anonymous types written within a component.
func Anonymous(comp interface{}) int {
	n := 0
	var typ func(t *Type)
	var ref func(r Ref)
	var elem func(e *Elem)
	var part func(p *Particle)
	var items func(l []AttrItem)
	ref = func(r Ref) {
		if r.Type != nil && r.Type.Local == "" {
			n++
			typ(r.Type)
		}
	}
	attr := func(a *Attr) {
		if a.Ref == nil && !a.XML {
			ref(a.Type)
		}
	}
	items = func(l []AttrItem) {
		for _, it := range l {
			if it.Attr != nil {
				attr(it.Attr)
			}
		}
	}
	elem = func(e *Elem) {
		if e.Ref == nil {
			ref(e.Type)
		}
	}
	part = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Kind == Element {
			elem(p.Elem)
		}
		for _, q := range p.Parts {
			part(q)
		}
	}
	typ = func(t *Type) {
		ref(t.Base)
		for _, m := range t.Members {
			ref(m)
		}
		part(t.Content)
		items(t.Attrs)
	}
	switch c := comp.(type) {
	case *Type:
		typ(c)
	case *Elem:
		elem(c)
	case *Attr:
		attr(c)
	case *Group:
		part(c.Content)
	case *AttrGroup:
		items(c.Items)
	}
	return n
}

// DeclaredNames lists the names of the elements and attributes that are
// declared in a part, each between zero bytes.
func DeclaredNames(p *Part) string {
	var b strings.Builder
	b.WriteString("\x00")
	var walk func(n *node)
	walk = func(n *node) {
		if n.local == "element" || n.local == "attribute" {
			for _, a := range n.attrs {
				if a.name == "name" {
					b.WriteString(a.value + "\x00")
				}
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, n := range p.comps {
		walk(n)
	}
	return b.String()
}
