// Package schemagen generates XML schemas from a model, and predicts how they
// are parsed.
package schemagen

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"aqwari.net/xml/xsd"
)

const (
	XS    = "http://www.w3.org/2001/XMLSchema"
	XMLNS = "http://www.w3.org/XML/1998/namespace"
)

// A Ref names a type: a built-in, or a simple or complex type of the model.
type Ref struct {
	Builtin xsd.Builtin
	Type    *Type
}

func B(b xsd.Builtin) Ref { return Ref{Builtin: b} }

// A Namespace holds the components of one target namespace.
type Namespace struct {
	URI        string
	Types      []*Type
	Elems      []*Elem
	Attrs      []*Attr
	Groups     []*Group
	AttrGroups []*AttrGroup
	Doc        []string
}

// A Facet restricts a simple type.
type Facet struct{ Name, Value string }

// A Type is a simple or complex type.
type Type struct {
	NS     *Namespace
	Local  string // empty for anonymous types
	Doc    []string
	Simple bool
	// Simple types: a restriction of Base, a list of Base, or a union.
	List, Union bool
	Base        Ref
	Members     []Ref
	Facets      []Facet
	FacetDoc    []string
	// Complex types
	Extends       bool
	SimpleContent bool
	Shorthand     bool // written without a content element
	Mixed         bool
	MixedContent  bool     // mixed is written on the complexContent element
	ContentDoc    []string // written in the content element
	Abstract      bool
	Content       *Particle
	Attrs         []AttrItem
	// Lifted types are anonymous types that were given a name.
	Lifted bool
}

func (t *Type) named() bool { return t.Local != "" && !t.Lifted }

type Kind int

const (
	Sequence Kind = iota
	Choice
	All
	Element
	Any
	GroupRef
)

// A Particle is part of a content model.
type Particle struct {
	Kind     Kind
	Min, Max int // Max < 0: unbounded
	Parts    []*Particle
	Elem     *Elem
	Group    *Group
	Host     *Namespace // of the schema a group reference is in
}

// An Elem is the declaration of a local or global element, or a reference.
type Elem struct {
	NS       *Namespace
	Local    string
	Type     Ref
	NoType   bool // the type is left out; it is anyType
	Default  string
	Nillable bool
	Abstract bool
	Doc      []string
	Ref      *Elem // to a global element
	// Set on references, overriding the target.
	SetDefault, SetNillable bool
}

// An Attr is the declaration of a local or global attribute, or a reference.
type Attr struct {
	NS      *Namespace
	Local   string
	Type    Ref
	NoType  bool
	Default string
	Use     string
	Doc     []string
	Ref     *Attr
	// For references
	SetDefault bool
	// xml:lang
	XML bool
	// Qualified local attributes
	Form string
}

// An AttrItem is an attribute or a reference to an attribute group.
type AttrItem struct {
	Attr  *Attr
	Group *AttrGroup
	Host  *Namespace // of the schema the item is in
}

type Group struct {
	NS      *Namespace
	Local   string
	Content *Particle
}

type AttrGroup struct {
	NS    *Namespace
	Local string
	Items []AttrItem
}

// A Model is a set of namespaces.
type Model struct {
	NS []*Namespace
}

// Config selects what is generated.
type Config struct {
	Namespaces int // at most
	Types      int // named types per namespace, at most
	// Names that stay distinct as exported Go identifiers, no repeated
	// element names, no mixed content.
	Go bool
	// Elements of named types of other namespaces.
	ForeignTypes bool
	NoRefs       bool
	NoWildcards  bool
	NoDefaults   bool
	// Built-ins that may be used for elements, attributes and lists. Nil:
	// all.
	Builtins []xsd.Builtin
	Lists    []xsd.Builtin
	// No two top-level components of a namespace share a name.
	DistinctTop bool
	NoAny       bool // no anyType elements
	NoRecursion bool
	NoRepeats   bool // no two elements of one name in a type
	Mixed       bool // mixed content, with Go
	// All names are Go identifiers.
	PlainNames bool
	// With Go: names of elements and attributes of one type may be equal as
	// Go identifiers.
	Clash     bool
	Qualified bool // every schema has a target namespace
}

// G generates models.
type G struct {
	*rand.Rand
	Config
	m       *Model
	order   []*Type // named types; bases precede
	counter int
	used    map[string]map[string]bool
	deep    bool // long chains of derived types
	huge    int  // what there is an unusual amount of
	deepest int  // how many more content models to nest
	bulk    int  // in how many more places
}

// What a huge model has much of, in one place or more.
const (
	hugeNone = iota
	hugeElems
	hugeAttrs
	hugeEnum
	hugeUnion
	hugeTypes
	hugeTop
	hugeNesting
	hugeSimpleChain
	hugeContentChain
	hugeNamespaces
	hugeKinds
)

// many returns a size: n most of the time, and a large one if the model is to
// have much of this kind.
func (g *G) many(kind, n int) int {
	if g.huge == kind && g.bulk > 0 && g.pct(40) {
		g.bulk--
		return n + 5 + g.Intn(45)
	}
	return n
}

// nest tells if content models are to be nested further.
func (g *G) nest() bool {
	if g.deepest <= 0 {
		return false
	}
	g.deepest--
	return g.pct(70)
}

func New(r *rand.Rand, c Config) *G {
	if c.Namespaces == 0 {
		c.Namespaces = 3
	}
	if c.Types == 0 {
		c.Types = 7
	}
	return &G{Rand: r, Config: c}
}

func (g *G) pct(p int) bool           { return g.Intn(100) < p }
func (g *G) pick(s ...string) string  { return s[g.Intn(len(s))] }
func (g *G) pickS(s []string) string  { return s[g.Intn(len(s))] }
func (g *G) among(l []*Type) *Type    { return l[g.Intn(len(l))] }
func (g *G) namespace() *Namespace    { return g.m.NS[g.Intn(len(g.m.NS))] }
func (g *G) builtin() xsd.Builtin     { return g.someBuiltin(g.Builtins) }
func (g *G) listBuiltin() xsd.Builtin { return g.someBuiltin(g.Lists) }

var AllBuiltins = func() (all []xsd.Builtin) {
	for b := xsd.AnyType; b <= xsd.AnySimpleType; b++ {
		switch b {
		case xsd.AnyType, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId:
		default:
			all = append(all, b)
		}
	}
	return all
}()

// ItemBuiltins are the built-ins that may be items of a list.
var ItemBuiltins = func() (l []xsd.Builtin) {
	for _, b := range AllBuiltins {
		if !IsListBuiltin(b) {
			l = append(l, b)
		}
	}
	return l
}()

func (g *G) someBuiltin(l []xsd.Builtin) xsd.Builtin {
	if l == nil {
		l = AllBuiltins
	}
	return l[g.Intn(len(l))]
}

var uris = []string{"urn:a", "http://example.org/b", "urn:c?x=1&y=2", "tns"}

var (
	oddNames   = []string{"type", "string", "element", "Item", "item", "a", "b", "x-1", "_u", "n.1", "é", "Name", "value", "int", "self", "Ab", "AB"}
	goNames    = []string{"t", "value", "Item", "items", "name", "type", "string", "first-name", "last_name", "v1.2", "xsdDate", "Überschrift", "error", "self", "d", "start", "bytes", "time", "xml", "Overlay", "comment", "total", "when", "int"}
	plainNo    = []string{"alpha", "beta", "gamma", "delta", "omega", "kappa", "theta", "sigma"}
	clashNames = []string{"part", "Part", "p.art", "pa-rt", "par_t", "_part", "partAttr", "part0", "Part1", "PartAttr0", "value", "Value", "Value0"}
	docTexts   = []string{"A short note.", "Ünïcode & <markup>", "two\nlines", "x", "  spaced  "}
	idLetters  = "abcdefghijklmnopqrstuvwxyz"
)

// name makes a name that is unique within scope.
func (g *G) name(ns *Namespace, scope string) string {
	if g.used[scope] == nil {
		g.used[scope] = make(map[string]bool)
	}
	for try := 0; ; try++ {
		var s string
		switch {
		case g.Go && strings.HasPrefix(scope, "top "):
			// Distinct everywhere, whatever the case of the letters.
			g.counter++
			s = g.pickS(plainNo)
			if g.pct(30) {
				s = string(s[0]-'a'+'A') + s[1:]
			}
			if !g.PlainNames {
				s += g.pick("", "", "", "-x", "_y", ".z")
			}
			s = fmt.Sprintf("%s%d", s, g.counter)
		case g.Go:
			// Local names may repeat in other types. Equal names
			// have equal case, and belong to one namespace.
			s = g.pickS(goNames)
			if try > 5 {
				g.counter++
				s = fmt.Sprintf("%sn%d", s, g.counter)
			}
			if g.PlainNames {
				s = strings.Map(func(r rune) rune {
					if strings.ContainsRune("-_.", r) {
						return 'q'
					}
					return r
				}, s)
			}
			if k := g.nsIndex(ns); k > 0 {
				s = fmt.Sprintf("%s%c", s, 'A'+k)
			}
		case try < 4 && g.pct(60):
			s = g.pickS(oddNames)
		default:
			g.counter++
			s = fmt.Sprintf("%s%d", g.pickS(plainNo), g.counter)
		}
		if !g.used[scope][s] {
			g.used[scope][s] = true
			return s
		}
	}
}

func (g *G) nsIndex(ns *Namespace) int {
	for i := range g.m.NS {
		if g.m.NS[i] == ns {
			return i
		}
	}
	return 0
}

func (g *G) doc() []string {
	if g.pct(75) {
		return nil
	}
	docs := []string{g.pickS(docTexts)}
	if g.pct(20) {
		docs = append(docs, g.pickS(docTexts))
	}
	return docs
}

// Model makes a model.
func (g *G) Model() *Model {
	g.m = &Model{}
	g.used = make(map[string]map[string]bool)
	n := 1 + g.Intn(g.Namespaces)
	g.deep = g.pct(8)
	g.huge, g.bulk = hugeNone, 1+g.Intn(6)
	g.deepest = 100
	if g.pct(5) {
		g.huge = 1 + g.Intn(hugeKinds-1)
	}
	uris := uris
	if g.huge == hugeNamespaces && g.Namespaces > 2 {
		n = 5 + g.Intn(8)
		uris = append([]string(nil), uris...)
		for i := 0; i < n; i++ {
			uris = append(uris, fmt.Sprint("urn:more", i))
		}
	}
	perm := g.Perm(len(uris))
	for i := 0; i < n; i++ {
		ns := &Namespace{URI: uris[perm[i]], Doc: g.doc()}
		g.m.NS = append(g.m.NS, ns)
	}
	if n == 1 && g.pct(10) && !g.Qualified {
		g.m.NS[0].URI = ""
	}
	// Declare named types first, so that content may refer to all of them.
	g.order = nil
	for _, ns := range g.m.NS {
		k, simple := 1+g.Intn(g.Types), 40
		if g.deep {
			k, simple = g.Types+g.Intn(5), 20
		}
		switch {
		case g.huge == hugeTypes && len(ns.Types) == 0:
			k += 10 + g.Intn(30)
		case g.huge == hugeNamespaces:
			k = 1 + g.Intn(3)
		case g.huge == hugeSimpleChain:
			k, simple = 6+g.Intn(12), 85
		case g.huge == hugeContentChain:
			k, simple = 6+g.Intn(12), 20
		}
		for i := 0; i < k; i++ {
			t := &Type{NS: ns, Local: g.topName(ns, "type"), Doc: g.doc(), Simple: g.pct(simple)}
			ns.Types = append(ns.Types, t)
			g.order = append(g.order, t)
		}
	}
	g.Shuffle(len(g.order), func(i, j int) { g.order[i], g.order[j] = g.order[j], g.order[i] })
	if !g.NoRefs {
		for _, ns := range g.m.NS {
			for k := g.Intn(3); k > 0; k-- {
				ns.Elems = append(ns.Elems, &Elem{NS: ns, Local: g.topName(ns, "element")})
			}
			for k := g.many(hugeTop, g.Intn(3)); k > 0; k-- {
				ns.Attrs = append(ns.Attrs, &Attr{NS: ns, Local: g.topName(ns, "attribute")})
			}
			for k := g.many(hugeTop, g.Intn(3)); k > 0; k-- {
				ns.Groups = append(ns.Groups, &Group{NS: ns, Local: g.topName(ns, "group")})
			}
			for k := g.many(hugeTop, g.Intn(3)); k > 0; k-- {
				ns.AttrGroups = append(ns.AttrGroups, &AttrGroup{NS: ns, Local: g.topName(ns, "attributeGroup")})
			}
		}
	} else {
		for _, ns := range g.m.NS {
			for k := g.Intn(3); k > 0; k-- {
				ns.Elems = append(ns.Elems, &Elem{NS: ns, Local: g.topName(ns, "element")})
			}
		}
	}
	// Simple types, in an order in which bases come first.
	var simple []*Type
	for _, t := range g.order {
		if t.Simple {
			g.fillSimple(t, simple, 0)
			simple = append(simple, t)
		}
	}
	for _, ns := range g.m.NS {
		for _, a := range ns.Attrs {
			g.fillAttr(a, simple)
		}
		for i, ag := range ns.AttrGroups {
			used := map[string]bool{}
			ag.Items = g.attrItems(ns, simple, ns.AttrGroups[:i], used)
			if g.pct(80) && len(ag.Items) == 0 {
				ag.Items = append(ag.Items, AttrItem{Attr: g.localAttr(ns, simple, used), Host: ns})
			}
			for _, it := range ag.Items {
				if it.Attr != nil {
					it.Attr.Form = ""
				}
			}
		}
	}
	// A group may refer to groups of earlier namespaces, and to earlier ones
	// of its own.
	var groups []*Group
	for _, ns := range g.m.NS {
		for _, gr := range ns.Groups {
			sc := &scope{ns: ns, owner: "group " + ns.URI + " " + gr.Local, simple: simple, groups: groups, used: map[string]*Elem{}}
			gr.Content = g.model(sc, 1)
			gr.Content.Min, gr.Content.Max = 1, 1
			groups = append(groups, gr)
		}
	}
	for _, ns := range g.m.NS {
		for _, e := range ns.Elems {
			g.fillElem(e, &scope{ns: ns, owner: "elem " + ns.URI + " " + e.Local, simple: simple, groups: groups, used: map[string]*Elem{}}, 1)
			e.Abstract = g.pct(8)
		}
	}
	var complex []*Type
	for _, t := range g.order {
		if !t.Simple {
			g.fillComplex(t, simple, complex, groups, 0)
			complex = append(complex, t)
		}
	}
	return g.m
}

// topName names a top-level component.
func (g *G) topName(ns *Namespace, kind string) string {
	if g.DistinctTop || g.Go {
		return g.name(ns, "top "+ns.URI)
	}
	return g.name(ns, kind+" "+ns.URI)
}

func (g *G) fillSimple(t *Type, earlier []*Type, depth int) {
	t.Simple = true
	item := func(list bool) Ref {
		switch {
		case len(earlier) > 0 && g.huge == hugeSimpleChain && depth == 0 && g.pct(90):
			return Ref{Type: earlier[len(earlier)-1]}
		case len(earlier) > 0 && g.pct(40):
			return Ref{Type: g.among(earlier)}
		case depth < 2 && g.pct(20):
			a := &Type{NS: t.NS, Doc: g.doc()}
			g.fillSimple(a, earlier, depth+1)
			return Ref{Type: a}
		case list:
			return B(g.listBuiltin())
		}
		return B(g.builtin())
	}
	switch {
	case g.huge == hugeSimpleChain && depth == 0 && g.pct(80):
		t.Base = item(false)
		t.Facets = g.facets(t.Base)
	case g.pct(15):
		t.List = true
		t.Base = item(true)
		if g.Go {
			t.Base = B(g.listBuiltin())
		}
	case g.pct(15):
		t.Union = true
		for k := g.many(hugeUnion, 1+g.Intn(4)); k > 0; k-- {
			t.Members = append(t.Members, item(false))
		}
		// Anonymous members are written after the others.
		sort.SliceStable(t.Members, func(i, j int) bool {
			anon := func(r Ref) bool { return r.Type != nil && r.Type.Local == "" }
			return !anon(t.Members[i]) && anon(t.Members[j])
		})
	default:
		t.Base = item(false)
		t.Facets = g.facets(t.Base)
		if g.pct(10) {
			t.FacetDoc = []string{g.pickS(docTexts)}
		}
	}
}

// Primitive returns the built-in that a simple type is derived from.
func Primitive(r Ref) (b xsd.Builtin, list, union bool) {
	for r.Type != nil {
		if r.Type.Union {
			return xsd.AnySimpleType, list, true
		}
		list = list || r.Type.List
		r = r.Type.Base
	}
	return r.Builtin, list, union
}

func numeric(b xsd.Builtin) bool {
	switch b {
	case xsd.Byte, xsd.Decimal, xsd.Double, xsd.Float, xsd.Int, xsd.Integer, xsd.Long, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong, xsd.UnsignedShort:
		return true
	}
	return false
}

func (g *G) facets(base Ref) []Facet {
	var fs []Facet
	b, list, union := Primitive(base)
	add := func(n, v string) { fs = append(fs, Facet{n, v}) }
	num := func() string {
		return g.pick("0", "1", "-5", "12.5", "1000000", "99999999999", "-0.25", "2147483647")
	}
	if g.pct(25) {
		k := 1 + g.Intn(4)
		if n := g.many(hugeEnum, 0); n > 0 {
			k = 0
			for i := 0; i < n; i++ {
				add("enumeration", fmt.Sprint("w", i*7%n))
			}
		}
		for ; k > 0; k-- {
			if g.Go {
				add("enumeration", fmt.Sprint("v", g.Intn(100)))
			} else {
				add("enumeration", g.pick("", "a", "b c", "é", "<&\"'>", " x ", "1", "true"))
			}
		}
	}
	if g.pct(15) {
		add("pattern", g.pick("[a-z]+", `\d{3}`, "a|b", "x*", `\i\c*`, "(unclosed"))
		if g.pct(30) {
			add("pattern", g.pick("[0-9]", "z", "[0-9]", "z", "(unclosed"))
		}
	}
	if g.pct(10) {
		add("length", g.pick("0", "3", " 12 "))
	}
	if g.pct(15) {
		add("minLength", g.pick("0", "1", "7"))
	}
	if g.pct(15) {
		add("maxLength", g.pick("10", "255", "unbounded"))
	}
	if g.pct(8) {
		add("whiteSpace", g.pick("collapse", "preserve"))
	}
	if list || union {
		return fs
	}
	var bound func() string
	switch {
	case numeric(b):
		bound = num
		if g.pct(10) {
			add("totalDigits", g.pick("1", "12", " 9"))
		}
		if g.pct(10) {
			add("fractionDigits", g.pick("0", "3", "\t2 "))
		}
	case b == xsd.Date:
		bound = func() string { return g.pick("2001-02-03", "1999-12-31", "2020-02-29Z", "2021-07-01+02:00") }
	case b == xsd.DateTime:
		bound = func() string {
			return g.pick("2001-02-03T04:05:06Z", "1999-12-31T23:59:59-08:00", "2020-02-29T12:00:00", "2021-07-01T00:00:00.5Z")
		}
	case b == xsd.Duration:
		bound = func() string { return g.pick("P1D", "PT5M", "-P1Y2M") }
	case b == xsd.Time:
		bound = func() string { return g.pick("10:00:00", "23:59:59Z") }
	case b == xsd.GYear:
		bound = func() string { return g.pick("1999", "2020") }
	case b == xsd.GMonthDay:
		bound = func() string { return g.pick("--02-29", "--12-31Z") }
	}
	// The values of facets other than enumerations and patterns are
	// collapsed.
	pad := func(s string) string {
		if g.pct(8) {
			return g.pick(" ", "\n\t") + s + g.pick("", "  ")
		}
		return s
	}
	if bound != nil {
		if g.pct(20) {
			add(g.pick("minInclusive", "minExclusive"), pad(bound()))
		}
		if g.pct(20) {
			add(g.pick("maxInclusive", "maxExclusive"), pad(bound()))
		}
	}
	return fs
}

// A scope is what content is generated in.
type scope struct {
	ns     *Namespace
	owner  string
	simple []*Type
	groups []*Group
	used   map[string]*Elem // by namespace and name
	any    bool
	attrs  map[string]bool
}

func (g *G) inner(sc *scope) *scope {
	g.counter++
	return &scope{ns: sc.ns, owner: fmt.Sprintf("%s/%d", sc.owner, g.counter), simple: sc.simple, groups: sc.groups, used: map[string]*Elem{}}
}

// elemType picks the type of an element.
func (g *G) elemType(sc *scope, depth int) (r Ref, notype bool) {
	named := func() *Type {
		for try := 0; try < 6; try++ {
			t := g.among(g.order)
			if (t.NS == sc.ns || g.ForeignTypes) && !(g.NoRecursion && !t.Simple) {
				return t
			}
		}
		return nil
	}
	switch {
	case g.pct(35):
		if t := named(); t != nil {
			return Ref{Type: t}, false
		}
	case depth < 3 && g.pct(25):
		a := &Type{NS: sc.ns, Doc: g.doc()}
		if g.pct(35) {
			g.fillSimple(a, sc.simple, 1)
		} else {
			g.fillComplex(a, sc.simple, nil, sc.groups, depth+1)
		}
		return Ref{Type: a}, false
	case !g.NoAny && g.pct(5):
		return B(xsd.AnyType), g.pct(60)
	}
	return B(g.builtin()), false
}

func (g *G) fillElem(e *Elem, sc *scope, depth int) {
	e.Type, e.NoType = g.elemType(sc, depth)
	e.Doc = g.doc()
	e.Nillable = g.pct(8)
	e.Abstract = !g.Go && g.pct(6)
	if !g.NoDefaults && g.pct(8) {
		e.Default = g.defaultFor(e.Type)
	}
}

func (g *G) defaultFor(r Ref) string {
	if g.Go {
		if r.Type != nil && !r.Type.Simple {
			return ""
		}
		b, list, _ := Primitive(r)
		if list {
			return ListText(g.Rand, b)
		}
		return Lexical(g.Rand, b, false)
	}
	return g.pick("1", "x", "true", "a b", "2001-01-01")
}

// model makes a content model.
func (g *G) model(sc *scope, depth int) *Particle {
	p := &Particle{Kind: Sequence, Min: 1, Max: 1}
	switch {
	case g.pct(22):
		p.Kind = Choice
	case g.pct(8) && depth <= 1:
		p.Kind = All
	}
	g.occurs(p, 12)
	k := g.many(hugeElems, g.Intn(5))
	for i := 0; i < k; i++ {
		p.Parts = append(p.Parts, g.part(sc, p.Kind, depth))
	}
	return p
}

func (g *G) occurs(p *Particle, pct int) {
	p.Min, p.Max = 1, 1
	if g.pct(pct) {
		p.Min = 0
	}
	switch {
	case g.pct(pct):
		p.Max = -1
	case g.pct(pct / 2):
		p.Max = 2 + g.Intn(3)
		if g.pct(50) {
			p.Min = p.Max - g.Intn(2)
		}
	}
}

func (g *G) part(sc *scope, within Kind, depth int) *Particle {
	switch {
	case within != All && (depth < 3 && g.pct(18) || g.huge == hugeNesting && depth < 40 && len(sc.used) < 60 && g.nest()):
		return g.model(sc, depth+1)
	case within != All && !g.NoWildcards && g.pct(6) && (!sc.any || !g.Go):
		sc.any = true
		p := &Particle{Kind: Any}
		g.occurs(p, 40)
		return p
	case within != All && len(sc.groups) > 0 && g.pct(15):
		gr := sc.groups[g.Intn(len(sc.groups))]
		if ok := g.claimGroup(sc, gr); ok {
			p := &Particle{Kind: GroupRef, Group: gr, Host: sc.ns}
			g.occurs(p, 25)
			return p
		}
	}
	p := &Particle{Kind: Element}
	g.occurs(p, 22)
	if within == All {
		p.Max = 1
		if p.Min > 1 {
			p.Min = 1
		}
	}
	if !g.NoRefs && g.pct(18) {
		ns := g.namespace()
		if len(ns.Elems) > 0 {
			target := ns.Elems[g.Intn(len(ns.Elems))]
			key := ns.URI + " " + target.Local
			_, dup := sc.used[key]
			if !dup && !(g.NoRecursion) {
				sc.used[key] = target
				p.Elem = &Elem{NS: sc.ns, Ref: target}
				if !g.NoDefaults && g.pct(10) && !g.Go {
					p.Elem.SetDefault = true
					p.Elem.Default = "override"
				}
				if g.pct(10) && !g.Go {
					p.Elem.SetNillable = true
					p.Elem.Nillable = g.pct(50)
				}
				return p
			}
		}
	}
	// Some names are repeated, with the same type.
	if !g.Go && !g.NoRepeats && len(sc.used) > 0 && g.pct(10) {
		var keys []string
		for k := range sc.used {
			keys = append(keys, k)
		}
		sortStrings(keys)
		prev := sc.used[keys[g.Intn(len(keys))]]
		// Repeated elements need a type with a name.
		if prev.NS == sc.ns && prev.Ref == nil && prev.Local != "" && (prev.Type.Type == nil || prev.Type.Type.Local != "") && !prev.isGlobal() {
			e := *prev
			e.Doc = g.doc()
			e.Nillable = g.pct(20)
			e.Abstract = g.pct(25)
			p.Elem = &e
			return p
		}
	}
	e := &Elem{NS: sc.ns}
	for {
		e.Local = g.name(sc.ns, sc.owner)
		if sc.used[sc.ns.URI+" "+e.Local] == nil {
			break
		}
	}
	sc.used[sc.ns.URI+" "+e.Local] = e
	g.fillElem(e, g.inner(sc), depth)
	if g.Clash && e.Type.Type.namedOrNil() && g.pct(60) {
		if s := g.pickS(clashNames); sc.used[sc.ns.URI+" "+s] == nil {
			delete(sc.used, sc.ns.URI+" "+e.Local)
			e.Local = s
			sc.used[sc.ns.URI+" "+s] = e
		}
	}
	p.Elem = e
	return p
}

func (e *Elem) isGlobal() bool {
	for _, o := range e.NS.Elems {
		if o == e {
			return true
		}
	}
	return false
}

// claimGroup reserves the names of the elements of a group.
func (g *G) claimGroup(sc *scope, gr *Group) bool {
	if gr.NS != sc.ns && g.NoRefs {
		return false
	}
	names := map[string]*Elem{}
	wild := false
	var collect func(p *Particle)
	collect = func(p *Particle) {
		switch p.Kind {
		case Element:
			e := p.Elem
			if e.Ref != nil {
				e = e.Ref
			}
			names[e.NS.URI+" "+e.Local] = e
		case Any:
			wild = true
		case GroupRef:
			collect(p.Group.Content)
		}
		for _, q := range p.Parts {
			collect(q)
		}
	}
	collect(gr.Content)
	if wild && (g.Go && sc.any || g.NoWildcards) {
		return false
	}
	for k := range names {
		if sc.used[k] != nil {
			return false
		}
	}
	for k, e := range names {
		sc.used[k] = e
	}
	sc.any = sc.any || wild
	return true
}

func (g *G) fillAttr(a *Attr, simple []*Type) {
	switch {
	case len(simple) > 0 && g.pct(30):
		a.Type = Ref{Type: g.among(simple)}
	case g.pct(15):
		t := &Type{NS: a.NS, Doc: g.doc()}
		g.fillSimple(t, simple, 1)
		a.Type = Ref{Type: t}
	case g.pct(8):
		a.Type, a.NoType = B(xsd.AnySimpleType), true
	default:
		a.Type = B(g.builtin())
	}
	a.Doc = g.doc()
	if !g.NoDefaults && g.pct(10) {
		a.Default = g.defaultFor(a.Type)
	}
}

func (g *G) localAttr(ns *Namespace, simple []*Type, used map[string]bool) *Attr {
	a := &Attr{NS: ns}
	for try := 0; ; try++ {
		g.counter++
		a.Local = g.name(ns, fmt.Sprintf("attr %d", g.counter))
		if try > 5 {
			a.Local += fmt.Sprint("n", g.counter)
		}
		if !used[a.Local] {
			break
		}
	}
	g.fillAttr(a, simple)
	if g.Clash && a.Type.Type.namedOrNil() && g.pct(60) {
		s := g.pickS(clashNames)
		if len(simple) > 0 && g.pct(40) {
			// The name of a type, which is that of character data.
			s = g.among(simple).Local
		}
		if s != "" && !used[s] {
			a.Local = s
		}
	}
	used[a.Local] = true
	a.Use = g.pick("", "", "optional", "required")
	if a.Default != "" {
		a.Use = ""
	}
	if g.pct(8) {
		a.Form = g.pick("qualified", "unqualified")
	}
	return a
}

func (g *G) attrItems(ns *Namespace, simple []*Type, groups []*AttrGroup, used map[string]bool) []AttrItem {
	var items []AttrItem
	for k := g.many(hugeAttrs, g.Intn(4)); k > 0; k-- {
		switch {
		case len(groups) > 0 && g.pct(25):
			ag := groups[g.Intn(len(groups))]
			names := ag.names()
			clash := false
			for _, n := range names {
				clash = clash || used[n]
			}
			if clash {
				continue
			}
			for _, n := range names {
				used[n] = true
			}
			items = append(items, AttrItem{Group: ag, Host: ns})
		case !g.NoRefs && g.pct(20):
			o := g.namespace()
			if g.Go && o == ns {
				// The namespace of such attributes is lost, see
				// the known findings.
				continue
			}
			if len(o.Attrs) == 0 {
				continue
			}
			target := o.Attrs[g.Intn(len(o.Attrs))]
			if used[target.Local] {
				continue
			}
			used[target.Local] = true
			a := &Attr{NS: ns, Ref: target, Use: g.pick("", "", "required", "optional")}
			if !g.NoDefaults && g.pct(15) && !g.Go {
				a.SetDefault, a.Default, a.Use = true, "over", ""
			}
			items = append(items, AttrItem{Attr: a, Host: ns})
		case g.pct(6) && !g.NoRefs:
			if used["lang"] {
				continue
			}
			used["lang"] = true
			items = append(items, AttrItem{Attr: &Attr{NS: ns, XML: true, Local: "lang"}, Host: ns})
		default:
			items = append(items, AttrItem{Attr: g.localAttr(ns, simple, used), Host: ns})
		}
	}
	return items
}

func (ag *AttrGroup) names() []string {
	var names []string
	for _, it := range ag.Items {
		switch {
		case it.Group != nil:
			names = append(names, it.Group.names()...)
		case it.Attr.Ref != nil:
			names = append(names, it.Attr.Ref.Local)
		default:
			names = append(names, it.Attr.Local)
		}
	}
	return names
}

// fillComplex makes the content of a complex type. Types in earlier may be used
// as a base.
func (g *G) fillComplex(t *Type, simple, earlier []*Type, groups []*Group, depth int) {
	g.complex(t, simple, earlier, groups, depth)
	if !t.Shorthand && g.pct(30) {
		t.ContentDoc = g.doc()
	}
}

func (g *G) complex(t *Type, simple, earlier []*Type, groups []*Group, depth int) {
	sc := &scope{ns: t.NS, simple: simple, groups: groups, used: map[string]*Elem{}}
	g.counter++
	sc.owner = fmt.Sprintf("complex %d", g.counter)
	used := map[string]bool{}
	var ag []*AttrGroup
	for _, ns := range g.m.NS {
		ag = append(ag, ns.AttrGroups...)
	}
	t.Abstract = g.pct(8)
	t.Base = B(xsd.AnyType)
	switch {
	case g.pct(14) && !(g.deep && len(earlier) > 0) || g.huge == hugeContentChain && g.pct(90):
		// simple content
		t.SimpleContent = true
		t.Extends = true
		var bases []*Type
		for _, e := range earlier {
			if e.SimpleContent {
				bases = append(bases, e)
			}
		}
		switch {
		case len(bases) > 0 && (g.pct(40) || g.huge == hugeContentChain && g.pct(90)):
			base := g.among(bases)
			if g.huge == hugeContentChain && g.pct(80) {
				base = bases[len(bases)-1]
			}
			t.Base = Ref{Type: base}
			g.inherit(base, sc, used)
			t.Extends = g.pct(60)
		case len(simple) > 0 && g.pct(40):
			t.Base = Ref{Type: g.among(simple)}
		default:
			t.Base = B(g.builtin())
		}
		t.Attrs = g.attrItems(t.NS, simple, ag, used)
		if !t.Extends {
			t.Attrs = nil
			if !g.Go {
				t.Attrs = g.attrItems(t.NS, simple, ag, used)
			}
		}
		return
	case len(earlier) > 0 && (g.pct(40) || (g.deep || g.huge == hugeAttrs) && g.pct(80)):
		var bases []*Type
		for _, e := range earlier {
			if !e.SimpleContent {
				bases = append(bases, e)
			}
		}
		if len(bases) > 0 {
			base := g.among(bases)
			t.Extends = g.pct(75)
			if g.huge == hugeAttrs {
				t.Extends = g.pct(40)
			}
			if g.deep {
				base = bases[len(bases)-1]
				t.Extends = g.pct(96)
			}
			t.Base = Ref{Type: base}
			if g.Go && !t.Extends && !g.restrictable(base, t.NS) {
				t.Extends = true
			}
			g.inherit(base, sc, used)
			if g.Go && !t.Extends {
				// A restriction repeats what it keeps.
				t.Mixed = false
				var parts []*Particle
				for _, p := range g.fullContent(base) {
					if p = g.restrict(p, t.NS); p != nil {
						parts = append(parts, p)
					}
				}
				if len(parts) > 0 || g.pct(50) {
					t.Content = &Particle{Kind: Sequence, Min: 1, Max: 1, Parts: parts}
				}
				for _, a := range AllAttributes(base) {
					if d := a.Decl; d.Ref == nil && !a.XML && !a.Qualified && d.Default == "" && g.pct(25) && d.Type.Type.namedOrNil() {
						c := *d
						c.NS, c.Use, c.Form = t.NS, "required", ""
						t.Attrs = append(t.Attrs, AttrItem{Attr: &c, Host: t.NS})
					}
				}
				return
			}
		}
	case g.pct(5) && !g.Go:
		t.Extends = true // of anyType
	case g.pct(60):
		t.Shorthand = true
	}
	if !g.Go || g.Mixed {
		t.Mixed = g.pct(10)
		t.MixedContent = !t.Shorthand && (t.Mixed && g.pct(40) || g.pct(6))
	}
	if g.pct(88) {
		t.Content = g.model(sc, 0)
	}
	if t.Content == nil && g.Go && g.pct(50) {
		t.Content = g.model(sc, 0)
	}
	t.Attrs = g.attrItems(t.NS, simple, ag, used)
}

// inherit reserves the names of the elements and attributes of a base type.
func (g *G) inherit(base *Type, sc *scope, used map[string]bool) {
	for base != nil {
		var collect func(p *Particle)
		collect = func(p *Particle) {
			if p == nil {
				return
			}
			switch p.Kind {
			case Element:
				e := p.Elem
				if e.Ref != nil {
					e = e.Ref
				}
				sc.used[e.NS.URI+" "+e.Local] = &Elem{NS: e.NS}
			case Any:
				sc.any = true
			case GroupRef:
				collect(p.Group.Content)
			}
			for _, q := range p.Parts {
				collect(q)
			}
		}
		collect(base.Content)
		for _, n := range (&AttrGroup{Items: base.Attrs}).names() {
			used[n] = true
		}
		base = base.Base.Type
	}
}

func (t *Type) namedOrNil() bool { return t == nil || t.Local != "" }

// fullContent lists the content models of a type and of those it extends.
func (g *G) fullContent(t *Type) []*Particle {
	var l []*Particle
	if b := BaseOf(t); b != nil && t.Extends {
		l = g.fullContent(b)
	}
	if t.Content != nil {
		l = append(l, t.Content)
	}
	return l
}

// restrictable tells if a restriction of the type can repeat its content:
// all of it is of one namespace, and no anonymous type has to be repeated.
func (g *G) restrictable(t *Type, ns *Namespace) bool {
	var ok func(p *Particle) bool
	ok = func(p *Particle) bool {
		switch p.Kind {
		case Element:
			d := p.Elem
			if d.Ref == nil && (d.NS != ns || !d.Type.Type.namedOrNil()) {
				return false
			}
		case All:
			return false
		}
		for _, q := range p.Parts {
			if !ok(q) {
				return false
			}
		}
		return true
	}
	for _, p := range g.fullContent(t) {
		if !ok(p) {
			return false
		}
	}
	return true
}

// restrict copies a content model, without some of the optional parts.
func (g *G) restrict(p *Particle, ns *Namespace) *Particle {
	if p.Min == 0 && g.pct(40) {
		return nil
	}
	c := *p
	c.Parts = nil
	switch p.Kind {
	case GroupRef:
		c.Host = ns
	case Element:
		e := *p.Elem
		c.Elem = &e
	}
	for _, q := range p.Parts {
		if p.Kind == Choice {
			d := *q
			d.Min = 1
			if d.Max == 0 {
				d.Max = 1
			}
			q = &d
		}
		if q = g.restrict(q, ns); q != nil {
			c.Parts = append(c.Parts, q)
		}
	}
	return &c
}
