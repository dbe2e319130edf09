// Package xmlgen generates XML documents together with a model of what they
// mean: resolved names, decoded values, byte offsets of content, and the
// namespace environment at every element.
package xmlgen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"
)

const (
	XMLNS   = "http://www.w3.org/2000/xmlns/"
	XMLLang = "http://www.w3.org/XML/1998/namespace"
)

type Decl struct{ Prefix, URI string }

type Attr struct {
	Prefix string
	Name   xml.Name // resolved
	Value  string
	raw    string
}

// An Item is a piece of content: an element, or raw text.
type Item struct {
	El   *Node
	Raw  string // raw markup of a text run, CDATA section, comment or PI
	Text string // its decoded character data
}

type Node struct {
	Prefix string
	Name   xml.Name // resolved
	Decls  []Decl
	Attrs  []Attr
	Items  []Item
	Env    map[string]string // prefix to URI, "" is the default; absent: not declared
	Parent *Node

	Begin, End int // offsets of the content, set by Render
	SelfClose  bool
	MixedDecl  bool
}

// Children returns the child elements.
func (n *Node) Children() []*Node {
	var r []*Node
	for _, it := range n.Items {
		if it.El != nil {
			r = append(r, it.El)
		}
	}
	return r
}

// Walk visits n and its descendants in document order.
func (n *Node) Walk(fn func(*Node)) {
	fn(n)
	for _, it := range n.Items {
		if it.El != nil {
			it.El.Walk(fn)
		}
	}
}

// Text is the decoded character data directly in n.
func (n *Node) Text() string {
	var s strings.Builder
	for _, it := range n.Items {
		s.WriteString(it.Text)
	}
	return s.String()
}

// Config bounds the documents.
type Config struct {
	MaxElems   int
	MaxDepth   int
	Mixed      bool // text and elements may be mixed
	Undeclared bool // undeclared prefixes may be used
	Alphabet   []rune
	NoNS       bool
	ASCIINames bool
	NoCR       bool // no carriage returns anywhere in raw text
	NoMisc     bool // no comments, PIs, CDATA
	PlainWS    bool // white space only between elements
	NoFill     bool // nothing between elements
}

// G generates.
type G struct {
	*rand.Rand
	Config
	left   int
	locals []string // names of the document's elements and attributes
	wide   int      // at most so many children, attributes, declarations
	deep   bool
	huge   int      // what there is an unusual amount of, in one element
	pfx    []string // prefixes to declare
}

// What a huge document has much of.
const (
	hugeNone = iota
	hugeChildren
	hugeAttrs
	hugeDecls
	hugeText
	hugeDepth
	hugeKinds
)

func New(r *rand.Rand, c Config) *G {
	if c.MaxElems == 0 {
		c.MaxElems = 30
	}
	if c.MaxDepth == 0 {
		c.MaxDepth = 8
	}
	return &G{Rand: r, Config: c, locals: locals, pfx: Prefixes}
}

var (
	Prefixes = []string{"p", "q", "r", "ns1", "a-b", "x.y", "_"}
	URIs     = []string{"urn:a", "urn:b", "urn:c", "http://example.org/x?a=1&b=2", "urn:with'quote", "urn:a/", "u<v"}
	locals   = []string{"a", "b", "c", "item", "Item", "x-1", "_u", "name", "type", "element"}
	ulocals  = []string{"é", "日本", "ñ1"}
)

func (g *G) pick(s []string) string { return s[g.Intn(len(s))] }
func (g *G) pct(p int) bool         { return g.Intn(100) < p }

// Prefixes returns the prefixes the document may use.
func (g *G) Prefixes() []string { return g.pfx }

// Local makes a local name.
func (g *G) Local() string {
	if !g.ASCIINames && g.pct(5) {
		return g.pick(ulocals)
	}
	return g.pick(g.locals)
}

var defaultAlphabet = []rune("abc XYZ 0189 <>&'\"=/!-]?;:# \n\té日本𝄞")

// Value makes arbitrary character data.
func (g *G) Value(max int) string {
	al := g.Alphabet
	if al == nil {
		al = defaultAlphabet
	}
	n := g.Intn(max + 1)
	var s strings.Builder
	for i := 0; i < n; i++ {
		s.WriteRune(al[g.Intn(len(al))])
	}
	return s.String()
}

// Space makes white space.
func (g *G) Space(max int) string {
	n := g.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = " \n\t "[g.Intn(4)]
	}
	return string(b)
}

// escape writes s with random choices of escaping; attr 0 for text, or the
// quote character.
func (g *G) escape(s string, quote byte) string {
	var b strings.Builder
	prev := ""
	for _, r := range s {
		lit := string(r)
		var out string
		switch {
		case r == '&':
			out = g.pick([]string{"&amp;", "&#38;", "&#x26;"})
		case r == '<':
			out = g.pick([]string{"&lt;", "&#60;"})
		case r == '>' && (quote == 0 && (b.Len() == 0 || strings.HasSuffix(prev, "]")) || g.pct(50)):
			out = "&gt;"
		case r == '"' && (quote == '"' || g.pct(20)):
			out = "&quot;"
		case r == '\'' && (quote == '\'' || g.pct(20)):
			out = "&apos;"
		case r == '\r', quote != 0 && (r == '\n' || r == '\t'):
			out = fmt.Sprintf("&#%d;", r)
		case g.pct(3):
			out = fmt.Sprintf("&#x%X;", r)
		default:
			out = lit
		}
		b.WriteString(out)
		prev = out
	}
	return b.String()
}

func (g *G) textItem() Item {
	switch k := g.Intn(10); {
	case k == 0 && !g.NoMisc:
		t := strings.Replace(g.Value(12), "]]>", "", -1)
		t = strings.Replace(t, "]]>", "", -1)
		if strings.Contains(t, "]]>") || strings.HasSuffix(t, "]") {
			t = "x"
		}
		return Item{Raw: "<![CDATA[" + t + "]]>", Text: t}
	case k == 1 && !g.NoMisc:
		return g.misc()
	}
	v := g.Value(14)
	raw := g.escape(v, 0)
	if !g.NoCR && g.pct(5) {
		raw += "\r\n"
		v += "\n"
	}
	return Item{Raw: raw, Text: v}
}

func (g *G) misc() Item {
	switch g.Intn(3) {
	case 0:
		return Item{Raw: "<!-- " + g.pick([]string{"c", "<a>", "&x; ", "</b> é"}) + " -->"}
	case 1:
		return Item{Raw: "<?" + g.pick([]string{"pi", "php"}) + " " + g.pick([]string{"", "a=\"1\"", "<x> >"}) + "?>"}
	}
	return Item{Raw: g.Space(3)}
}

// Doc makes a document.
func (g *G) Doc() *Node {
	// Most documents are small and varied; some are wide, deep, or repeat
	// few names.
	g.left = 1 + g.Intn(g.MaxElems)
	g.locals, g.wide, g.deep = locals, 0, false
	if g.pct(15) {
		i := g.Intn(len(locals))
		g.locals = locals[i : i+1+g.Intn(2)*(len(locals)-1-i)/2]
	}
	depth := g.MaxDepth
	defer func() { g.MaxDepth = depth }()
	g.huge, g.pfx = hugeNone, Prefixes
	if g.Intn(150) == 0 {
		g.huge = 1 + g.Intn(hugeKinds-1)
	}
	switch {
	case g.huge == hugeDepth:
		g.deep = true
		g.MaxDepth = 100 + g.Intn(200)
		g.left += g.MaxDepth
	case g.huge == hugeChildren:
		g.left += 400
	case g.huge == hugeAttrs:
		g.locals = append([]string(nil), locals...)
		for i := 0; i < 150; i++ {
			g.locals = append(g.locals, fmt.Sprintf("n%d", i))
		}
	case g.huge == hugeDecls:
		g.pfx = append([]string(nil), Prefixes...)
		for i := 0; i < 100; i++ {
			g.pfx = append(g.pfx, fmt.Sprintf("p%d", i))
		}
	case g.pct(12):
		g.wide = 6 + g.Intn(30)
		g.left += g.wide
	case g.pct(6):
		g.deep = true
		g.MaxDepth = 20 + g.Intn(40)
		g.left += g.MaxDepth
	}
	return g.node(nil, 0)
}

func (g *G) declare(n *Node) {
	if g.NoNS {
		return
	}
	k := 0
	switch {
	case n.Parent == nil:
		k = g.Intn(5)
	case g.pct(30):
		k = 1 + g.Intn(3)
	}
	if g.wide > 0 && g.pct(20) {
		k = g.Intn(8)
	}
	if g.huge == hugeDecls && (n.Parent == nil || g.pct(10)) {
		k = 30 + g.Intn(150)
	}
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		d := Decl{g.pick(g.pfx), g.pick(URIs)}
		if g.pct(35) {
			d.Prefix = ""
			if g.pct(25) {
				d.URI = ""
			}
		}
		if seen[d.Prefix] {
			continue
		}
		seen[d.Prefix] = true
		n.Decls = append(n.Decls, d)
		n.Env[d.Prefix] = d.URI
	}
}

// boundPrefix picks a declared non-empty prefix.
func (g *G) boundPrefix(n *Node) string {
	var ps []string
	for _, p := range g.pfx {
		if _, ok := n.Env[p]; ok {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return ""
	}
	return g.pick(ps)
}

func (g *G) node(parent *Node, depth int) *Node {
	n := &Node{Parent: parent, Env: make(map[string]string)}
	if parent != nil {
		for k, v := range parent.Env {
			n.Env[k] = v
		}
	}
	g.left--
	g.declare(n)
	if !g.NoNS {
		if g.pct(45) {
			n.Prefix = g.boundPrefix(n)
		}
		if g.Undeclared && g.pct(4) {
			n.Prefix = g.pick(Prefixes)
		}
	}
	n.Name.Local = g.Local()
	n.Name.Space = n.resolveSpace(n.Prefix)
	used := map[string]bool{}
	nattr := g.Intn(4)
	if g.wide > 0 && g.pct(20) {
		nattr = g.Intn(g.wide)
	}
	if g.huge == hugeAttrs && (parent == nil || g.pct(10)) {
		nattr = 50 + g.Intn(200)
	}
	for i := 0; i < nattr; i++ {
		a := Attr{Name: xml.Name{Local: g.Local()}}
		switch {
		case g.NoNS:
		case g.pct(30):
			a.Prefix = g.boundPrefix(n)
			if a.Prefix != "" && g.pct(5) {
				a.Name.Local = "xmlns" // no declaration
			}
		case g.pct(5):
			a.Prefix = "xml"
			a.Name.Local = g.pick([]string{"lang", "space", "id"})
		case g.Undeclared && g.pct(5):
			a.Prefix = g.pick(Prefixes)
		}
		if a.Prefix != "" {
			a.Name.Space = n.resolveSpace(a.Prefix)
		}
		key := a.Name.Space + " " + a.Name.Local
		if used[key] {
			continue
		}
		used[key] = true
		a.Value = g.Value(12)
		n.Attrs = append(n.Attrs, a)
	}
	// content
	if depth < g.MaxDepth && g.left > 0 && (parent == nil && g.pct(90) || g.pct(55) || g.deep && g.pct(85)) {
		n.Items = append(n.Items, g.filler()...)
		nkids := 1 + g.Intn(4)
		if g.wide > 0 && g.pct(40) {
			nkids = 1 + g.Intn(g.wide)
		}
		if g.huge == hugeChildren && (parent == nil || g.pct(10)) {
			nkids = 50 + g.Intn(350)
		}
		if g.deep && g.pct(80) {
			nkids = 1
		}
		for k := nkids; k > 0 && g.left > 0; k-- {
			n.Items = append(n.Items, Item{El: g.node(n, depth+1)})
			n.Items = append(n.Items, g.filler()...)
		}
	} else {
		for k := g.Intn(4); k > 0; k-- {
			n.Items = append(n.Items, g.textItem())
		}
	}
	if g.huge == hugeText && g.left >= 0 {
		if (g.Mixed || len(n.Children()) == 0) && g.pct(70) {
			v := strings.Repeat(g.Value(20)+"text ", 1+g.Intn(1<<uint(g.Intn(14))))
			n.Items = append(n.Items, Item{Raw: g.escape(v, 0), Text: v})
			g.huge = hugeNone
		} else if !g.NoFill && !g.PlainWS && !g.NoMisc {
			// a long comment
			n.Items = append(n.Items, Item{Raw: "<!--" + strings.Repeat(" comment", 1+g.Intn(1<<uint(g.Intn(14)))) + "-->"})
			g.huge = hugeNone
		}
	}
	n.SelfClose = len(n.Items) == 0 && g.pct(60)
	return n
}

func (g *G) filler() []Item {
	if g.NoFill {
		return nil
	}
	var items []Item
	for k := g.Intn(3); k > 0; k-- {
		switch {
		case g.PlainWS:
			items = append(items, Item{Raw: g.Space(3)})
		case g.Mixed && g.pct(40):
			items = append(items, g.textItem())
		case g.NoMisc:
			items = append(items, Item{Raw: g.Space(3)})
		default:
			items = append(items, g.misc())
		}
	}
	return items
}

func (n *Node) resolveSpace(prefix string) string {
	if prefix == "xml" {
		return XMLLang
	}
	if uri, ok := n.Env[prefix]; ok {
		return uri
	}
	return prefix
}

// Resolve is the model's name resolution.
func (n *Node) Resolve(qname string) (xml.Name, bool) {
	prefix, local := "", qname
	if i := strings.Index(qname, ":"); i >= 0 {
		prefix, local = qname[:i], qname[i+1:]
	}
	switch prefix {
	case "xml":
		return xml.Name{Space: XMLLang, Local: local}, true
	case "xmlns":
		return xml.Name{Space: XMLNS, Local: local}, true
	}
	if uri, ok := n.Env[prefix]; ok {
		return xml.Name{Space: uri, Local: local}, true
	}
	return xml.Name{Space: prefix, Local: local}, false
}

// Render writes the document and sets the offsets of the model. The prolog is
// chosen at random unless it is given.
func (g *G) Render(root *Node, prolog *string) []byte {
	var b bytes.Buffer
	if prolog != nil {
		b.WriteString(*prolog)
	} else {
		if g.pct(40) {
			b.WriteString(g.pick([]string{
				`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`,
				`<?xml version='1.0' encoding='utf-8' standalone="yes"?>`}))
			b.WriteString(g.Space(2))
		}
		for k := g.Intn(3); k > 0; k-- {
			b.WriteString(g.misc().Raw)
		}
		if g.pct(15) {
			b.WriteString(g.pick([]string{"<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA)>]>"}) + "\n")
		}
	}
	g.render(&b, root)
	if g.pct(30) {
		b.WriteString(g.misc().Raw)
		b.WriteString(g.Space(3))
	}
	return b.Bytes()
}

func qname(p, l string) string {
	if p == "" {
		return l
	}
	return p + ":" + l
}

func (g *G) sp() string {
	if g.pct(85) {
		return " "
	}
	return g.pick([]string{"\n", "  ", "\t", " \n "})
}

func (g *G) render(b *bytes.Buffer, n *Node) {
	b.WriteString("<" + qname(n.Prefix, n.Name.Local))
	type at struct{ k, v string }
	var as []at
	for _, d := range n.Decls {
		if d.Prefix == "" {
			as = append(as, at{"xmlns", d.URI})
		} else {
			as = append(as, at{"xmlns:" + d.Prefix, d.URI})
		}
	}
	// Declarations may appear anywhere among the attributes.
	nd := len(as)
	for _, a := range n.Attrs {
		as = append(as, at{qname(a.Prefix, a.Name.Local), a.Value})
	}
	order := g.Perm(nd)
	var merged []at
	di, ai := 0, nd
	for di < nd || ai < len(as) {
		if ai >= len(as) || di < nd && g.pct(60) {
			merged = append(merged, as[order[di]])
			di++
		} else {
			merged = append(merged, as[ai])
			ai++
		}
	}
	for _, a := range merged {
		q := byte('"')
		if g.pct(20) {
			q = '\''
		}
		eq := "="
		if g.pct(5) {
			eq = " = "
		}
		b.WriteString(g.sp() + a.k + eq + string(q) + g.escape(a.v, q) + string(q))
	}
	if g.pct(10) {
		b.WriteString(" ")
	}
	if n.SelfClose {
		b.WriteString("/>")
		n.Begin, n.End = b.Len(), b.Len()
		return
	}
	b.WriteString(">")
	n.Begin = b.Len()
	for _, it := range n.Items {
		if it.El != nil {
			g.render(b, it.El)
		} else {
			b.WriteString(it.Raw)
		}
	}
	n.End = b.Len()
	b.WriteString("</" + qname(n.Prefix, n.Name.Local))
	if g.pct(5) {
		b.WriteString(" ")
	}
	b.WriteString(">")
}
