package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/xmltree"
	"golang.org/x/net/html/charset"
)

func init() {
	register(&core.Prop{
		ID: "X01", Quick: 40000, Thorough: 400000, Run: runX01,
		Rule: "random documents (namespaces, comments, CDATA, PIs, entities, DOCTYPE, mixed content) rendered from a model that records resolved names, decoded attribute values and byte offsets; every element of the parsed tree is compared with the model; non-trivial: at least 3 elements and an attribute or declaration",
		Need: map[string]int{"elements": 10000, "attributes": 5000, "mixed content": 500},
	})
	register(&core.Prop{
		ID: "X02", Quick: 30000, Thorough: 400000, Run: runX02,
		Rule: "random documents whose text is encodable in a random charset, encoded in it with an XML declaration that is followed by nothing, white space, a comment or a large prolog; parse compared element by element with the parse of the UTF-8 form, and the caller's bytes before and after; non-trivial: encoded bytes differ from UTF-8",
		Need: map[string]int{"documents larger than 4 KB": 100, "documents with non-ASCII": 500},
	})
	register(&core.Prop{
		ID: "X03", Quick: 40000, Thorough: 500000, Run: runX03,
		Rule: "every element of random documents, a set of qualified names (declared, shadowed, undeclared, reserved prefixes, unprefixed) resolved and compared with an environment computed by the generator; random join histories compared with lookup in the list of joined environments, all earlier scopes re-checked at the end; non-trivial: the element's environment has at least 2 bindings",
		Need: map[string]int{"resolutions": 100000, "joins": 5000, "shadowed": 500},
	})
	register(&core.Prop{
		ID: "X04", Quick: 60000, Thorough: 600000, Run: runX04,
		Rule: "every element of random documents and joins of their scopes, every namespace of the document: the prefixed form resolved again; non-trivial: a prefix is shadowed somewhere in the scope or the namespace has two prefixes",
		Need: map[string]int{"round trips": 50000, "unbound namespaces": 5000, "scopes with shadowing": 300},
	})
}

func show(el *xmltree.Element) string {
	return fmt.Sprintf("<%v attrs=%v content=%q children=%d>", el.Name, el.StartElement.Attr, el.Content, len(el.Children))
}

// matchModel compares a parsed tree with the model of the document.
func matchModel(el *xmltree.Element, n *xmlgen.Node, doc []byte, path string) string {
	path += "/" + n.Name.Local
	if el.Name != n.Name {
		return fmt.Sprintf("%s: name %v, want %v", path, el.Name, n.Name)
	}
	if len(el.StartElement.Attr) != len(n.Attrs) {
		return fmt.Sprintf("%s: attributes %v, want %d", path, el.StartElement.Attr, len(n.Attrs))
	}
	for i, a := range n.Attrs {
		if el.StartElement.Attr[i].Name != a.Name || el.StartElement.Attr[i].Value != a.Value {
			return fmt.Sprintf("%s: attribute %d is %v=%q, want %v=%q", path, i, el.StartElement.Attr[i].Name, el.StartElement.Attr[i].Value, a.Name, a.Value)
		}
	}
	if want := doc[n.Begin:n.End]; !bytes.Equal(el.Content, want) {
		return fmt.Sprintf("%s: content %q, want %q", path, el.Content, want)
	}
	ch := n.Children()
	if len(ch) != len(el.Children) {
		return fmt.Sprintf("%s: %d children, want %d", path, len(el.Children), len(ch))
	}
	for i := range ch {
		if s := matchModel(&el.Children[i], ch[i], doc, path); s != "" {
			return s
		}
	}
	return ""
}

// sameTree compares two trees: names, attributes, content, children.
func sameTree(a, b *xmltree.Element, content bool) string {
	if a.Name != b.Name {
		return fmt.Sprintf("names %v and %v", a.Name, b.Name)
	}
	if len(a.StartElement.Attr) != len(b.StartElement.Attr) {
		return fmt.Sprintf("%v: attributes %v and %v", a.Name, a.StartElement.Attr, b.StartElement.Attr)
	}
	for i := range a.StartElement.Attr {
		if a.StartElement.Attr[i] != b.StartElement.Attr[i] {
			return fmt.Sprintf("%v: attributes %q and %q", a.Name, a.StartElement.Attr, b.StartElement.Attr)
		}
	}
	if content && !bytes.Equal(a.Content, b.Content) {
		return fmt.Sprintf("%v: content %q and %q", a.Name, a.Content, b.Content)
	}
	if len(a.Children) != len(b.Children) {
		return fmt.Sprintf("%v: %d and %d children", a.Name, len(a.Children), len(b.Children))
	}
	for i := range a.Children {
		if s := sameTree(&a.Children[i], &b.Children[i], content); s != "" {
			return s
		}
	}
	return ""
}

func countNodes(n *xmlgen.Node) (elems, attrs, decls int) {
	n.Walk(func(n *xmlgen.Node) {
		elems++
		attrs += len(n.Attrs)
		decls += len(n.Decls)
	})
	return
}

func isMixed(n *xmlgen.Node) bool {
	m := false
	n.Walk(func(n *xmlgen.Node) {
		if len(n.Children()) > 0 && strings.TrimSpace(n.Text()) != "" {
			m = true
		}
	})
	return m
}

func runX01(c *core.Case) {
	cfg := xmlgen.Config{Mixed: c.Pct(50), Undeclared: c.Pct(20)}
	switch c.Intn(12) {
	case 0:
		cfg.MaxElems, cfg.MaxDepth = 300, 40
	case 1:
		cfg.MaxElems, cfg.MaxDepth = 120, 120
	case 2:
		cfg.MaxElems = 2
	}
	g := xmlgen.New(c.Rand, cfg)
	root := g.Doc()
	doc := g.Render(root, nil)
	c.Ctx("%s", doc)
	orig := append([]byte(nil), doc...)
	// Spare capacity that Parse has no business with.
	buf := make([]byte, len(doc), len(doc)+16)
	copy(buf, doc)
	el, err := xmltree.Parse(buf)
	c.Eval(1)
	if err != nil {
		// The generator must agree with encoding/xml about well-formedness.
		if _, _, werr := wellFormed(orig); werr != nil {
			c.Fatal("generated document is not well-formed: %v\n%s", werr, orig)
		}
		c.Violate(string(orig), "well-formed document rejected: %v", err)
		return
	}
	if !bytes.Equal(buf, orig) {
		c.Violate(string(orig), "source bytes modified by Parse")
	}
	if s := matchModel(el, root, orig, ""); s != "" {
		c.Violate(string(orig), "%s", s)
	}
	e, a, d := countNodes(root)
	c.Observe("elements", e)
	c.Observe("attributes", a)
	c.Observe("declarations", d)
	if isMixed(root) {
		c.Observe("mixed content", 1)
	}
	if e >= 3 && a+d > 0 {
		c.Distinct(string(orig))
		c.Sample("%s", orig)
	}
}

// wellFormed walks the tokens of a document to the end of its root element.
func wellFormed(doc []byte) (maxDepth int, sawRoot bool, err error) {
	return wellFormedReader(xml.NewDecoder(bytes.NewReader(doc)))
}

func wellFormedReader(d *xml.Decoder) (maxDepth int, sawRoot bool, err error) {
	depth := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return maxDepth, sawRoot, err
		}
		switch tok.(type) {
		case xml.StartElement:
			sawRoot = true
			depth++
			if depth > maxDepth {
				maxDepth = depth
			}
		case xml.EndElement:
			depth--
			if depth == 0 {
				return maxDepth, sawRoot, nil
			}
		}
	}
}

var charsets = []struct {
	label    string
	alphabet string
}{
	{"iso-8859-1", "abc éüß£ñ <&>\n"},
	{"ISO-8859-1", "éü xyz"},
	{"latin1", "éüÄÖ abc"},
	{"iso-8859-2", "ąłŚž abc"},
	{"iso-8859-5", "абвгд abc"},
	{"iso-8859-7", "αβγδ abc"},
	{"iso-8859-15", "€šž abc"},
	{"windows-1250", "ąłŚž abc"},
	{"windows-1251", "абвгдё abc"},
	{"windows-1252", "é€“”™ abc"},
	{"windows-1253", "αβγ abc"},
	{"koi8-r", "абвгд abc"},
	{"macintosh", "éüß abc"},
	{"ibm866", "абвгд abc"},
	{"shift_jis", "日本語テキスト abc"},
	{"euc-jp", "日本語テキスト abc"},
	{"gbk", "中文字符 abc"},
	{"gb18030", "中文字符€ abc"},
	{"big5", "中文字 abc"},
	{"euc-kr", "한국어 abc"},
	{"us-ascii", "abc xyz"},
	{"utf8", "é日本 abc"},
}

func runX02(c *core.Case) {
	cs := charsets[c.Intn(len(charsets))]
	enc, _ := charset.Lookup(cs.label)
	if enc == nil {
		c.Fatal("no encoding %s", cs.label)
	}
	cfg := xmlgen.Config{Alphabet: []rune(cs.alphabet), ASCIINames: true, NoMisc: c.Pct(50), Mixed: true, NoCR: c.Pct(50)}
	big := c.Pct(15)
	if big {
		cfg.MaxElems, cfg.MaxDepth = 400, 20
	}
	g := xmlgen.New(c.Rand, cfg)
	root := g.Doc()
	root.Walk(func(n *xmlgen.Node) {
		// The generator's comments contain é.
		for i := range n.Items {
			if n.Items[i].El == nil && n.Items[i].Text == "" {
				n.Items[i].Raw = strings.Replace(n.Items[i].Raw, "é", "", -1)
			}
		}
		if big && len(n.Children()) == 0 && c.Pct(30) {
			al := strings.Replace(strings.Replace(cs.alphabet, "<", "", -1), "&", "", -1)
			al = strings.Replace(al, ">", "", -1)
			n.SelfClose = false
			t := strings.Repeat(al, 20+c.Intn(60))
			n.Items = append(n.Items, xmlgen.Item{Raw: t, Text: t})
		}
	})
	after := c.Pick("", "", "\n", "\r\n", "  ", "<!-- c -->", "\n<!DOCTYPE a>\n", "<?pi x?>", "\n"+strings.Repeat("<!-- padding -->\n", 1+c.Intn(400)))
	q := c.Pick(`"`, `'`)
	tailDecl := c.Pick("", "", " standalone="+q+"yes"+q, " ")
	lead := c.Pick("", "", "", "\n", "<!-- first -->")
	decl := func(l string) string {
		return lead + "<?xml version=" + q + "1.0" + q + " encoding=" + q + l + q + tailDecl + "?>" + after
	}
	// Offsets in the model refer to the UTF-8 form with the same declaration.
	prolog := decl(cs.label)
	doc8 := g.Render(root, &prolog)
	encoded, err := enc.NewEncoder().Bytes(doc8)
	if err != nil {
		c.Fatal("cannot encode for %s: %v", cs.label, err)
	}
	if c.Pct(5) {
		// An unknown encoding is an error.
		p := decl("x-no-such-encoding")
		if el, err := xmltree.Parse(g.Render(root, &p)); err == nil {
			c.Violate(p, "unsupported encoding not reported: %s", show(el))
		}
		c.Observe("unsupported encodings", 1)
		g.Render(root, &prolog) // restore offsets (same random choices are not needed below)
	}
	c.Ctx("charset %s\n%q", cs.label, encoded)
	// The reference: the same document in UTF-8 with a UTF-8 declaration.
	ref := append([]byte(strings.Replace(prolog, cs.label, "utf-8", 1)), doc8[len(prolog):]...)
	want, err := xmltree.Parse(append([]byte(nil), ref...))
	if err != nil {
		c.Violate(string(ref), "UTF-8 form rejected: %v", err)
		return
	}
	buf := make([]byte, len(encoded), len(encoded)+64)
	copy(buf, encoded)
	got, err := xmltree.Parse(buf)
	c.Eval(1)
	in := fmt.Sprintf("charset %s\n%q", cs.label, encoded)
	if err != nil {
		c.Violate(in, "document in %s rejected: %v", cs.label, err)
		return
	}
	if !bytes.Equal(buf, encoded) {
		c.Violate(in, "Parse modified the caller's bytes")
	}
	if s := sameTree(got, want, true); s != "" {
		c.Violate(in, "parse differs from the UTF-8 form: %s", s)
	}
	// The tree must not be affected by what the caller does next.
	for _, e := range got.Flatten() {
		_ = e
	}
	c.Observe("charset "+strings.ToLower(cs.label), 1)
	if len(encoded) > 4096 {
		c.Observe("documents larger than 4 KB", 1)
	}
	if !bytes.Equal(encoded, doc8) {
		c.Observe("documents with non-ASCII", 1)
		c.Distinct(string(encoded))
		c.Sample("%s: %q", cs.label, encoded)
	}
}

// pairUp calls fn for each element and its model node.
func pairUp(el *xmltree.Element, n *xmlgen.Node, fn func(*xmltree.Element, *xmlgen.Node) bool) bool {
	if !fn(el, n) {
		return false
	}
	ch := n.Children()
	if len(ch) != len(el.Children) {
		return false
	}
	for i := range ch {
		if !pairUp(&el.Children[i], ch[i], fn) {
			return false
		}
	}
	return true
}

func parseOrReport(c *core.Case, doc []byte) *xmltree.Element {
	el, err := xmltree.Parse(append([]byte(nil), doc...))
	if err != nil {
		if _, _, werr := wellFormed(doc); werr != nil {
			c.Fatal("generated document is not well-formed: %v\n%s", werr, doc)
		}
		c.Violate(string(doc), "well-formed document rejected: %v", err)
		return nil
	}
	return el
}

type env []map[string]string // later entries are searched first

func (e env) lookup(prefix, local string) (xml.Name, bool) {
	switch prefix {
	case "xml":
		return xml.Name{Space: xmlgen.XMLLang, Local: local}, true
	case "xmlns":
		return xml.Name{Space: xmlgen.XMLNS, Local: local}, true
	}
	for i := len(e) - 1; i >= 0; i-- {
		if uri, ok := e[i][prefix]; ok {
			return xml.Name{Space: uri, Local: local}, true
		}
	}
	return xml.Name{Space: prefix, Local: local}, false
}

func checkScope(c *core.Case, s *xmltree.Scope, e env, doc []byte, where string) bool {
	prefixes := append([]string{"", "xml", "xmlns", "zz", "nope"}, xmlgen.Prefixes...)
	for _, p := range prefixes {
		local := c.Pick("n", "type", "é")
		q := local
		if p != "" {
			if c.Pct(5) {
				local += ":n" // the first colon ends the prefix
			}
			q = p + ":" + local
		}
		want, ok := e.lookup(p, local)
		got, gotok := s.ResolveNS(q)
		c.Observe("resolutions", 1)
		c.Eval(1)
		if got != want || (p != "" || ok) && gotok != ok {
			c.Violate(string(doc), "%s: ResolveNS(%q) = %v, %v; want %v, %v", where, q, got, gotok, want, ok)
			return false
		}
		if r := s.Resolve(q); r != want {
			c.Violate(string(doc), "%s: Resolve(%q) = %v, want %v", where, q, r, want)
			return false
		}
		d := c.Pick("", "urn:dflt", "urn:a")
		wantd := want
		if p == "" && d != "" {
			wantd = xml.Name{Space: d, Local: local}
		}
		if r := s.ResolveDefault(q, d); r != wantd {
			c.Violate(string(doc), "%s: ResolveDefault(%q, %q) = %v, want %v", where, q, d, r, wantd)
			return false
		}
	}
	return true
}

func runX03(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{Undeclared: true, MaxElems: 25, Mixed: c.Pct(30)})
	root := g.Doc()
	doc := g.Render(root, nil)
	c.Ctx("%s", doc)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	type se struct {
		s *xmltree.Scope
		e env
	}
	var pool []se
	check := func(what string) bool {
		return pairUp(el, root, func(el *xmltree.Element, n *xmlgen.Node) bool {
			if len(n.Env) >= 2 {
				c.Distinct(fmt.Sprint(n.Env))
			}
			return checkScope(c, &el.Scope, env{n.Env}, doc, what+" "+n.Name.Local)
		})
	}
	if !check("element") {
		return
	}
	pairUp(el, root, func(el *xmltree.Element, n *xmlgen.Node) bool {
		pool = append(pool, se{&el.Scope, env{n.Env}})
		if n.Parent != nil {
			for _, d := range n.Decls {
				if v, ok := n.Parent.Env[d.Prefix]; ok && v != d.URI {
					c.Observe("shadowed", 1)
				}
			}
		}
		return true
	})
	// Join scopes of this and of another document.
	g2 := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 6})
	root2 := g2.Doc()
	doc2 := g2.Render(root2, nil)
	el2 := parseOrReport(c, doc2)
	if el2 == nil {
		return
	}
	pairUp(el2, root2, func(el *xmltree.Element, n *xmlgen.Node) bool {
		pool = append(pool, se{&el.Scope, env{n.Env}})
		return true
	})
	both := append(append(append([]byte{}, doc...), "\n--- joined with ---\n"...), doc2...)
	for i := 0; i < 10; i++ {
		a, b := pool[c.Intn(len(pool))], pool[c.Intn(len(pool))]
		if len(a.e)+len(b.e) > 12 {
			continue
		}
		j := se{a.s.JoinScope(b.s), append(append(env{}, a.e...), b.e...)}
		c.Observe("joins", 1)
		if !checkScope(c, j.s, j.e, both, "join") {
			return
		}
		pool = append(pool, j)
	}
	for _, x := range pool {
		if !checkScope(c, x.s, x.e, both, "after all joins") {
			return
		}
	}
	c.Sample("%s", doc)
}

func runX04(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{Undeclared: c.Pct(20), MaxElems: 20})
	root := g.Doc()
	doc := g.Render(root, nil)
	c.Ctx("%s", doc)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	check := func(s *xmltree.Scope, e env, shadow bool, what string) bool {
		flat := map[string]string{}
		for _, m := range e {
			for k, v := range m {
				flat[k] = v
			}
		}
		by := map[string]int{}
		for p, u := range flat {
			if u != "" {
				by[u]++
			}
			_ = p
		}
		if shadow {
			c.Observe("scopes with shadowing", 1)
		}
		multi := false
		for _, n := range by {
			multi = multi || n > 1
		}
		if shadow || multi {
			c.Distinct(fmt.Sprint(e))
			c.Sample("%v", e)
		}
		for _, u := range append([]string{"urn:unbound", "", xmlgen.XMLNS, xmlgen.XMLLang}, xmlgen.URIs...) {
			name := xml.Name{Space: u, Local: c.Pick("x", "type", "é")}
			q := s.Prefix(name)
			c.Eval(1)
			_, bound := by[u]
			switch {
			case u == xmlgen.XMLNS || u == xmlgen.XMLLang, bound:
				c.Observe("round trips", 1)
				back, ok := s.ResolveNS(q)
				if back != name || !ok {
					c.Violate(string(doc), "%s, scope %v: Prefix(%v) = %q, which resolves to %v, %v", what, e, name, q, back, ok)
					return false
				}
				if d, ok := flat[""]; ok && d == u && u != "" && q != name.Local {
					c.Violate(string(doc), "%s, scope %v: Prefix(%v) = %q although the namespace is the default", what, e, name, q)
					return false
				}
			default:
				c.Observe("unbound namespaces", 1)
				if q != name.Local {
					c.Violate(string(doc), "%s, scope %v: Prefix(%v) = %q, want %q", what, e, name, q, name.Local)
					return false
				}
			}
		}
		return true
	}
	type se struct {
		s *xmltree.Scope
		e env
	}
	var pool []se
	ok := pairUp(el, root, func(el *xmltree.Element, n *xmlgen.Node) bool {
		shadow := false
		for p := n; p != nil; p = p.Parent {
			for _, d := range p.Decls {
				if n.Env[d.Prefix] != d.URI {
					shadow = true
				}
			}
		}
		pool = append(pool, se{&el.Scope, env{n.Env}})
		return check(&el.Scope, env{n.Env}, shadow, n.Name.Local)
	})
	if !ok {
		return
	}
	for i := 0; i < 6; i++ {
		a, b := pool[c.Intn(len(pool))], pool[c.Intn(len(pool))]
		j := se{a.s.JoinScope(b.s), append(append(env{}, a.e...), b.e...)}
		if !check(j.s, j.e, false, "join") {
			return
		}
	}
	// The zero scope.
	check(new(xmltree.Scope), nil, false, "empty scope")
}
