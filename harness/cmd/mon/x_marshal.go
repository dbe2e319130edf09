package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/xmltree"
)

func init() {
	register(&core.Prop{
		ID: "X05", Quick: 8000, Thorough: 120000, Run: runX05,
		Rule: "random documents without mixed content; every element (up to 40 per document) serialised on its own, then trees after random edit histories (attributes, renames, added/removed/reordered children, grafts from another document); output checked for namespace-well-formedness and duplicate attributes with an independent raw tokenizer, re-parsed and compared with the tree including what every prefix in scope resolves to; non-trivial: serialised element has a declaration in scope or was edited",
		Need: map[string]int{"subtrees": 20000, "edited trees": 3000, "grafts": 1000, "unbound names": 500},
	})
	register(&core.Prop{
		ID: "X06", Quick: 40000, Thorough: 400000, Run: runX06,
		Rule: "random parsed and edited trees, random prefix and indent strings (also empty, tabs, non-white space); output compared with a layout computed from the plain serialisation; non-trivial: at least 3 lines",
		Need: map[string]int{"trees": 5000, "depth 3 or more": 500},
	})
	register(&core.Prop{
		ID: "X07", Level: "fault_enumeration", Quick: 1500, Thorough: 20000, Run: runX07,
		Rule: "random small trees (also edited and cyclic ones); the writer fails at its k-th call for every k, and after b bytes with a partial write for sampled b; non-trivial: a distinct (tree, k) pair in which the fault fired",
		Need: map[string]int{"faults fired": 20000, "fault-free runs": 1000},
	})
	register(&core.Prop{
		ID: "X12", Quick: 4000, Thorough: 60000, Run: runX12,
		Rule: "every element of random documents without mixed content, decoded into 8 destination types (generic trees, namespaced and plain structs, strings, numbers, bytes, slices) by xmltree.Unmarshal and by xml.Decoder.DecodeElement positioned at the same element of the document; non-trivial: decoded without error into a non-zero value",
		Need: map[string]int{"compared": 50000, "both failed": 500},
	})
}

// decodedText returns the character data of the content of a leaf.
func decodedText(content []byte) (string, error) {
	d := xml.NewDecoder(bytes.NewReader(append(append([]byte("<x>"), content...), "</x>"...)))
	var s strings.Builder
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return s.String(), nil
		}
		if err != nil {
			return s.String(), err
		}
		if cd, ok := tok.(xml.CharData); ok {
			s.Write(cd)
		}
	}
}

// nsWellFormed checks with raw tokens that the document has one root, that
// tags match literally, that attributes are unique and all prefixes declared.
func nsWellFormed(doc []byte) error {
	d := xml.NewDecoder(bytes.NewReader(doc))
	type frame struct {
		name xml.Name
		ns   map[string]string
	}
	stack := []frame{{ns: map[string]string{"xml": xmlgen.XMLLang}}}
	roots := 0
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if len(stack) == 1 {
				roots++
			}
			top := stack[len(stack)-1].ns
			ns := top
			copied := false
			raw := map[string]bool{}
			for _, a := range tok.Attr {
				q := a.Name.Space + ":" + a.Name.Local
				if raw[q] {
					return fmt.Errorf("duplicate attribute %s in <%s>", q, tok.Name.Local)
				}
				raw[q] = true
				p, isDecl := "", false
				if a.Name.Space == "xmlns" {
					p, isDecl = a.Name.Local, true
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					isDecl = true
				}
				if isDecl {
					if !copied {
						n := make(map[string]string, len(ns)+1)
						for k, v := range ns {
							n[k] = v
						}
						ns, copied = n, true
					}
					ns[p] = a.Value
				}
			}
			seen := map[xml.Name]bool{}
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" {
					continue
				}
				u, ok := ns[a.Name.Space]
				if !ok {
					return fmt.Errorf("undeclared prefix %q of an attribute", a.Name.Space)
				}
				n := xml.Name{Space: u, Local: a.Name.Local}
				if seen[n] {
					return fmt.Errorf("duplicate attribute %v", n)
				}
				seen[n] = true
			}
			if tok.Name.Space != "" {
				if _, ok := ns[tok.Name.Space]; !ok {
					return fmt.Errorf("undeclared prefix %q of element %s", tok.Name.Space, tok.Name.Local)
				}
			}
			stack = append(stack, frame{tok.Name, ns})
		case xml.EndElement:
			if len(stack) == 1 || stack[len(stack)-1].name != tok.Name {
				return fmt.Errorf("unexpected </%v>", tok.Name)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 1 && len(bytes.TrimSpace(tok)) > 0 {
				return fmt.Errorf("text %q outside of the root", tok)
			}
		}
	}
	if len(stack) != 1 || roots != 1 {
		return fmt.Errorf("%d roots, %d open elements", roots, len(stack)-1)
	}
	return nil
}

var probePrefixes = append([]string{""}, xmlgen.Prefixes...)

// compareTrees: names, attributes, children, decoded text, and scopes.
func compareTrees(a, b *xmltree.Element, scopes bool, path string) string {
	path += "/" + a.Name.Local
	if a.Name != b.Name {
		return fmt.Sprintf("%s: name %v became %v", path, a.Name, b.Name)
	}
	if fmt.Sprintf("%q", a.StartElement.Attr) != fmt.Sprintf("%q", b.StartElement.Attr) {
		return fmt.Sprintf("%s: attributes %q became %q", path, a.StartElement.Attr, b.StartElement.Attr)
	}
	if scopes {
		for _, p := range probePrefixes {
			q := "l"
			if p != "" {
				q = p + ":l"
			}
			n, ok := a.ResolveNS(q)
			if !ok {
				continue
			}
			if p == "" && a.Name.Space == "" {
				continue // the default may have to be undeclared here
			}
			if m, ok := b.ResolveNS(q); !ok || m != n {
				return fmt.Sprintf("%s: %q resolved to %v, and now to %v, %v", path, q, n, m, ok)
			}
		}
	}
	if len(a.Children) != len(b.Children) {
		return fmt.Sprintf("%s: %d children became %d", path, len(a.Children), len(b.Children))
	}
	if len(a.Children) == 0 {
		s, err1 := decodedText(a.Content)
		t, err2 := decodedText(b.Content)
		if err1 == nil && (err2 != nil || s != t) {
			return fmt.Sprintf("%s: text %q became %q (%v)", path, s, t, err2)
		}
	}
	for i := range a.Children {
		if s := compareTrees(&a.Children[i], &b.Children[i], scopes, path); s != "" {
			return s
		}
	}
	return ""
}

func escapeText(s string) []byte {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.Bytes()
}

// An editor applies random edits to a tree.
type editor struct {
	c    *core.Case
	g    *xmlgen.G
	log  []string
	grow int
	// Names of many namespaces.
	spread bool
}

func (e *editor) space() string {
	if e.spread && e.c.Pct(80) {
		return fmt.Sprint("urn:spread", e.c.Intn(40))
	}
	return editSpaces[e.c.Intn(len(editSpaces))]
}

var editSpaces = append([]string{"urn:unbound1", "urn:unbound<&\"2", "", ""}, xmlgen.URIs...)

func (e *editor) edit(root *xmltree.Element, other *xmltree.Element) {
	c := e.c
	all := append([]*xmltree.Element{root}, root.Flatten()...)
	el := all[c.Intn(len(all))]
	if e.spread && c.Pct(50) {
		el = all[c.Intn(1+len(all)/4)]
	}
	sp := e.space()
	switch c.Intn(8) {
	case 0, 1:
		if c.Pct(30) {
			sp = xmlgen.XMLLang
		}
		local, v := e.g.Local(), e.g.Value(10)
		if sp == "" {
			// Only the local name is considered then; keep names unique.
			for _, a := range el.StartElement.Attr {
				if a.Name.Local == local && a.Name.Space == "" {
					sp = ""
				}
			}
		}
		el.SetAttr(sp, local, v)
		e.log = append(e.log, fmt.Sprintf("%s.SetAttr(%q, %q, %q)", el.Name.Local, sp, local, v))
	case 2:
		e.log = append(e.log, fmt.Sprintf("%v renamed to {%s %s}", el.Name, sp, "nn"))
		el.Name = xml.Name{Space: sp, Local: "nn"}
		if _, ok := el.ResolveNS(el.Prefix(el.Name)); !ok {
			c.Observe("unbound names", 1)
		}
	case 3:
		if len(el.Children) == 0 && len(bytes.TrimSpace(el.Content)) > 0 {
			return // would become mixed
		}
		ch := xmltree.Element{}
		ch.Name = xml.Name{Space: sp, Local: "new"}
		if c.Pct(60) {
			ch.Scope = el.Scope
		}
		if c.Pct(50) {
			ch.Content = escapeText(e.g.Value(8))
		}
		if c.Pct(50) {
			ch.SetAttr(e.space(), "at", e.g.Value(6))
		}
		k := c.Intn(len(el.Children) + 1)
		el.Children = append(append(append([]xmltree.Element{}, el.Children[:k]...), ch), el.Children[k:]...)
		e.log = append(e.log, fmt.Sprintf("new child %v in %s", ch.Name, el.Name.Local))
	case 4:
		if len(el.Children) > 0 {
			k := c.Intn(len(el.Children))
			e.log = append(e.log, fmt.Sprintf("child %d of %s removed", k, el.Name.Local))
			el.Children = append(append([]xmltree.Element{}, el.Children[:k]...), el.Children[k+1:]...)
			if len(el.Children) == 0 {
				el.Content = nil
			}
		}
	case 5:
		if len(el.Children) > 1 {
			i, j := c.Intn(len(el.Children)), c.Intn(len(el.Children))
			ch := append([]xmltree.Element{}, el.Children...)
			ch[i], ch[j] = ch[j], ch[i]
			el.Children = ch
			e.log = append(e.log, fmt.Sprintf("children %d, %d of %s swapped", i, j, el.Name.Local))
		}
	case 6:
		if len(el.Children) == 0 {
			v := e.g.Value(12)
			el.Content = escapeText(v)
			e.log = append(e.log, fmt.Sprintf("content of %s set to %q", el.Name.Local, v))
		}
	case 7:
		if len(el.Children) == 0 && len(bytes.TrimSpace(el.Content)) > 0 || e.grow > 3 {
			return
		}
		src := append([]*xmltree.Element{other}, other.Flatten()...)
		s := src[c.Intn(len(src))]
		el.Children = append(append([]xmltree.Element{}, el.Children...), *deepCopy(s))
		e.grow++
		c.Observe("grafts", 1)
		e.log = append(e.log, fmt.Sprintf("%s of the other document moved into %s", s.Name.Local, el.Name.Local))
	}
}

func checkMarshal(c *core.Case, el *xmltree.Element, what string) bool {
	out := xmltree.Marshal(el)
	in := what + "\noutput:\n" + string(out)
	if s := el.String(); s != string(out) {
		c.Violate(in, "String differs from Marshal: %s", s)
		return false
	}
	var b bytes.Buffer
	if err := xmltree.Encode(&b, el); err != nil || !bytes.Equal(b.Bytes(), out) {
		c.Violate(in, "Encode differs from Marshal: %v %s", err, b.Bytes())
		return false
	}
	if err := nsWellFormed(out); err != nil {
		c.Violate(in, "output is not a well-formed document: %v", err)
		return false
	}
	if s := literalWhiteSpace(out); s != "" {
		c.Violate(in, "white space in an attribute is written literally, where parsers replace it by spaces: %q", s)
		return false
	}
	back, err := xmltree.Parse(append([]byte(nil), out...))
	c.Eval(1)
	if err != nil {
		c.Violate(in, "output does not parse: %v", err)
		return false
	}
	if s := compareTrees(el, back, true, ""); s != "" {
		c.Violate(in, "tree changed by the round trip: %s", s)
		return false
	}
	return true
}

// literalWhiteSpace looks for tabs and line breaks that are part of attribute
// values, and returns the first such tag.
func literalWhiteSpace(doc []byte) string {
	for len(doc) > 0 {
		i := bytes.IndexByte(doc, '<')
		if i < 0 {
			return ""
		}
		doc = doc[i:]
		end := ""
		switch {
		case bytes.HasPrefix(doc, []byte("<!--")):
			end = "-->"
		case bytes.HasPrefix(doc, []byte("<![CDATA[")):
			end = "]]>"
		case bytes.HasPrefix(doc, []byte("<?")):
			end = "?>"
		}
		if end != "" {
			i := bytes.Index(doc, []byte(end))
			if i < 0 {
				return ""
			}
			doc = doc[i+len(end):]
			continue
		}
		quote := byte(0)
		for i = 1; i < len(doc); i++ {
			switch ch := doc[i]; {
			case quote != 0 && ch == quote:
				quote = 0
			case quote != 0 && (ch == '\t' || ch == '\n' || ch == '\r'):
				return string(doc[:i+1])
			case quote == 0 && (ch == '"' || ch == '\''):
				quote = ch
			case quote == 0 && ch == '>':
				goto next
			}
		}
		return ""
	next:
		doc = doc[i:]
	}
	return ""
}

// controls sets an attribute to text that XML cannot represent. What is written
// is a document all the same.
func controls(c *core.Case, el *xmltree.Element, what string) {
	all := append([]*xmltree.Element{el}, el.Flatten()...)
	v := c.Pick("\x01", "a\x00b", "\x1f<", "\ufffe", "\xff\xc3", "]]>&\x0b")
	all[c.Intn(len(all))].SetAttr("", "control", v)
	out := xmltree.Marshal(el)
	in := what + "\noutput:\n" + string(out)
	c.Observe("unrepresentable text", 1)
	if err := nsWellFormed(out); err != nil {
		c.Violate(in, "attribute set to %q: output is not a well-formed document: %v", v, err)
		return
	}
	if _, err := xmltree.Parse(out); err != nil {
		c.Violate(in, "attribute set to %q: output does not parse: %v", v, err)
	}
}

func runX05(c *core.Case) {
	cfg := xmlgen.Config{Undeclared: c.Pct(30), MaxElems: 25}
	if c.Pct(5) {
		cfg.MaxElems, cfg.MaxDepth = 200, 60
	}
	g := xmlgen.New(c.Rand, cfg)
	root := g.Doc()
	doc := g.Render(root, nil)
	c.Ctx("%s", doc)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	all := append([]*xmltree.Element{el}, el.Flatten()...)
	for i, k := range c.Perm(len(all)) {
		if i >= 40 {
			break
		}
		if k == 0 {
			c.Observe("documents", 1)
		} else {
			c.Observe("subtrees", 1)
		}
		if !checkMarshal(c, all[k], fmt.Sprintf("element %d of\n%s", k, doc)) {
			return
		}
	}
	c.Distinct(string(doc))
	g2 := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 8, MaxDepth: 3})
	doc2 := g2.Render(g2.Doc(), nil)
	other := parseOrReport(c, doc2)
	if other == nil {
		return
	}
	e := &editor{c: c, g: g}
	k := 1 + c.Intn(8)
	if c.Pct(3) {
		k = 20 + c.Intn(60)
		e.spread = true
	}
	for ; k > 0; k-- {
		e.edit(el, other)
	}
	c.Observe("edited trees", 1)
	what := fmt.Sprintf("%s\nother document:\n%s\nedits:\n%s", doc, doc2, strings.Join(e.log, "\n"))
	c.Ctx("%s", what)
	c.Distinct(what)
	if checkMarshal(c, el, what) {
		c.Sample("%s", what)
	}
	if ch := el.Flatten(); len(ch) > 0 {
		k := c.Intn(len(ch))
		checkMarshal(c, ch[k], fmt.Sprintf("descendant %d of\n%s", k, what))
	}
	if c.Pct(10) {
		controls(c, el, what)
	}
}

// layout computes the expected indented form from the plain one.
func layout(el *xmltree.Element, plain []byte, prefix, indent string, depth int, out *bytes.Buffer) ([]byte, int, error) {
	lead := prefix + strings.Repeat(indent, depth)
	open, rest, err := cutTag(plain)
	if err != nil {
		return nil, 0, err
	}
	out.WriteString(lead)
	out.Write(open)
	if bytes.HasSuffix(open, []byte("/>")) {
		out.WriteString("\n")
		return rest, depth, nil
	}
	max := depth
	if len(el.Children) == 0 {
		if !bytes.HasPrefix(rest, el.Content) {
			return nil, 0, fmt.Errorf("content of %v not found", el.Name)
		}
		out.Write(el.Content)
		rest = rest[len(el.Content):]
	} else {
		out.WriteString("\n")
		for i := range el.Children {
			var d int
			if rest, d, err = layout(&el.Children[i], rest, prefix, indent, depth+1, out); err != nil {
				return nil, 0, err
			}
			if d > max {
				max = d
			}
		}
		out.WriteString(lead)
	}
	end, rest, err := cutTag(rest)
	if err != nil {
		return nil, 0, err
	}
	out.Write(end)
	out.WriteString("\n")
	return rest, max, nil
}

func cutTag(b []byte) (tag, rest []byte, err error) {
	if len(b) == 0 || b[0] != '<' {
		return nil, nil, fmt.Errorf("no tag at %.40q", b)
	}
	quote := byte(0)
	for i, ch := range b {
		switch {
		case quote != 0:
			if ch == quote {
				quote = 0
			}
		case ch == '"' || ch == '\'':
			quote = ch
		case ch == '>':
			return b[:i+1], b[i+1:], nil
		}
	}
	return nil, nil, fmt.Errorf("unterminated tag")
}

func runX06(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 25})
	doc := g.Render(g.Doc(), nil)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	what := string(doc)
	if c.Pct(40) {
		e := &editor{c: c, g: g}
		g2 := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 5})
		other := parseOrReport(c, g2.Render(g2.Doc(), nil))
		for k := 1 + c.Intn(5); k > 0 && other != nil; k-- {
			e.edit(el, other)
		}
		what += "\nedits:\n" + strings.Join(e.log, "\n")
	}
	all := append([]*xmltree.Element{el}, el.Flatten()...)
	targets := []*xmltree.Element{el, all[c.Intn(len(all))]}
	for _, el := range targets {
		prefix := c.Pick("", "", " ", "\t", "  ", "\n")
		indent := c.Pick("", " ", "  ", "\t", "    ", " \t")
		c.Ctx("%s\nprefix %q indent %q", what, prefix, indent)
		plain := xmltree.Marshal(el)
		got := xmltree.MarshalIndent(el, prefix, indent)
		c.Eval(1)
		var want bytes.Buffer
		rest, depth, err := layout(el, plain, prefix, indent, 0, &want)
		in := fmt.Sprintf("%s\nprefix %q indent %q\nplain:\n%s\nindented:\n%s", what, prefix, indent, plain, got)
		if err == nil && len(rest) > 0 {
			err = fmt.Errorf("trailing output %q", rest)
		}
		if err != nil {
			c.Violate(in, "plain output does not follow the tree: %v", err)
			return
		}
		if !bytes.Equal(got, want.Bytes()) {
			c.Violate(in, "indented output differs from the layout of the plain output; expected:\n%s", want.Bytes())
			return
		}
		if strings.TrimSpace(prefix) == "" {
			back, err := xmltree.Parse(append([]byte(nil), got...))
			if err != nil {
				c.Violate(in, "indented output does not parse: %v", err)
				return
			}
			if s := compareTrees(el, back, true, ""); s != "" {
				c.Violate(in, "indented output: %s", s)
				return
			}
		}
		c.Observe("trees", 1)
		if depth >= 3 {
			c.Observe("depth 3 or more", 1)
		}
		if bytes.Count(got, []byte("\n")) >= 3 {
			c.Distinct(fmt.Sprintf("%q%q%s", prefix, indent, got))
			c.Sample("prefix %q indent %q\n%s", prefix, indent, got)
		}
	}
}

var errInjected = errors.New("injected write error")

type faultyWriter struct {
	failCall  int // fail at this call (1-based), 0 never
	failByte  int // fail once this many bytes are written, -1 never
	calls     int
	fired     bool
	callsPast int
	buf       bytes.Buffer
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.fired {
		w.callsPast++
		return 0, errInjected
	}
	w.calls++
	if w.failCall > 0 && w.calls >= w.failCall {
		w.fired = true
		return 0, errInjected
	}
	if w.failByte >= 0 && w.buf.Len()+len(p) > w.failByte {
		n := w.failByte - w.buf.Len()
		w.buf.Write(p[:n])
		w.fired = true
		return n, errInjected
	}
	w.buf.Write(p)
	return len(p), nil
}

func runX07(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 10, MaxDepth: 4})
	doc := g.Render(g.Doc(), nil)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	what := string(doc)
	if c.Pct(15) && len(el.Children) > 0 {
		// A tree that contains itself.
		ch := &el.Children[c.Intn(len(el.Children))]
		ch.Children = el.Children
		what += "\nwith a cycle"
		c.Observe("cyclic trees", 1)
	}
	c.Ctx("%s", what)
	free := &faultyWriter{failByte: -1}
	if err := xmltree.Encode(free, el); err != nil {
		c.Violate(what, "error without a fault: %v", err)
		return
	}
	full := xmltree.Marshal(el)
	if !bytes.Equal(free.buf.Bytes(), full) {
		c.Violate(what, "Encode wrote %q, want %q", free.buf.Bytes(), full)
		return
	}
	c.Observe("fault-free runs", 1)
	c.Eval(1)
	try := func(w *faultyWriter, name string) bool {
		err := xmltree.Encode(w, el)
		c.Eval(1)
		if !w.fired {
			if err != nil {
				c.Violate(what, "%s: error %v although no write failed", name, err)
				return false
			}
			return true
		}
		c.Observe("faults fired", 1)
		c.Distinct(what + name)
		if !errors.Is(err, errInjected) {
			c.Violate(what, "%s: Encode returned %v, the writer failed with %q after %q", name, err, errInjected, w.buf.Bytes())
			return false
		}
		if w.callsPast > 0 {
			c.Violate(what, "%s: %d more writes after the failed one", name, w.callsPast)
			return false
		}
		if !bytes.HasPrefix(full, w.buf.Bytes()) {
			c.Violate(what, "%s: wrote %q, not a prefix of %q", name, w.buf.Bytes(), full)
			return false
		}
		return true
	}
	for k := 1; k <= free.calls; k++ {
		if !try(&faultyWriter{failCall: k, failByte: -1}, fmt.Sprintf("fault at call %d of %d", k, free.calls)) {
			return
		}
	}
	for i := 0; i < 15; i++ {
		b := c.Intn(len(full) + 3)
		if !try(&faultyWriter{failByte: b}, fmt.Sprintf("fault after %d of %d bytes", b, len(full))) {
			return
		}
	}
	c.Sample("%s: %d calls, %d bytes", what, free.calls, len(full))
}

type genericNode struct {
	XMLName xml.Name
	Attrs   []xml.Attr    `xml:",any,attr"`
	Text    string        `xml:",chardata"`
	Nodes   []genericNode `xml:",any"`
}

func (n *genericNode) clean() {
	var as []xml.Attr
	for _, a := range n.Attrs {
		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
			continue
		}
		as = append(as, a)
	}
	n.Attrs = as
	for i := range n.Nodes {
		n.Nodes[i].clean()
	}
}

type nsStruct struct {
	A    []string   `xml:"urn:a a"`
	B    string     `xml:"b"`
	C    []nsStruct `xml:"urn:c c"`
	Item []string   `xml:"http://example.org/x?a=1&b=2 item"`
	Name string     `xml:"name,attr"`
	NS   string     `xml:"urn:b type,attr"`
	Lang string     `xml:"http://www.w3.org/XML/1998/namespace lang,attr"`
}

type namedStruct struct {
	XMLName xml.Name `xml:"urn:a item"`
	ID      *string  `xml:"name,attr"`
	Sub     *struct {
		T string `xml:",chardata"`
	} `xml:"a"`
}

type chainStruct struct {
	V []string `xml:"a>b"`
	T string   `xml:",chardata"`
}

func runX12(c *core.Case) {
	g := xmlgen.New(c.Rand, xmlgen.Config{Undeclared: c.Pct(20), MaxElems: 15,
		NoFill: true, Alphabet: []rune("01 a<&é1")})
	root := g.Doc()
	doc := g.Render(root, nil)
	c.Ctx("%s", doc)
	el := parseOrReport(c, doc)
	if el == nil {
		return
	}
	all := append([]*xmltree.Element{el}, el.Flatten()...)
	mk := []func() interface{}{
		func() interface{} { return new(genericNode) },
		func() interface{} { return new(nsStruct) },
		func() interface{} { return new(namedStruct) },
		func() interface{} { return new(chainStruct) },
		func() interface{} { return new(string) },
		func() interface{} { return new(int) },
		func() interface{} { return new([]byte) },
		func() interface{} { return new([]nsStruct) },
	}
	for k, el := range all {
		for t, f := range mk {
			got, want := f(), f()
			gerr := xmltree.Unmarshal(el, got)
			werr := decodeAt(doc, k, want)
			c.Eval(1)
			c.Observe("compared", 1)
			if (gerr == nil) != (werr == nil) {
				c.Violate(string(doc), "element %d (%v) into %T: Unmarshal returned %v, the standard decoder %v", k, el.Name, got, gerr, werr)
				return
			}
			if gerr != nil {
				c.Observe("both failed", 1)
				continue
			}
			if t == 0 {
				got.(*genericNode).clean()
				want.(*genericNode).clean()
			}
			a, b := dump(got), dump(want)
			if a != b {
				c.Violate(string(doc), "element %d (%v) into %T: Unmarshal gives\n%s\nthe standard decoder\n%s", k, el.Name, got, a, b)
				return
			}
			if a != dump(f()) {
				c.Distinct(a)
				c.Sample("%s", a)
			}
		}
	}
}

func dump(v interface{}) string {
	b, err := jsonMarshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// decodeAt decodes the k-th element of the document.
func decodeAt(doc []byte, k int, v interface{}) error {
	d := xml.NewDecoder(bytes.NewReader(doc))
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		if s, ok := tok.(xml.StartElement); ok {
			if k == 0 {
				return d.DecodeElement(v, &s)
			}
			k--
		}
	}
}
