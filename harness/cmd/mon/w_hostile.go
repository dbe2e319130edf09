package main

import (
	"bytes"
	"os"
	"regexp"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/wsdl"
)

func init() {
	register(&core.Prop{ID: "W04", Quick: 9000, Thorough: 150000, Run: runW04, CPU: 20, MemMB: 3000,
		Rule: "WSDL documents with edited attributes, elements and bytes are parsed and clients are generated for them, within limits on CPU time and memory; each step must end in a result or an error",
		Need: map[string]int{"edited documents": 2000, "edited documents parsed": 1500, "clients for edited documents": 300, "changed bytes": 500, "other documents": 200, "edited attributes": 1000, "removed elements": 300, "repeated elements": 300, "moved elements": 200, "renamed elements": 300},
	})
}

var (
	tagRE  = regexp.MustCompile(`<[^<>]*>`)
	attrRE = regexp.MustCompile(`\s([A-Za-z:_0-9-]+)=("[^"<]*"|'[^'<]*')`)
)

// An elemSpan is where an element is in a document.
type elemSpan struct {
	from, open, to int // start of the start tag, its end, end of the end tag
	parent         int
}

// elemSpans finds the elements of a document. It ignores what looks like
// elements within comments and CDATA sections, most of the time.
func elemSpans(doc string) (l []elemSpan) {
	var stack []int
	for _, t := range tagRE.FindAllStringIndex(doc, -1) {
		tag := doc[t[0]:t[1]]
		switch {
		case strings.HasPrefix(tag, "<?") || strings.HasPrefix(tag, "<!"):
		case strings.HasPrefix(tag, "</"):
			if n := len(stack); n > 0 {
				l[stack[n-1]].to = t[1]
				stack = stack[:n-1]
			}
		default:
			p := -1
			if n := len(stack); n > 0 {
				p = stack[n-1]
			}
			l = append(l, elemSpan{t[0], t[1], t[1], p})
			if !strings.HasSuffix(tag, "/>") {
				stack = append(stack, len(l)-1)
			}
		}
	}
	return l
}

var hostileValues = []string{"", ":", "a:b:c", "tns:", ":x", "nosuch:x", "x y", "\n", "{{.Name}}", "%s%d%!v", "`", "&quot;", "*/", "//", "a`b", "\\", "\\n", "日本", "&#x1F600;", "type", "func", "1", "_", "-", ".", "__", "&#0x41;", "http://[::1", "%zz", "xsd:string", "tns:string"}

// editWSDL makes some structural edits.
func editWSDL(c *core.Case, doc string) string {
	for k := 1 + c.Intn(4); k > 0; k-- {
		spans := elemSpans(doc)
		if len(spans) == 0 {
			return doc
		}
		// The edits outside of schemas are more interesting.
		var e elemSpan
		for try := 0; try < 4; try++ {
			e = spans[c.Intn(len(spans))]
			name := tagName(doc[e.from:e.open])
			if k := strings.IndexByte(name, ':'); k >= 0 {
				name = name[k+1:]
			}
			if wsdlNames[name] {
				break
			}
		}
		if e.parent < 0 && c.Pct(80) {
			continue
		}
		tag := doc[e.from:e.open]
		switch c.Intn(8) {
		case 0, 1, 2, 3:
			// Attributes
			as := attrRE.FindAllStringSubmatchIndex(tag, -1)
			if len(as) == 0 {
				continue
			}
			a := as[c.Intn(len(as))]
			switch {
			case c.Pct(30):
				tag = tag[:a[0]] + tag[a[1]:]
			case c.Pct(20):
				tag = tag[:a[2]] + c.Pick("name", "type", "element", "message", "binding", "location", "soapAction", "x") + tag[a[3]:]
			case c.Pct(40):
				// What another attribute says
				all := attrRE.FindAllStringSubmatch(doc, -1)
				tag = tag[:a[4]] + all[c.Intn(len(all))][2] + tag[a[5]:]
			default:
				tag = tag[:a[4]] + `"` + hostileValues[c.Intn(len(hostileValues))] + `"` + tag[a[5]:]
			}
			doc = doc[:e.from] + tag + doc[e.open:]
			c.Observe("edited attributes", 1)
		case 4:
			doc = doc[:e.from] + doc[e.to:]
			c.Observe("removed elements", 1)
		case 5:
			doc = doc[:e.to] + strings.Repeat(doc[e.from:e.to], 1+c.Intn(3)) + doc[e.to:]
			c.Observe("repeated elements", 1)
		case 6:
			// Move it into or after another
			text := doc[e.from:e.to]
			rest := doc[:e.from] + doc[e.to:]
			if s := elemSpans(rest); len(s) > 0 {
				at := s[c.Intn(len(s))].open
				doc = rest[:at] + text + rest[at:]
				c.Observe("moved elements", 1)
			}
		case 7:
			name := tagName(tag)
			if !strings.HasSuffix(tag, "/>") || strings.HasPrefix(name, "/") {
				continue
			}
			p := ""
			if k := strings.IndexByte(name, ':'); k >= 0 {
				p = name[:k+1]
			}
			doc = doc[:e.from] + "<" + p + c.Pick("part", "port", "operation", "input", "output", "address", "binding", "message", "service", "x", "import", "schema", "types") + doc[e.from+1+len(name):]
			c.Observe("renamed elements", 1)
		}
	}
	return doc
}

var wsdlNames = map[string]bool{"definitions": true, "message": true, "part": true, "portType": true, "operation": true, "input": true, "output": true, "binding": true, "service": true, "port": true, "address": true, "documentation": true, "types": true}

func tagName(tag string) string {
	return strings.TrimSuffix(strings.FieldsFunc(tag[1:], func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' || r == '>' })[0], "/")
}

func runW04(c *core.Case) {
	g, m, doc, extra := newWSDL(c, false)
	o := g.options(m)
	what := "edited documents"
	switch k := c.Intn(10); {
	case k < 7:
		doc = []byte(editWSDL(c, string(doc)))
	case k < 9:
		what = "changed bytes"
		doc = mutateSchema(c, doc)
	default:
		what = "other documents"
		x := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 12, Mixed: true})
		doc = x.Render(x.Doc(), nil)
		if c.Pct(30) && len(extra) > 0 {
			doc = extra[0]
		}
	}
	in := "options: " + o.String() + "\n" + string(doc) + "\n" + joinDocuments(extra)
	c.Ctx("%s", in)
	c.Observe(what, 1)
	c.Eval(2)
	c.Distinct(string(doc))
	c.Sample("%s", in)
	def, err := wsdl.Parse(append([]byte(nil), doc...))
	if err == nil {
		if def == nil {
			c.Violate(in, "neither a definition nor an error")
			return
		}
		c.Observe(what+" parsed", 1)
		_ = def.String()
	} else if def != nil {
		c.Violate(in, "both a definition and an error: %v", err)
		return
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := []string{writeFile(c, dir, "service.wsdl", doc)}
	files = append(files, writeDocs(c, dir, extra)...)
	src, gerr := o.config().GenSource(files...)
	if gerr != nil {
		return
	}
	if err != nil {
		c.Violate(in+"\n\n"+string(src), "a client was generated for a document that wsdl.Parse rejects: %v", err)
		return
	}
	c.Observe("clients for "+what, 1)
	if !bytes.Contains(src, []byte("\npackage ")) {
		c.Violate(in, "neither code nor an error: %q", src)
	}
}
