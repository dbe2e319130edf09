package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/verif/xmlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

func init() {
	register(&core.Prop{ID: "G05", Quick: 1000, Thorough: 12000, Run: runG05, MemMB: -1, CPU: 120,
		Rule: "byte comparison of generated code: repeated with a new configuration, with the same configuration, in another process, and with the documents in another order (unless anonymous types are numbered)",
		Need: map[string]int{"repeated with a new configuration": 1500, "repeated with the same configuration": 300, "other processes": 80, "other orders": 40, "SOAP clients": 120, "bytes compared": 3000000},
	})
	register(&core.Prop{ID: "G06", Quick: 6000, Thorough: 80000, Run: runG06, CPU: 20, MemMB: 3000,
		Rule: "code generation on type graphs with cycles through elements and attributes, deep and circular derivation, deep nesting, and on schemas with structural edits or changed bytes; within limits on CPU time and memory it must end in an error or in a Go source file; graphs without circular derivation must give code that compiles",
		Need: map[string]int{"recursive graphs": 150, "recursive graphs compiled": 150, "circular derivations rejected": 30, "deep derivations": 20, "deep nesting": 20, "edited schemas": 200, "edited schemas accepted": 80, "changed bytes": 150},
	})
}

// firstDiff shows the first line in which two texts differ.
func firstDiff(a, b []byte) string {
	x, y := bytes.Split(a, []byte("\n")), bytes.Split(b, []byte("\n"))
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q []byte
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if !bytes.Equal(p, q) {
			return fmt.Sprintf("line %d: %q, then %q", i+1, p, q)
		}
	}
	return "no difference"
}

// Set in another process that repeats a case: the file to write the generated
// code to.
const echoVar = "VERIF_ECHO_CODE"

// elsewhere runs this case in another process and returns the code that is
// generated there.
func elsewhere(c *core.Case, dir string) ([]byte, error) {
	out := filepath.Join(dir, "elsewhere")
	cmd := exec.Command(os.Args[0], "-prop", "G05", "-only", strconv.Itoa(c.Idx))
	cmd.Env = append(os.Environ(), echoVar+"="+out, fmt.Sprintf("VERIF_SEED=%d", c.Seed), "VERIF_TIER="+c.Tier)
	if msg, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v\n%s", err, msg)
	}
	return ioutil.ReadFile(out)
}

// numbered tells if there are several anonymous types for elements or
// attributes of one name. Their names depend on their order.
func numbered(docs [][]byte) bool {
	trees, err := xsd.Normalize(docs...)
	if err != nil {
		return true
	}
	for _, t := range trees[:len(trees)-standardSchemas] {
		if bytes.Contains(xmltree.Marshal(t), []byte("_anon")) {
			return true
		}
	}
	return false
}

func runG05(c *core.Case) {
	type generator interface {
		GenSource(files ...string) ([]byte, error)
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	var config func() generator
	var files []string
	var in string
	client := c.Pct(30)
	var docs [][]byte
	var clashing bool
	if client {
		g, m, doc, extra := newWSDL(c, false)
		o := g.options(m)
		files = append([]string{writeFile(c, dir, "service.wsdl", doc)}, writeDocs(c, dir, extra)...)
		in = "options: " + o.String() + "\n" + string(doc) + "\n" + joinDocuments(extra)
		config = func() generator { return o.config() }
		c.Observe("SOAP clients", 1)
	} else {
		cfg := genConfig(c)
		cfg.Mixed = c.Pct(30)
		cfg.PlainNames = c.Pct(20)
		cfg.Types = 8
		if clashing = c.Pct(25); clashing {
			// Names may be equal as Go identifiers. The result has to be
			// the same, whether there is one or not.
			cfg = schemagen.Config{Types: 8, NoRecursion: c.Pct(50)}
			c.Observe("colliding names", 1)
		}
		var m *schemagen.Model
		m, _, docs = randomSchema(c, cfg, schemagen.Layout{Reorder: c.Pct(80), Split: c.Pct(70), Embed: c.Pct(20), Noise: c.Pct(70), Imports: c.Pct(50)})
		o := baseOptions(c, cfg.PlainNames)
		o.moreOptions(c, m)
		files = writeDocs(c, dir, docs)
		in = "options: " + o.String() + "\n" + joinDocuments(docs)
		config = func() generator { return o.config() }
	}
	c.Ctx("%s", in)
	gen := func(cfg generator, files []string) []byte {
		src, err := cfg.GenSource(files...)
		c.Eval(1)
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return src
	}
	conf := config()
	first := gen(conf, files)
	if echo := os.Getenv(echoVar); echo != "" {
		if err := ioutil.WriteFile(echo, first, 0644); err != nil {
			c.Fatal("%v", err)
		}
		return
	}
	if bytes.HasPrefix(first, []byte("error: ")) && clashing {
		c.Observe("colliding names rejected", 1)
	} else if bytes.HasPrefix(first, []byte("error: ")) {
		c.Violate(in, "generation failed: %s", first)
		return
	}
	c.Distinct(string(first))
	c.Sample("%s\n\n%s", in, first)
	compare := func(what string, src []byte) bool {
		c.Observe(what, 1)
		c.Observe("bytes compared", len(src))
		if !bytes.Equal(src, first) {
			c.Violate(in+"\n\n"+string(first)+"\n\n--- "+what+"\n"+string(src), "%s: the code differs in %s", what, firstDiff(first, src))
			return false
		}
		return true
	}
	for i := 0; i < 6; i++ {
		if !compare("repeated with a new configuration", gen(config(), files)) {
			return
		}
	}
	if !compare("repeated with the same configuration", gen(conf, files)) {
		return
	}
	if c.Idx%3 == 0 {
		src, err := elsewhere(c, dir)
		if err != nil {
			c.Fatal("other process: %v", err)
		}
		if !compare("other processes", src) {
			return
		}
	}
	if len(files) > 1 && !client && !clashing && !numbered(docs) {
		perm := append([]string(nil), files...)
		c.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		if strings.Join(perm, " ") != strings.Join(files, " ") {
			compare("other orders", gen(config(), perm))
		}
	}
}

// recursiveSchema makes complex types that refer to each other at random.
func recursiveSchema(c *core.Case) (doc []byte, circular bool) {
	n := 1 + c.Intn(12)
	// A long cycle of types that contain each other.
	ring := c.Pct(10)
	if ring {
		n = 12 + c.Intn(60)
	}
	var b bytes.Buffer
	b.WriteString(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:r" targetNamespace="urn:r" elementFormDefault="qualified">` + "\n")
	base := make([]int, n)
	loops := c.Pct(15)
	density := 1 + c.Intn(4)
	simple := make([]bool, n)
	for i := range base {
		base[i] = -1
		if c.Pct(40) && !ring {
			if loops {
				base[i] = c.Intn(n)
			} else if i > 0 {
				base[i] = c.Intn(i)
			}
		}
		if !loops && base[i] < 0 && c.Pct(15) && !ring {
			simple[i] = true
		}
	}
	for i := range base {
		// Simple types have no complex ones derived from them.
		if base[i] >= 0 && simple[base[i]] {
			base[i] = -1
		}
	}
	for i := range base {
		seen := map[int]bool{}
		for j := i; j >= 0 && !circular; j = base[j] {
			if seen[j] {
				circular = true
			}
			seen[j] = true
		}
	}
	elem := 0
	for i := range base {
		if simple[i] {
			fmt.Fprintf(&b, `<xs:simpleType name="T%d"><xs:restriction base="xs:date"/></xs:simpleType>`+"\n", i)
			continue
		}
		fmt.Fprintf(&b, `<xs:complexType name="T%d">`, i)
		end := ""
		if base[i] >= 0 {
			fmt.Fprintf(&b, `<xs:complexContent><xs:extension base="t:T%d">`, base[i])
			end = "</xs:extension></xs:complexContent>"
		}
		model := c.Pick("sequence", "sequence", "choice")
		fmt.Fprintf(&b, "<xs:%s>", model)
		if ring {
			fmt.Fprintf(&b, `<xs:element name="next%d" type="t:T%d"/>`, i, (i+1)%n)
		}
		for k := c.Intn(density + 1); k > 0; k-- {
			elem++
			occurs := c.Pick("", ` minOccurs="0"`, ` maxOccurs="unbounded"`, ` minOccurs="0" maxOccurs="3"`)
			if ring && c.Pct(85) {
				fmt.Fprintf(&b, `<xs:element name="e%d" type="xs:int"%s/>`, elem, occurs)
				continue
			}
			switch c.Intn(6) {
			case 0:
				fmt.Fprintf(&b, `<xs:element ref="t:top"%s/>`, occurs)
			case 1:
				fmt.Fprintf(&b, `<xs:element name="e%d"%s><xs:complexType><xs:sequence><xs:element name="in" type="t:T%d" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>`, elem, occurs, c.Intn(n))
			default:
				fmt.Fprintf(&b, `<xs:element name="e%d" type="t:T%d"%s/>`, elem, c.Intn(n), occurs)
			}
		}
		fmt.Fprintf(&b, "</xs:%s>", model)
		if c.Pct(30) {
			fmt.Fprintf(&b, `<xs:attribute name="a%d" type="xs:date"/>`, i)
		}
		b.WriteString(end + "</xs:complexType>\n")
	}
	fmt.Fprintf(&b, `<xs:element name="top" type="t:T%d"/>`+"\n</xs:schema>", c.Intn(n))
	return b.Bytes(), circular
}

// deepSchema makes a long chain of derived types, or types nested deeply.
func deepSchema(c *core.Case) (doc []byte, kind string) {
	var b bytes.Buffer
	b.WriteString(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:r" targetNamespace="urn:r" elementFormDefault="qualified">` + "\n")
	if c.Pct(50) {
		n := 20 + c.Intn(180)
		order := c.Perm(n)
		for _, i := range order {
			switch {
			case i == 0:
				b.WriteString(`<xs:complexType name="T0"><xs:sequence><xs:element name="e0" type="xs:date"/></xs:sequence></xs:complexType>`)
			default:
				fmt.Fprintf(&b, `<xs:complexType name="T%d"><xs:complexContent><xs:extension base="t:T%d"><xs:sequence><xs:element name="e%d" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>`+"\n", i, i-1, i)
			}
		}
		b.WriteString("</xs:schema>")
		return b.Bytes(), "deep derivations"
	}
	n := 10 + c.Intn(60)
	b.WriteString(`<xs:element name="top">`)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `<xs:complexType><xs:sequence><xs:element name="n%d">`, i)
	}
	b.WriteString(`<xs:simpleType><xs:restriction base="xs:gYear"/></xs:simpleType>`)
	for i := 0; i < n; i++ {
		b.WriteString("</xs:element></xs:sequence></xs:complexType>")
	}
	b.WriteString("</xs:element></xs:schema>")
	return b.Bytes(), "deep nesting"
}

func runG06(c *core.Case) {
	o := baseOptions(c, true)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	run := func(docs [][]byte) ([]byte, error, string) {
		files := writeDocs(c, dir, docs)
		in := "options: " + o.String() + "\n" + joinDocuments(docs)
		c.Ctx("%s", in)
		c.Eval(1)
		src, err := o.config().GenSource(files...)
		return src, err, in
	}
	kind := c.Intn(10)
	switch {
	case kind < 4:
		var doc []byte
		var circular bool
		what := "recursive graphs"
		if kind == 3 {
			doc, what = deepSchema(c)
		} else {
			doc, circular = recursiveSchema(c)
		}
		src, err, in := run([][]byte{doc})
		c.Observe(what, 1)
		c.Distinct(string(doc))
		switch {
		case circular && err == nil:
			c.Violate(in+"\n\n"+string(src), "code was generated for a circular derivation")
		case circular:
			c.Observe("circular derivations rejected", 1)
		case err != nil:
			c.Violate(in, "generation failed: %v", err)
		default:
			pkg, _, d := checkFile(c, src, o.pkg)
			if d != "" {
				c.Violate(in+"\n\n"+string(src), "%s", d)
				return
			}
			c.Observe("declarations", len(pkg.Scope().Names()))
			c.Observe(what+" compiled", 1)
			c.Sample("%s", in)
		}
	default:
		cfg := schemagen.Config{Types: 5, NoRepeats: c.Pct(50), Go: c.Pct(40), Mixed: true}
		m := schemagen.New(c.Rand, cfg).Model()
		r := &schemagen.Renderer{Rand: c.Rand, Layout: anyLayout(c)}
		edited := kind < 8
		if edited {
			r.Fault = schemagen.Hostile
		}
		docs := r.Render(m)
		what := "edited schemas"
		if !edited {
			what = "changed bytes"
			i := c.Intn(len(docs))
			if c.Pct(15) {
				g := xmlgen.New(c.Rand, xmlgen.Config{MaxElems: 12, Mixed: true})
				docs[i] = g.Render(g.Doc(), nil)
			} else {
				docs[i] = mutateSchema(c, docs[i])
			}
		}
		o.moreOptions(c, m)
		src, err, in := run(docs)
		c.Observe(what, 1)
		c.Distinct(joinDocuments(docs))
		if err != nil {
			return
		}
		c.Observe(what+" accepted", 1)
		if len(src) == 0 || !bytes.Contains(src, []byte("\npackage ")) {
			c.Violate(in, "neither code nor an error: %q", src)
		}
	}
}
