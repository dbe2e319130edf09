package main

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"os"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "G03", Quick: 48, Thorough: 1200, Run: runG03, MemMB: -1, CPU: 120,
		Rule: "every generated instance decodes into the generated type, to the values it holds; encoding the value gives a document with the same elements, attributes and values; decoding that gives the same value",
		Need: map[string]int{"packages": 500, "values compared": 40000, "zero values in documents": 1000, "elements in documents": 40000, "elements compared for order": 10000, "values used again": 10000, "packages with the race detector": 200, "decoded and encoded by several goroutines": 40000},
		Known: map[string]func() (string, bool){"empty-element": func() (string, bool) {
			return "an absent optional element with complex type is encoded as an empty element", probeEmptyElement()
		}, "element-order": func() (string, bool) {
			return "elements of type date, time, binary or list are encoded after the other elements", probeOrder()
		}},
	})
}

// A genPkg is a generated package in a batch.
type genPkg struct {
	name  string
	input string // options, schema, generated code
	model *schemagen.Model
	opts  *optSet
	types map[string]bool
	title string
}

// generate runs the generator on a schema and adds the package to the batch.
// Failures are judged by other monitors.
func (b *batch) generate(c *core.Case, m *schemagen.Model, docs [][]byte, o *optSet) *genPkg {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := writeDocs(c, dir, docs)
	in := "options: " + o.String() + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	src, err := o.config().GenSource(files...)
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return nil
	}
	in += "\n\n" + string(src)
	pkg, _, d := checkFile(c, src, o.pkg)
	if d != "" {
		c.Violate(in, "%s", d)
		return nil
	}
	p := &genPkg{input: in, model: m, opts: o, types: map[string]bool{}}
	var list []string
	for _, n := range pkg.Scope().Names() {
		if _, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && pkg.Scope().Lookup(n).Exported() {
			list = append(list, n)
			p.types[n] = true
		}
	}
	p.name = b.add(c, src, o.pkg, list)
	return p
}

// An instJob is a job with the instance it came from.
type instJob struct {
	pkg  *genPkg
	inst *schemagen.Inst
	doc  []byte
	job  job
}

// instances makes jobs for the types of a package.
func (p *genPkg) instances(c *core.Case, perType int) []instJob {
	cfg := p.opts.config()
	g := &schemagen.Instances{Rand: c.Rand, Pad: true}
	var jobs []instJob
	for _, ns := range p.model.NS {
		for _, t := range ns.Types {
			name := cfg.NameOf(xml.Name{Space: ns.URI, Local: t.Local})
			if !p.types[name] {
				continue
			}
			for i := 0; i < perType; i++ {
				g.Present = []int{0, 30, 60, 90, 100}[c.Intn(5)]
				g.Zero = []int{0, 15, 50}[c.Intn(3)]
				root := xml.Name{Space: ns.URI, Local: c.Pick("root", "doc", "Root-1")}
				inst, err := g.Make(root, schemagen.Ref{Type: t})
				if err != nil {
					c.Observe("types without small instances", 1)
					continue
				}
				doc := g.Write(inst)
				if n, err := schemagen.ParseNode(doc); err != nil {
					c.Fatal("generated instance: %v\n%s", err, doc)
				} else {
					var m schemagen.Match
					if d := m.Document(inst, n); d != "" || m.Phantoms > 0 {
						c.Fatal("instance does not match itself: %s\n%s", d, doc)
					}
				}
				jobs = append(jobs, instJob{p, inst, doc, job{Type: p.name + "." + name, Doc: string(doc), Root: [2]string{root.Space, root.Local}}})
			}
		}
	}
	c.Observe("zero values in documents", g.Zeros)
	c.Observe("elements in documents", g.Nodes)
	return jobs
}

// runInstances runs the jobs and judges the results.
func (b *batch) runInstances(c *core.Case, jobs []instJob) {
	in := make([]job, len(jobs))
	for i := range jobs {
		in[i] = jobs[i].job
	}
	var out []jobResult
	if d := b.runDriver(c, in, &out, 120*time.Second); d != "" {
		c.Violate(jobs[0].pkg.input, "%s", d)
		return
	}
	if len(out) != len(in) {
		c.Fatal("%d results for %d jobs", len(out), len(in))
	}
	for i, r := range out {
		j := jobs[i]
		c.Eval(1)
		m := schemagen.Match{Slices: j.pkg.opts.slices}
		if d := judgeInstance(&m, j.inst, r); d != "" {
			c.Violate(fmt.Sprintf("%s\n\n--- instance of %s\n%s\n--- encoded as\n%s\n", j.pkg.input, j.job.Type, j.doc, r.Out), "%s: %s", j.job.Type, d)
			if c.Violated() {
				return
			}
		}
		c.Observe("values compared", m.Values)
		c.Observe("elements compared for order", m.Ordered)
		c.Observe("decoded and encoded by several goroutines", r.Goroutines)
		if r.Reused {
			c.Observe("values used again", 1)
		}
		c.Observe("absent optional complex elements written as empty (known finding)", m.Phantoms)
		c.Observe("document bytes", len(j.doc))
	}
}

func judgeInstance(m *schemagen.Match, inst *schemagen.Inst, r jobResult) string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Decode != "":
		return "decoding failed: " + r.Decode
	}
	if d := m.GoValue(inst, r.Value); d != "" {
		return "decoded: " + d
	}
	if r.Encode != "" {
		return "encoding failed: " + r.Encode
	}
	n, err := schemagen.ParseNode([]byte(r.Out))
	if err != nil {
		return "the encoded document is not well-formed: " + err.Error()
	}
	if d := m.Document(inst, n); d != "" {
		return "encoded: " + d
	}
	if r.Again != "" {
		return "decoding the encoded document failed: " + r.Again
	}
	if !r.Same {
		return "decoding the encoded document gives another value: " + r.Diff
	}
	if r.Other != "" {
		return "while other documents were processed as well, it was encoded as " + r.Other
	}
	if r.Shared != "" {
		return "decoding another document into the value changed a copy: " + r.Shared
	}
	return ""
}

func runG03(c *core.Case) {
	b := newBatch(c)
	defer b.remove()
	b.race = c.Idx%3 == 0
	var pkgs []*genPkg
	for i := 0; i < 24; i++ {
		cfg := genConfig(c)
		cfg.PlainNames = c.Pct(20)
		clash(c, &cfg)
		m, _, docs := randomSchema(c, cfg, anyLayout(c))
		o := baseOptions(c, cfg.PlainNames)
		if p := b.generate(c, m, docs, o); p != nil {
			pkgs = append(pkgs, p)
			c.Distinct(schemagen.Shape(m))
			c.Sample("%s", p.input)
		}
	}
	if len(pkgs) == 0 {
		return
	}
	if d := b.build(c, driverMain); d != "" {
		c.Violate("", "the generated packages do not compile: %s", d)
		return
	}
	var jobs []instJob
	for _, p := range pkgs {
		jobs = append(jobs, p.instances(c, 6)...)
	}
	if len(jobs) == 0 {
		return
	}
	c.Observe("packages", len(pkgs))
	if b.race {
		c.Observe("packages with the race detector", len(pkgs))
	}
	b.runInstances(c, jobs)
}

// probe decodes and encodes a document with the types of a schema.
func probe(schema, typ, doc string) *schemagen.Node {
	c := new(core.Case)
	b := newBatch(c)
	defer b.remove()
	schema = `<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t" elementFormDefault="qualified">` + schema + `</schema>`
	src, err := new(xsdgen.Config).GenSource(writeFile(c, b.dir, "schema.xsd", []byte(schema)))
	if err != nil {
		return nil
	}
	b.add(c, src, "ws", []string{typ})
	if d := b.build(c, driverMain); d != "" {
		return nil
	}
	var out []jobResult
	in := []job{{Type: "p0." + typ, Doc: doc, Root: [2]string{"urn:t", "w"}}}
	if d := b.runDriver(c, in, &out, 60*time.Second); d != "" || len(out) != 1 {
		return nil
	}
	n, err := schemagen.ParseNode([]byte(out[0].Out))
	if err != nil {
		return nil
	}
	return n
}

// probeEmptyElement tells if the known finding shows.
func probeEmptyElement() bool {
	n := probe(`<complexType name="Part"><sequence><element name="n" type="int"/></sequence></complexType>
<complexType name="Whole"><sequence><element name="part" type="t:Part" minOccurs="0"/></sequence></complexType>`,
		"Whole", `<w xmlns="urn:t"></w>`)
	return n != nil && len(n.Kids) == 1
}

// probeOrder tells if the known finding shows.
func probeOrder() bool {
	n := probe(`<complexType name="Whole"><sequence><element name="d" type="date"/><element name="s" type="string"/></sequence></complexType>`,
		"Whole", `<w xmlns="urn:t"><d>2001-01-01</d><s>x</s></w>`)
	return n != nil && len(n.Kids) == 2 && n.Kids[0].Name.Local == "s"
}
