package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io/ioutil"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() {
	register(&core.Prop{ID: "G08", Quick: 4500, Thorough: 45000, Run: runG08, MemMB: -1, CPU: 120,
		Rule: "the xsdgen, wsdlgen and xsdparse programs are run on files; their output is compared with the library, the files they open are counted (inotify), and failures must give an exit status, a message and leave files as they were",
		Need: map[string]int{"runs of xsdgen": 600, "runs of wsdlgen": 150, "runs of xsdparse": 60, "failures": 250, "import graphs": 150, "circular imports": 60, "files read once": 400, "locations relative to the importing file": 200, "locations relative to the working directory": 50, "absolute locations": 50, "imports without location": 50,
			"existing output overwritten": 50, "existing output kept": 60, "replacement rules": 80, "calls of GenCLI": 60, "imports followed by option": 8, "imports not followed": 8, "namespaces with a comma": 20},
	})
}

// program is the path of a program of the repository.
func program(c *core.Case, name string) string {
	dir := os.Getenv("VERIF_BIN")
	if dir == "" {
		c.Fatal("VERIF_BIN is not set")
	}
	return filepath.Join(dir, name)
}

// A progRun is the outcome of running a program.
type progRun struct {
	status         int
	stdout, stderr string
	hung           bool
}

// runProgram runs a program of the repository in a directory.
func runProgram(c *core.Case, dir, name string, args ...string) progRun {
	cmd := exec.Command(program(c, name), args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		c.Fatal("%v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	r := progRun{stdout: stdout.String(), stderr: stderr.String(), hung: !timer.Stop()}
	var exit *exec.ExitError
	switch {
	case errors.As(err, &exit):
		r.status = exit.ExitCode()
	case err != nil:
		c.Fatal("%v", err)
	}
	c.Eval(1)
	c.Observe("runs of "+name, 1)
	return r
}

// An openWatch counts how often files are opened and read.
type openWatch struct {
	fd   int
	dirs map[int32]string
}

func watchOpens(c *core.Case, dirs []string) *openWatch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		c.Fatal("inotify: %v", err)
	}
	w := &openWatch{fd, map[int32]string{}}
	for _, d := range dirs {
		n, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_CLOSE_NOWRITE)
		if err != nil {
			c.Fatal("inotify: %v", err)
		}
		w.dirs[int32(n)] = d
	}
	return w
}

// counts ends the watch.
func (w *openWatch) counts() map[string]int {
	defer syscall.Close(w.fd)
	m := map[string]int{}
	accessed := map[string]bool{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			return m
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			wd := int32(binary.LittleEndian.Uint32(b))
			size := int(binary.LittleEndian.Uint32(b[12:]))
			name := string(bytes.TrimRight(b[16:16+size], "\x00"))
			if name != "" {
				name = filepath.Join(w.dirs[wd], name)
				switch mask := binary.LittleEndian.Uint32(b[4:]); {
				case mask&syscall.IN_ACCESS != 0:
					accessed[name] = true
				case mask&syscall.IN_CLOSE_NOWRITE != 0 && accessed[name]:
					m[name]++
					accessed[name] = false
				}
			}
			b = b[16+size:]
		}
	}
}

var schemaTagRE = regexp.MustCompile(`<([A-Za-z0-9-]+:)?schema\s[^>]*[^/]>`)

// addRefs adds import or include elements to the schemas of a document.
func addRefs(c *core.Case, doc []byte, own map[string]bool, refs []xsd.Ref) []byte {
	if len(refs) == 0 {
		return doc
	}
	at := schemaTagRE.FindAllSubmatchIndex(doc, -1)
	if len(at) == 0 {
		c.Fatal("no schema in\n%s", doc)
	}
	ins := make([]string, len(at))
	for _, r := range refs {
		k := c.Intn(len(at))
		p := ""
		if at[k][2] >= 0 {
			p = string(doc[at[k][2]:at[k][3]])
		}
		loc := ""
		if r.Location != "" {
			loc = fmt.Sprintf(` schemaLocation="%s"`, escapeAttr(r.Location))
		}
		if own[r.Namespace] && c.Pct(80) {
			ins[k] += "<" + p + "include" + loc + "/>\n"
		} else {
			ins[k] += fmt.Sprintf(`<%simport namespace="%s"%s/>`+"\n", p, escapeAttr(r.Namespace), loc)
		}
	}
	var out []byte
	last := 0
	for k, a := range at {
		out = append(out, doc[last:a[1]]...)
		out = append(out, ins[k]...)
		last = a[1]
	}
	return append(out, doc[last:]...)
}

// A fileGraph is a set of schema files that import each other.
type fileGraph struct {
	dir   string
	files []string // relative to dir
	docs  [][]byte // without the references between them
	edges [][]int
	// Files to name on the command line, and all that they lead to.
	roots, reach []int
	text         string
}

// newFileGraph writes documents to files in several directories and lets them
// import each other.
func newFileGraph(c *core.Case, dir string, docs [][]byte) *fileGraph {
	g := &fileGraph{dir: dir, docs: docs, edges: make([][]int, len(docs))}
	for i := range docs {
		d := c.Pick("", "", "a", "a/b", "c d")
		g.files = append(g.files, filepath.Join(d, fmt.Sprintf("%s%d%s", c.Pick("s", "types", "é", "x y"), i, c.Pick(".xsd", ".xml", ""))))
	}
	n := len(docs)
	// The directory of an imported file says where its imports are; some
	// are given relative to the working directory.
	for i := range docs {
		for k := c.Intn(4); k > 0; k-- {
			g.edges[i] = append(g.edges[i], c.Intn(n))
		}
		if i > 0 && c.Pct(70) {
			g.edges[i-1] = append(g.edges[i-1], i)
		}
	}
	for i, doc := range docs {
		var refs []xsd.Ref
		own := map[string]bool{}
		spaces := targetSpaces(doc)
		for _, ns := range spaces {
			own[ns] = true
		}
		for _, j := range g.edges[i] {
			ns := ""
			if s := targetSpaces(docs[j]); len(s) > 0 {
				ns = s[c.Intn(len(s))]
			}
			loc, err := filepath.Rel(filepath.Dir(g.files[i]), g.files[j])
			if err != nil {
				c.Fatal("%v", err)
			}
			switch {
			case c.Pct(15):
				loc = filepath.Join(dir, g.files[j])
				c.Observe("absolute locations", 1)
			case filepath.Dir(g.files[i]) != "." && !exists(filepath.Join(filepath.Dir(g.files[i]), g.files[j]), g.files) && c.Pct(30):
				loc = g.files[j]
				c.Observe("locations relative to the working directory", 1)
			case c.Pct(20):
				loc = "./" + loc
				fallthrough
			default:
				c.Observe("locations relative to the importing file", 1)
			}
			refs = append(refs, xsd.Ref{Namespace: ns, Location: loc})
		}
		if c.Pct(20) {
			refs = append(refs, xsd.Ref{Namespace: c.Pick("http://schemas.xmlsoap.org/soap/encoding/", "urn:elsewhere", "http://www.w3.org/XML/1998/namespace")})
			c.Observe("imports without location", 1)
		}
		c.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
		data := addRefs(c, doc, own, refs)
		writeFile(c, dir, g.files[i], data)
		g.text += "--- " + g.files[i] + "\n" + string(data) + "\n"
	}
	// Roots that lead to everything, or almost
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, j := range g.edges[i] {
			visit(j)
		}
		g.reach = append(g.reach, i)
	}
	for _, i := range c.Perm(n) {
		if len(g.roots) == 0 || !seen[i] || c.Pct(15) {
			g.roots = append(g.roots, i)
			visit(i)
		}
	}
	for i := range g.edges {
		if g.reaches(i, i) {
			c.Observe("circular imports", 1)
			break
		}
	}
	return g
}

func exists(name string, list []string) bool {
	for _, s := range list {
		if s == filepath.Clean(name) {
			return true
		}
	}
	return false
}

func (g *fileGraph) reaches(from, to int) bool {
	seen := map[int]bool{}
	var visit func(i int) bool
	visit = func(i int) bool {
		for _, j := range g.edges[i] {
			if j == to {
				return true
			}
			if !seen[j] {
				seen[j] = true
				if visit(j) {
					return true
				}
			}
		}
		return false
	}
	return visit(from)
}

// path is how the file may be named on the command line.
func (g *fileGraph) path(c *core.Case, i int) string {
	switch c.Intn(4) {
	case 0:
		return filepath.Join(g.dir, g.files[i])
	case 1:
		return "./" + g.files[i]
	}
	return g.files[i]
}

// inDir runs a function in a directory. The worker has a single case at a time.
func inDir(c *core.Case, dir string, fn func()) {
	old, err := os.Getwd()
	if err != nil {
		c.Fatal("%v", err)
	}
	if err := os.Chdir(dir); err != nil {
		c.Fatal("%v", err)
	}
	defer os.Chdir(old)
	fn()
}

// targetSpaces lists the target namespaces of a document.
func targetSpaces(doc []byte) (l []string) {
	for _, a := range schemaTagRE.FindAll(doc, -1) {
		n, err := schemagen.ParseNode(append(append([]byte{}, a[:len(a)-1]...), '/', '>'))
		if err != nil {
			// The prefix is declared outside.
			continue
		}
		ns := ""
		for _, at := range n.Attrs {
			if at.Name.Local == "targetNamespace" {
				ns = at.Value
			}
		}
		l = append(l, ns)
	}
	return l
}

var headerRE = regexp.MustCompile(`\A// Code generated by \S+ DO NOT EDIT\.\n`)

// body is generated code without its first line.
func body(src []byte) []byte {
	return headerRE.ReplaceAll(src, nil)
}

func runG08(c *core.Case) {
	dir, err := filepath.EvalSymlinks(scratch(c))
	if err != nil {
		c.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	switch k := c.Intn(100); {
	case k < 30:
		cliImports(c, dir)
	case k < 50:
		cliFlags(c, dir)
	case k < 65:
		cliClient(c, dir)
	case k < 72:
		cliParse(c, dir)
	case k < 80:
		cliCall(c, dir)
	default:
		cliFailures(c, dir)
	}
}

func cliSchema(c *core.Case, layout schemagen.Layout) (*schemagen.Model, [][]byte, bool) {
	cfg := genConfig(c)
	cfg.PlainNames = c.Pct(50)
	cfg.Types = 4
	m, _, docs := randomSchema(c, cfg, layout)
	c.Distinct(joinDocuments(docs))
	return m, docs, cfg.PlainNames
}

// cliImports compares a program that follows imports with the library that is
// given all of the documents.
func cliImports(c *core.Case, dir string) {
	_, docs, _ := cliSchema(c, schemagen.Layout{Reorder: c.Pct(50), Split: c.Pct(80), Embed: c.Pct(15), Noise: c.Pct(40)})
	if numbered(docs) {
		// The names of such types depend on the order.
		c.Observe("types named by their order", 1)
		return
	}
	g := newFileGraph(c, dir, docs)
	c.Observe("import graphs", 1)
	if len(g.reach) != len(docs) {
		c.Fatal("not all files are reached")
	}
	args := []string{"-f", "-o", "out.go"}
	var roots []string
	for _, i := range g.roots {
		roots = append(roots, g.path(c, i))
	}
	args = append(args, roots...)
	in := "xsdgen " + strings.Join(args, " ") + "\n" + g.text
	c.Ctx("%s", in)
	var all []string
	dirs := map[string]bool{}
	for _, i := range c.Perm(len(docs)) {
		all = append(all, writeFile(c, dir, fmt.Sprintf("plain/%d", i), docs[i]))
		dirs[filepath.Dir(filepath.Join(dir, g.files[i]))] = true
	}
	var cfg xsdgen.Config
	cfg.Option(xsdgen.DefaultOptions...)
	want, err := cfg.GenSource(all...)
	if err != nil {
		c.Violate(in, "the library: %v", err)
		return
	}
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	w := watchOpens(c, list)
	r := runProgram(c, dir, "xsdgen", args...)
	opened := w.counts()
	got, rerr := ioutil.ReadFile(filepath.Join(dir, "out.go"))
	if r.status != 0 || rerr != nil {
		c.Violate(in, "xsdgen failed (status %d): %s %v", r.status, r.stderr, rerr)
		return
	}
	in += "\n\n" + string(got)
	if !bytes.Equal(body(got), body(want)) {
		c.Violate(in, "following the imports gives other code than the documents: %s", firstDiff(body(want), body(got)))
		return
	}
	for i := range docs {
		if n := opened[filepath.Join(dir, g.files[i])]; n != 1 {
			c.Violate(in, "%s was read %d times", g.files[i], n)
			return
		}
		c.Observe("files read once", 1)
	}
	// The library does the same.
	inDir(c, dir, func() {
		var cfg xsdgen.Config
		cfg.Option(xsdgen.DefaultOptions...)
		cfg.Option(xsdgen.FollowImports(true))
		src, err := cfg.GenSource(roots...)
		c.Eval(1)
		if err != nil || !bytes.Equal(body(src), body(got)) {
			c.Violate(in, "the library does not do what the program does: %v %s", err, firstDiff(body(got), body(src)))
		}
	})
	if c.Pct(50) && !c.Violated() {
		// A file somewhere in the graph is missing.
		k := g.reach[c.Intn(len(g.reach))]
		named := false
		for _, i := range g.roots {
			named = named || i == k
		}
		if err := os.Remove(filepath.Join(dir, g.files[k])); err != nil {
			c.Fatal("%v", err)
		}
		os.Remove(filepath.Join(dir, "out.go"))
		c.Observe("failures", 1)
		r := runProgram(c, dir, "xsdgen", args...)
		if d := failed(r, filepath.Join(dir, "out.go"), nil); d != "" {
			c.Violate(in, "without %s: %s", g.files[k], d)
		}
		if !strings.Contains(r.stderr, filepath.Base(g.files[k])) {
			c.Violate(in, "the missing file %s (on the command line: %v) is not reported: %s", g.files[k], named, r.stderr)
		}
	}
}

// failed judges a run that has to fail. The output file must not exist, or be
// as it was.
func failed(r progRun, output string, old []byte) string {
	switch {
	case r.hung:
		return "the program did not end"
	case r.status == 0:
		return fmt.Sprintf("the failure is not reported by the exit status: %s", r.stderr)
	case strings.TrimSpace(r.stderr) == "":
		return fmt.Sprintf("the program failed without a message (status %d)", r.status)
	case strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine "):
		return "the program crashed: " + r.stderr
	}
	if output == "" {
		return ""
	}
	data, err := ioutil.ReadFile(output)
	switch {
	case old == nil && err == nil:
		return fmt.Sprintf("there is an output file of %d bytes", len(data))
	case old != nil && (err != nil || !bytes.Equal(data, old)):
		return fmt.Sprintf("the existing output file was changed: %v", err)
	}
	return ""
}

// A cliRule is a replacement rule.
type cliRule struct{ arg, from, to string }

func cliRules(c *core.Case) (l []cliRule) {
	for k := c.Intn(3); k > 0; k-- {
		l = append(l, []cliRule{
			{"^(.)(.*)$->$1$2X", "^(.)(.*)$", "$1${2}X"},
			{" e -> E ", "e", "E"},
			{"a->", "a", ""},
			{"([aeiou])->${1}_$1", "([aeiou])", "${1}_$1"},
			{"[0-9]+ -> N->M", "[0-9]+", "N->M"},
			{"^x.*$ -> y", "^x.*$", "y"},
			{"NoSuchName -> N->M", "NoSuchName", "N->M"},
		}[[]int{0, 1, 2, 3, 5, 6}[c.Intn(6)]])
		c.Observe("replacement rules", 1)
	}
	for i := range l {
		l[i].to = strings.TrimSpace(l[i].arg[strings.Index(l[i].arg, "->")+2:])
	}
	return l
}

// cliOutput picks an output file. It returns the flag and the path.
func cliOutput(c *core.Case, dir, standard string) (args []string, path string) {
	name := standard
	switch c.Intn(4) {
	case 0:
	case 1:
		name = "x.go"
		args = []string{"-o", name}
	case 2:
		name = filepath.Join(dir, "out dir", "gen.go")
		if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
			c.Fatal("%v", err)
		}
		args = []string{"-o=" + name}
	case 3:
		name = "out.txt"
		args = []string{"--o", name}
	}
	path = name
	if !filepath.IsAbs(path) {
		path = filepath.Join(dir, name)
	}
	if c.Pct(30) {
		if err := ioutil.WriteFile(path, bytes.Repeat([]byte("// old\n"), c.Intn(40000)), 0644); err != nil {
			c.Fatal("%v", err)
		}
		c.Observe("existing output overwritten", 1)
	}
	return args, path
}

// cliFlags compares the program with the library, given flags and options of
// the same meaning.
func cliFlags(c *core.Case, dir string) {
	m, docs, _ := cliSchema(c, anyLayout(c))
	files := writeDocs(c, dir, docs)
	var cfg xsdgen.Config
	cfg.Option(xsdgen.DefaultOptions...)
	groups := [][]string{}
	out, path := cliOutput(c, dir, "xsdgen_output.go")
	if out != nil {
		groups = append(groups, out)
	}
	if c.Pct(40) {
		pkg := c.Pick("api", "x", "main")
		groups = append(groups, []string{"-pkg", pkg})
		cfg.Option(xsdgen.PackageName(pkg))
	}
	if c.Pct(50) {
		var list []string
		for _, ns := range m.NS {
			if c.Pct(60) && ns.URI != "" {
				list = append(list, ns.URI)
				groups = append(groups, []string{"-ns", ns.URI})
			}
		}
		if c.Pct(30) {
			// This is one name.
			ns := "urn:x,y"
			files = append(files, writeFile(c, dir, "comma.xsd", []byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x,y"><complexType name="zMore"><sequence><element name="v" type="int"/></sequence></complexType></schema>`)))
			if c.Pct(70) {
				list = append(list, ns)
				groups = append(groups, []string{"-ns", ns})
			}
			c.Observe("namespaces with a comma", 1)
		}
		cfg.Option(xsdgen.Namespaces(list...))
	}
	// The rules are applied in order.
	rules := []string{}
	for _, r := range cliRules(c) {
		rules = append(rules, "-r", r.arg)
		cfg.Option(xsdgen.Replace(r.from, r.to))
	}
	if len(rules) > 0 {
		groups = append(groups, rules)
	}
	if c.Pct(20) {
		groups = append(groups, []string{c.Pick("-v", "-vv")})
	}
	c.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var args []string
	for _, g := range groups {
		args = append(args, g...)
	}
	args = append(args, files...)
	in := "xsdgen " + strings.Join(args, " ") + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	want, err := cfg.GenSource(files...)
	judgeRun(c, in, runProgram(c, dir, "xsdgen", args...), path, want, err)
}

// judgeRun compares a program with the library.
func judgeRun(c *core.Case, in string, r progRun, path string, want []byte, err error) {
	if err != nil {
		// The rules may give names that do not compile.
		c.Observe("failures of both", 1)
		if d := failed(r, "", nil); d != "" {
			c.Violate(in, "the library fails (%v), but %s", err, d)
		}
		return
	}
	got, rerr := ioutil.ReadFile(path)
	if r.status != 0 || rerr != nil {
		c.Violate(in, "the program failed (status %d), the library does not: %s %v", r.status, r.stderr, rerr)
		return
	}
	if !bytes.Equal(body(got), body(want)) {
		c.Violate(in+"\n\n"+string(got), "the output file is not what the library generates: %s", firstDiff(body(want), body(got)))
		return
	}
	if !headerRE.Match(got) {
		c.Violate(in+"\n\n"+string(got), "the output file does not say that it is generated")
	}
	if r.stdout != "" {
		c.Violate(in, "the program printed %q", r.stdout)
	}
	c.Sample("%s", in)
}

// cliClient does the same for SOAP clients.
func cliClient(c *core.Case, dir string) {
	_, m, doc, extra := newWSDL(c, false)
	c.Distinct(string(doc))
	files := []string{writeFile(c, dir, "service.wsdl", doc)}
	files = append(files, writeDocs(c, dir, extra)...)
	var cfg wsdlgen.Config
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	groups := [][]string{}
	out, path := cliOutput(c, dir, "wsdlgen_output.go")
	if out != nil {
		groups = append(groups, out)
	}
	if c.Pct(40) {
		pkg := c.Pick("api", "x", "main")
		groups = append(groups, []string{"-pkg", pkg})
		cfg.Option(wsdlgen.PackageName(pkg))
		cfg.XSDOption(xsdgen.PackageName(pkg))
	}
	if c.Pct(40) {
		comment := c.Pick("Package x calls a service.", "Ünï", "two\nlines")
		groups = append(groups, []string{"-c", comment})
		cfg.Option(wsdlgen.PackageComment(comment))
	}
	if c.Pct(50) {
		var list, args []string
		for _, p := range m.ports() {
			if c.Pct(50) {
				list = append(list, p.Name)
				args = append(args, "-port", p.Name)
			}
		}
		if list != nil {
			groups = append(groups, args)
			cfg.Option(wsdlgen.OnlyPorts(list...))
		}
	}
	rules := []string{}
	for _, r := range cliRules(c) {
		rules = append(rules, "-r", r.arg)
		cfg.XSDOption(xsdgen.Replace(r.from, r.to))
	}
	if len(rules) > 0 {
		groups = append(groups, rules)
	}
	if c.Pct(20) {
		groups = append(groups, []string{c.Pick("-v", "-vv")})
	}
	c.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var args []string
	for _, g := range groups {
		args = append(args, g...)
	}
	args = append(args, files...)
	in := "wsdlgen " + strings.Join(args, " ") + "\n" + string(doc) + joinDocuments(extra)
	c.Ctx("%s", in)
	want, err := cfg.GenSource(files...)
	judgeRun(c, in, runProgram(c, dir, "wsdlgen", args...), path, want, err)
}

// cliParse compares what xsdparse prints with the normalised schemas.
func cliParse(c *core.Case, dir string) {
	m, docs, _ := cliSchema(c, anyLayout(c))
	files := writeDocs(c, dir, docs)
	var args []string
	only := ""
	if c.Pct(60) {
		only = c.Pick(m.NS[c.Intn(len(m.NS))].URI, "urn:nothing", "http://schemas.xmlsoap.org/soap/encoding/")
		if only != "" {
			args = append(args, "-ns", only)
		}
	}
	args = append(args, files...)
	in := "xsdparse " + strings.Join(args, " ") + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	trees, err := xsd.Normalize(docs...)
	if err != nil {
		c.Violate(in, "Normalize: %v", err)
		return
	}
	var want bytes.Buffer
	for i, t := range trees {
		if only == "" && i >= len(trees)-standardSchemas || only != "" && t.Attr("", "targetNamespace") != only {
			continue
		}
		fmt.Fprintf(&want, "%s\n", xmltree.MarshalIndent(t, "", "  "))
	}
	r := runProgram(c, dir, "xsdparse", args...)
	if r.status != 0 {
		c.Violate(in, "xsdparse failed (status %d): %s", r.status, r.stderr)
	} else if r.stdout != want.String() {
		c.Violate(in, "xsdparse does not print the schemas: %s", firstDiff(want.Bytes(), []byte(r.stdout)))
	}
}

// cliCall calls GenCLI of a configuration with options. They count unless a
// flag says otherwise.
func cliCall(c *core.Case, dir string) {
	m, docs, plain := cliSchema(c, anyLayout(c))
	files := writeDocs(c, dir, docs)
	o := baseOptions(c, plain)
	o.moreOptions(c, m)
	in := "options: " + o.String() + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	c.Observe("calls of GenCLI", 1)
	path := filepath.Join(dir, "out.go")
	one := o.config()
	other := o.config()
	args := []string{"-o", path}
	if c.Pct(40) {
		args = append(args, "-pkg", "cli")
		other.Option(xsdgen.PackageName("cli"))
	}
	if c.Pct(30) {
		ns := m.NS[c.Intn(len(m.NS))].URI
		if ns != "" {
			args = append(args, "-ns", ns)
			other.Option(xsdgen.Namespaces(ns))
		}
	}
	if c.Pct(60) {
		// A schema that the first one imports, by option or by flag
		docs[0] = addRefs(c, docs[0], map[string]bool{}, []xsd.Ref{{Namespace: "urn:more", Location: "more.xsd"}})
		writeDocs(c, dir, docs)
		writeFile(c, dir, "more.xsd", []byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:more"><complexType name="zMore"><sequence><element name="v" type="int"/></sequence></complexType></schema>`))
		switch c.Intn(3) {
		case 0:
			one.Option(xsdgen.FollowImports(true))
			other.Option(xsdgen.FollowImports(true))
			c.Observe("imports followed by option", 1)
		case 1:
			args = append(args, "-f")
			other.Option(xsdgen.FollowImports(true))
			c.Observe("imports followed by flag", 1)
		case 2:
			one.Option(xsdgen.FollowImports(true))
			other.Option(xsdgen.FollowImports(false))
			args = append(args, "-f=false")
			c.Observe("imports not followed", 1)
		}
	}
	args = append(args, files...)
	err := one.GenCLI(args...)
	c.Eval(1)
	want, werr := other.GenSource(files...)
	if werr != nil {
		c.Violate(in, "generation failed: %v", werr)
		return
	}
	if err != nil {
		c.Violate(in, "GenCLI %q: %v", args, err)
		return
	}
	got, err := ioutil.ReadFile(path)
	if err != nil || !bytes.Equal(body(got), body(want)) {
		c.Violate(in+"\n\n"+string(got), "GenCLI %q writes other code than GenSource gives: %v %s", args, err, firstDiff(body(want), body(got)))
	}
}

// cliFailures breaks something.
func cliFailures(c *core.Case, dir string) {
	name := c.Pick("xsdgen", "xsdgen", "wsdlgen")
	var docs [][]byte
	var files []string
	if name == "xsdgen" {
		_, docs, _ = cliSchema(c, anyLayout(c))
		files = writeDocs(c, dir, docs)
	} else {
		_, _, doc, extra := newWSDL(c, false)
		docs = append([][]byte{doc}, extra...)
		files = append([]string{writeFile(c, dir, "service.wsdl", doc)}, writeDocs(c, dir, extra)...)
		c.Distinct(string(doc))
	}
	out := filepath.Join(dir, "out.go")
	args := []string{"-o", out}
	var old []byte
	if c.Pct(50) {
		old = []byte("package old\n")
		writeFile(c, dir, "out.go", old)
	}
	i := c.Intn(len(files))
	mid := len(docs[i]) / 2
	what := ""
	check := out
	mention := ""
	k := c.Intn(14)
	switch k {
	case 0:
		what, mention = "a missing file", "nosuch.xsd"
		files = append(files, filepath.Join(dir, "nosuch.xsd"))
		j := c.Intn(len(files))
		files[j], files[len(files)-1] = files[len(files)-1], files[j]
	case 1:
		what = "a directory"
		files = append(files, dir)
	case 2:
		what = "a truncated document"
		writeFile(c, "", files[i], docs[i][:1+c.Intn(len(docs[i])-20)])
		if _, err := schemagen.ParseNode(docs[i][:mid]); err == nil {
			return
		}
	case 3:
		what = "an empty file"
		if i > 0 && name == "wsdlgen" {
			i = 0
		}
		writeFile(c, "", files[i], nil)
	case 4:
		what = "a name that does not exist"
		files = append(files, writeFile(c, dir, "bad.xsd", []byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:bad" targetNamespace="urn:bad"><complexType name="A"><sequence><element name="b" type="t:NoSuch"/></sequence></complexType></schema>`)))
	case 5:
		what = "an unknown flag"
		args = append(args, c.Pick("-zz", "--follow=maybe", "-o2", "-version"))
	case 6:
		what = "a bad rule"
		args = append(args, "-r", c.Pick("x", "(->y", "[a->", "*->x", ""))
	case 7:
		what = "no files"
		files = nil
	case 8:
		what = "a missing output directory"
		check = filepath.Join(dir, "no", "such", "out.go")
		old = nil
		args = []string{"-o", check}
	case 9:
		what, check = "an output file that is a directory", ""
		if err := os.MkdirAll(filepath.Join(dir, "sub"), 0755); err != nil {
			c.Fatal("%v", err)
		}
		args = []string{"-o", filepath.Join(dir, "sub")}
	case 10:
		what, check = "a full device", ""
		args = []string{"-o", "/dev/full"}
	case 11:
		if name == "wsdlgen" {
			return
		}
		what = "a namespace that does not exist"
		args = append(args, "-ns", "urn:nosuchspace")
	case 12:
		if name == "wsdlgen" {
			return
		}
		what, mention = "an import that does not exist", "nosuch.xsd"
		u, _ := url.Parse("nosuch.xsd")
		writeFile(c, "", files[i], addRefs(c, docs[i], map[string]bool{}, []xsd.Ref{{Namespace: "urn:x", Location: u.String()}}))
		args = append(args, "-f")
	case 13:
		if name == "wsdlgen" {
			return
		}
		what = "an import that is not XML"
		writeFile(c, dir, "more.xsd", []byte("not <XML"))
		writeFile(c, "", files[i], addRefs(c, docs[i], map[string]bool{}, []xsd.Ref{{Namespace: "urn:x", Location: "more.xsd"}}))
		args = append(args, "-f")
	}
	args = append(args, files...)
	in := name + " " + strings.Join(args, " ") + "\n" + joinDocuments(docs)
	c.Ctx("%s", in)
	c.Observe("failures", 1)
	c.Observe(what, 1)
	if old != nil {
		c.Observe("existing output kept", 1)
	}
	r := runProgram(c, dir, name, args...)
	d := failed(r, check, old)
	if d == "" && mention != "" && !strings.Contains(r.stderr, mention) {
		d = fmt.Sprintf("the message does not say which file: %s", r.stderr)
	}
	if d != "" {
		c.Violate(in, "%s: %s", what, d)
	}
}
