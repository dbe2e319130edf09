package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/xsdgen"
)

// The export data of the standard library, for type checking.
var (
	exportOnce sync.Once
	exportFile map[string]string
	exportErr  error
	stdPkgs    = []string{"fmt", "io", "bytes", "strings", "strconv", "time", "errors", "context", "net/http", "encoding/xml", "encoding/hex", "encoding/base64", "log", "os"}
)

func exports() (map[string]string, error) {
	exportOnce.Do(func() {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}, stdPkgs...)...)
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err != nil {
			exportErr = err
			return
		}
		exportFile = make(map[string]string)
		for _, line := range strings.Split(string(out), "\n") {
			if f := strings.Fields(line); len(f) == 2 {
				exportFile[f[0]] = f[1]
			}
		}
	})
	return exportFile, exportErr
}

func newImporter(fset *token.FileSet) types.Importer {
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		m, err := exports()
		if err != nil {
			return nil, err
		}
		f, ok := m[path]
		if !ok {
			return nil, fmt.Errorf("%s is not in the standard library list", path)
		}
		return os.Open(f)
	})
}

var (
	sharedFset     = token.NewFileSet()
	sharedImporter types.Importer
)

// typeCheck type-checks a generated file.
func typeCheck(c *core.Case, src []byte) (*types.Package, *ast.File, error) {
	if sharedImporter == nil {
		if _, err := exports(); err != nil {
			c.Fatal("go list: %v", err)
		}
		sharedImporter = newImporter(sharedFset)
	}
	file, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	file, err = parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	conf := types.Config{Importer: sharedImporter, Error: func(err error) {
		if len(errs) < 4 {
			errs = append(errs, err.Error())
		}
	}}
	pkg, err := conf.Check("gen", fset, []*ast.File{file}, nil)
	if err != nil {
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	return pkg, file, nil
}

// checkFile judges the form of a generated file: formatted, named, and using the
// standard library only. It returns the type-checked package.
func checkFile(c *core.Case, src []byte, pkgname string) (*types.Package, *ast.File, string) {
	pkg, file, err := typeCheck(c, src)
	if err != nil {
		return nil, nil, "the generated code does not compile: " + err.Error()
	}
	if file.Name.Name != pkgname {
		return nil, nil, fmt.Sprintf("the generated package is called %s, not %s", file.Name.Name, pkgname)
	}
	out, err := format.Source(src)
	if err != nil {
		return nil, nil, "gofmt: " + err.Error()
	}
	if !bytes.Equal(out, src) {
		return nil, nil, "the generated code is not formatted"
	}
	for _, imp := range file.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if first := strings.Split(path, "/")[0]; strings.Contains(first, ".") {
			return nil, nil, "the generated code imports " + path
		}
	}
	return pkg, file, ""
}

// scratch makes an empty directory for a case; the caller removes it.
func scratch(c *core.Case) string {
	dir, err := ioutil.TempDir("", "case")
	if err != nil {
		c.Fatal("%v", err)
	}
	return dir
}

func writeFile(c *core.Case, dir, name string, data []byte) string {
	path := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		c.Fatal("%v", err)
	}
	if err := ioutil.WriteFile(path, data, 0644); err != nil {
		c.Fatal("%v", err)
	}
	return path
}

func writeDocs(c *core.Case, dir string, docs [][]byte) []string {
	var files []string
	for i, d := range docs {
		files = append(files, writeFile(c, dir, fmt.Sprintf("doc%d.xsd", i), d))
	}
	return files
}

// genConfig is the schema model configuration for code generation: names stay
// distinct as Go identifiers.
func genConfig(c *core.Case) schemagen.Config {
	return schemagen.Config{Go: true, Namespaces: 3, Types: 6, NoRepeats: true, Lists: schemagen.ItemBuiltins}
}

// clash makes field names collide.
func clash(c *core.Case, cfg *schemagen.Config) {
	if c.Pct(20) && !cfg.PlainNames {
		cfg.Clash = true
		// A name without namespace is taken for that name in any.
		if c.Pct(50) {
			cfg.Namespaces = 1
		} else {
			cfg.Qualified = true
		}
		c.Observe("schemas with colliding field names", 1)
	}
}

// An optSet is a set of options for code generation.
type optSet struct {
	desc   []string
	opts   []xsdgen.Option
	pkg    string
	slices bool // SOAPArrayAsSlice

	fieldNames bool // UseFieldNames
}

func (o *optSet) add(desc string, opts ...xsdgen.Option) {
	o.desc = append(o.desc, desc)
	o.opts = append(o.opts, opts...)
}

func (o *optSet) String() string { return strings.Join(o.desc, ", ") }

func (o *optSet) config() *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(o.opts...)
	return cfg
}

// baseOptions picks options that change no fields or types, other than by the
// names of anonymous types.
func baseOptions(c *core.Case, plain bool) *optSet {
	o := &optSet{pkg: "ws"}
	switch {
	case c.Pct(40):
		o.add("DefaultOptions", xsdgen.DefaultOptions...)
		o.slices, o.fieldNames = true, true
	default:
		if !plain || c.Pct(50) {
			o.add("Replace", xsdgen.Replace(`[._ \s-]`, ""))
		}
		if c.Pct(50) {
			o.add("UseFieldNames", xsdgen.UseFieldNames())
			o.fieldNames = true
		}
		if c.Pct(40) {
			o.add("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType())
		}
		if c.Pct(40) {
			o.add("SOAPArrayAsSlice", xsdgen.SOAPArrayAsSlice())
			o.slices = true
		}
	}
	if c.Pct(40) {
		o.pkg = c.Pick("main", "api", "x", "xml2")
		o.add("PackageName "+o.pkg, xsdgen.PackageName(o.pkg))
	}
	return o
}
