package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"aqwari.net/xml/verif/core"
)

// A batch is a module of generated packages with a program that runs them.
type batch struct {
	dir  string
	pkgs []string // import names
	reg  bytes.Buffer
	imp  bytes.Buffer
	race bool // build with the race detector
}

func newBatch(c *core.Case) *batch {
	b := &batch{dir: scratch(c)}
	writeFile(c, b.dir, "go.mod", []byte("module rt\n\ngo 1.20\n"))
	return b
}

func (b *batch) remove() { os.RemoveAll(b.dir) }

// add puts a generated file in a package of its own. The types can be used as
// name.T. It returns the name.
func (b *batch) add(c *core.Case, src []byte, pkgname string, types []string) string {
	name := fmt.Sprintf("p%d", len(b.pkgs))
	b.pkgs = append(b.pkgs, name)
	writeFile(c, b.dir, name+"/gen.go", libraryName(src, pkgname))
	use := name
	if len(types) == 0 {
		use = "_"
	}
	fmt.Fprintf(&b.imp, "\t%s %q\n", use, "rt/"+name)
	for _, t := range types {
		fmt.Fprintf(&b.reg, "func init() { types[%q] = func() interface{} { return new(%s.%s) } }\n", name+"."+t, name, t)
	}
	return name
}

// libraryName turns package main into one that can be imported.
func libraryName(src []byte, pkgname string) []byte {
	if pkgname != "main" {
		return src
	}
	return bytes.Replace(src, []byte("package main\n"), []byte("package lib\n"), 1)
}

// A job decodes a document into a type.
type job struct {
	Type string // package.Type
	Doc  string
	Root [2]string
	// Encode the value, not a pointer to it.
	ByValue bool `json:",omitempty"`
}

// A jobResult is what came out.
type jobResult struct {
	Panic  string
	Decode string // error
	Value  interface{}
	Encode string // error
	Out    string
	Again  string // error of the second decoding
	Same   bool
	Diff   string
	Reused bool   // another document was decoded into the value
	Shared string // what that changed in a copy
	// How many goroutines did this at the same time, and what another one got.
	Goroutines int
	Other      string
}

// build compiles the packages. It returns the compiler's complaints.
func (b *batch) build(c *core.Case, main string) string {
	src := strings.Replace(main, "//IMPORTS", b.imp.String(), 1) + b.reg.String()
	writeFile(c, b.dir, "main.go", []byte(src))
	args := []string{"build", "-o", "driver"}
	if b.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = b.dir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off", "GOMAXPROCS=2")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if s := string(out); strings.Contains(s, ".go:") {
			return s
		}
		c.Fatal("go build: %v\n%s", err, out)
	}
	return ""
}

// runDriver runs the program with the given input and decodes its output.
func (b *batch) runDriver(c *core.Case, in, out interface{}, limit time.Duration) string {
	data, err := json.Marshal(in)
	if err != nil {
		c.Fatal("%v", err)
	}
	writeFile(c, b.dir, "in.json", data)
	cmd := exec.Command(filepath.Join(b.dir, "driver"), filepath.Join(b.dir, "in.json"), filepath.Join(b.dir, "out.json"))
	cmd.Dir = b.dir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		c.Fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return "the generated code did not finish in " + limit.String()
	}
	if err != nil {
		s := stderr.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		return fmt.Sprintf("the program using the generated code ended with %v\n%s", err, s)
	}
	data, err = ioutil.ReadFile(filepath.Join(b.dir, "out.json"))
	if err != nil {
		c.Fatal("%v", err)
	}
	d := json.NewDecoder(bytes.NewReader(data))
	if err := d.Decode(out); err != nil {
		c.Fatal("driver output: %v", err)
	}
	return ""
}

const driverMain = `package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

//IMPORTS
)

var types = map[string]func() interface{}{}

type job struct {
	Type    string
	Doc     string
	Root    [2]string
	ByValue bool
}

type result struct {
	Panic  string
	Decode string
	Value  interface{}
	Encode string
	Out    string
	Again  string
	Same   bool
	Diff   string
	Reused bool   // another document was decoded into the value
	Shared string // what that changed in a copy
	Goroutines int
	Other      string
}

` + driverDump + `func same(a, b reflect.Value, path string) string {
	t := a.Type()
	if t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) {
		x := a.Convert(timeType).Interface().(time.Time)
		y := b.Convert(timeType).Interface().(time.Time)
		_, xo := x.Zone()
		_, yo := y.Zone()
		// No value: the text has no year. Only within empty elements, see
		// the known findings.
		if x.IsZero() && y.Equal(time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC)) {
			return ""
		}
		if !x.Equal(y) || xo != yo {
			return fmt.Sprintf("%s: %v became %v", path, x, y)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": nil and not nil"
		}
		if a.IsNil() {
			return ""
		}
		return same(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if d := same(a.Field(i), b.Field(i), path+"."+t.Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d items became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if math.IsNaN(a.Float()) && math.IsNaN(b.Float()) {
			return ""
		}
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %v became %v", path, a.Interface(), b.Interface())
	}
	return ""
}

func run(j job) (res result) {
	defer func() {
		if r := recover(); r != nil {
			res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	mk := types[j.Type]
	if mk == nil {
		res.Panic = "no type " + j.Type
		return
	}
	v := mk()
	if err := xml.Unmarshal([]byte(j.Doc), v); err != nil {
		res.Decode = err.Error()
		return
	}
	res.Value = dump(reflect.ValueOf(v))
	var buf bytes.Buffer
	enc := xml.NewEncoder(&buf)
	x := v
	if j.ByValue {
		x = reflect.ValueOf(v).Elem().Interface()
	}
	if err := enc.EncodeElement(x, xml.StartElement{Name: xml.Name{Space: j.Root[0], Local: j.Root[1]}}); err != nil {
		res.Encode = err.Error()
		return
	}
	if err := enc.Flush(); err != nil {
		res.Encode = err.Error()
		return
	}
	res.Out = buf.String()
	w := mk()
	if err := xml.Unmarshal(buf.Bytes(), w); err != nil {
		res.Again = err.Error()
		return
	}
	res.Diff = same(reflect.ValueOf(v), reflect.ValueOf(w), "")
	res.Same = res.Diff == ""
	// A copy that shares memory is not changed when the value is used again.
	if prev, ok := last[j.Type]; ok {
		c := unshared(reflect.ValueOf(v).Elem())
		before := fmt.Sprint(dump(c))
		if err := xml.Unmarshal([]byte(prev), v); err == nil {
			res.Reused = true
			if now := fmt.Sprint(dump(c)); now != before {
				res.Shared = before + " became " + now
			}
		}
	}
	last[j.Type] = j.Doc
	return
}

// last is the previous document by type.
var last = map[string]string{}

// unshared copies a value, and what it points to. Slices are shared.
func unshared(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c.Set(unshared(v.Elem()).Addr())
		}
	case reflect.Struct:
		if !v.Type().ConvertibleTo(timeType) {
			for i := 0; i < v.NumField(); i++ {
				c.Field(i).Set(unshared(v.Field(i)))
			}
		}
	}
	return c
}

// together runs jobs in goroutines that share nothing, each job in two of them.
// It returns what came out.
func together(jobs []job) [][]string {
	const n = 4
	got := make([][]string, len(jobs))
	for i := range got {
		got[i] = make([]string, 2)
	}
	start := make(chan bool)
	done := make(chan bool)
	for g := 0; g < n; g++ {
		go func(g int) {
			<-start
			for i, j := range jobs {
				if k := (i + g) % n; k < 2 {
					got[i][k] = once(j)
				}
			}
			done <- true
		}(g)
	}
	close(start)
	for g := 0; g < n; g++ {
		<-done
	}
	return got
}

// once decodes and encodes a document.
func once(j job) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	mk := types[j.Type]
	if mk == nil {
		return "no type"
	}
	v := mk()
	if err := xml.Unmarshal([]byte(j.Doc), v); err != nil {
		return err.Error()
	}
	var buf bytes.Buffer
	enc := xml.NewEncoder(&buf)
	x := v
	if j.ByValue {
		x = reflect.ValueOf(v).Elem().Interface()
	}
	if err := enc.EncodeElement(x, xml.StartElement{Name: xml.Name{Space: j.Root[0], Local: j.Root[1]}}); err != nil {
		return err.Error()
	}
	if err := enc.Flush(); err != nil {
		return err.Error()
	}
	return buf.String()
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []job
	if err := json.Unmarshal(data, &jobs); err != nil {
		panic(err)
	}
	results := make([]result, len(jobs))
	others := together(jobs)
	for i, j := range jobs {
		results[i] = run(j)
		for _, o := range others[i] {
			results[i].Goroutines++
			if r := results[i]; o != r.Panic+r.Decode+r.Encode+r.Out && r.Panic == "" {
				results[i].Other = o
			}
		}
	}
	data, err = json.Marshal(results)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[2], data, 0644); err != nil {
		panic(err)
	}
}
`

// driverDump turns a Go value into what schemagen.Match.GoValue compares.
const driverDump = `var timeType = reflect.TypeOf(time.Time{})

func dump(v reflect.Value) interface{} {
	t := v.Type()
	if t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) {
		tm := v.Convert(timeType).Interface().(time.Time)
		_, off := tm.Zone()
		return fmt.Sprint(tm.UTC().Format(time.RFC3339Nano), " ", off)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			parts := strings.Split(f.Tag.Get("xml"), ",")
			key := "e " + parts[0]
			for _, o := range parts[1:] {
				switch o {
				case "attr":
					key = "a " + parts[0]
				case "chardata":
					key = "t"
				case "any":
					key = "any"
				}
			}
			for m[key] != nil {
				key += "+"
			}
			m[key] = dump(v.Field(i))
		}
		return m
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return hex.EncodeToString(v.Bytes())
		}
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return l
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return v.String()
	}
	return fmt.Sprintf("%v", v)
}
`
