package main

import (
	"encoding/xml"
	"fmt"
	"mime"
	"net/url"
	"os"
	"sort"
	"strings"
	"time"

	"aqwari.net/xml/verif/core"
	"aqwari.net/xml/verif/schemagen"
	"aqwari.net/xml/wsdlgen"
)

func init() {
	register(&core.Prop{ID: "W03", Quick: 64, Thorough: 800, Run: runW03, MemMB: -1, CPU: 300,
		Rule: "generated clients are compiled (every other batch with the race detector) and call a loopback server that records requests; one request per call, its address, method, action, content type and envelope, the values in it and the values returned are compared with the model; hooks and HTTP clients are counted; failures are injected",
		Need: map[string]int{"clients": 300, "calls": 6000, "values received": 10000, "values sent": 10000, "calls with hooks": 2000, "calls with the default client": 500,
			"SOAP faults": 300, "broken responses": 600, "failed connections": 200, "cancelled calls": 100, "calls that time out": 50, "concurrent calls": 2000, "one-way calls": 300, "clients with the race detector": 100,
			"HTTP ports: GET": 8, "HTTP ports: POST": 8, "HTTP ports: PUT": 8},
		Known: map[string]func() (string, bool){"unqualified": func() (string, bool) {
			return "elements without namespace are sent in the namespace of the message", probeUnqualified()
		}},
	})
}

// A callJob is a call of a method. The response is what the server sends.
type callJob struct {
	Pkg, Method     string
	ArgsFrom        int // job whose results are the arguments, or -1
	InWrap, OutWrap bool
	Resp            callResp
	Default         bool // use http.DefaultClient
	ReqHook         bool
	RespHook        bool
	HookBody        string // what the response hook replaces the body with
	Ctx             string // cancelled, timeout
	Refuse          bool   // nobody listens
	Group           int    // calls of a group share a client and are concurrent
}

type callResp struct {
	Kind   string // ok, close, truncate, hang
	Status int
	Type   string
	Body   string
}

type callReq struct {
	Method, Host, URI, Action, Type, Hooked, Body string
	Actions                                       int
}

type callResult struct {
	Panic, Err          string
	Values              []interface{}
	Reqs                []callReq
	RoundTrips, Default int
	Bodies, Closed      int
	ReqHooks, RespHooks int
	Millis              int
}

// A call is a job and what is expected of it.
type call struct {
	cl   *clientPkg
	job  callJob
	op   *wOp
	port *wPort
	in   []*schemagen.Inst // nil: not known
	out  []*schemagen.Inst
	// What has to be in the error, if there has to be one.
	fail  bool
	error []string
	// The request does not reach the server, or need not.
	unsent, maybeSent bool
	what              string
}

// A clientPkg is a generated client.
type clientPkg struct {
	name  string
	input string
	m     *wModel
	o     *wOptions
}

func (cl *clientPkg) wrapped(msg *wMsg, threshold int) bool {
	return msg != nil && len(msg.Parts) > threshold
}

// A wireWriter writes SOAP envelopes the way other implementations may.
type wireWriter struct {
	*core.Case
	g *schemagen.Instances
}

func (w *wireWriter) envelope(body string) string {
	p := w.Pick("soapenv", "S", "SOAP-ENV", "env")
	var b strings.Builder
	if w.Pct(50) {
		b.WriteString(w.Pick(`<?xml version="1.0" encoding="UTF-8"?>`, "<?xml version='1.0'?>\n"))
	}
	open, pre := fmt.Sprintf("<%s:Envelope xmlns:%s=\"http://schemas.xmlsoap.org/soap/envelope/\"", p, p), p+":"
	if w.Pct(25) {
		open, pre = `<Envelope xmlns="http://schemas.xmlsoap.org/soap/envelope/"`, ""
	}
	b.WriteString(open)
	if w.Pct(40) {
		b.WriteString(` xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:tns="urn:other"`)
	}
	b.WriteString(">" + w.space())
	if w.Pct(30) {
		fmt.Fprintf(&b, "<%sHeader>%s</%sHeader>%s", pre, w.Pick("", `<h:token xmlns:h="urn:h" `+pre2(pre)+`mustUnderstand="0">x</h:token>`, "text"), pre, w.space())
	}
	fmt.Fprintf(&b, "<%sBody>%s%s%s</%sBody>%s</%sEnvelope>", pre, w.space(), body, w.space(), pre, w.space(), pre)
	return b.String() + w.space()
}

func pre2(pre string) string {
	if pre == "" {
		return ""
	}
	return pre
}

func (w *wireWriter) space() string {
	return w.Pick("", "", "", "\n", "  ", "<!-- x -->")
}

// message writes the message of an operation.
func (w *wireWriter) message(tns, op string, msg *wMsg, parts []*schemagen.Inst) string {
	var b strings.Builder
	o, p := `x:`, ` xmlns:x="`+escapeAttr(tns)+`"`
	if w.Pct(40) {
		o, p = "", ` xmlns="`+escapeAttr(tns)+`"`
	}
	fmt.Fprintf(&b, "<%s%s%s>%s<%s%s>%s", o, op, p, w.space(), o, msg.Name, w.space())
	for _, i := range parts {
		b.WriteString(xmlProlog.ReplaceAllString(string(w.g.Write(i)), "") + w.space())
	}
	fmt.Fprintf(&b, "</%s%s>%s</%s%s>", o, msg.Name, w.space(), o, op)
	return b.String()
}

// fault writes a SOAP fault.
func (w *wireWriter) fault(code, text string) string {
	return fmt.Sprintf(`<f:Fault xmlns:f="http://schemas.xmlsoap.org/soap/envelope/"><faultcode>%s</faultcode>%s<faultstring>%s</faultstring>%s</f:Fault>`,
		escapeAttr(code), w.space(), escapeAttr(text), w.Pick("", "<detail><d:code xmlns:d=\"urn:d\">7</d:code></detail>", "<faultactor>urn:x</faultactor><detail>text</detail>"))
}

func newClientPkg(c *core.Case, b *batch) *clientPkg {
	g, m, doc, extra := newWSDL(c, true)
	o := &wOptions{pkg: "ws", in: 3, out: 2}
	if g.Pct(60) {
		o.in, o.out = g.Intn(6), g.Intn(6)
	}
	x := baseOptions(c, !g.Odd)
	o.slices = x.slices
	o.desc = []string{fmt.Sprintf("InputThreshold %d, OutputThreshold %d, XSDOption %s", o.in, o.out, x)}
	o.nameOf = x.config().NameOf
	o.set = func(cfg *wsdlgen.Config) {
		cfg.Option(wsdlgen.DefaultOptions...)
		cfg.Option(wsdlgen.InputThreshold(o.in), wsdlgen.OutputThreshold(o.out))
		cfg.XSDOption(x.opts...)
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	files := []string{writeFile(c, dir, "service.wsdl", doc)}
	files = append(files, writeDocs(c, dir, extra)...)
	in := "options: " + o.String() + "\n" + string(doc) + "\n" + joinDocuments(extra)
	c.Ctx("%s", in)
	src, err := o.config().GenSource(files...)
	if err != nil {
		c.Violate(in, "generation failed: %v", err)
		return nil
	}
	in += "\n\n" + string(src)
	if _, _, d := checkFile(c, src, o.pkg); d != "" {
		c.Violate(in, "%s", d)
		return nil
	}
	cl := &clientPkg{input: in, m: m, o: o}
	cl.name = b.add(c, src, o.pkg, []string{"Client"})
	return cl
}

// values makes values for the parts of a message.
func (cl *clientPkg) values(w *wireWriter, msg *wMsg) (l []*schemagen.Inst, ok bool) {
	w.g.Present = []int{0, 30, 60, 90, 100}[w.Intn(5)]
	w.g.Zero = []int{0, 15, 50}[w.Intn(3)]
	for _, p := range msg.Parts {
		i, err := w.g.Make(xml.Name{Space: cl.m.TNS, Local: p.Name}, p.typ())
		if err != nil {
			w.Observe("types without small instances", 1)
			return nil, false
		}
		l = append(l, i)
	}
	return l, true
}

// calls plans the calls of a client. The first is number n.
func (cl *clientPkg) calls(c *core.Case, n int, group *int) (l []*call) {
	w := &wireWriter{Case: c, g: &schemagen.Instances{Rand: c.Rand, Pad: true}}
	methods := cl.m.methods(c, cl.o)
	var names []string
	for name := range methods {
		names = append(names, name)
	}
	sort.Strings(names)
	type made struct {
		job  int
		inst []*schemagen.Inst
	}
	pool := map[*wMsg][]made{}
	add := func(name, what string) *call {
		x := methods[name]
		k := &call{cl: cl, op: x.Op, port: x.Port, what: what}
		k.job = callJob{Pkg: cl.name, Method: name, ArgsFrom: -1, InWrap: cl.wrapped(x.Op.In, cl.o.in), OutWrap: cl.wrapped(x.Op.Out, cl.o.out)}
		k.job.Resp = callResp{Kind: "ok", Status: 200, Type: w.Pick("text/xml; charset=utf-8", "text/xml", "application/xml", "")}
		k.job.Default = c.Pct(20)
		k.job.ReqHook, k.job.RespHook = c.Pct(40), c.Pct(40)
		if p := pool[x.Op.In]; len(p) > 0 {
			v := p[c.Intn(len(p))]
			k.job.ArgsFrom, k.in = v.job, v.inst
		} else if len(x.Op.In.Parts) == 0 {
			k.in = []*schemagen.Inst{}
		}
		l = append(l, k)
		return k
	}
	reply := func(k *call) bool {
		if k.op.Out == nil {
			switch c.Intn(3) {
			case 0:
				k.job.Resp.Status = 202
			case 1:
				k.job.Resp.Body = w.envelope("")
			}
			return true
		}
		vals, ok := cl.values(w, k.op.Out)
		if !ok {
			return false
		}
		k.out = vals
		k.job.Resp.Body = w.envelope(w.message(cl.m.TNS, k.op.Name, k.op.Out, vals))
		return true
	}
	// Results that become arguments
	for _, name := range names {
		x := methods[name]
		if x.Op.Out == nil || len(x.Op.Out.Parts) == 0 {
			continue
		}
		for k := len(pool[x.Op.Out]); k < 2; k++ {
			j := add(name, "call")
			if !reply(j) {
				l = l[:len(l)-1]
				break
			}
			pool[x.Op.Out] = append(pool[x.Op.Out], made{n + len(l) - 1, j.out})
		}
	}
	shared := 0
	if c.Pct(70) {
		*group++
		shared = *group
	}
	// Calls that succeed
	for _, name := range names {
		for k := 0; k < 3; k++ {
			j := add(name, "call")
			if !reply(j) {
				l = l[:len(l)-1]
				continue
			}
			if k > 0 && shared > 0 {
				j.job.Group = shared
				j.job.Default = shared%4 == 0
				j.job.ReqHook, j.job.RespHook = shared%2 == 0, shared%2 == 0
			} else if j.job.RespHook && j.job.Resp.Body != "" && c.Pct(40) {
				// The hook makes a response of one that is none.
				j.job.HookBody = j.job.Resp.Body
				j.job.Resp.Body = w.Pick("", "garbage", w.envelope(w.fault("x", "y")))
			}
		}
	}
	// Calls that fail
	if len(names) == 0 {
		return l
	}
	for k := 0; k < 9; k++ {
		j := add(c.Pick(names...), "")
		if !reply(j) {
			l = l[:len(l)-1]
			continue
		}
		j.fail = true
		j.out = nil
		good := j.job.Resp.Body
		switch k {
		case 0, 1:
			j.what = "SOAP fault"
			code, text := w.Pick("soap:Server", "Client", "x:Bad.Thing"), w.Pick("it failed", "no such <item> & more", "100% wrong %d", "Ünglück")
			j.error = []string{code, text}
			j.job.Resp.Status = []int{500, 200, 500, 400}[c.Intn(4)]
			j.job.Resp.Body = w.envelope(w.fault(code, text))
		case 2, 3, 4:
			j.what = "broken response"
			switch c.Intn(5) {
			case 0:
				j.job.Resp.Body = w.Pick("garbage", "<html><body>not found</body></html>", "<a/>", "{}", `<Envelope xmlns="urn:other"><Body/></Envelope>`, " x ", "<!-- -->")
				j.job.Resp.Status = []int{200, 404, 500, 503}[c.Intn(4)]
			case 1:
				j.job.Resp.Body = ""
				if j.op.Out == nil {
					j.job.Resp.Status = []int{404, 500, 503}[c.Intn(3)]
				}
			case 2:
				j.job.Resp.Kind = "truncate"
				if good == "" {
					good = w.envelope("")
				}
				j.job.Resp.Body = cutEnvelope(c, good)
			default:
				if good == "" {
					good = w.envelope("")
				}
				j.job.Resp.Body = cutEnvelope(c, good)
			}
		case 5:
			j.what = "connection closed"
			j.job.Resp.Kind = "close"
		case 6:
			j.what = "connection refused"
			j.job.Refuse, j.unsent = true, true
		case 7:
			j.what = "cancelled"
			j.job.Ctx, j.maybeSent = "cancelled", true
		case 8:
			if c.Pct(40) {
				j.what = "timeout"
				j.job.Ctx, j.job.Resp.Kind, j.maybeSent = "timeout", "hang", true
			} else {
				j.what = "SOAP fault from the hook"
				j.job.RespHook = true
				j.job.HookBody = w.envelope(w.fault("H", "from the hook"))
				j.error = []string{"H", "from the hook"}
			}
		}
	}
	return l
}

// cutEnvelope cuts a document somewhere before the end of its root.
func cutEnvelope(c *core.Case, s string) string {
	from := strings.Index(s, "Envelope")
	return s[:from+c.Intn(strings.LastIndex(s, "</")+1-from)]
}

func runW03(c *core.Case) {
	b := newBatch(c)
	defer b.remove()
	b.race = c.Pct(50)
	var pkgs []*clientPkg
	for i := 0; i < 14; i++ {
		if p := newClientPkg(c, b); p != nil {
			pkgs = append(pkgs, p)
			c.Distinct(p.input)
			c.Sample("%s", p.input)
		}
	}
	if len(pkgs) == 0 {
		return
	}
	if d := b.build(c, strings.Replace(callMain, "//DUMP", driverDump, 1)); d != "" {
		c.Violate("", "the generated packages do not compile: %s", d)
		return
	}
	var calls []*call
	group := c.Intn(4)
	for _, p := range pkgs {
		calls = append(calls, p.calls(c, len(calls), &group)...)
	}
	if len(calls) == 0 {
		return
	}
	c.Observe("clients", len(pkgs))
	if b.race {
		c.Observe("clients with the race detector", len(pkgs))
	}
	in := make([]callJob, len(calls))
	for i, k := range calls {
		in[i] = k.job
	}
	var out []callResult
	if d := b.runDriver(c, in, &out, 240*time.Second); d != "" {
		var all string
		for _, p := range pkgs {
			all += p.input + "\n\n"
		}
		c.Violate(all, "%s", d)
		return
	}
	if len(out) != len(in) {
		c.Fatal("%d results for %d calls", len(out), len(in))
	}
	for i, r := range out {
		k := calls[i]
		c.Eval(1)
		if d := k.judge(c, r); d != "" {
			c.Violate(fmt.Sprintf("%s\n\n--- %s of %s\n%+v\n--- result\n%+v\n", k.cl.input, k.what, k.job.Method, k.job, r), "%s of %s: %s", k.what, k.job.Method, d)
			if c.Violated() {
				return
			}
		}
	}
}

// probeUnqualified tells if the known finding shows.
func probeUnqualified() bool {
	c := new(core.Case)
	b := newBatch(c)
	defer b.remove()
	doc := `<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:tns="urn:ws" targetNamespace="urn:ws">
<w:types><x:schema xmlns:x="http://www.w3.org/2001/XMLSchema"><x:complexType name="Part"><x:sequence><x:element name="n" type="x:int"/></x:sequence></x:complexType></x:schema></w:types>
<w:message name="M"><w:part name="p" type="Part"/></w:message>
<w:portType name="T"><w:operation name="Op"><w:input message="tns:M"/></w:operation></w:portType>
<w:binding name="B" type="tns:T"><soap:binding/><w:operation name="Op"><soap:operation soapAction=""/></w:operation></w:binding>
<w:service name="S"><w:port name="P" binding="tns:B"><soap:address location="http://example.com/"/></w:port></w:service></w:definitions>`
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	src, err := cfg.GenSource(writeFile(c, b.dir, "s.wsdl", []byte(doc)))
	if err != nil {
		return false
	}
	b.add(c, src, "ws", []string{"Client"})
	if d := b.build(c, strings.Replace(callMain, "//DUMP", driverDump, 1)); d != "" {
		return false
	}
	in := []callJob{{Pkg: "p0", Method: "Op", ArgsFrom: -1, Resp: callResp{Kind: "ok", Status: 200}}}
	var out []callResult
	if d := b.runDriver(c, in, &out, 60*time.Second); d != "" || len(out) != 1 || len(out[0].Reqs) != 1 {
		return false
	}
	n, err := schemagen.ParseNode([]byte(out[0].Reqs[0].Body))
	for err == nil && n != nil {
		if n.Name.Local == "n" {
			return n.Name.Space != ""
		}
		if len(n.Kids) == 0 {
			break
		}
		n = n.Kids[len(n.Kids)-1]
	}
	return false
}

func (k *call) judge(c *core.Case, r callResult) string {
	c.Observe("calls", 1)
	j := k.job
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	// What was sent
	n := 1
	if k.unsent {
		n = 0
	}
	switch {
	case k.what == "connection closed" && k.port.Binding.method() == "GET" && len(r.Reqs) > 1 && r.RoundTrips == 1:
		// The transport tries again as long as it has connections that were used.
	case k.maybeSent && len(r.Reqs) <= 1 && r.RoundTrips <= 1:
	case len(r.Reqs) != n:
		return fmt.Sprintf("the server got %d requests, want %d (error: %s)", len(r.Reqs), n, r.Err)
	case r.RoundTrips != 1:
		return fmt.Sprintf("%d requests were made, want 1 (error: %s)", r.RoundTrips, r.Err)
	}
	for _, q := range r.Reqs {
		if d := k.request(c, q); d != "" {
			return d
		}
	}
	if j.Group == 0 && !k.maybeSent {
		if want := count(j.Default); r.Default != want {
			return fmt.Sprintf("%d requests by the default HTTP client, want %d", r.Default, want)
		}
		if want := count(j.ReqHook); r.ReqHooks != want {
			return fmt.Sprintf("the request hook was called %d times, want %d", r.ReqHooks, want)
		}
		if want := count(j.RespHook && r.Bodies > 0); r.RespHooks != want {
			return fmt.Sprintf("the response hook was called %d times, want %d", r.RespHooks, want)
		}
	}
	if r.Closed < r.Bodies {
		return "the body of the response was not closed"
	}
	if k.fail {
		if r.Err == "" {
			return "there is no error"
		}
		for _, s := range k.error {
			if !strings.Contains(r.Err, s) {
				return fmt.Sprintf("the error %q does not say %q", r.Err, s)
			}
		}
		switch k.what {
		case "cancelled":
			c.Observe("cancelled calls", 1)
		case "timeout":
			c.Observe("calls that time out", 1)
		case "broken response":
			c.Observe("broken responses", 1)
		case "connection closed", "connection refused":
			c.Observe("failed connections", 1)
		default:
			c.Observe("SOAP faults", 1)
		}
		return ""
	}
	// What came back
	if r.Err != "" {
		return "the call failed: " + r.Err
	}
	if j.ReqHook || j.RespHook {
		c.Observe("calls with hooks", 1)
	}
	if j.Default {
		c.Observe("calls with the default client", 1)
	}
	if j.Group > 0 {
		c.Observe("concurrent calls", 1)
	}
	if k.op.Out == nil {
		c.Observe("one-way calls", 1)
	}
	if len(r.Values) != len(k.out) {
		return fmt.Sprintf("%d results, want %d", len(r.Values), len(k.out))
	}
	for i, v := range r.Values {
		m := schemagen.Match{Slices: k.cl.o.slices}
		if d := m.GoValue(k.out[i], v); d != "" {
			return fmt.Sprintf("result %s: %s", k.op.Out.Parts[i].Name, d)
		}
		c.Observe("values received", m.Values)
	}
	return ""
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

const envelopeURI = "http://schemas.xmlsoap.org/soap/envelope/"

// request judges a request.
func (k *call) request(c *core.Case, q callReq) string {
	u, err := url.Parse(k.port.Address)
	if err != nil {
		c.Fatal("%v", err)
	}
	if q.Host != u.Host || q.URI != u.RequestURI() {
		return fmt.Sprintf("request for %s at %s, want %s", q.URI, q.Host, k.port.Address)
	}
	if want := k.port.Binding.method(); q.Method != want {
		return fmt.Sprintf("method %s, want %s", q.Method, want)
	}
	if k.port.Binding.Kind == "http" {
		c.Observe("HTTP ports: "+q.Method, 1)
	}
	if want := k.port.Binding.Actions[k.op]; q.Actions != 1 || q.Action != want && q.Action != `"`+want+`"` {
		return fmt.Sprintf("SOAP action %q (%d headers), want %q", q.Action, q.Actions, want)
	}
	if hooked := q.Hooked != ""; hooked != k.job.ReqHook {
		return fmt.Sprintf("the request went through the hook: %v, want %v", hooked, k.job.ReqHook)
	}
	if q.Body == "" && q.Method != "POST" && q.Method != "PUT" {
		// The arguments are lost, see DESIGN.md.
		return ""
	}
	t, p, err := mime.ParseMediaType(q.Type)
	if err != nil || t != "text/xml" && t != "application/soap+xml" || p["charset"] != "" && !strings.EqualFold(p["charset"], "utf-8") {
		return fmt.Sprintf("content type %q", q.Type)
	}
	n, err := schemagen.ParseNode([]byte(q.Body))
	if err != nil {
		return fmt.Sprintf("the request is not well-formed: %v\n%s", err, q.Body)
	}
	if n.Name != (xml.Name{Space: envelopeURI, Local: "Envelope"}) {
		return "the request is not an envelope but " + n.Name.Local
	}
	var body *schemagen.Node
	for _, kid := range n.Kids {
		switch {
		case kid.Name == xml.Name{Space: envelopeURI, Local: "Body"} && body == nil:
			body = kid
		case kid.Name == xml.Name{Space: envelopeURI, Local: "Header"} && body == nil:
		default:
			return fmt.Sprintf("the envelope has an element %v", kid.Name)
		}
	}
	if body == nil {
		return "the envelope has no body"
	}
	at := body
	for _, name := range []string{k.op.Name, k.op.In.Name} {
		if len(at.Kids) != 1 {
			return fmt.Sprintf("%s has %d elements, want 1\n%s", at.Name.Local, len(at.Kids), q.Body)
		}
		at = at.Kids[0]
		if at.Name != (xml.Name{Space: k.cl.m.TNS, Local: name}) {
			return fmt.Sprintf("element %v, want %s\n%s", at.Name, name, q.Body)
		}
	}
	if k.in == nil {
		return ""
	}
	if len(at.Kids) != len(k.in) {
		return fmt.Sprintf("%d parts were sent, want %d\n%s", len(at.Kids), len(k.in), q.Body)
	}
	for i, kid := range at.Kids {
		m := schemagen.Match{Slices: k.cl.o.slices}
		if d := m.Document(k.in[i], kid); d != "" {
			return fmt.Sprintf("sent: part %s: %s\n%s", k.op.In.Parts[i].Name, d, q.Body)
		}
		c.Observe("values sent", m.Values)
		c.Observe("absent optional complex elements written as empty (known finding)", m.Phantoms)
	}
	return ""
}

const callMain = `package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

//IMPORTS
)

var types = map[string]func() interface{}{}

type job struct {
	Pkg, Method     string
	ArgsFrom        int
	InWrap, OutWrap bool
	Resp            struct {
		Kind   string
		Status int
		Type   string
		Body   string
	}
	Default  bool
	ReqHook  bool
	RespHook bool
	HookBody string
	Ctx      string
	Refuse   bool
	Group    int
}

type request struct {
	Method, Host, URI, Action, Type, Hooked, Body string
	Actions int
}

type result struct {
	Panic, Err          string
	Values              []interface{}
	Reqs                []request
	RoundTrips, Default int
	Bodies, Closed      int
	ReqHooks, RespHooks int
	Millis              int

	parts []reflect.Value
}

var (
	mu      sync.Mutex
	jobs    []job
	results []*result
)

type key struct{}

//DUMP

type body struct {
	io.ReadCloser
	r    *result
	once sync.Once
}

func (b *body) Close() error {
	b.once.Do(func() {
		mu.Lock()
		b.r.Closed++
		mu.Unlock()
	})
	return b.ReadCloser.Close()
}

type tripper struct {
	good, bad *http.Transport
	isDefault bool
}

func (t *tripper) RoundTrip(req *http.Request) (*http.Response, error) {
	i, ok := req.Context().Value(key{}).(int)
	if !ok {
		return nil, fmt.Errorf("the request does not have the context of the caller")
	}
	r := results[i]
	mu.Lock()
	r.RoundTrips++
	if t.isDefault {
		r.Default++
	}
	mu.Unlock()
	req = req.Clone(req.Context())
	req.Header.Set("X-Job", strconv.Itoa(i))
	tr := t.good
	if jobs[i].Refuse {
		tr = t.bad
	}
	rsp, err := tr.RoundTrip(req)
	if err == nil {
		mu.Lock()
		r.Bodies++
		mu.Unlock()
		rsp.Body = &body{ReadCloser: rsp.Body, r: r}
	}
	return rsp, err
}

func serve(w http.ResponseWriter, req *http.Request) {
	i, err := strconv.Atoi(req.Header.Get("X-Job"))
	if err != nil {
		panic(err)
	}
	data, _ := io.ReadAll(req.Body)
	mu.Lock()
	results[i].Reqs = append(results[i].Reqs, request{req.Method, req.Host, req.RequestURI, req.Header.Get("SOAPAction"), req.Header.Get("Content-Type"), req.Header.Get("X-Hooked"), string(data), len(req.Header["Soapaction"])})
	mu.Unlock()
	rsp := jobs[i].Resp
	switch rsp.Kind {
	case "close":
		panic(http.ErrAbortHandler)
	case "hang":
		select {
		case <-req.Context().Done():
		case <-time.After(20 * time.Second):
		}
		return
	case "truncate":
		w.Header().Set("Content-Length", strconv.Itoa(len(rsp.Body)+7))
	}
	if rsp.Type != "" {
		w.Header().Set("Content-Type", rsp.Type)
	}
	w.WriteHeader(rsp.Status)
	io.WriteString(w, rsp.Body)
	if rsp.Kind == "truncate" {
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	}
}

// newClient makes a client. Without a job, its hooks find it in the context.
func newClient(pkg string, own *http.Client, j *job, i int) reflect.Value {
	v := reflect.ValueOf(types[pkg+".Client"]())
	if !j.Default {
		v.Elem().FieldByName("HTTPClient").Set(reflect.ValueOf(own))
	}
	if j.ReqHook {
		v.Elem().FieldByName("RequestHook").Set(reflect.ValueOf(func(req *http.Request) *http.Request {
			if i >= 0 {
				mu.Lock()
				results[i].ReqHooks++
				mu.Unlock()
			}
			req = req.Clone(req.Context())
			req.Header.Set("X-Hooked", "yes")
			return req
		}))
	}
	if j.RespHook {
		v.Elem().FieldByName("ResponseHook").Set(reflect.ValueOf(func(rsp *http.Response) *http.Response {
			if i >= 0 {
				mu.Lock()
				results[i].RespHooks++
				mu.Unlock()
			}
			if i < 0 || j.HookBody == "" {
				return rsp
			}
			c := *rsp
			c.Body = io.NopCloser(strings.NewReader(j.HookBody))
			return &c
		}))
	}
	return v
}

func call(client reflect.Value, i int) {
	j, r := &jobs[i], results[i]
	start := time.Now()
	defer func() {
		r.Millis = int(time.Since(start) / time.Millisecond)
		if p := recover(); p != nil {
			r.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	m := client.MethodByName(j.Method)
	if !m.IsValid() {
		r.Panic = "no method " + j.Method
		return
	}
	ctx := context.WithValue(context.Background(), key{}, i)
	switch j.Ctx {
	case "cancelled":
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	case "timeout":
		c, cancel := context.WithTimeout(ctx, 60*time.Millisecond)
		defer cancel()
		ctx = c
	}
	t := m.Type()
	args := []reflect.Value{reflect.ValueOf(ctx)}
	var parts []reflect.Value
	if j.ArgsFrom >= 0 {
		parts = results[j.ArgsFrom].parts
	}
	if j.InWrap && parts != nil {
		v := reflect.New(t.In(1)).Elem()
		for k, p := range parts {
			v.Field(k).Set(p)
		}
		args = append(args, v)
	} else {
		args = append(args, parts...)
	}
	for len(args) < t.NumIn() {
		args = append(args, reflect.Zero(t.In(len(args))))
	}
	out := m.Call(args)
	if err, ok := out[len(out)-1].Interface().(error); ok && err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "an error"
		}
	}
	out = out[:len(out)-1]
	if j.OutWrap {
		v := out[0]
		out = nil
		for k := 0; k < v.NumField(); k++ {
			out = append(out, v.Field(k))
		}
	}
	r.parts = out
	for _, v := range out {
		r.Values = append(r.Values, dump(v))
	}
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(data, &jobs); err != nil {
		panic(err)
	}
	for range jobs {
		results = append(results, new(result))
	}
	srv := httptest.NewUnstartedServer(http.HandlerFunc(serve))
	srv.Config.ErrorLog = nil
	srv.Start()
	addr := srv.Listener.Addr().String()
	transport := func(addr string) *http.Transport {
		return &http.Transport{DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
			if addr == "" {
				// No port is sure to stay unused.
				return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
			}
			return (&net.Dialer{}).DialContext(ctx, network, addr)
		}, MaxIdleConnsPerHost: 32}
	}
	good, bad := transport(addr), transport("")
	own := &http.Client{Transport: &tripper{good: good, bad: bad}}
	http.DefaultClient.Transport = &tripper{good: good, bad: bad, isDefault: true}
	groups := map[int][]int{}
	var order []int
	for i := range jobs {
		if g := jobs[i].Group; g > 0 {
			if groups[g] == nil {
				order = append(order, g)
			}
			groups[g] = append(groups[g], i)
			continue
		}
		call(newClient(jobs[i].Pkg, own, &jobs[i], i), i)
	}
	for _, g := range order {
		l := groups[g]
		client := newClient(jobs[l[0]].Pkg, own, &jobs[l[0]], -1)
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, i := range l {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				call(client, i)
			}(i)
		}
		close(start)
		wg.Wait()
	}
	srv.CloseClientConnections()
	data, err = json.Marshal(results)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[2], data, 0644); err != nil {
		panic(err)
	}
	_ = bytes.NewReader
}
`
