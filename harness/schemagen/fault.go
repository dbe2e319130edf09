package schemagen

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/xsd"
)

// A fault makes a schema invalid in a way that must be reported.
const (
	DanglingType  = "dangling type"
	DanglingRef   = "dangling reference"
	BadNumber     = "bad number"
	BadBoolean    = "bad boolean"
	CircularType  = "circular derivation"
	CircularGroup = "circular group"
	// Hostile changes need not make the schema invalid.
	Hostile = "hostile"
)

var Faults = []string{DanglingType, DanglingRef, BadNumber, BadBoolean, CircularType, CircularGroup}

// derivedFrom lists the types that t is derived from, t included.
func bases(t *Type) []*Type {
	var out []*Type
	for t != nil {
		out = append(out, t)
		t = t.Base.Type
	}
	return out
}

// fault applies r.Fault to the parts. It returns a description of what was
// changed, or an empty string if there is no place for it.
func (r *Renderer) fault() string {
	var sites []func() string
	site := func(f func() string) { sites = append(sites, f) }
	var types []*Type
	for _, p := range r.Parts {
		types = append(types, p.Types...)
	}
	var walk func(n *node, top interface{}, choice bool, part *Part)
	walk = func(n *node, top interface{}, choice bool, part *Part) {
		_, isType := top.(*Type)
		_, isElem := top.(*Elem)
		parsed := isType || isElem
		for i := range n.attrs {
			a := &n.attrs[i]
			switch r.Fault {
			case DanglingType:
				if !parsed || a.qnames == nil || a.name == "ref" {
					break
				}
				site(func() string {
					q := &a.qnames[r.Intn(len(a.qnames))]
					switch r.Intn(3) {
					case 0:
						q.Local = "no-such-type"
					case 1:
						q.Local += "x0"
					default:
						*q = xml.Name{Space: XS, Local: "no-such-builtin"}
					}
					return fmt.Sprintf("%s of %s is %v", a.name, n.local, *q)
				})
			case DanglingRef:
				if a.name == "ref" {
					site(func() string {
						a.qnames[0].Local += "-missing"
						return fmt.Sprintf("ref of %s is %v", n.local, a.qnames[0])
					})
				}
			case BadNumber:
				if t, ok := n.origin.(Facet); ok && parsed {
					switch t.Name {
					case "length", "minLength", "maxLength", "totalDigits", "fractionDigits":
						site(func() string {
							a.value = []string{"x", "1.5", "", "0x10", "--1", "1e2", "99999999999999999999999"}[r.Intn(7)]
							if a.value == "" {
								a.value = "1 2"
							}
							return fmt.Sprintf("%s is %q", t.Name, a.value)
						})
					}
				}
			}
		}
		if parsed && r.Fault == BadNumber {
			has := func(name string) (v string) {
				for _, a := range n.attrs {
					if a.name == name {
						v = a.value
					}
				}
				return v
			}
			drop := func(name string) {
				var l []nattr
				for _, a := range n.attrs {
					if a.name != name {
						l = append(l, a)
					}
				}
				n.attrs = l
			}
			switch n.local {
			case "element", "sequence", "choice", "all", "any":
				if has("ref") == "" {
					site(func() string {
						name := "maxOccurs"
						if !choice && r.pct(50) {
							name = "minOccurs"
						}
						drop("maxOccurs")
						drop("minOccurs")
						v := []string{"many", "1.0", "0x2", "one", "1e1", "-"}[r.Intn(6)]
						n.attr(name, v)
						return fmt.Sprintf("%s of %s is %q", name, n.local, v)
					})
				}
			case "restriction":
				t, _ := n.origin.(*Type)
				if t == nil || !t.Simple || t.Base.Type != nil || !numeric(t.Base.Builtin) && t.Base.Builtin != xsd.Date && t.Base.Builtin != xsd.DateTime {
					break
				}
				site(func() string {
					k := &node{local: r.pickBound()}
					v := []string{"abc", "12abc", "1,5", "2001-13-45", "P1D"}[r.Intn(5)]
					k.attr("value", v)
					n.add(k)
					return fmt.Sprintf("%s of %v is %q", k.local, t.Base.Builtin, v)
				})
			}
		}
		if parsed && r.Fault == BadBoolean {
			var names []string
			switch n.local {
			case "element":
				names = []string{"abstract", "nillable"}
			case "complexType":
				names = []string{"abstract", "mixed"}
			case "complexContent":
				names = []string{"mixed"}
			}
			if len(names) > 0 {
				site(func() string {
					name := names[r.Intn(len(names))]
					var l []nattr
					for _, a := range n.attrs {
						if a.name != name {
							l = append(l, a)
						}
					}
					n.attrs = l
					v := []string{"yes", "True", "2", "TRUE", "on", "-1"}[r.Intn(6)]
					n.attr(name, v)
					return fmt.Sprintf("%s of %s is %q", name, n.local, v)
				})
			}
		}
		if t, ok := n.origin.(*Type); ok && r.Fault == CircularType && t.Local != "" && n.local == "restriction" || r.Fault == CircularType && n.local == "extension" {
			t := n.origin.(*Type)
			if t.Local != "" && t == top {
				var below []*Type
				for _, d := range types {
					for _, b := range bases(d) {
						if b == t {
							below = append(below, d)
						}
					}
				}
				site(func() string {
					d := below[r.Intn(len(below))]
					var l []nattr
					for _, a := range n.attrs {
						if a.name != "base" {
							l = append(l, a)
						}
					}
					n.attrs = l
					n.qattr("base", xml.Name{Space: d.NS.URI, Local: d.Local})
					var kids []*node
					for _, k := range n.kids {
						if k.local != "simpleType" && !isBound(k.local) {
							kids = append(kids, k)
						}
					}
					n.kids = kids
					return fmt.Sprintf("%s is derived from %s", t.Local, d.Local)
				})
			}
		}
		if r.Fault == CircularGroup {
			switch g := n.origin.(type) {
			case *Group:
				site(func() string {
					into := groupsWithin(g.Content, map[*Group]bool{g: true})
					k := into[r.Intn(len(into))]
					ref := &node{local: "group"}
					ref.qattr("ref", xml.Name{Space: g.NS.URI, Local: g.Local})
					kids := r.find(k).kids
					kids[len(kids)-1].add(ref)
					return fmt.Sprintf("group %s within %s", g.Local, k.Local)
				})
			case *AttrGroup:
				site(func() string {
					ref := &node{local: "attributeGroup"}
					ref.qattr("ref", xml.Name{Space: g.NS.URI, Local: g.Local})
					var into []*AttrGroup
					var collect func(g *AttrGroup)
					collect = func(g *AttrGroup) {
						into = append(into, g)
						for _, it := range g.Items {
							if it.Group != nil {
								collect(it.Group)
							}
						}
					}
					collect(g)
					k := into[r.Intn(len(into))]
					r.find(k).add(ref)
					return fmt.Sprintf("attribute group %s within %s", g.Local, k.Local)
				})
			}
		}
		if r.Fault == Hostile {
			site(func() string { return r.hostile(n, types) })
		}
		choice = choice || n.local == "choice"
		for _, k := range n.kids {
			walk(k, top, choice, part)
		}
	}
	for _, p := range r.Parts {
		for _, n := range p.comps {
			walk(n, n.origin, false, p)
		}
	}
	if len(sites) == 0 {
		return ""
	}
	if r.Fault == Hostile {
		what := ""
		for k := 1 + r.Intn(4); k > 0; k-- {
			what += sites[r.Intn(len(sites))]() + "; "
		}
		return what
	}
	return sites[r.Intn(len(sites))]()
}

func isBound(name string) bool {
	switch name {
	case "minInclusive", "maxInclusive", "minExclusive", "maxExclusive":
		return true
	}
	return false
}

func (r *Renderer) pickBound() string {
	return []string{"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}[r.Intn(4)]
}

func (r *Renderer) find(origin interface{}) *node {
	for _, p := range r.Parts {
		for _, n := range p.comps {
			if n.origin == origin {
				return n
			}
		}
	}
	return nil
}

// groupsWithin lists the groups that a particle refers to at any depth, and
// those given.
func groupsWithin(p *Particle, seen map[*Group]bool) []*Group {
	var out []*Group
	for g := range seen {
		out = append(out, g)
	}
	var walk func(p *Particle)
	walk = func(p *Particle) {
		if p.Kind == GroupRef && !seen[p.Group] {
			seen[p.Group] = true
			out = append(out, p.Group)
			walk(p.Group.Content)
		}
		for _, q := range p.Parts {
			walk(q)
		}
	}
	walk(p)
	return out
}

var hostileNames = []string{"name", "type", "base", "ref", "itemType", "memberTypes", "minOccurs", "maxOccurs", "abstract", "mixed", "default", "use", "form", "_isAnonymous", "value", "targetNamespace"}
var hostileValues = []string{"", " ", ":", "x:", ":x", "a:b:c", "_anon1", "_self", "0", "-1", "1", "99999999999999999999", "unbounded", "true", "xs:string", "string", "tns", "<", "\x09", "é"}

func (r *Renderer) hostile(n *node, types []*Type) string {
	switch r.Intn(7) {
	case 0:
		if len(n.attrs) > 0 {
			i := r.Intn(len(n.attrs))
			n.attrs = append(n.attrs[:i:i], n.attrs[i+1:]...)
			return "attribute of " + n.local + " removed"
		}
	case 1:
		name := hostileNames[r.Intn(len(hostileNames))]
		var l []nattr
		for _, a := range n.attrs {
			if a.name != name {
				l = append(l, a)
			}
		}
		n.attrs = l
		n.attr(name, hostileValues[r.Intn(len(hostileValues))])
		return name + " of " + n.local + " changed"
	case 2:
		if len(n.kids) > 0 {
			i := r.Intn(len(n.kids))
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return "child of " + n.local + " removed"
		}
	case 3:
		if len(n.kids) > 0 {
			n.add(n.kids[r.Intn(len(n.kids))])
			return "child of " + n.local + " repeated"
		}
	case 4:
		locals := []string{"element", "attribute", "group", "attributeGroup", "complexType", "simpleType", "sequence", "choice", "all", "any", "anyAttribute", "union", "list", "restriction", "extension", "simpleContent", "complexContent", "annotation", "documentation", "schema", "import", "redefine", "key"}
		old := n.local
		n.local = locals[r.Intn(len(locals))]
		return old + " is now " + n.local
	case 5:
		t := types[r.Intn(len(types))]
		for i := range n.attrs {
			a := &n.attrs[i]
			if a.qnames != nil {
				a.qnames[0] = xml.Name{Space: t.NS.URI, Local: t.Local}
				return a.name + " of " + n.local + " is another type"
			}
		}
	case 6:
		k := &node{local: []string{"complexType", "simpleType", "element", "attribute", "sequence", "group", "union", "list", "restriction"}[r.Intn(9)]}
		if r.pct(50) {
			k.attr("name", types[r.Intn(len(types))].Local)
		}
		n.add(k)
		return k.local + " added to " + n.local
	}
	return "nothing"
}
