package schemagen

import (
	"fmt"
	"math/rand"

	"aqwari.net/xml/xsd"
)

// Counts tells what was expanded.
type Counts struct {
	Elems, Attrs, Groups, AttrGroups, Anonymous, Shorthand int
}

type expander struct {
	*rand.Rand
	pct   int
	types map[*Type]*Type
	elems map[*Elem]*Elem
	attrs map[*Attr]*Attr
	grps  map[*Group]*Group
	agrps map[*AttrGroup]*AttrGroup
	ns    map[*Namespace]*Namespace
	n     int
	c     Counts
}

// Expand writes out references, names anonymous types and toggles the shorthand
// for complex types, each with the given probability. The result means the
// same.
func Expand(r *rand.Rand, m *Model, pct int) (*Model, Counts) {
	x := &expander{
		Rand: r, pct: pct,
		types: map[*Type]*Type{}, elems: map[*Elem]*Elem{}, attrs: map[*Attr]*Attr{},
		grps: map[*Group]*Group{}, agrps: map[*AttrGroup]*AttrGroup{}, ns: map[*Namespace]*Namespace{},
	}
	out := &Model{}
	for _, ns := range m.NS {
		n := &Namespace{URI: ns.URI, Doc: ns.Doc}
		x.ns[ns] = n
		out.NS = append(out.NS, n)
		for _, t := range ns.Types {
			c := &Type{}
			x.types[t] = c
			n.Types = append(n.Types, c)
		}
		for _, e := range ns.Elems {
			c := &Elem{}
			x.elems[e] = c
			n.Elems = append(n.Elems, c)
		}
		for _, a := range ns.Attrs {
			c := &Attr{}
			x.attrs[a] = c
			n.Attrs = append(n.Attrs, c)
		}
		for _, g := range ns.Groups {
			c := &Group{}
			x.grps[g] = c
			n.Groups = append(n.Groups, c)
		}
		for _, g := range ns.AttrGroups {
			c := &AttrGroup{}
			x.agrps[g] = c
			n.AttrGroups = append(n.AttrGroups, c)
		}
	}
	for _, ns := range m.NS {
		for _, t := range ns.Types {
			x.fill(x.types[t], t, 0)
		}
		for _, e := range ns.Elems {
			*x.elems[e] = *x.elem(e, 0)
		}
		for _, a := range ns.Attrs {
			*x.attrs[a] = *x.attr(a, 0)
		}
		for _, g := range ns.Groups {
			*x.grps[g] = Group{NS: x.ns[ns], Local: g.Local, Content: x.particle(g.Content, 0)}
		}
		for _, g := range ns.AttrGroups {
			*x.agrps[g] = AttrGroup{NS: x.ns[ns], Local: g.Local, Items: x.items(g.Items, 0)}
		}
	}
	return out, x.c
}

func (x *expander) yes() bool { return x.Intn(100) < x.pct }

func (x *expander) ref(r Ref, depth int, lift bool) Ref {
	if r.Type == nil {
		return r
	}
	if t, ok := x.types[r.Type]; ok {
		return Ref{Type: t}
	}
	// An anonymous type, once for every use.
	c := &Type{}
	x.fill(c, r.Type, depth+1)
	if lift {
		x.n++
		c.Local = fmt.Sprintf("lifted%d", x.n)
		c.Lifted = true
		c.NS.Types = append(c.NS.Types, c)
		x.c.Anonymous++
	}
	return Ref{Type: c}
}

func (x *expander) fill(c, t *Type, depth int) {
	*c = *t
	c.NS = x.ns[t.NS]
	c.Base = x.ref(t.Base, depth, x.yes())
	c.Members = nil
	lift := x.yes()
	for _, m := range t.Members {
		c.Members = append(c.Members, x.ref(m, depth, lift))
	}
	if !t.Simple && !t.Extends && !t.SimpleContent && t.Base.Type == nil && t.Base.Builtin == xsd.AnyType && x.yes() {
		c.Shorthand = !t.Shorthand
		c.Doc, c.ContentDoc = append(append([]string{}, t.Doc...), t.ContentDoc...), nil
		c.MixedContent = false
		x.c.Shorthand++
	}
	c.Content = x.particle(t.Content, depth)
	c.Attrs = x.items(t.Attrs, depth)
}

func (x *expander) particle(p *Particle, depth int) *Particle {
	if p == nil {
		return nil
	}
	c := *p
	c.Host = x.ns[p.Host]
	switch p.Kind {
	case Element:
		e := p.Elem
		if e.Ref != nil && e.Ref.NS == e.NS && depth < 3 && (e.Ref.Type.Type == nil || e.Ref.Type.Type.NS == e.NS) && x.yes() {
			x.c.Elems++
			d := *e.Ref
			if e.SetDefault {
				d.Default = e.Default
			}
			if e.SetNillable {
				d.Nillable = e.Nillable
			}
			c.Elem = x.elem(&d, depth+1)
		} else {
			c.Elem = x.elem(e, depth)
		}
	case GroupRef:
		c.Group = x.grps[p.Group]
	}
	c.Parts = nil
	for _, q := range p.Parts {
		if q.Kind == GroupRef && q.Host == q.Group.NS && depth < 3 && x.yes() {
			x.c.Groups++
			g := *q.Group.Content
			g.Min, g.Max = q.Min, q.Max
			c.Parts = append(c.Parts, x.particle(&g, depth+1))
			continue
		}
		c.Parts = append(c.Parts, x.particle(q, depth))
	}
	return &c
}

func (x *expander) elem(e *Elem, depth int) *Elem {
	c := *e
	c.NS = x.ns[e.NS]
	if e.Ref != nil {
		c.Ref = x.elems[e.Ref]
		return &c
	}
	c.Type = x.ref(e.Type, depth, x.yes())
	return &c
}

func (x *expander) attr(a *Attr, depth int) *Attr {
	c := *a
	c.NS = x.ns[a.NS]
	if a.Ref != nil {
		c.Ref = x.attrs[a.Ref]
		return &c
	}
	c.Type = x.ref(a.Type, depth, x.yes())
	return &c
}

func (x *expander) items(items []AttrItem, depth int) []AttrItem {
	var out []AttrItem
	for _, it := range items {
		switch {
		case it.Group != nil:
			if it.Host == it.Group.NS && x.yes() {
				x.c.AttrGroups++
				out = append(out, x.items(it.Group.Items, depth)...)
			} else {
				out = append(out, AttrItem{Group: x.agrps[it.Group], Host: x.ns[it.Host]})
			}
		case it.Attr.Ref != nil && it.Attr.Ref.NS == it.Attr.NS && x.yes():
			x.c.Attrs++
			d := *it.Attr.Ref
			d.Use = it.Attr.Use
			if it.Attr.SetDefault {
				d.Default = it.Attr.Default
			}
			out = append(out, AttrItem{Attr: x.attr(&d, depth), Host: x.ns[it.Host]})
		default:
			out = append(out, AttrItem{Attr: x.attr(it.Attr, depth), Host: x.ns[it.Host]})
		}
	}
	return out
}
