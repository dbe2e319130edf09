From 7bf98311e7daecd4182fe3281aac5ee7edd5bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 01/80] fix: xmltree: parse documents in other encodings
 without touching the input

Parse overwrote the caller's slice while converting, dropped the byte that
follows the XML declaration, and shifted the content of every element.
---
 xmltree/xmltree.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..ef781b7 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -32,6 +32,7 @@ func (x byXMLName) Less(i, j int) bool {
 }
 func (x byXMLName) Swap(i, j int) { x[i], x[j] = x[j], x[i] }
 
+var errLateEncoding = errors.New("xmltree: encoding declaration inside of document")
 var errDeepXML = errors.New("xmltree: xml document too deeply nested")
 
 // An Element represents a single element in an XML document. Elements
@@ -214,7 +215,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -223,14 +224,13 @@ func Parse(doc []byte) (*Element, error) {
 		// At this point, the encoding/xml package has already
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
-		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
-
-		_, err = io.Copy(utf8buf, utf8input)
-		if err != nil {
+		header := int(d.InputOffset())
+		utf8buf := bytes.NewBuffer(append([]byte{}, data[:header]...))
+		if _, err := utf8buf.ReadFrom(utf8input); err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[header:]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
@@ -244,7 +244,10 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
+		return nil, errLateEncoding
+	}
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 258a1f3aba4e6b581d631ffade0e52a90b233e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 02/80] fix: xmltree: do not share the binding list between
 joined scopes

Joining the result of a join with two different scopes made the second
result overwrite the first.
---
 xmltree/xmltree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index ef781b7..4e31f1e 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -72,7 +72,8 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	ns := make([]xml.Name, 0, len(outer.ns)+len(inner.ns))
+	return &Scope{append(append(ns, outer.ns...), inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From 9dd2a27bcdd9b31be41159cad13478cb0f8b1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 03/80] fix: xmltree: Prefix returns the local name of unbound
 namespaces, honors shadowing

Names in a namespace that is not in scope became empty strings, and a prefix
that is redeclared for another namespace could be used for the outer one.
---
 xmltree/xmltree.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 4e31f1e..77414a3 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -149,18 +149,31 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 	case xmlNamespaceURI:
 		return "xmlns:" + name.Local
 	}
+	if dflt, ok := scope.lookup(""); ok && dflt == name.Space {
+		// Favor default NS if there is an extra
+		// qualified NS declaration
+		return name.Local
+	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
-		if scope.ns[i].Space == name.Space {
-			if scope.ns[i].Local == "" {
-				// Favor default NS if there is an extra
-				// qualified NS declaration
-				qname = name.Local
-			} else if len(qname) == 0 {
-				qname = scope.ns[i].Local + ":" + name.Local
+		if ns := scope.ns[i]; ns.Space == name.Space {
+			// Skip declarations hidden by a closer declaration
+			// of the same prefix.
+			if space, _ := scope.lookup(ns.Local); space == name.Space {
+				return ns.Local + ":" + name.Local
 			}
 		}
 	}
-	return qname
+	return name.Local
+}
+
+// lookup returns the namespace that a prefix is bound to.
+func (scope *Scope) lookup(prefix string) (space string, ok bool) {
+	for i := len(scope.ns) - 1; i >= 0; i-- {
+		if scope.ns[i].Local == prefix {
+			return scope.ns[i].Space, true
+		}
+	}
+	return "", false
 }
 
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
-- 
2.43.0


From 13eb189babfd16ee3e71475a380b4fb7182f591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 04/80] fix: xmltree: escape attribute values and namespace
 names when marshaling

---
 xmltree/marshal.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..7f19c3f 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -11,17 +11,23 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{"escape": escape}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{escape .Space}}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From 553fda97d2ea9a99256e5e9395e3b92030684deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/80] fix: xmltree: Encode returns errors of every write

Errors while writing content, line breaks and cycle comments were dropped.
---
 xmltree/marshal.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 7f19c3f..60ba794 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -93,8 +93,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := io.WriteString(e.w, "<!-- cycle detected -->")
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -102,7 +102,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
@@ -142,7 +144,9 @@ func diffScope(parent, child *Element) Scope {
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
-			io.WriteString(e.w, e.indent)
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
+			}
 		}
 	}
 	var tag = struct {
@@ -154,7 +158,8 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	if e.pretty {
 		if len(el.Children) > 0 || len(el.Content) == 0 {
-			io.WriteString(e.w, "\n")
+			_, err := io.WriteString(e.w, "\n")
+			return err
 		}
 	}
 	return nil
@@ -164,7 +169,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
+				if _, err := io.WriteString(e.w, e.indent); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -172,7 +179,8 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 		return err
 	}
 	if e.pretty {
-		io.WriteString(e.w, "\n")
+		_, err := io.WriteString(e.w, "\n")
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From a62bb0f765381bff4aa2e8aeb5666ebf5084a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 06/80] fix: xmltree: MarshalIndent begins each line with the
 prefix

---
 xmltree/marshal.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 60ba794..644c8f5 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -143,6 +143,9 @@ func diffScope(parent, child *Element) Scope {
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
+		if _, err := io.WriteString(e.w, e.prefix); err != nil {
+			return err
+		}
 		for i := 0; i < depth; i++ {
 			if _, err := io.WriteString(e.w, e.indent); err != nil {
 				return err
@@ -166,12 +169,13 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 }
 
 func (e *encoder) encodeCloseTag(el *Element, depth int) error {
-	if e.pretty {
+	if e.pretty && len(el.Children) > 0 {
+		if _, err := io.WriteString(e.w, e.prefix); err != nil {
+			return err
+		}
 		for i := 0; i < depth; i++ {
-			if len(el.Children) > 0 {
-				if _, err := io.WriteString(e.w, e.indent); err != nil {
-					return err
-				}
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From c135fbea7cb683f500c6ff02fff0d3b27a69cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 07/80] fix: xmltree: declare the namespaces that a marshaled
 element needs

Elements moved from another document, or given names in namespaces that are
not in scope, were printed with missing, wrong or empty prefixes. Attributes in
the default namespace lost their namespace, and the scope of a sub-element was
printed with repeated declarations.
---
 xmltree/marshal.go | 132 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 102 insertions(+), 30 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 644c8f5..c9a74c7 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -3,6 +3,7 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
+	"fmt"
 	"io"
 	"text/template"
 )
@@ -13,14 +14,14 @@ import (
 // rename prefixes without some work.
 var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{"escape": escape}).Parse(
 	`{{define "start" -}}
-	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	<{{.Names.Prefix .Name -}}
+	{{range .StartElement.Attr}} {{$.AttrName .Name -}}="{{escape .Value}}"{{end -}}
 	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{escape .Space}}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
-	</{{.Prefix .Name}}>{{end}}`))
+	</{{.Names.Prefix .Name}}>{{end}}`))
 
 func escape(s string) (string, error) {
 	var buf bytes.Buffer
@@ -86,7 +87,7 @@ type encoder struct {
 // be "pulled" in, so they can be resolved properly. This is trickier than
 // just defining everything at the top level because there may be conflicts
 // introduced by the modifications.
-func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) error {
+func (e *encoder) encode(el *Element, parent *tag, visited map[*Element]struct{}) error {
 	if len(visited) > recursionLimit {
 		// We only return I/O errors
 		return nil
@@ -96,8 +97,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 		_, err := io.WriteString(e.w, "<!-- cycle detected -->")
 		return err
 	}
-	scope := diffScope(parent, el)
-	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
+	tag := newTag(parent, el)
+	if err := e.encodeOpenTag(tag, len(visited)); err != nil {
 		return err
 	}
 	if len(el.Children) == 0 {
@@ -111,37 +112,112 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	for i := range el.Children {
 		visited[el] = struct{}{}
-		if err := e.encode(&el.Children[i], el, visited); err != nil {
+		if err := e.encode(&el.Children[i], tag, visited); err != nil {
 			return err
 		}
 		delete(visited, el)
 	}
-	if err := e.encodeCloseTag(el, len(visited)); err != nil {
+	if err := e.encodeCloseTag(tag, len(visited)); err != nil {
 		return err
 	}
 	return nil
 }
 
-// diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
-func diffScope(parent, child *Element) Scope {
-	if parent == nil { // root element
-		return child.Scope
-	}
-	childScope := child.Scope
-	parentScope := parent.Scope
-	for len(parentScope.ns) > 0 && len(childScope.ns) > 0 {
-		if childScope.ns[0] == parentScope.ns[0] {
-			childScope.ns = childScope.ns[1:]
-			parentScope.ns = parentScope.ns[1:]
-		} else {
-			break
+// A tag is an Element along with the namespace declarations that are
+// needed to print it.
+type tag struct {
+	*Element
+	// The scope that the names in the tag are printed in. It is the
+	// Scope of the Element, plus declarations for any names in a tag
+	// that the Scope has no prefix for.
+	Names Scope
+	// Declarations that are not made by the parent.
+	NS []xml.Name
+}
+
+func newTag(parent *tag, el *Element) *tag {
+	var outer Scope
+	if parent != nil {
+		outer = parent.Names
+	}
+	t := &tag{Element: el, Names: *el.Scope.JoinScope(new(Scope))}
+
+	if _, ok := t.Names.lookup(""); !ok {
+		if dflt, _ := outer.lookup(""); dflt != "" {
+			t.declare("", "")
+		}
+	}
+	if el.Name.Space == "" {
+		if dflt, _ := t.Names.lookup(""); dflt != "" {
+			t.declare("", "")
+		}
+	} else if t.Names.Resolve(t.Names.Prefix(el.Name)) != el.Name {
+		t.declare(t.unusedPrefix(), el.Name.Space)
+	}
+	for _, attr := range el.StartElement.Attr {
+		if attr.Name.Space != "" && t.AttrName(attr.Name) == attr.Name.Local {
+			t.declare(t.unusedPrefix(), attr.Name.Space)
+		}
+	}
+	t.NS = diffScope(outer, t.Names)
+	return t
+}
+
+func (t *tag) declare(prefix, space string) {
+	t.Names.ns = append(t.Names.ns, xml.Name{Space: space, Local: prefix})
+}
+
+func (t *tag) unusedPrefix() string {
+	for i := 1; ; i++ {
+		prefix := fmt.Sprintf("ns%d", i)
+		if _, ok := t.Names.lookup(prefix); !ok {
+			return prefix
 		}
 	}
-	return childScope
 }
 
-func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
+// AttrName is like Prefix, but does not use the default namespace, which does
+// not apply to attributes.
+func (t *tag) AttrName(name xml.Name) string {
+	scope := Scope{t.Names.ns}
+	if dflt, _ := scope.lookup(""); dflt != "" && dflt == name.Space {
+		scope.ns = append(scope.ns[:len(scope.ns):len(scope.ns)], xml.Name{})
+	}
+	return scope.Prefix(name)
+}
+
+// diffScope returns the namespace declarations of a child element that
+// are necessary within the parent's scope.
+func diffScope(parent, child Scope) []xml.Name {
+	var result []xml.Name
+	common := 0
+	for common < len(parent.ns) && common < len(child.ns) && parent.ns[common] == child.ns[common] {
+		common++
+	}
+	if common < len(parent.ns) {
+		// The child is not from the same place in the document,
+		// and the parent may have shadowed the common part.
+		common = 0
+	}
+	seen := make(map[string]bool)
+	for i := len(child.ns) - 1; i >= common; i-- {
+		ns := child.ns[i]
+		if seen[ns.Local] {
+			continue
+		}
+		seen[ns.Local] = true
+		if space, ok := parent.lookup(ns.Local); common > 0 || !ok || space != ns.Space {
+			result = append(result, ns)
+		}
+	}
+	// Keep the order of the Scope.
+	for i, j := 0, len(result)-1; i < j; i, j = i+1, j-1 {
+		result[i], result[j] = result[j], result[i]
+	}
+	return result
+}
+
+func (e *encoder) encodeOpenTag(el *tag, depth int) error {
 	if e.pretty {
 		if _, err := io.WriteString(e.w, e.prefix); err != nil {
 			return err
@@ -152,11 +228,7 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 			}
 		}
 	}
-	var tag = struct {
-		*Element
-		NS []xml.Name
-	}{Element: el, NS: scope.ns}
-	if err := tagTmpl.ExecuteTemplate(e.w, "start", tag); err != nil {
+	if err := tagTmpl.ExecuteTemplate(e.w, "start", el); err != nil {
 		return err
 	}
 	if e.pretty {
@@ -168,7 +240,7 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	return nil
 }
 
-func (e *encoder) encodeCloseTag(el *Element, depth int) error {
+func (e *encoder) encodeCloseTag(el *tag, depth int) error {
 	if e.pretty && len(el.Children) > 0 {
 		if _, err := io.WriteString(e.w, e.prefix); err != nil {
 			return err
-- 
2.43.0


From 4c339a0371cb090d88076b69f578439df72eecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 08/80] fix: xmltree: Equal is symmetric, ignores order, leaves
 its arguments alone

Equal ignored attributes missing from its second argument, sorted the children
of the trees that it compared, compared siblings of the same name in an
arbitrary order, and gave up on trees deeper than 1000 elements.
---
 xmltree/compare.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..b968349 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -12,17 +12,30 @@ func Equal(a, b *Element) bool {
 	return equal(a, b, 0)
 }
 
-type byName []Element
+type byName []*Element
 
 func (l byName) Len() int { return len(l) }
 func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
+	if l[i].Name.Space != l[j].Name.Space {
+		return l[i].Name.Space < l[j].Name.Space
+	}
+	return l[i].Name.Local < l[j].Name.Local
 }
 func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
 
+// childrenByName sorts pointers to the children of el, so
+// that el itself is not modified.
+func childrenByName(el *Element) []*Element {
+	children := make([]*Element, len(el.Children))
+	for i := range el.Children {
+		children[i] = &el.Children[i]
+	}
+	sort.Stable(byName(children))
+	return children
+}
+
 func equal(a, b *Element, depth int) bool {
-	const maxDepth = 1000
-	if depth > maxDepth {
+	if depth > recursionLimit {
 		return false
 	}
 	if !equalElement(a, b) {
@@ -34,12 +47,17 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
-	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
+	ac, bc := childrenByName(a), childrenByName(b)
+	for i := range ac {
+		// Children of the same name may appear in any order.
+		j := i
+		for j < len(bc) && bc[j].Name == ac[i].Name && !equal(ac[i], bc[j], depth+1) {
+			j++
+		}
+		if j == len(bc) || bc[j].Name != ac[i].Name {
 			return false
 		}
+		bc[i], bc[j] = bc[j], bc[i]
 	}
 	return true
 }
@@ -56,6 +74,7 @@ func equalElement(a, b *Element) bool {
 		attrs[a.Name] = a.Value
 	}
 
+	matched := 0
 	for _, a := range b.StartElement.Attr {
 		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
 			continue
@@ -63,6 +82,7 @@ func equalElement(a, b *Element) bool {
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
 			return false
 		}
+		matched++
 	}
-	return true
+	return matched == len(attrs)
 }
-- 
2.43.0


From 9ec70be1ab39e1552cc262c5bf6d6eea1fd24db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 09/80] fix: xsd: keep every schema when several share a target
 namespace

The schemas were kept by target namespace, so that the last one replaced
the others.
---
 xsd/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..e409174 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -135,7 +135,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 func Parse(docs ...[]byte) ([]Schema, error) {
 	var (
 		result = make([]Schema, 0, len(docs))
-		parsed = make(map[string]Schema, len(docs))
+		parsed = make([]Schema, 0, len(docs))
 		types  = make(map[xml.Name]Type)
 	)
 
@@ -150,7 +150,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
-		parsed[tns] = s
+		parsed = append(parsed, s)
 	}
 
 	for _, s := range parsed {
@@ -159,8 +159,8 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for _, root := range schema {
-		s := parsed[root.Attr("", "targetNamespace")]
+	for i, root := range schema {
+		s := parsed[i]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c7e5c62f0b184c1fe5eccedcffe921238c25e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 10/80] fix: xsd: do not write to the spare capacity of the
 caller's document list

---
 xsd/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e409174..f8d2214 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -90,7 +90,7 @@ func Imports(data []byte) ([]Ref, error) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0


From 5cb110502a3e2257ca6d0409f33f81f52112cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 11/80] fix: xsd: flatten references nested within groups
 before the groups, reject circular groups

References inside the target of a reference could be copied before they
were flattened, and were lost. A group that contains itself overflowed the
stack.
---
 xsd/index.go |  3 +++
 xsd/parse.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..25706b8 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,6 +12,7 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
+	idByElt map[*xmltree.Element]int
 	// name indices can collide since different element
 	// types can have the same node.
 	idByName map[elementKey]int
@@ -31,6 +32,7 @@ func (idx *schemaIndex) ElementID(name, typ xml.Name) (int, bool) {
 
 func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	index := &schemaIndex{
+		idByElt:  make(map[*xmltree.Element]int),
 		idByName: make(map[elementKey]int),
 	}
 	for _, root := range schema {
@@ -38,6 +40,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			index.idByElt[el] = id
 			if name := el.Attr("", "name"); name != "" {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
diff --git a/xsd/parse.go b/xsd/parse.go
index f8d2214..9437507 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -363,19 +363,30 @@ func flattenRef(schema []*xmltree.Element) error {
 	var (
 		depends = new(dependency.Graph)
 		index   = indexSchema(schema)
+		links   = make(map[int][]int)
 	)
 	for id, el := range index.eltByID {
 		if el.Attr("", "ref") == "" {
 			continue
 		}
 		name := el.Resolve(el.Attr("", "ref"))
-		if dep, ok := index.ElementID(name, el.Name); !ok {
+		dep, ok := index.ElementID(name, el.Name)
+		if !ok {
 			return fmt.Errorf("could not find ref %s in %s",
 				el.Attr("", "ref"), el)
-		} else {
-			depends.Add(id, dep)
+		}
+		depends.Add(id, dep)
+		// The target is copied along with its children, so any
+		// references within it must be flattened first.
+		for _, child := range index.eltByID[dep].SearchFunc(hasAttr("", "ref")) {
+			depends.Add(id, index.idByElt[child])
+			links[id] = append(links[id], index.idByElt[child])
 		}
 	}
+	if id, ok := findCycle(len(index.eltByID), links); ok {
+		return fmt.Errorf("circular reference %s in %s",
+			index.eltByID[id].Attr("", "ref"), index.eltByID[id])
+	}
 	depends.Flatten(func(id int) {
 		el := index.eltByID[id]
 		if el.Attr("", "ref") == "" {
@@ -398,6 +409,38 @@ func flattenRef(schema []*xmltree.Element) error {
 	return nil
 }
 
+// findCycle returns the id of a reference that leads back to itself.
+func findCycle(size int, links map[int][]int) (int, bool) {
+	const (
+		active = 1
+		done   = 2
+	)
+	state := make(map[int]int)
+	var visit func(id int) (int, bool)
+	visit = func(id int) (int, bool) {
+		switch state[id] {
+		case active:
+			return id, true
+		case done:
+			return 0, false
+		}
+		state[id] = active
+		for _, dep := range links[id] {
+			if id, ok := visit(dep); ok {
+				return id, ok
+			}
+		}
+		state[id] = done
+		return 0, false
+	}
+	for id := 0; id < size; id++ {
+		if id, ok := visit(id); ok {
+			return id, ok
+		}
+	}
+	return 0, false
+}
+
 // Flatten a reference to an XML element, returning the full XML
 // object.
 func deref(ref, real *xmltree.Element) *xmltree.Element {
@@ -443,7 +486,14 @@ func unpackGroups(doc *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
 	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
+	var unpack func(el *xmltree.Element)
+	unpack = func(el *xmltree.Element) {
+		for i := range el.Children {
+			unpack(&el.Children[i])
+		}
+		if !hasGroups(el) {
+			return
+		}
 		children := make([]xmltree.Element, 0, len(el.Children))
 		for _, c := range el.Children {
 			if isGroup(&c) {
@@ -454,6 +504,9 @@ func unpackGroups(doc *xmltree.Element) {
 		}
 		el.Children = children
 	}
+	for i := range doc.Children {
+		unpack(&doc.Children[i])
+	}
 }
 
 // a complex type defined without any simpleContent or
-- 
2.43.0


From 1638eb0419d2a28bbf1f53d63c2f1ba89ff0c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 12/80] fix: xsd: do not give references a default type

The default type overrode the type of the referenced element or attribute.
---
 xsd/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 9437507..712a7db 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -634,7 +634,7 @@ func propagateMixedAttr(t, b Type, depth int) {
 func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
-		hasNoType = hasAttrValue("", "type", "")
+		hasNoType = and(hasAttrValue("", "type", ""), hasAttrValue("", "ref", ""))
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
 	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
@@ -650,7 +650,7 @@ func attributeDefaultType(root *xmltree.Element) {
 func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
-		hasNoType = hasAttrValue("", "type", "")
+		hasNoType = and(hasAttrValue("", "type", ""), hasAttrValue("", "ref", ""))
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
 	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
-- 
2.43.0


From e9b5c08a5d53e227cdc3a5e0e2bd4a29700d9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 13/80] fix: xsd: keep documentation that follows an appinfo
 element

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From 94580ebe33befa698ba5d43355746990bdedc40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 14/80] fix: xsd: resolve references to top-level declarations
 only

A local element of the same name could take the place of the one that
was referenced.
---
 xsd/index.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/index.go b/xsd/index.go
index 25706b8..438ac36 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -41,9 +41,13 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
 			index.idByElt[el] = id
+		}
+		// Only declarations at the top level may be referenced.
+		for i := range root.Children {
+			el := &root.Children[i]
 			if name := el.Attr("", "name"); name != "" {
 				xmlname := el.ResolveDefault(name, tns)
-				index.idByName[elementKey{xmlname, el.Name}] = id
+				index.idByName[elementKey{xmlname, el.Name}] = index.idByElt[el]
 			}
 		}
 	}
-- 
2.43.0


From 43f66e6309271fd9add90ed17d2c53b141bbd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 15/80] fix: xsd: name every anonymous type

- Appending a type to a schema moves its top-level elements, so that changes
  to them were lost.
- Every second anonymous member of a union was skipped.
- The names were not unique if a namespace has several schemas, and empty
  if its namespace has no prefix.
---
 xsd/parse.go | 61 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 712a7db..6286f38 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -107,8 +107,8 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
 	}
+	copyEltNamesToAnonTypes(result)
 	typeCounter := 0
 	for _, root := range result {
 		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
@@ -202,14 +202,24 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
+func copyEltNamesToAnonTypes(schema []*xmltree.Element) {
 	used := make(map[xml.Name]struct{})
-	tns := root.Attr("", "targetNamespace")
 
 	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(namedTypes) {
+			used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		}
 	}
+	for _, root := range schema {
+		copyEltNames(root, used)
+	}
+}
+
+func copyEltNames(root *xmltree.Element, used map[xml.Name]struct{}) {
+	var types []xmltree.Element
+	tns := root.Attr("", "targetNamespace")
 
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
@@ -228,14 +238,40 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 				continue
 			}
 			t.SetAttr("", "name", el.Attr("", "name"))
-			el.SetAttr("", "type", el.Prefix(xmlname))
+			el.SetAttr("", "type", qname(el, xmlname))
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			break
 		}
 	}
+	// Appending to the children of root moves them, so this must wait
+	// until there are no pointers to them.
+	root.Children = append(root.Children, types...)
+}
+
+// qname produces a QName for name that can be resolved in the scope of
+// el. If there is no prefix for the namespace, one is added to the scope.
+func qname(el *xmltree.Element, name xml.Name) string {
+	if s := el.Prefix(name); name.Space == "" || el.Resolve(s) == name {
+		return s
+	}
+	decl := xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Local: "x"}}}
+	for i := 0; ; i++ {
+		prefix := fmt.Sprintf("_ns%d", i)
+		if _, ok := el.ResolveNS(prefix + ":x"); ok {
+			continue
+		}
+		decl.SetAttr("xmlns", prefix, name.Space)
+		break
+	}
+	parsed, err := xmltree.Parse(xmltree.Marshal(&decl))
+	if err != nil {
+		panic("bug declaring a prefix: " + err.Error())
+	}
+	el.Scope = *el.JoinScope(&parsed.Scope)
+	return el.Prefix(name)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -292,6 +328,7 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 	var (
 		updateAttr string
 		accum      bool
+		types      []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
 	for _, el := range root.SearchFunc(hasAnonymousType) {
@@ -324,22 +361,24 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			*typeCounter++
 
 			name := anonTypeName(*typeCounter, targetNS)
-			qname := el.Prefix(name)
+			typeName := qname(el, name)
 
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
 			if accum {
-				qname = el.Attr("", updateAttr) + " " + qname
+				typeName = el.Attr("", updateAttr) + " " + typeName
 			}
-			el.SetAttr("", updateAttr, qname)
+			el.SetAttr("", updateAttr, typeName)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			if !accum {
 				break
 			}
+			i--
 		}
 	}
+	root.Children = append(root.Children, types...)
 	return nil
 }
 
-- 
2.43.0


From 01880c71a6d705a6b34fe3b4cddbabc94c71e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 16/80] fix: xsd: keep the type of a referenced element if its
 namespace has no prefix

---
 xsd/parse.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6286f38..aec3fc2 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -490,6 +490,12 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el.Content = append([]byte{}, real.Content...)
 	el.Children = append([]xmltree.Element{}, real.Children...)
 
+	// If there are child elements, rather than checking all children
+	// for xmlns conversion, we can just import the xmlns prefixes
+	if len(el.Children) > 0 {
+		el.Scope = *real.JoinScope(&ref.Scope)
+	}
+
 	// Some attributes can contain a qname, and must be converted to use the
 	// xmlns prefixes in ref's scope.
 	hasQName := map[xml.Name]bool{
@@ -497,16 +503,10 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	}
 	for i, attr := range el.StartElement.Attr {
 		if hasQName[attr.Name] {
-			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
+			attr.Value = qname(el, real.Resolve(attr.Value))
 			el.StartElement.Attr[i] = attr
 		}
 	}
-	// If there are child elements, rather than checking all children
-	// for xmlns conversion, we can just import the xmlns prefixes
-	if len(el.Children) > 0 {
-		el.Scope = *real.JoinScope(&ref.Scope)
-	}
 
 	// Attributes added to the reference overwrite attributes in the
 	// referenced element.
-- 
2.43.0


From 47d2df756fe9a8e340e8d7ba8a38e1af074728ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 17/80] fix: xsd: referenced elements and attributes stay in
 their own namespace

They were reported in the namespace of their type or of the schema that
refers to them.
---
 xsd/index.go |  3 +++
 xsd/parse.go | 54 +++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 438ac36..d2e6c1c 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -13,6 +13,8 @@ type elementKey struct {
 type schemaIndex struct {
 	eltByID []*xmltree.Element
 	idByElt map[*xmltree.Element]int
+	// The target namespace of the schema that contains the element
+	nsByID []string
 	// name indices can collide since different element
 	// types can have the same node.
 	idByName map[elementKey]int
@@ -41,6 +43,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
 			index.idByElt[el] = id
+			index.nsByID = append(index.nsByID, tns)
 		}
 		// Only declarations at the top level may be referenced.
 		for i := range root.Children {
diff --git a/xsd/parse.go b/xsd/parse.go
index aec3fc2..869c9a3 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1,6 +1,7 @@
 package xsd
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"regexp"
@@ -257,21 +258,31 @@ func qname(el *xmltree.Element, name xml.Name) string {
 	if s := el.Prefix(name); name.Space == "" || el.Resolve(s) == name {
 		return s
 	}
-	decl := xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Local: "x"}}}
-	for i := 0; ; i++ {
-		prefix := fmt.Sprintf("_ns%d", i)
-		if _, ok := el.ResolveNS(prefix + ":x"); ok {
-			continue
+	return prefixedName(el, name)
+}
+
+// prefixedName is like qname, but does not use the default namespace.
+func prefixedName(el *xmltree.Element, name xml.Name) string {
+	if s := el.Prefix(name); strings.Contains(s, ":") && el.Resolve(s) == name {
+		return s
+	}
+	prefix := "_ns0"
+	for i := 1; ; i++ {
+		if _, ok := el.ResolveNS(prefix + ":x"); !ok {
+			break
 		}
-		decl.SetAttr("xmlns", prefix, name.Space)
-		break
+		prefix = fmt.Sprintf("_ns%d", i)
 	}
-	parsed, err := xmltree.Parse(xmltree.Marshal(&decl))
+	var decl bytes.Buffer
+	decl.WriteString("<x xmlns:" + prefix + `="`)
+	xml.EscapeText(&decl, []byte(name.Space))
+	decl.WriteString(`"/>`)
+	parsed, err := xmltree.Parse(decl.Bytes())
 	if err != nil {
 		panic("bug declaring a prefix: " + err.Error())
 	}
 	el.Scope = *el.JoinScope(&parsed.Scope)
-	return el.Prefix(name)
+	return prefix + ":" + name.Local
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -436,7 +447,20 @@ func flattenRef(schema []*xmltree.Element) error {
 		if !ok {
 			panic("bug building dep tree; missing " + el.Attr("", "ref"))
 		}
+		link := *el
 		*el = *deref(el, real)
+		if link.Attr("", "name") != "" {
+			return
+		}
+		// The element or attribute stays in its own namespace.
+		switch {
+		case ref.Space == "":
+		case el.Name.Local == "element":
+			el.SetAttr("", "name", prefixedName(el, ref))
+		case el.Name.Local == "attribute" && ref.Space != index.nsByID[id]:
+			el.SetAttr("", "name", prefixedName(el, ref))
+			el.SetAttr("", "form", "qualified")
+		}
 	})
 	for ns, doc := range schema {
 		unpackGroups(doc)
@@ -931,7 +955,7 @@ func parseElement(ns string, el *xmltree.Element) Element {
 		}
 	})
 	t, ok := e.Type.(linkedType)
-	if ok {
+	if ok && !strings.Contains(el.Attr("", "name"), ":") {
 		e.Name.Space = t.Space
 	}
 	e.Doc = string(doc)
@@ -942,13 +966,9 @@ func parseElement(ns string, el *xmltree.Element) Element {
 func parseAttribute(ns string, el *xmltree.Element) Attribute {
 	var a Attribute
 	var doc annotation
-	// Non-QName xml attributes explicitly do *not* have a namespace.
-	if name := el.Attr("", "name"); strings.Contains(name, ":") {
-		a.Name = el.Resolve(el.Attr("", "name"))
-	} else {
-		a.Name.Local = name
-	}
-	a.Name.Space = ns
+	// Unless it is qualified, an xml attribute does *not* have a namespace;
+	// we record the namespace it is declared in.
+	a.Name = el.ResolveDefault(el.Attr("", "name"), ns)
 	a.Type = parseType(el.Resolve(el.Attr("", "type")))
 	a.Default = el.Attr("", "default")
 	a.Scope = el.Scope
-- 
2.43.0


From 1fccedea6ff04c4e6d5379d40b54e428ca0cb8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 18/80] fix: xsd: resolve the types of all schemas before
 looking at their bases

Parse panicked, or missed mixed content, if a type was derived from a type of
a later schema that is itself derived.
---
 xsd/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 869c9a3..e3b1123 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -160,11 +160,14 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for i, root := range schema {
-		s := parsed[i]
+	for _, s := range parsed {
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
+	}
+
+	for i, root := range schema {
+		s := parsed[i]
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f560e831386f4e066437f7048441ba749308d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 19/80] fix: xsd: reject circular derivations, give every type
 a base

FindType did not return, and generating code ran out of memory, for types that
are derived from themselves.
---
 xsd/parse.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index e3b1123..d6c9858 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -168,6 +168,9 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 
 	for i, root := range schema {
 		s := parsed[i]
+		if err := s.checkDerivations(); err != nil {
+			return nil, err
+		}
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
@@ -785,6 +788,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 		}
 	})
 	t.Doc += string(doc)
+	if t.Base == nil {
+		t.Base = AnyType
+	}
 	return &t
 }
 
@@ -1014,6 +1020,9 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 		}
 	})
 	t.Doc = string(doc)
+	if t.Base == nil {
+		t.Base = AnySimpleType
+	}
 	return &t
 }
 
@@ -1212,6 +1221,21 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// Types may not be derived from themselves, not even indirectly.
+func (s *Schema) checkDerivations() error {
+	for name, t := range s.Types {
+		derived := make(map[Type]struct{})
+		for ; t != nil; t = Base(t) {
+			if _, ok := derived[t]; ok {
+				return fmt.Errorf("type %s in namespace %s has a circular derivation",
+					name.Local, name.Space)
+			}
+			derived[t] = struct{}{}
+		}
+	}
+	return nil
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From e47edbc7436a81b2c07da4eaff263f4f25ad8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 20/80] fix: xsd: occurrence of a sequence, choice or group
 applies to its elements

Elements of a repeated or optional group were reported as occurring exactly once,
as were elements that a sequence contains several times.
---
 xsd/parse.go | 85 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index d6c9858..eba08db 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -549,6 +549,22 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// withOccurs returns the child of a group with the occurrence of the group.
+func withOccurs(child xmltree.Element, group *xmltree.Element) xmltree.Element {
+	switch child.Name {
+	case xml.Name{schemaNS, "all"}, xml.Name{schemaNS, "choice"}, xml.Name{schemaNS, "sequence"}:
+	default:
+		return child
+	}
+	child.StartElement.Attr = append([]xml.Attr{}, child.StartElement.Attr...)
+	for _, name := range []string{"minOccurs", "maxOccurs"} {
+		if value := group.Attr("", name); value != "" {
+			child.SetAttr("", name, value)
+		}
+	}
+	return child
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
@@ -566,7 +582,9 @@ func unpackGroups(doc *xmltree.Element) {
 		children := make([]xmltree.Element, 0, len(el.Children))
 		for _, c := range el.Children {
 			if isGroup(&c) {
-				children = append(children, c.Children...)
+				for _, child := range c.Children {
+					children = append(children, withOccurs(child, &c))
+				}
 			} else {
 				children = append(children, c)
 			}
@@ -832,19 +850,17 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 		case "restriction":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 
-			for _, v := range el.Search(schemaNS, "any") {
-				t.Elements = append(t.Elements, parseAnyElement(ns, v))
-				break
+			// A wildcard comes first, followed by the elements
+			// in the order of the document.
+			elements := parseParticles(ns, el)
+			for _, elt := range elements {
+				if elt.Wildcard {
+					t.Elements = append(t.Elements, elt)
+				}
 			}
-
-			usedElt := make(map[xml.Name]int)
-			for _, v := range el.Search(schemaNS, "element") {
-				elt := parseElement(ns, v)
-				if existing, ok := usedElt[elt.Name]; !ok {
-					usedElt[elt.Name] = len(t.Elements)
+			for _, elt := range elements {
+				if !elt.Wildcard {
 					t.Elements = append(t.Elements, elt)
-				} else {
-					t.Elements[existing] = joinElem(t.Elements[existing], elt)
 				}
 			}
 
@@ -860,6 +876,51 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 	t.Doc += string(doc)
 }
 
+// parseParticles collects the elements in a content model. Elements of the
+// same name are joined, and so are wildcards. The occurrence of each sequence,
+// choice or group applies to all of its elements.
+func parseParticles(ns string, root *xmltree.Element) []Element {
+	var result []Element
+
+	choice := root.Name.Local == "choice"
+	used := make(map[xml.Name]int)
+	walk(root, func(el *xmltree.Element) {
+		var elements []Element
+		switch el.Name.Local {
+		case "annotation", "attribute":
+			return
+		case "element":
+			elements = []Element{parseElement(ns, el)}
+		case "any":
+			elements = []Element{parseAnyElement(ns, el)}
+		default:
+			elements = parseParticles(ns, el)
+		}
+		for _, elt := range elements {
+			if existing, ok := used[elt.Name]; !ok {
+				used[elt.Name] = len(result)
+				result = append(result, elt)
+			} else {
+				elt = joinElem(result[existing], elt)
+				elt.Plural = elt.Plural || !choice
+				result[existing] = elt
+			}
+		}
+	})
+	optional := choice
+	if min := root.Attr("", "minOccurs"); min != "" && parseInt(min) == 0 {
+		optional = true
+	}
+	plural := parsePlural(root)
+	for i := range result {
+		if optional && !result[i].Wildcard {
+			result[i].Optional = true
+		}
+		result[i].Plural = result[i].Plural || plural
+	}
+	return result
+}
+
 func joinElem(a, b Element) Element {
 	if a.Doc != "" {
 		a.Doc += "\n"
-- 
2.43.0


From d0234cb8f52d0a684d3b73373f15174fb36b3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 21/80] fix: xsd: report the attributes of restrictions of
 simple content

---
 xsd/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index eba08db..439ea0a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -822,11 +822,11 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 		switch el.Name.Local {
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
-		case "restriction":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 		case "extension":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			t.Extends = true
+			fallthrough
+		case "restriction":
+			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			for _, v := range el.Search(schemaNS, "attribute") {
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 			}
-- 
2.43.0


From 46dda72a7a24b373d321c9ca8ac6453e592e4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 22/80] fix: xsd: accept bounds of dates with any time zone,
 times and durations

Schemas with such bounds were rejected, and bounds of types derived
from dateTime were lost.
---
 xsd/parse.go | 62 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 439ea0a..f2aacb4 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1152,40 +1152,58 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
 	var date time.Time
 	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
-		}
-
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
+	value := el.Attr("", "value")
+	switch base := base.(type) {
+	case Builtin:
+		switch base {
+		case Date, DateTime:
+			d, err := parseDate(value)
 			if err != nil {
 				stop(err.Error())
 			}
 			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+		case Duration, GDay, GMonth, GMonthDay, GYearMonth, Time:
+			// These are not numeric, and are not recorded.
+		default:
+			decimal = parseDecimal(value)
 		}
-	} else if _, ok := base.(linkedType); ok {
+	case linkedType:
 		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
-		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
-			}
+		if d, err := parseDate(value); err == nil {
 			date = d
+		} else if !isTime(value) {
+			decimal = parseDecimal(value)
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
+	default:
+		decimal = parseDecimal(value)
 	}
 	return date, decimal
 }
 
+// parseDate parses an xs:date or xs:dateTime, with or without a time zone.
+func parseDate(s string) (d time.Time, err error) {
+	s = strings.TrimSpace(s)
+	for _, layout := range []string{
+		"2006-01-02",
+		time.RFC3339,
+		"2006-01-02Z07:00",
+		"2006-01-02T15:04:05",
+	} {
+		if d, err = time.Parse(layout, s); err == nil {
+			return d, nil
+		}
+	}
+	return time.Time{}, fmt.Errorf("invalid date %q", s)
+}
+
+var timePattern = regexp.MustCompile(
+	`^(-?P.*|\d\d:\d\d:\d\d(\.\d+)?|--\d\d|--\d\d-\d\d|---\d\d|-?\d{4,}-\d\d)(Z|[-+]\d\d:\d\d)?$`)
+
+// isTime is true for durations, times and recurring dates.
+func isTime(s string) bool {
+	return timePattern.MatchString(strings.TrimSpace(s))
+}
+
 // XML Schema defines its own flavor of regular expressions here:
 //
 // http://www.w3.org/TR/xmlschema-0/#regexAppendix
-- 
2.43.0


From 77329d4b9961e04d54725aa2b62f243c67493015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 23/80] fix: xsd: record the annotations of a schema

---
 xsd/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index f2aacb4..cdf62fd 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -750,9 +750,16 @@ func (s *Schema) parse(root *xmltree.Element) error {
 }
 
 func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
+	var doc annotation
 	defer catchParseError(&err)
 	tns := root.Attr("", "targetNamespace")
 
+	walk(root, func(el *xmltree.Element) {
+		if el.Name.Local == "annotation" {
+			doc = doc.append(parseAnnotation(el))
+		}
+	})
+	s.Doc = string(doc)
 	for _, el := range root.Search(schemaNS, "complexType") {
 		t := s.parseComplexType(el)
 		s.Types[t.Name] = t
-- 
2.43.0


From 30550921f61460569f08cbf086405dab79ff991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 24/80] fix: xsd: elements of a group stay in the namespace of
 the group

---
 xsd/parse.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index cdf62fd..b533b7d 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -466,6 +466,8 @@ func flattenRef(schema []*xmltree.Element) error {
 		case el.Name.Local == "attribute" && ref.Space != index.nsByID[id]:
 			el.SetAttr("", "name", prefixedName(el, ref))
 			el.SetAttr("", "form", "qualified")
+		case el.Name.Local == "group" && ref.Space != index.nsByID[id]:
+			qualifyElements(el, ref.Space)
 		}
 	})
 	for ns, doc := range schema {
@@ -478,6 +480,22 @@ func flattenRef(schema []*xmltree.Element) error {
 	return nil
 }
 
+// qualifyElements adds the namespace of a group to the names of its elements,
+// without changing the original group.
+func qualifyElements(group *xmltree.Element, ns string) {
+	group.Children = append([]xmltree.Element{}, group.Children...)
+	for i := range group.Children {
+		el := &group.Children[i]
+		name := el.Attr("", "name")
+		if (el.Name != xml.Name{schemaNS, "element"}) {
+			qualifyElements(el, ns)
+		} else if name != "" && !strings.Contains(name, ":") {
+			el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+			el.SetAttr("", "name", prefixedName(el, xml.Name{ns, name}))
+		}
+	}
+}
+
 // findCycle returns the id of a reference that leads back to itself.
 func findCycle(size int, links map[int][]int) (int, bool) {
 	const (
-- 
2.43.0


From 303ca798f2bb80550f618265fcd9a8e5f2f3a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 25/80] fix: xsd: mark attributes with a list type as plural

---
 xsd/parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index b533b7d..202377e 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -178,6 +178,9 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		s.propagateMixedAttr()
 		result = append(result, s)
 	}
+	for _, s := range result {
+		s.setPluralAttributes()
+	}
 	result = append(result, builtinSchema)
 	return result, nil
 }
@@ -731,6 +734,24 @@ func propagateMixedAttr(t, b Type, depth int) {
 	}
 }
 
+// setPluralAttributes marks the attributes whose type is, or is derived from,
+// a <list> simpleType.
+func (s *Schema) setPluralAttributes() {
+	for _, t := range s.Types {
+		c, ok := t.(*ComplexType)
+		if !ok {
+			continue
+		}
+		for i, a := range c.Attributes {
+			for b, ok := a.Type.(*SimpleType); ok; b, ok = b.Base.(*SimpleType) {
+				if b.List {
+					c.Attributes[i].Plural = true
+				}
+			}
+		}
+	}
+}
+
 // 3.2.2 XML Representation of Attribute Declaration Schema Components
 //
 // Specifies that attributes without a type default to anySimpleType.
-- 
2.43.0


From da328a42e122bed0bb3455c5f5e1403db89b4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 26/80] fix: xsdgen: repeated elements of date, time and binary
 types

The methods of a type with such an element converted a pointer to a slice
to a pointer to its item type, and did not compile. Overrides that were
added for defaults alone had no effect, and did not compile for repeated
elements or defaults of several lines.
---
 xsdgen/xsdgen.go | 96 ++++++++++++++++++++++++------------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..8b1f448 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -545,9 +545,9 @@ func (cfg *Config) genTypeSpec(t xsd.Type) (result []spec, err error) {
 type fieldOverride struct {
 	FieldName        string
 	FromType, ToType string
-	DefaultValue     string
 	Type             xsd.Type
 	Tag              string
+	Plural           bool
 }
 
 type nameGenerator struct {
@@ -706,23 +706,19 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			base = &ast.ArrayType{Elt: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
-		if el.Default != "" || nonTrivialBuiltin(el.Type) {
-			typeName := cfg.exprString(el.Type)
-			if nonTrivialBuiltin(el.Type) {
-				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
-				if !ok {
-					return nil, fmt.Errorf("no helper type for type %v element %v", t.Name, el.Name)
-				}
-				helperTypes = append(helperTypes, xsd.XMLName(h.xsdType))
-				typeName = h.name
+		if nonTrivialBuiltin(el.Type) {
+			h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
+			if !ok {
+				return nil, fmt.Errorf("no helper type for type %v element %v", t.Name, el.Name)
 			}
+			helperTypes = append(helperTypes, xsd.XMLName(h.xsdType))
 			overrides = append(overrides, fieldOverride{
-				DefaultValue: el.Default,
-				FieldName:    name.(*ast.Ident).Name,
-				FromType:     cfg.exprString(el.Type),
-				Tag:          tag,
-				ToType:       typeName,
-				Type:         el.Type,
+				FieldName: name.(*ast.Ident).Name,
+				FromType:  cfg.exprString(el.Type),
+				Tag:       tag,
+				ToType:    h.name,
+				Type:      el.Type,
+				Plural:    el.Plural,
 			})
 		}
 	}
@@ -750,23 +746,18 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		cfg.debugf("adding %s attribute %s as %v", t.Name.Local, attr.Name.Local, base)
 		name := namegen.attribute(attr.Name)
 		fields = append(fields, name, base, gen.String(tag))
-		if attr.Default != "" || nonTrivialBuiltin(attr.Type) {
-			typeName := cfg.exprString(attr.Type)
-			if nonTrivialBuiltin(attr.Type) {
-				h, ok := cfg.helperTypes[xsd.XMLName(attr.Type)]
-				if !ok {
-					return nil, fmt.Errorf("no helper type for type %v attribute %v", t.Name, attr.Name)
-				}
-				typeName = h.name
-				helperTypes = append(helperTypes, xsd.XMLName(attr.Type))
+		if nonTrivialBuiltin(attr.Type) {
+			h, ok := cfg.helperTypes[xsd.XMLName(attr.Type)]
+			if !ok {
+				return nil, fmt.Errorf("no helper type for type %v attribute %v", t.Name, attr.Name)
 			}
+			helperTypes = append(helperTypes, xsd.XMLName(attr.Type))
 			overrides = append(overrides, fieldOverride{
-				DefaultValue: attr.Default,
-				FieldName:    name.(*ast.Ident).Name,
-				FromType:     cfg.exprString(attr.Type),
-				Tag:          tag,
-				ToType:       typeName,
-				Type:         attr.Type,
+				FieldName: name.(*ast.Ident).Name,
+				FromType:  cfg.exprString(attr.Type),
+				Tag:       tag,
+				ToType:    h.name,
+				Type:      attr.Type,
 			})
 		}
 	}
@@ -799,9 +790,13 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		AnyPlural bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
+	for _, v := range overrides {
+		data.AnyPlural = data.AnyPlural || v.Plural
+	}
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
@@ -812,18 +807,28 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var overlay struct{
 				*T
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
 			overlay.T = (*T)(t)
-			{{range .Overrides}}
+			{{range .Overrides -}}
+			{{if not .Plural -}}
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
-			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
 			{{end -}}
 			{{end}}
-
+			{{if .AnyPlural -}}
+			err := d.DecodeElement(&overlay, &start)
+			{{range .Overrides -}}
+			{{if .Plural -}}
+			for _, v := range overlay.{{.FieldName}} {
+				t.{{.FieldName}} = append(t.{{.FieldName}}, {{.FromType}}(v))
+			}
+			{{end -}}
+			{{end -}}
+			return err
+			{{- else -}}
 			return d.DecodeElement(&overlay, &start)
+			{{- end}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -832,17 +837,6 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	// We don't set defaults in MarshalXML; there's no way to distinguish
 	// an intentional zero value from "no value", and the consumer of the
 	// XML should know what the default is from the XSD.
-	nonDefaultOverrides := make([]fieldOverride, 0, len(overrides))
-	for _, v := range overrides {
-		if nonTrivialBuiltin(v.Type) {
-			nonDefaultOverrides = append(nonDefaultOverrides, v)
-		}
-	}
-	if len(nonDefaultOverrides) == 0 {
-		return nil, unmarshal, nil
-	}
-
-	data.Overrides = nonDefaultOverrides
 	marshal, err = gen.Func("MarshalXML").
 		Receiver("t *"+data.Type).
 		Args("e *xml.Encoder", "start xml.StartElement").
@@ -852,13 +846,19 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var layout struct{
 				*T
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
 			layout.T = (*T)(t)
 			{{- range .Overrides}}
+			{{if .Plural -}}
+			for _, v := range layout.T.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
+			}
+			{{else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
 			{{end -}}
+			{{end -}}
 
 			return e.EncodeElement(layout, start)
 		`, data).Decl()
-- 
2.43.0


From 4344a5c2f66a1199e122c8f78a69e48309c14f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 27/80] fix: xsdgen: types and elements called T

The local type T in generated methods redeclared itself, or a field.
---
 xsdgen/xsdgen.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8b1f448..a68d27e 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -790,10 +790,23 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		Local     string
 		AnyPlural bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
+	// The local type must not share its name with the type, nor with
+	// one of the fields that override those of the type.
+	data.Local = "T"
+	for taken := true; taken; {
+		taken = data.Local == data.Type
+		for _, v := range overrides {
+			taken = taken || data.Local == v.FieldName
+		}
+		if taken {
+			data.Local += "_"
+		}
+	}
 	for _, v := range overrides {
 		data.AnyPlural = data.AnyPlural || v.Plural
 	}
@@ -803,17 +816,17 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Local}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.Local}}
 				{{range .Overrides}}
 				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.Local}} = (*{{.Local}})(t)
 			{{range .Overrides -}}
 			{{if not .Plural -}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Local}}.{{.FieldName}})
 			{{end -}}
 			{{end}}
 			{{if .AnyPlural -}}
@@ -842,21 +855,21 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Local}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.Local}}
 				{{- range .Overrides}}
 				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.Local}} = (*{{.Local}})(t)
 			{{- range .Overrides}}
 			{{if .Plural -}}
-			for _, v := range layout.T.{{.FieldName}} {
+			for _, v := range layout.{{$.Local}}.{{.FieldName}} {
 				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
 			}
 			{{else -}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
 			{{end -}}
 			{{end -}}
 
-- 
2.43.0


From 83a7d0221322ba7ba0c99bbe0961e76f34275567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 28/80] fix: xsdgen: attributes of the xml namespace

Schemas that refer to xml:lang, xml:space, xml:base or xml:id were
rejected, for want of a Go type.
---
 xsdgen/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..a34b368 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -7,7 +7,7 @@ import (
 )
 
 func builtinExpr(b xsd.Builtin) ast.Expr {
-	if int(b) > len(builtinTbl) || b < 0 {
+	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
 	return builtinTbl[b]
@@ -79,4 +79,8 @@ var builtinTbl = []ast.Expr{
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
+	xsd.XMLLang:            &ast.Ident{Name: "string"},
+	xsd.XMLSpace:           &ast.Ident{Name: "string"},
+	xsd.XMLBase:            &ast.Ident{Name: "string"},
+	xsd.XMLId:              &ast.Ident{Name: "string"},
 }
-- 
2.43.0


From b022012d3c264923e524dac201fb168d29c3b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 29/80] fix: xsdgen: values of byte types

A Go byte cannot hold negative values of xs:byte, and repeated elements
of either type were taken for character data.
---
 xsdgen/builtin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index a34b368..04c2456 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -47,7 +47,7 @@ var builtinTbl = []ast.Expr{
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
@@ -75,7 +75,7 @@ var builtinTbl = []ast.Expr{
 	xsd.String:             &ast.Ident{Name: "string"},
 	xsd.Time:               &ast.Ident{Name: "time.Time"},
 	xsd.Token:              &ast.Ident{Name: "string"},
-	xsd.UnsignedByte:       &ast.Ident{Name: "byte"},
+	xsd.UnsignedByte:       &ast.Ident{Name: "uint"},
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
-- 
2.43.0


From 4ceaea17b920daee1a647076c8ee0ab929ab8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 30/80] fix: xsdgen: values of QName and NOTATION types

Decoding into an xml.Name drops the text of an element, and fails for
attributes. A NOTATION is a single name, not a list.
---
 xsdgen/builtin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 04c2456..fb3edff 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -41,9 +41,9 @@ var builtinTbl = []ast.Expr{
 	xsd.NCName:        &ast.Ident{Name: "string"},
 	xsd.NMTOKEN:       &ast.Ident{Name: "string"},
 	xsd.NMTOKENS:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
-	xsd.NOTATION:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
+	xsd.NOTATION:      &ast.Ident{Name: "string"},
 	xsd.Name:          &ast.Ident{Name: "string"},
-	xsd.QName:         &ast.Ident{Name: "xml.Name"},
+	xsd.QName:         &ast.Ident{Name: "string"},
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-- 
2.43.0


From 5ec05a45f0d3a40712e32c028a37b5b714faf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 31/80] fix: xsdgen: values of NMTOKENS, IDREFS and ENTITIES
 types

The whole list was decoded into a single string.
---
 xsdgen/builtin.go |  3 ++-
 xsdgen/config.go  | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index fb3edff..af9cdcf 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -23,7 +23,8 @@ func nonTrivialBuiltin(t xsd.Type) bool {
 	switch b {
 	case xsd.Base64Binary, xsd.HexBinary,
 		xsd.Date, xsd.Time, xsd.DateTime,
-		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth:
+		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth,
+		xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS:
 		return true
 	}
 	return false
diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..4c8dfda 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -678,6 +678,31 @@ func (cfg *Config) addStandardHelpers() {
 		}
 	}
 
+	for _, listType := range []xsd.Builtin{xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS} {
+		name := "xsd" + listType.String()
+		cfg.helperTypes[xsd.XMLName(listType)] = spec{
+			name:    name,
+			expr:    builtinExpr(listType),
+			private: true,
+			xsdType: listType,
+			methods: []*ast.FuncDecl{
+				gen.Func("UnmarshalText").
+					Receiver("l *" + name).
+					Args("text []byte").
+					Returns("error").
+					Body(`
+						*l = strings.Fields(string(text))
+						return nil
+					`).MustDecl(),
+				gen.Func("MarshalText").
+					Receiver("l "+name).
+					Returns("[]byte", "error").
+					Body(`return []byte(strings.Join(l, " ")), nil`).
+					MustDecl(),
+			},
+		}
+	}
+
 	cfg.helperTypes[xsd.XMLName(xsd.HexBinary)] = spec{
 		name:    "xsd" + xsd.HexBinary.String(),
 		expr:    builtinExpr(xsd.HexBinary),
-- 
2.43.0


From 54d6b20a6338948c021461c4d9f62893c2367eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 32/80] fix: xsdgen: list types

The code generated for lists of booleans, unsigned longs, dates and times
did not compile, lists of bytes were taken for text, lists of several other
types were rejected, and lists marshaled by value were not separated by
white space. Restrictions of list types were not lists.
---
 xsdgen/xsdgen.go | 267 ++++++++++++++++++-----------------------------
 1 file changed, 99 insertions(+), 168 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a68d27e..265307d 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -421,6 +421,15 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 			}
 			chain = append(chain, base)
 		}
+		// The restriction of a list is a list.
+		list := false
+		for i := len(chain) - 1; i >= 0; i-- {
+			if v, ok := chain[i].(*xsd.SimpleType); ok {
+				list = list || v.List
+				v.List = list
+			}
+		}
+		t.List = t.List || list
 		for _, v := range chain {
 			if v, ok := v.(*xsd.SimpleType); ok {
 				v.Base = builtin
@@ -953,193 +962,115 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	if err != nil {
 		return nil, err
 	}
-	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
+		doc:     t.Doc,
 		name:    cfg.public(t.Name),
-		expr:    expr,
+		expr:    &ast.ArrayType{Elt: expr},
 		xsdType: t,
 	}
-	marshalFn := gen.Func("MarshalText").
-		Receiver("x *"+s.name).
-		Returns("[]byte", "error")
-	unmarshalFn := gen.Func("UnmarshalText").
-		Receiver("x *" + s.name).
-		Args("text []byte").
-		Returns("error")
 
 	base := t.Base
 	for xsd.Base(base) != nil {
 		base = xsd.Base(base)
 	}
+	builtin, ok := base.(xsd.Builtin)
+	if !ok {
+		return nil, fmt.Errorf("don't know how to marshal/unmarshal <list> of %s", base)
+	}
 
-	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(v))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				*x = append(*x, string(v))
-			}
-			return nil
-		`)
-	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
-				} else {
-					result = append(result, b)
-				}
-			}
-			return bytes.Join(result, []byte(" "))
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				var t %s
-				if err := t.UnmarshalText(v); err != nil {
-					return err
-				}
-				*x = append(*x, t)
-			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
-	case xsd.Long:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatInt(v, 10)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
-					return err
-				} else {
-					*x = append(*x, i)
-				}
-			}
-			return nil
-		`)
-	case xsd.Decimal, xsd.Double:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				s := strconv.FormatFloat(v, 'g', -1, 64)
-				result = append(result, []byte(s))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if f, err := strconv.ParseFloat(v, 64); err != nil {
-					return err
-				} else {
-					*x = append(*x, f)
-				}
-			}
-			return nil
-		`)
-	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.Short:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.Itoa(v)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.Atoi(v); err != nil {
-					return err
-				} else {
-					*x = append(*x, i)
-				}
-			}
-			return nil
-		`)
-	case xsd.UnsignedInt, xsd.UnsignedShort:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUint(uint64(v), 10)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseUint(v, 10, 32); err != nil {
-					return err
-				} else {
-					*x = append(*x, uint(i))
-				}
+	// Go source for converting an item v to the []byte b, and the
+	// text v of an item to a value i of the item type.
+	var marshalItem, unmarshalItem string
+	itemType := gen.ExprString(expr)
+	if nonTrivialBuiltin(builtin) {
+		h, ok := cfg.helperTypes[xsd.XMLName(builtin)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", builtin)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(h.xsdType))
+		marshalItem = fmt.Sprintf(`
+			b, err := %s(v).MarshalText()
+			if err != nil {
+				return nil, err
+			}`, h.name)
+		unmarshalItem = fmt.Sprintf(`
+			var item %s
+			if err := item.UnmarshalText([]byte(v)); err != nil {
+				return err
 			}
-			return nil
-		`)
-	case xsd.UnsignedLong:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+			i := %s(item)`, h.name, itemType)
+	} else {
+		var parse string
+		switch itemType {
+		case "string":
+			marshalItem = `b := []byte(v)`
+			unmarshalItem = `i := v`
+		case "bool":
+			marshalItem = `b := strconv.AppendBool(nil, v)`
+			parse = `strconv.ParseBool(v)`
+		case "int":
+			marshalItem = `b := strconv.AppendInt(nil, int64(v), 10)`
+			parse = `strconv.Atoi(v)`
+		case "int64":
+			marshalItem = `b := strconv.AppendInt(nil, v, 10)`
+			parse = `strconv.ParseInt(v, 10, 64)`
+		case "uint":
+			marshalItem = `b := strconv.AppendUint(nil, uint64(v), 10)`
+			parse = `strconv.ParseUint(v, 10, 0)`
+		case "uint64":
+			marshalItem = `b := strconv.AppendUint(nil, v, 10)`
+			parse = `strconv.ParseUint(v, 10, 64)`
+		case "float32":
+			marshalItem = `b := strconv.AppendFloat(nil, float64(v), 'g', -1, 32)`
+			parse = `strconv.ParseFloat(v, 32)`
+		case "float64":
+			marshalItem = `b := strconv.AppendFloat(nil, v, 'g', -1, 64)`
+			if builtin == xsd.Decimal {
+				// decimals have no exponent
+				marshalItem = `b := strconv.AppendFloat(nil, v, 'f', -1, 64)`
 			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+			parse = `strconv.ParseFloat(v, 64)`
+		default:
+			return nil, fmt.Errorf("don't know how to marshal/unmarshal <list> of %s", base)
+		}
+		if parse != "" {
+			unmarshalItem = fmt.Sprintf(`
+				i, err := %s
+				if err != nil {
 					return err
-				} else {
-					*x = append(*x, i)
-				}
-			}
-			return nil
-		`)
-	case xsd.Byte, xsd.UnsignedByte:
-		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
-			return nil
-		`, s.name)
-	case xsd.Boolean:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte
-			for _, b := range *x {
-				if b {
-					result = append(result, []byte("1"))
-				} else {
-					result = append(result, []byte("0"))
-				}
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				switch string(v) {
-				case "1", "true":
-					*x = append(*x, true)
-				default:
-					*x = append(*x, false)
-				}
-			}
-			return nil
-		`)
-	default:
-		return nil, fmt.Errorf("don't know how to marshal/unmarshal <list> of %s", base)
+				}`, parse)
+		}
 	}
 
-	marshal, err := marshalFn.Decl()
+	marshal, err := gen.Func("MarshalText").
+		Receiver("x "+s.name).
+		Returns("[]byte", "error").
+		Body(`
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
+				%s
+				result = append(result, b)
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`, marshalItem).Decl()
 	if err != nil {
 		return nil, fmt.Errorf("MarshalText %s: %v", s.name, err)
 	}
 
-	unmarshal, err := unmarshalFn.Decl()
+	unmarshal, err := gen.Func("UnmarshalText").
+		Receiver("x *"+s.name).
+		Args("text []byte").
+		Returns("error").
+		Body(`
+			fields := strings.Fields(string(text))
+			result := make(%s, 0, len(fields))
+			for _, v := range fields {
+				%s
+				result = append(result, %s(i))
+			}
+			*x = result
+			return nil
+		`, s.name, unmarshalItem, itemType).Decl()
 	if err != nil {
 		return nil, fmt.Errorf("UnmarshalText %s: %v", s.name, err)
 	}
-- 
2.43.0


From 4c38b3c5105be20b257d4ffd13cb6f08d11226b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 33/80] fix: xsdgen: flatten every type once, in a fixed order

Flattening took exponential time for types that refer to each other, and
results depended on the order in which types were visited: the elements of
one type could be flattened for some of its uses only.
---
 xsdgen/xsdgen.go | 78 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 265307d..8012d87 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]xsd.Type)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -160,7 +160,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
+			for _, name := range sortedNames(prev) {
+				t := prev[name]
 				if t := cfg.preprocessType(primary, t); t != nil {
 					prev[name] = t
 				}
@@ -172,20 +173,23 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
+	// Types may be shared between schema; every type is flattened once.
+	var types []xsd.Type
+	flattened := make(map[xsd.Type]xsd.Type)
 	for _, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
-		types := cfg.flatten(primary.Types)
-		types = cfg.expandComplexTypes(types)
-		for _, t := range types {
-			specs, err := cfg.genTypeSpec(t)
-			if err != nil {
-				errList = append(errList, fmt.Errorf("gen type %q: %v",
-					xsd.XMLName(t).Local, err))
-			} else {
-				for _, s := range specs {
-					code.names[xsd.XMLName(s.xsdType)] = s.name
-					code.decls[s.name] = s
-				}
+		types = append(types, cfg.flatten(primary.Types, flattened)...)
+	}
+	types = cfg.expandComplexTypes(dedup(types))
+	for _, t := range types {
+		specs, err := cfg.genTypeSpec(t)
+		if err != nil {
+			errList = append(errList, fmt.Errorf("gen type %q: %v",
+				xsd.XMLName(t).Local, err))
+		} else {
+			for _, s := range specs {
+				code.names[xsd.XMLName(s.xsdType)] = s.name
+				code.decls[s.name] = s
 			}
 		}
 	}
@@ -366,12 +370,15 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 // 	t1 -> builtin, t2 -> builtin, t3 -> builtin
 //
 // This is a heuristic that tends to generate better-looking Go code.
-func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
+//
+// The types that were flattened already are recorded in seen.
+func (cfg *Config) flatten(types map[xml.Name]xsd.Type, seen map[xsd.Type]xsd.Type) []xsd.Type {
 	var result []xsd.Type
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
-	for _, t := range types {
+	for _, name := range sortedNames(types) {
+		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
 			continue
 		}
@@ -384,13 +391,28 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
 	return dedup(result)
 }
 
+// sortedNames lists the names of types in a fixed order.
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	return names
+}
+
 func dedup(types []xsd.Type) (unique []xsd.Type) {
 	seen := make(map[xml.Name]bool)
 	for _, v := range types {
@@ -402,11 +424,17 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[xsd.Type]xsd.Type) xsd.Type {
+	if flat, ok := seen[t]; ok {
+		return flat
 	}
+	// A type may contain itself.
+	seen[t] = t
+	seen[t] = cfg.flattenType(t, push, seen)
+	return seen[t]
+}
+
+func (cfg *Config) flattenType(t xsd.Type, push func(xsd.Type), seen map[xsd.Type]xsd.Type) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -489,28 +517,28 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From f4ff2b9602ee5fee0cd1cea5b704bed667ecc176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:55 +0000
Subject: [PATCH 34/80] fix: xsdgen: types that contain themselves

A Go struct cannot contain itself; such elements become pointers.
---
 xsdgen/xsdgen.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8012d87..dc1cabe 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -741,6 +741,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
+		} else if cfg.embeds(el.Type, t, make(map[xsd.Type]bool)) {
+			// A struct cannot contain itself
+			base = &ast.StarExpr{X: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
 		if nonTrivialBuiltin(el.Type) {
@@ -823,6 +826,26 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+// embeds returns true if the struct generated for t has room for a value
+// of the target type.
+func (cfg *Config) embeds(t xsd.Type, target *xsd.ComplexType, seen map[xsd.Type]bool) bool {
+	c, ok := t.(*xsd.ComplexType)
+	if !ok || seen[t] {
+		return false
+	}
+	if c == target {
+		return true
+	}
+	seen[t] = true
+	_, elements := cfg.filterFields(c)
+	for _, el := range elements {
+		if !el.Plural && cfg.embeds(el.Type, target, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
 	var data struct {
 		Overrides []fieldOverride
-- 
2.43.0


From 98748e5f91259581983b1ba03539b289d32e5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:06 +0000
Subject: [PATCH 35/80] fix: xsdgen: character data and wildcard fields of
 distinct names

---
 xsdgen/xsdgen.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index dc1cabe..76b4e15 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -654,7 +654,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			name := namegen.unique(cfg.public(b.Name))
+			fields = append(fields, name, expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -726,13 +727,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
-		if el.Wildcard {
+		var name ast.Expr
+		if !el.Wildcard {
+			name = namegen.element(el.Name)
+		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From 283b6c3f50efd01bbe3690253bd07f60f8bf7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 36/80] fix: xsdgen: white space around and inside binary
 values

---
 xsdgen/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 4c8dfda..d5f2d30 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -714,7 +714,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = hex.DecodeString(string(text))
+					*b, err = hex.DecodeString(strings.TrimSpace(string(text)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -740,7 +740,9 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = base64.StdEncoding.DecodeString(string(text))
+					// white space may appear anywhere in the value
+					s := strings.Join(strings.Fields(string(text)), "")
+					*b, err = base64.StdEncoding.DecodeString(s)
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
-- 
2.43.0


From 18fe4ef6c0eaa344595b35f576a11519ced6cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:53 +0000
Subject: [PATCH 37/80] fix: xsdgen: leave out empty optional binary and list
 values

---
 xsdgen/xsdgen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 76b4e15..a24c293 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -585,6 +585,8 @@ type fieldOverride struct {
 	Type             xsd.Type
 	Tag              string
 	Plural           bool
+	// An empty value is left out
+	OmitEmpty bool
 }
 
 type nameGenerator struct {
@@ -762,6 +764,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				ToType:    h.name,
 				Type:      el.Type,
 				Plural:    el.Plural,
+				OmitEmpty: options != "" && isSlice(base),
 			})
 		}
 	}
@@ -801,6 +804,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:       tag,
 				ToType:    h.name,
 				Type:      attr.Type,
+				OmitEmpty: options != "" && isSlice(base),
 			})
 		}
 	}
@@ -829,6 +833,11 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+func isSlice(expr ast.Expr) bool {
+	_, ok := expr.(*ast.ArrayType)
+	return ok
+}
+
 // embeds returns true if the struct generated for t has room for a value
 // of the target type.
 func (cfg *Config) embeds(t xsd.Type, target *xsd.ComplexType, seen map[xsd.Type]bool) bool {
@@ -931,6 +940,10 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			for _, v := range layout.{{$.Local}}.{{.FieldName}} {
 				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
 			}
+			{{else if .OmitEmpty -}}
+			if len(layout.{{$.Local}}.{{.FieldName}}) > 0 {
+				layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
+			}
 			{{else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
 			{{end -}}
-- 
2.43.0


From 9caae70aaf93a4ae1c4ae95511a08616ba01b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:04 +0000
Subject: [PATCH 38/80] fix: xsdgen: UseFieldNames never gives two types one
 name

---
 xsdgen/config.go | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index d5f2d30..4414eeb 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -314,40 +314,30 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
-- 
2.43.0


From 3c82eeddaacff4c8b518fc65e83d8ccfc4ff95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:55 +0000
Subject: [PATCH 39/80] fix: xsd: list all built-in types in the standard
 schema, anew for each caller

---
 xsd/parse.go           |  2 +-
 xsd/standard-schema.go | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 202377e..262127f 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -181,7 +181,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 	for _, s := range result {
 		s.setPluralAttributes()
 	}
-	result = append(result, builtinSchema)
+	result = append(result, builtinSchema())
 	return result, nil
 }
 
diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..6b242ea 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1411,13 +1411,17 @@ constructs, e.g.
 </xs:schema>
 `)
 
-var builtinSchema = Schema{
-	TargetNS: schemaNS,
-}
-
-func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
-		builtinSchema.Types[i.Name()] = i
+// builtinSchema returns the schema of the built-in types. It belongs to
+// the caller.
+func builtinSchema() Schema {
+	s := Schema{
+		TargetNS: schemaNS,
+		Types:    make(map[xml.Name]Type, int(AnySimpleType)+1),
+	}
+	for i := AnyType; i <= AnySimpleType; i++ {
+		if name := i.Name(); name.Space == schemaNS {
+			s.Types[name] = i
+		}
 	}
+	return s
 }
-- 
2.43.0


From 45f720bf7047ea75daa29a4b0567d5807751f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:57 +0000
Subject: [PATCH 40/80] fix: xsdgen: GenAST reports files that cannot be read

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..633704b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From baf92b36571350a61a2bab70e5214ae812ae30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:00 +0000
Subject: [PATCH 41/80] fix: xsdgen: look up target namespaces anew for each
 call, report every missing one

---
 xsdgen/cli.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 633704b..6ce85fa 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -17,34 +17,35 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range cfg.namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	var missing []string
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	for _, ns := range namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From f3d0a5da980aeb9f32961936c48836cc21e2369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:02 +0000
Subject: [PATCH 42/80] fix: xsdgen: reverting AllowType restores what was
 allowed before

---
 xsdgen/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 4414eeb..45d0161 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -202,9 +202,15 @@ func AllowType(name xml.Name) Option {
 		if cfg.allowTypes == nil {
 			cfg.allowTypes = make(map[xml.Name]bool)
 		}
+		prev := cfg.allowTypes[name]
 		cfg.allowTypes[name] = true
 		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
+			if !prev {
+				delete(cfg.allowTypes, name)
+			}
+			if len(cfg.allowTypes) == 0 {
+				cfg.allowTypes = nil
+			}
 			return AllowType(name)
 		}
 	}
-- 
2.43.0


From 424214bbc6f9c503723ed3712882619f609b34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 43/80] fix: xsdgen: SOAP arrays with a size, and bases without
 attributes

---
 xsdgen/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 45d0161..e1ea952 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -521,7 +521,10 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	itemType.Local = strings.TrimSpace(itemType.Local)
-	itemType.Local = strings.TrimSuffix(itemType.Local, "[]")
+	// The array may have a size
+	if i := strings.LastIndex(itemType.Local, "["); i >= 0 && strings.HasSuffix(itemType.Local, "]") {
+		itemType.Local = itemType.Local[:i]
+	}
 	if b := s.FindType(itemType); b != nil {
 		c = cfg.overrideWildcardType(c, b)
 	} else {
@@ -537,7 +540,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From 3b4c3e66fba6cc0fc50bf18e6175507400ce3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:37 +0000
Subject: [PATCH 44/80] fix: xsdgen: keep the attributes of SOAP arrays that
 follow arrayType

---
 xsdgen/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index e1ea952..03ce805 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -515,7 +515,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			itemType = v.Resolve(a.Value)
 			break
 		}
-		break
 	}
 	if itemType.Local == "" {
 		return c
-- 
2.43.0


From 14ce3e096cfd0feff0d2d95f1e23daa83b1cb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 45/80] fix: xsdgen: read every imported file once, allow
 imports without a location

---
 xsdgen/cli.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 6ce85fa..bca10f0 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"path/filepath"
 	"strings"
 
 	"aqwari.net/xml/internal/commandline"
@@ -66,9 +67,22 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	return cfg.readNewFiles(make(map[string]bool), files...)
+}
+
+// readNewFiles reads the files that are not in seen, each after the ones
+// it imports, if imports are followed.
+func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if cfg.followImports {
+			key := filepath.Clean(filename)
+			if seen[key] {
+				continue
+			}
+			seen[key] = true
+		}
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -81,9 +95,12 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				// the location is optional
+				if r.Location != "" {
+					importedFiles = append(importedFiles, r.Location)
+				}
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readNewFiles(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From c8ec8a034b31e57a8d6de7ed7a19eddb59c12f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 46/80] fix: xsdgen: find imported files relative to the
 importing file

---
 xsdgen/cli.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index bca10f0..5ba51ea 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -97,7 +98,7 @@ func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte
 			for _, r := range importedRefs {
 				// the location is optional
 				if r.Location != "" {
-					importedFiles = append(importedFiles, r.Location)
+					importedFiles = append(importedFiles, findImport(filename, r.Location))
 				}
 			}
 			referencedData, err := cfg.readNewFiles(seen, importedFiles...)
@@ -114,6 +115,20 @@ func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte
 	return data, nil
 }
 
+// findImport returns the file that a schemaLocation in the given file
+// refers to. Locations are relative to the file they appear in. If there
+// is no such file they are used as they are.
+func findImport(filename, location string) string {
+	if filepath.IsAbs(location) {
+		return location
+	}
+	relative := filepath.Join(filepath.Dir(filename), location)
+	if _, err := os.Stat(relative); err != nil {
+		return location
+	}
+	return relative
+}
+
 // The GenSource method converts the AST returned by GenAST to formatted
 // Go source code.
 func (cfg *Config) GenSource(files ...string) ([]byte, error) {
-- 
2.43.0


From cd5673d1bbaaca2cb2554398712db09c4c040923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 47/80] fix: xsdgen: leave out absent values of derived date
 and time types

---
 xsdgen/xsdgen.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a24c293..aa6d5a0 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1018,6 +1018,25 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 		Body(`return %s(t).MarshalText()`, helper.name).
 		MustDecl())
 
+	if gen.ExprString(s.expr) != "time.Time" {
+		return s, nil
+	}
+	// Times are never empty for the encoding/xml package. The helper
+	// types know when to leave them out.
+	s.methods = append(s.methods, gen.Func("MarshalXML").
+		Receiver("t "+s.name).
+		Args("e *xml.Encoder", "start xml.StartElement").
+		Returns("error").
+		Body(`return %s(t).MarshalXML(e, start)`, helper.name).
+		MustDecl())
+
+	s.methods = append(s.methods, gen.Func("MarshalXMLAttr").
+		Receiver("t "+s.name).
+		Args("name xml.Name").
+		Returns("xml.Attr", "error").
+		Body(`return %s(t).MarshalXMLAttr(name)`, helper.name).
+		MustDecl())
+
 	return s, nil
 }
 
-- 
2.43.0


From 1fe1a3e4fdc6ad6424a3fa038f32443ed6966028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:57 +0000
Subject: [PATCH 48/80] fix: xsdgen: leave out empty wildcard content

---
 xsdgen/xsdgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index aa6d5a0..a54e114 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -738,6 +738,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				name = namegen.unique("Items")
 			} else {
 				name = namegen.unique("Item")
+				// There is no element to write without content
+				tag = `xml:",any,omitempty"`
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From bbf463c5b03c71f8c1efb0fff5216e0191213355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 49/80] fix: xsdgen: wildcard fields do not take the elements
 that share their name

---
 xsdgen/xsdgen.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a54e114..5df1c83 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -628,6 +628,18 @@ func (gen *nameGenerator) element(base xml.Name) ast.Expr {
 	return gen.unique(name)
 }
 
+// wildcard names the field for the content of a wildcard. The encoding/xml
+// package also stores elements with the name of the field there, so none of
+// the other elements may have that name.
+func (gen *nameGenerator) wildcard(name string, elements []xsd.Element) ast.Expr {
+	for _, el := range elements {
+		if !el.Wildcard && el.Name.Local == name {
+			return gen.wildcard(name+"_", elements)
+		}
+	}
+	return gen.unique(name)
+}
+
 func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var result []spec
 	var fields []ast.Expr
@@ -735,9 +747,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = namegen.unique("Items")
+				name = namegen.wildcard("Items", elements)
 			} else {
-				name = namegen.unique("Item")
+				name = namegen.wildcard("Item", elements)
 				// There is no element to write without content
 				tag = `xml:",any,omitempty"`
 			}
-- 
2.43.0


From 1f8a842f378fb0caa764d440e7cc19ec0ba9b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 50/80] fix: xsdgen: redeclared attributes replace those of a
 base in another namespace

---
 xsdgen/xsdgen.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 5df1c83..540b3a4 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -324,7 +324,7 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 			shadowedElements[el.Name] = struct{}{}
 		}
 		for _, attr := range c.Attributes {
-			shadowedAttributes[attr.Name] = struct{}{}
+			shadowedAttributes[attributeName(attr)] = struct{}{}
 		}
 
 		elements := []xsd.Element{}
@@ -338,7 +338,7 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 		}
 		c.Elements = append(elements, c.Elements...)
 		for _, attr := range b.Attributes {
-			if _, ok := shadowedAttributes[attr.Name]; !ok {
+			if _, ok := shadowedAttributes[attributeName(attr)]; !ok {
 				c.Attributes = append(c.Attributes, attr)
 			} else {
 				cfg.debugf("complexType %s: extended attribute %s is overrided",
@@ -787,17 +787,11 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if attr.Optional {
 			options = ",omitempty"
 		}
-		qualified := false
-		for _, attrAttr := range attr.Attr {
-			if attrAttr.Name.Space == "" && attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {
-				qualified = true
-			}
-		}
 		var tag string
-		if qualified {
-			tag = fmt.Sprintf(`xml:"%s %s,attr%s"`, attr.Name.Space, attr.Name.Local, options)
+		if name := attributeName(attr); name.Space != "" {
+			tag = fmt.Sprintf(`xml:"%s %s,attr%s"`, name.Space, name.Local, options)
 		} else {
-			tag = fmt.Sprintf(`xml:"%s,attr%s"`, attr.Name.Local, options)
+			tag = fmt.Sprintf(`xml:"%s,attr%s"`, name.Local, options)
 		}
 		base, err := cfg.expr(attr.Type)
 		if err != nil {
@@ -1185,7 +1179,7 @@ func mergeAttributes(src, base *xsd.ComplexType) []xsd.Attribute {
 Loop:
 	for _, baseattr := range base.Attributes {
 		for _, srcattr := range src.Attributes {
-			if srcattr.Name == baseattr.Name {
+			if attributeName(srcattr) == attributeName(baseattr) {
 				continue Loop
 			}
 		}
@@ -1193,3 +1187,14 @@ Loop:
 	}
 	return src.Attributes
 }
+
+// attributeName returns the name an attribute has in documents, without
+// a namespace if it is not qualified.
+func attributeName(attr xsd.Attribute) xml.Name {
+	for _, v := range attr.Attr {
+		if v.Name.Space == "" && v.Name.Local == "form" && v.Value == "qualified" {
+			return attr.Name
+		}
+	}
+	return xml.Name{Local: attr.Name.Local}
+}
-- 
2.43.0


From 7c3f5a8ca93b404c22cb4b7bfbfeb0071d7cb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 51/80] fix: xsdgen: keep zero values of optional elements that
 repeat

---
 xsdgen/xsdgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 540b3a4..e585484 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -733,7 +733,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		if el.Nillable || el.Optional {
+		// Repeated elements without a value are not left out, other than
+		// by leaving them out of the slice.
+		if (el.Nillable || el.Optional) && !el.Plural {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
-- 
2.43.0


From 1f61df160cebf449b781f3d0b994fc4cdc1ed49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 52/80] fix: xsdgen: UseFieldNames tells names apart by their
 local part

---
 xsdgen/config.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 03ce805..a375d7c 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -312,16 +312,17 @@ func UseFieldNames() Option {
 }
 
 func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
-	used := make(map[xml.Name]struct{})
+	// Go identifiers have no namespace.
+	used := make(map[string]struct{})
 	for _, t := range s.Types {
-		used[xsd.XMLName(t)] = struct{}{}
+		used[xsd.XMLName(t).Local] = struct{}{}
 	}
 	c, ok := t.(*xsd.ComplexType)
 	if !ok {
 		return t
 	}
 	rename := func(t xsd.Type, name xml.Name) {
-		if _, inuse := used[name]; inuse {
+		if _, inuse := used[name.Local]; inuse {
 			return
 		}
 		switch t := t.(type) {
@@ -329,13 +330,13 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 			if t.Anonymous {
 				t.Name = name
 				t.Anonymous = false
-				used[name] = struct{}{}
+				used[name.Local] = struct{}{}
 			}
 		case *xsd.ComplexType:
 			if t.Anonymous {
 				t.Name = name
 				t.Anonymous = false
-				used[name] = struct{}{}
+				used[name.Local] = struct{}{}
 			}
 		}
 	}
-- 
2.43.0


From e74d88b14e2326a8aa39638d5ac58391d981496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 53/80] fix: xsdgen: generate code for schemas without a target
 namespace

---
 xsdgen/xsdgen.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index e585484..46ae183 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -51,10 +51,7 @@ func lookupTargetNS(data ...[]byte) []string {
 		}
 		elts := outer.Search("http://www.w3.org/2001/XMLSchema", "schema")
 		for _, el := range elts {
-			ns := el.Attr("", "targetNamespace")
-			if ns != "" {
-				result = append(result, ns)
-			}
+			result = append(result, el.Attr("", "targetNamespace"))
 		}
 	}
 	return result
-- 
2.43.0


From 8745532a1d3d295a2089a867185ca9c5bde60894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 54/80] fix: xsdgen: SOAP arrays of dates, times and binary
 values

---
 xsdgen/config.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a375d7c..c883e53 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -775,6 +775,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	var baseType xml.Name
+	var helper string
 	// the parseSOAPArray pre-processor would have replaced the wildcard
 	// element in the array with the appropriate type.
 	complex, ok := s.xsdType.(*xsd.ComplexType)
@@ -785,6 +786,9 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	for _, el := range complex.Elements {
 		if el.Wildcard {
 			baseType = xsd.XMLName(el.Type)
+			if nonTrivialBuiltin(el.Type) {
+				helper = cfg.helperTypes[baseType].name
+			}
 			break
 		}
 	}
@@ -810,6 +814,16 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	itemType := gen.ExprString(slice.Elt)
+	// The type that items are decoded into, and how to make an item of it
+	decodeType, decoded := itemType, "item"
+	encodeType, encoded := itemType, "output.Items = []"+itemType+"(a)"
+	if helper != "" {
+		decodeType, decoded = helper, itemType+"(item)"
+		encodeType, encoded = helper, `
+			for _, v := range a {
+				output.Items = append(output.Items, `+helper+`(v))
+			}`
+	}
 	unmarshalFn := gen.Func("UnmarshalXML").
 		Receiver("a *"+s.name).
 		Args("d *xml.Decoder", "start xml.StartElement").
@@ -822,7 +836,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				if tok, ok := tok.(xml.StartElement); ok {
 					var item %s
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -830,7 +844,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, itemType)
+		`, decodeType, decoded)
 	} else {
 		unmarshalFn = unmarshalFn.Body(`
 			var tok xml.Token
@@ -844,7 +858,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 						continue
 					}
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -852,7 +866,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, xmltag.Space, xmltag.Local, itemType)
+		`, xmltag.Space, xmltag.Local, decodeType, decoded)
 	}
 	unmarshal, err := unmarshalFn.Decl()
 	if err != nil {
@@ -872,21 +886,20 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
 				Items []%[1]s `+"`xml:\"%[2]s %[3]s\"`"+`
 			}
-			output.Items = []%[1]s(a)
+			%[6]s
 			start.Attr = append(start.Attr, xml.Attr {
 				Name: xml.Name{"", "xmlns:ns1"},
 				Value: %[4]q,
 			})
 			output.ArrayType = "ns1:%[5]s[]"
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local).Decl()
+		`, encodeType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local, encoded).Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
 	}
 
 	s.expr = slice
-	s.methods = append(s.methods, marshal)
-	s.methods = append(s.methods, unmarshal)
+	s.methods = []*ast.FuncDecl{marshal, unmarshal}
 	return s
 }
-- 
2.43.0


From b7ed123946e3285ddeefdd03ff8b128284ebabfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 55/80] fix: xsdgen: report type names that are no Go
 identifiers as an error

---
 xsdgen/xsdgen.go | 66 +++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 46ae183..cb80738 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1012,38 +1012,42 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 	s.helperTypes = append(s.helperTypes,
 		xsd.XMLName(helper.xsdType))
 
-	s.methods = append(s.methods, gen.Func("UnmarshalText").
-		Receiver("t *"+s.name).
-		Args("text []byte").
-		Returns("error").
-		Body(`return (*%s)(t).UnmarshalText(text)`, helper.name).
-		MustDecl())
-
-	s.methods = append(s.methods, gen.Func("MarshalText").
-		Receiver("t "+s.name).
-		Returns("[]byte", "error").
-		Body(`return %s(t).MarshalText()`, helper.name).
-		MustDecl())
-
-	if gen.ExprString(s.expr) != "time.Time" {
-		return s, nil
+	methods := []*gen.Function{
+		gen.Func("UnmarshalText").
+			Receiver("t *"+s.name).
+			Args("text []byte").
+			Returns("error").
+			Body(`return (*%s)(t).UnmarshalText(text)`, helper.name),
+		gen.Func("MarshalText").
+			Receiver("t "+s.name).
+			Returns("[]byte", "error").
+			Body(`return %s(t).MarshalText()`, helper.name),
+	}
+
+	if gen.ExprString(s.expr) == "time.Time" {
+		// Times are never empty for the encoding/xml package. The helper
+		// types know when to leave them out.
+		methods = append(methods,
+			gen.Func("MarshalXML").
+				Receiver("t "+s.name).
+				Args("e *xml.Encoder", "start xml.StartElement").
+				Returns("error").
+				Body(`return %s(t).MarshalXML(e, start)`, helper.name),
+			gen.Func("MarshalXMLAttr").
+				Receiver("t "+s.name).
+				Args("name xml.Name").
+				Returns("xml.Attr", "error").
+				Body(`return %s(t).MarshalXMLAttr(name)`, helper.name))
+	}
+
+	for _, fn := range methods {
+		// The name of the type may not be a Go identifier.
+		decl, err := fn.Decl()
+		if err != nil {
+			return s, fmt.Errorf("%s %s: %v", fn.Name(), s.name, err)
+		}
+		s.methods = append(s.methods, decl)
 	}
-	// Times are never empty for the encoding/xml package. The helper
-	// types know when to leave them out.
-	s.methods = append(s.methods, gen.Func("MarshalXML").
-		Receiver("t "+s.name).
-		Args("e *xml.Encoder", "start xml.StartElement").
-		Returns("error").
-		Body(`return %s(t).MarshalXML(e, start)`, helper.name).
-		MustDecl())
-
-	s.methods = append(s.methods, gen.Func("MarshalXMLAttr").
-		Receiver("t "+s.name).
-		Args("name xml.Name").
-		Returns("xml.Attr", "error").
-		Body(`return %s(t).MarshalXMLAttr(name)`, helper.name).
-		MustDecl())
-
 	return s, nil
 }
 
-- 
2.43.0


From 942d4ac830cc504e55078965a3b8374992281f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 56/80] fix: xsdgen: document restrictions of types that are
 only used as a base

---
 xsdgen/xsdgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index cb80738..220d05d 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -458,6 +458,8 @@ func (cfg *Config) flattenType(t xsd.Type, push func(xsd.Type), seen map[xsd.Typ
 		for _, v := range chain {
 			if v, ok := v.(*xsd.SimpleType); ok {
 				v.Base = builtin
+				// Documents the restrictions of the type.
+				cfg.flatten1(v, push, seen)
 				push(v)
 			}
 		}
-- 
2.43.0


From 117ae5770350fcb33bf209a1028ce1250d180247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 57/80] fix: wsdl: report the ports and documentation of every
 service

---
 wsdl/wsdl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..92f16e6 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -207,9 +207,13 @@ func Parse(data []byte) (*Definition, error) {
 	def.TargetNS = root.Attr("", "targetNamespace")
 	def.Message = parseMessages(def.TargetNS, root)
 
+	var docs []string
 	for _, svc := range root.Search(wsdlNS, "service") {
-		def.Doc = documentation(svc)
-		def.Ports = parsePorts(def.TargetNS, root, svc)
+		if doc := documentation(svc); doc != "" {
+			docs = append(docs, doc)
+		}
+		def.Ports = append(def.Ports, parsePorts(def.TargetNS, root, svc)...)
 	}
+	def.Doc = strings.Join(docs, "\n")
 	return &def, nil
 }
-- 
2.43.0


From e2a2e4bfe4e25f27d607b2591bb8745330a441a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 58/80] fix: wsdl: SOAP actions of SOAP 1.2 bindings

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 92f16e6..8813231 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -188,6 +188,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From 44246adcf6f9e0fc05482567d9cff06b365138c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:42 +0000
Subject: [PATCH 59/80] fix: wsdl: addresses of HTTP ports

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 8813231..0bc2f4c 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -126,6 +126,9 @@ func parsePorts(targetNS string, root, svc *xmltree.Element) []Port {
 		for _, addr := range port.Search(soap12NS, "address") {
 			p.Address = addr.Attr("", "location")
 		}
+		for _, addr := range port.Search(httpNS, "address") {
+			p.Address = addr.Attr("", "location")
+		}
 		p.Method = "POST"
 		p.Method = parseMethod(targetNS, root, port)
 		p.Operations = parseOperations(targetNS, root, port)
-- 
2.43.0


From a45eb2c57db178f944ad89dbeb726e478fe4a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:44 +0000
Subject: [PATCH 60/80] fix: wsdlgen: OnlyPorts selects ports and can be
 reverted

---
 wsdlgen/config.go  | 21 +++++++++++++--------
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..6c5651d 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -68,16 +68,21 @@ var DefaultOptions = []Option{
 // code for. Any other ports will not have types or methods present in
 // the generated output.
 func OnlyPorts(ports ...string) Option {
-	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
-			for _, name := range ports {
-				if name == p.Name {
-					return true
-				}
+	return setPortFilter(func(p wsdl.Port) bool {
+		for _, name := range ports {
+			if name == p.Name {
+				return true
 			}
-			return false
 		}
-		return OnlyPorts()
+		return false
+	})
+}
+
+func setPortFilter(filter func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = filter
+		return setPortFilter(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..6024069 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -142,6 +142,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4570d33ccddcf6a001911970e962ddf78b782038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 61/80] fix: wsdlgen: return the wrapper type if there are too
 many results

---
 wsdlgen/wsdlgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 6024069..c74785e 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -231,14 +231,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
-- 
2.43.0


From cf60510eb434b542447877a2513ea4b94ddfc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 62/80] fix: wsdlgen: declare each wrapper type once, under a
 name of its own

---
 wsdlgen/wsdlgen.go | 48 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index c74785e..d624b57 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -34,6 +34,10 @@ type printer struct {
 	code *xsdgen.Code
 	wsdl *wsdl.Definition
 	file *ast.File
+
+	// names of wrapper structs, by message, and the set of these names
+	wrappers map[xml.Name]string
+	reserved map[string]bool
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -135,6 +139,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 		wsdl:   def,
 		file:   file,
 		code:   code,
+
+		wrappers: make(map[xml.Name]string),
+		reserved: make(map[string]bool),
 	}
 	return p.genAST()
 }
@@ -175,7 +182,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		return err
 	}
 
-	if params.InputType != "" {
+	if params.InputType != "" && !p.declared(params.InputType) {
 		decls, err := gen.Snippets(params, `
 			type {{.InputType}} struct {
 			{{ range .InputFields -}}
@@ -188,7 +195,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
-	if params.ReturnType != "" {
+	if params.ReturnType != "" && !p.declared(params.ReturnType) {
 		decls, err := gen.Snippets(params, `
 			type {{.ReturnType}} struct {
 			{{ range .ReturnFields -}}
@@ -252,6 +259,37 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
+// wrapperName returns the name of the struct that holds the parts of a
+// message. It is different from the names of all other types.
+func (p *printer) wrapperName(msg xml.Name) string {
+	if name, ok := p.wrappers[msg]; ok {
+		return name
+	}
+	name := strings.Title(msg.Local)
+	for p.declared(name) || p.reserved[name] {
+		name += "_"
+	}
+	p.wrappers[msg] = name
+	p.reserved[name] = true
+	return name
+}
+
+// declared returns true if there is a type with the given name.
+func (p *printer) declared(name string) bool {
+	for _, decl := range p.file.Decls {
+		decl, ok := decl.(*ast.GenDecl)
+		if !ok {
+			continue
+		}
+		for _, spec := range decl.Specs {
+			if spec, ok := spec.(*ast.TypeSpec); ok && spec.Name.Name == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
@@ -314,8 +352,8 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
+		args.InputType = p.wrapperName(input.Name)
+		args.input = []string{"v " + args.InputType}
 		for i, v := range input.Parts {
 			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
 		}
@@ -335,7 +373,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
+		args.ReturnType = p.wrapperName(output.Name)
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
-- 
2.43.0


From 768d1b286c4fd11e676beeb17af183be6a7ae7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 63/80] fix: wsdlgen: generate one method for an operation that
 several ports offer

---
 wsdlgen/wsdlgen.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index d624b57..6b1e3c3 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -38,6 +38,9 @@ type printer struct {
 	// names of wrapper structs, by message, and the set of these names
 	wrappers map[xml.Name]string
 	reserved map[string]bool
+
+	// names of the operations generated so far
+	operations map[xml.Name]bool
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -142,6 +145,8 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 
 		wrappers: make(map[xml.Name]string),
 		reserved: make(map[string]bool),
+
+		operations: make(map[xml.Name]bool),
 	}
 	return p.genAST()
 }
@@ -161,6 +166,12 @@ func (p *printer) genAST() (*ast.File, error) {
 
 func (p *printer) port(port wsdl.Port) error {
 	for _, operation := range port.Operations {
+		// Ports often offer the same operations with different
+		// transports. The first port takes precedence.
+		if p.operations[operation.Name] {
+			continue
+		}
+		p.operations[operation.Name] = true
 		if err := p.operation(port, operation); err != nil {
 			return err
 		}
-- 
2.43.0


From 14c95b7abe2f5f5276809656343f8a23d7c834cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 64/80] fix: wsdlgen: generate methods for one-way operations

---
 wsdlgen/helper.go  |  5 ++++-
 wsdlgen/wsdlgen.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 93d36e1..7e4aeab 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -72,7 +72,10 @@ var helpers string = `
 
 		dec := xml.NewDecoder(rsp.Body)
 		envelope.Body.Message = out
-		if err := dec.Decode(&envelope); err != nil {
+		if err := dec.Decode(&envelope); err == io.EOF && out == nil {
+			// there is no reply to a one-way operation
+			return nil
+		} else if err != nil {
 			return err
 		}
 		if envelope.Body.Fault != nil {
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 6b1e3c3..8c74632 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -57,6 +57,9 @@ type opArgs struct {
 
 	SOAPAction string
 
+	// True if there is no output message
+	OneWay bool
+
 	// Name of the method to call
 	MsgName xml.Name
 
@@ -184,14 +187,17 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	if !ok {
 		return fmt.Errorf("unknown input message type %s", op.Input.Local)
 	}
+	// one-way operations have no output
+	oneWay := op.Output.Local == ""
 	output, ok := p.wsdl.Message[op.Output]
-	if !ok {
+	if !ok && !oneWay {
 		return fmt.Errorf("unknown output message type %s", op.Output.Local)
 	}
 	params, err := p.opArgs(port.Address, port.Method, op, input, output)
 	if err != nil {
 		return err
 	}
+	params.OneWay = oneWay
 
 	if params.InputType != "" && !p.declared(params.InputType) {
 		decls, err := gen.Snippets(params, `
@@ -238,6 +244,9 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
+			{{ if .OneWay -}}
+			return c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, nil)
+			{{- else -}}
 			var output struct {
 				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
 				Args struct {
@@ -260,6 +269,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			{{- else -}}
 			return err
 			{{- end -}}
+			{{- end -}}
 		`, params).
 		Returns(params.output...)
 	if decl, err := fn.Decl(); err != nil {
-- 
2.43.0


From a346146f010686892bd37a49d1539d5d3c5a5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:52 +0000
Subject: [PATCH 65/80] fix: wsdlgen: decode the messages of responses

---
 wsdlgen/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 7e4aeab..cb268ea 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -20,7 +20,7 @@ var helpers string = `
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
-			Message interface{}
+			Message interface{} ` + "`xml:\",any\"`" + `
 			Fault *struct {
 				String string ` + "`xml:\"faultstring,omitempty\"`" + `
 				Code string ` + "`xml:\"faultcode,omitempty\"`" + `
-- 
2.43.0


From b0518654aeca814592d20436d7d9760f5fbec17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 66/80] fix: wsdlgen: send the content type of SOAP requests

---
 wsdlgen/helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index cb268ea..962e447 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -49,6 +49,9 @@ var helpers string = `
 		if err != nil {
 			return err
 		}
+		if body != nil {
+			req.Header.Set("Content-Type", `+"`text/xml; charset=\"utf-8\"`"+`)
+		}
 		req.Header.Set("SOAPAction", action)
 		req = req.WithContext(ctx)
 		if c.RequestHook != nil {
-- 
2.43.0


From 2ebe29d517f0fbb7d2a67473020577148516f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 67/80] fix: wsdlgen: generating code does not change the
 configured package name and comment

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 8c74632..80734ff 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -101,12 +101,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -138,8 +132,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From 19d357ec1662b8564d2635d3b4a4fc6b476a17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 68/80] fix: wsdlgen: choose valid and unambiguous names for
 parameters

---
 wsdlgen/wsdlgen.go | 65 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 80734ff..34956a0 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -16,6 +16,7 @@ import (
 	"go/ast"
 	"io/ioutil"
 	"strings"
+	"unicode"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -287,7 +288,7 @@ func (p *printer) wrapperName(msg xml.Name) string {
 	if name, ok := p.wrappers[msg]; ok {
 		return name
 	}
-	name := strings.Title(msg.Local)
+	name := strings.Title(identifier(msg.Local))
 	for p.declared(name) || p.reserved[name] {
 		name += "_"
 	}
@@ -328,6 +329,40 @@ func exposeType(typ string) string {
 	return typ
 }
 
+func notIdentRune(r rune) bool {
+	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+}
+
+// identifier removes the characters of an XML name that may not appear
+// in a Go identifier.
+func identifier(name string) string {
+	return strings.Join(strings.FieldsFunc(name, notIdentRune), "")
+}
+
+// paramNames returns the names of the parameters for the parts of the input
+// message. They are different from all names used in the function body.
+func (args *opArgs) paramNames(parts []wsdl.Part) []string {
+	used := map[string]bool{"c": true, "ctx": true, "err": true,
+		"input": true, "output": true, "result": true, args.ReturnType: true}
+	for _, fields := range [][]field{args.InputFields, args.OutputFields} {
+		for _, f := range fields {
+			for _, id := range strings.FieldsFunc(f.Type+" "+f.PublicType, notIdentRune) {
+				used[id] = true
+			}
+		}
+	}
+	names := make([]string, 0, len(parts))
+	for _, part := range parts {
+		name := gen.Sanitize(identifier(part.Name))
+		for used[name] {
+			name += "_"
+		}
+		used[name] = true
+		names = append(names, name)
+	}
+	return names
+}
+
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	if part.Type.Local != "" {
 		return p.code.NameOf(part.Type), nil
@@ -359,26 +394,15 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		if err != nil {
 			return args, err
 		}
-		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
-		if vname == typ {
-			vname += "_"
-		}
-		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       strings.Title(identifier(part.Name)),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
-			InputArg:   vname,
 		})
 	}
-	if len(args.input) > p.maxArgs {
+	if len(input.Parts) > p.maxArgs {
 		args.InputType = p.wrapperName(input.Name)
-		args.input = []string{"v " + args.InputType}
-		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
-		}
 	}
 	args.OutputName = output.Name
 	for _, part := range output.Parts {
@@ -389,7 +413,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
+			Name:    strings.Title(identifier(part.Name)),
 			Type:    typ,
 			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
 		})
@@ -406,6 +430,17 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		}
 		args.output = []string{args.ReturnType}
 	}
+	if args.InputType != "" {
+		args.input = []string{"v " + args.InputType}
+		for i, v := range args.InputFields {
+			args.InputFields[i].InputArg = "v." + v.Name
+		}
+	} else {
+		for i, name := range args.paramNames(input.Parts) {
+			args.InputFields[i].InputArg = name
+			args.input = append(args.input, name+" "+args.InputFields[i].PublicType)
+		}
+	}
 	// NOTE(droyo) if we decide to name our return values,
 	// we have to change this too.
 	args.output = append(args.output, "error")
-- 
2.43.0


From 493bc15846a41a38a5c297a8decdbe7dda796cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:59 +0000
Subject: [PATCH 69/80] fix: wsdlgen: encode dates, times, binary data and
 lists in messages as their XML Schema types

---
 wsdlgen/wsdlgen.go | 98 ++++++++++++++++++++++++++--------------------
 xsdgen/xsdgen.go   | 36 +++++++++++++++++
 2 files changed, 92 insertions(+), 42 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 34956a0..d8f201d 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -129,6 +129,17 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 }
 
 func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, error) {
+	p := &printer{
+		Config: cfg,
+		wsdl:   def,
+		code:   code,
+
+		wrappers: make(map[xml.Name]string),
+		reserved: make(map[string]bool),
+
+		operations: make(map[xml.Name]bool),
+	}
+	p.addPartTypes()
 	file, err := code.GenAST()
 	if err != nil {
 		return nil, err
@@ -142,18 +153,25 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	}
 	file.Name = ast.NewIdent(pkgName)
 	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
-	p := &printer{
-		Config: cfg,
-		wsdl:   def,
-		file:   file,
-		code:   code,
-
-		wrappers: make(map[xml.Name]string),
-		reserved: make(map[string]bool),
+	p.file = file
+	return p.genAST()
+}
 
-		operations: make(map[xml.Name]bool),
+// addPartTypes makes the types that the parts of messages need part of the
+// generated code.
+func (p *printer) addPartTypes() {
+	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
+		for _, op := range port.Operations {
+			for _, msg := range []xml.Name{op.Input, op.Output} {
+				for _, part := range p.wsdl.Message[msg].Parts {
+					p.partType(part) // errors are reported later
+				}
+			}
+		}
 	}
-	return p.genAST()
 }
 
 func (p *printer) genAST() (*ast.File, error) {
@@ -267,7 +285,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			{{ end -}}
 			return result, err
 			{{- else if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
+			return {{ range .OutputFields }}{{.PublicType}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -313,22 +331,6 @@ func (p *printer) declared(name string) bool {
 	return false
 }
 
-// The xsdgen package generates private types for some builtin
-// types. These types should be hidden from the user and converted
-// on the fly.
-func exposeType(typ string) string {
-	switch typ {
-	case "xsdDate", "xsdTime", "xsdDateTime", "gDay",
-		"gMonth", "gMonthDay", "gYear", "gYearMonth":
-		return "time.Time"
-	case "hexBinary", "base64Binary":
-		return "[]byte"
-	case "idrefs", "nmtokens", "notation", "entities":
-		return "[]string"
-	}
-	return typ
-}
-
 func notIdentRune(r rune) bool {
 	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
 }
@@ -363,23 +365,35 @@ func (args *opArgs) paramNames(parts []wsdl.Part) []string {
 	return names
 }
 
-func (p *printer) getPartType(part wsdl.Part) (string, error) {
-	if part.Type.Local != "" {
-		return p.code.NameOf(part.Type), nil
+// partType returns the type that holds the part in a message, and the type
+// to expose to the user. The xsdgen package generates private types for
+// some builtin types. These types should be hidden from the user and
+// converted on the fly.
+func (p *printer) partType(part wsdl.Part) (private, public string, err error) {
+	name := part.Type
+	if name.Local == "" {
+		name, err = p.elementType(part)
+		if err != nil {
+			return "", "", err
+		}
 	}
+	return p.code.FieldTypeOf(name), p.code.NameOf(name), nil
+}
+
+func (p *printer) elementType(part wsdl.Part) (xml.Name, error) {
 	if part.Element.Local != "" {
 		doc, ok := p.code.DocType(part.Element.Space)
 		if !ok {
-			return "", fmt.Errorf("part %s: could not lookup element %v",
+			return xml.Name{}, fmt.Errorf("part %s: could not lookup element %v",
 				part.Name, part.Element)
 		}
 		for _, el := range doc.Elements {
 			if el.Name == part.Element {
-				return p.code.NameOf(xsd.XMLName(el.Type)), nil
+				return xsd.XMLName(el.Type), nil
 			}
 		}
 	}
-	return "", fmt.Errorf("part %s has no element or type", part.Name)
+	return xml.Name{}, fmt.Errorf("part %s has no element or type", part.Name)
 }
 
 func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output wsdl.Message) (opArgs, error) {
@@ -390,14 +404,14 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.MsgName = op.Name
 	args.InputName = input.Name
 	for _, part := range input.Parts {
-		typ, err := p.getPartType(part)
+		typ, public, err := p.partType(part)
 		if err != nil {
 			return args, err
 		}
 		args.InputFields = append(args.InputFields, field{
 			Name:       strings.Title(identifier(part.Name)),
 			Type:       typ,
-			PublicType: exposeType(typ),
+			PublicType: public,
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
@@ -406,16 +420,16 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	}
 	args.OutputName = output.Name
 	for _, part := range output.Parts {
-		typ, err := p.getPartType(part)
+		typ, public, err := p.partType(part)
 		if err != nil {
 			return args, err
 		}
-		outputType := exposeType(typ)
-		args.output = append(args.output, outputType)
+		args.output = append(args.output, public)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(identifier(part.Name)),
-			Type:    typ,
-			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
+			Name:       strings.Title(identifier(part.Name)),
+			Type:       typ,
+			PublicType: public,
+			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
@@ -424,7 +438,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
 				Name:     v.Name,
-				Type:     exposeType(v.Type),
+				Type:     v.PublicType,
 				InputArg: v.Name,
 			}
 		}
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 220d05d..75b605e 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -128,6 +128,42 @@ func (c *Code) NameOf(name xml.Name) string {
 	return "NOTFOUND" + name.Local
 }
 
+// FieldTypeOf returns the Go type of struct fields that hold values of the
+// canonical XML type. It is the same as NameOf, except for built-in types
+// that need methods to convert values from and to XML. For these, it is a
+// private type that has the methods and is convertible to the type that
+// NameOf returns. It becomes part of the generated code.
+func (c *Code) FieldTypeOf(name xml.Name) string {
+	b, err := xsd.ParseBuiltin(name)
+	if err != nil {
+		if _, ok := c.names[name]; ok {
+			return c.NameOf(name)
+		}
+		t, ok := c.types[name]
+		if !ok {
+			return c.NameOf(name)
+		}
+		b, ok = c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]xsd.Type)).(xsd.Builtin)
+		if !ok {
+			return c.NameOf(name)
+		}
+	}
+	if !nonTrivialBuiltin(b) {
+		return c.NameOf(name)
+	}
+	if h, ok := c.cfg.helperTypes[xsd.XMLName(b)]; ok {
+		for _, dep := range h.helperFuncs {
+			if fn, ok := c.cfg.helperFuncs[dep]; ok {
+				h.methods = append(h.methods, fn)
+				delete(c.cfg.helperFuncs, dep)
+			}
+		}
+		c.decls[h.name] = h
+		delete(c.cfg.helperTypes, xsd.XMLName(b))
+	}
+	return "xsd" + b.String()
+}
+
 func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	var errList errorList
 
-- 
2.43.0


From a8ee914a64aaa907b18e7e3ea20d8b41e0eaa867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 70/80] fix: wsdlgen: comments of methods that follow a
 one-line struct

---
 internal/gen/gen.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..8b10f31 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -450,9 +450,34 @@ func FormattedSource(file *ast.File, output string) ([]byte, error) {
 		}
 		file.Doc = nil
 	}
-	if err := format.Node(&buf, fileset, file); err != nil {
+	// The same goes for the comments of functions; the printer takes
+	// them for part of the preceding declaration if that is short
+	// enough to be printed on a single line.
+	first := *file
+	var rest []ast.Decl
+	for i, decl := range file.Decls {
+		if fn, ok := decl.(*ast.FuncDecl); ok && fn.Doc != nil {
+			first.Decls, rest = file.Decls[:i], file.Decls[i:]
+			break
+		}
+	}
+	if err := format.Node(&buf, fileset, &first); err != nil {
 		return nil, err
 	}
+	for _, decl := range rest {
+		io.WriteString(&buf, "\n\n")
+		if fn, ok := decl.(*ast.FuncDecl); ok && fn.Doc != nil {
+			for _, v := range fn.Doc.List {
+				io.WriteString(&buf, strings.TrimRight(v.Text, "\n")+"\n")
+			}
+			bare := *fn
+			bare.Doc = nil
+			decl = &bare
+		}
+		if err := format.Node(&buf, fileset, decl); err != nil {
+			return nil, err
+		}
+	}
 	out, err := imports.Process(output, buf.Bytes(), nil)
 	if err != nil {
 		return nil, fmt.Errorf("%v in %s", err, buf.String())
-- 
2.43.0


From 99f166d8f3b09a62c75acec7b27006ad76ca5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 71/80] fix: xsdgen: DocType finds the elements of all schema
 of a namespace

---
 xsdgen/xsdgen.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 75b605e..7584fad 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -74,13 +74,13 @@ type Code struct {
 	names map[xml.Name]string
 	decls specListing
 	types map[xml.Name]xsd.Type
+	docs  map[string]*xsd.ComplexType
 }
 
 // DocType retrieves the complexType for the provided target
 // namespace.
 func (c *Code) DocType(targetNS string) (*xsd.ComplexType, bool) {
-	key := xml.Name{targetNS, "_self"}
-	doc, ok := c.types[key].(*xsd.ComplexType)
+	doc, ok := c.docs[targetNS]
 	return doc, ok
 }
 
@@ -171,6 +171,7 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		cfg:   cfg,
 		names: make(map[xml.Name]string),
 		decls: make(specListing),
+		docs:  make(map[string]*xsd.ComplexType),
 	}
 
 	all := make(map[xml.Name]xsd.Type)
@@ -183,6 +184,16 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		for k, v := range dep.Types {
 			all[k] = v
 		}
+		// a namespace may be spread over several schema
+		if doc, ok := dep.Types[xml.Name{dep.TargetNS, "_self"}].(*xsd.ComplexType); ok {
+			if prev, ok := code.docs[dep.TargetNS]; ok {
+				merged := *prev
+				merged.Elements = append(merged.Elements[:len(prev.Elements):len(prev.Elements)], doc.Elements...)
+				merged.Attributes = append(merged.Attributes[:len(prev.Attributes):len(prev.Attributes)], doc.Attributes...)
+				doc = &merged
+			}
+			code.docs[dep.TargetNS] = doc
+		}
 	}
 
 	code.types = all
-- 
2.43.0


From 00230ef0840899a2cf7754f43f8fcbccbdbc31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 72/80] fix: xsdgen: name the base of types that are not
 declared

---
 xsdgen/xsdgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 7584fad..a230f2a 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -107,9 +107,9 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]xsd.Type)).(type) {
-	case xsd.Builtin:
-		return c.NameOf(b.Name())
+	// Types that add nothing to their base type are not declared.
+	if base := xsd.XMLName(c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]xsd.Type))); base != name {
+		return c.NameOf(base)
 	}
 
 	specs, err := c.cfg.genTypeSpec(t)
-- 
2.43.0


From 2e894c5da0dde53929a399d1235c9ff2bb093de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:39 +0000
Subject: [PATCH 73/80] fix: wsdlgen: parameters called nil in one-way
 operations

---
 wsdlgen/wsdlgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index d8f201d..8ec06c7 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -344,7 +344,7 @@ func identifier(name string) string {
 // paramNames returns the names of the parameters for the parts of the input
 // message. They are different from all names used in the function body.
 func (args *opArgs) paramNames(parts []wsdl.Part) []string {
-	used := map[string]bool{"c": true, "ctx": true, "err": true,
+	used := map[string]bool{"c": true, "ctx": true, "err": true, "nil": true,
 		"input": true, "output": true, "result": true, args.ReturnType: true}
 	for _, fields := range [][]field{args.InputFields, args.OutputFields} {
 		for _, f := range fields {
-- 
2.43.0


From d34aad7c66f7b4c3cd5d9cf8abb58f8477d65cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:41 +0000
Subject: [PATCH 74/80] fix: wsdlgen: responses to one-way operations that are
 no SOAP messages

---
 wsdlgen/helper.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 962e447..a0a7541 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -75,9 +75,12 @@ var helpers string = `
 
 		dec := xml.NewDecoder(rsp.Body)
 		envelope.Body.Message = out
-		if err := dec.Decode(&envelope); err == io.EOF && out == nil {
-			// there is no reply to a one-way operation
-			return nil
+		if err := dec.Decode(&envelope); err == io.EOF && dec.InputOffset() == 0 {
+			if out == nil && rsp.StatusCode/100 == 2 {
+				// there is no reply to a one-way operation
+				return nil
+			}
+			return fmt.Errorf("empty response: %s", rsp.Status)
 		} else if err != nil {
 			return err
 		}
-- 
2.43.0


From 9f07bc8e1714adf37139e09eda3e5a01efffe93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 75/80] fix: xsdgen: read files once, by whatever path they are
 imported

---
 xsdgen/cli.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 5ba51ea..5b7def6 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -78,7 +78,10 @@ func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if cfg.followImports {
-			key := filepath.Clean(filename)
+			key, err := filepath.Abs(filename)
+			if err != nil {
+				return nil, err
+			}
 			if seen[key] {
 				continue
 			}
-- 
2.43.0


From d003ac4881c1903181a31a3960913cc4de0abcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 76/80] fix: xsdgen: GenCLI keeps options that no flag was
 given for

---
 xsdgen/cli.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 5b7def6..2bea20b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -155,7 +155,7 @@ func (cfg *Config) GenCLI(arguments ...string) error {
 		fs            = flag.NewFlagSet("xsdgen", flag.ExitOnError)
 		packageName   = fs.String("pkg", "", "name of the the generated package")
 		output        = fs.String("o", "xsdgen_output.go", "name of the output file")
-		followImports = fs.Bool("f", false, "follow import statements; load imported references recursively into scope")
+		followImports = fs.Bool("f", cfg.followImports, "follow import statements; load imported references recursively into scope")
 		verbose       = fs.Bool("v", false, "print verbose output")
 		debug         = fs.Bool("vv", false, "print debug output")
 	)
@@ -173,7 +173,9 @@ func (cfg *Config) GenCLI(arguments ...string) error {
 	} else if *verbose {
 		cfg.Option(LogLevel(1))
 	}
-	cfg.Option(Namespaces(xmlns...))
+	if len(xmlns) > 0 {
+		cfg.Option(Namespaces(xmlns...))
+	}
 	cfg.Option(FollowImports(*followImports))
 	for _, r := range replaceRules {
 		cfg.Option(replaceAllNamesRegex(r.From, r.To))
-- 
2.43.0


From a4967d82a0ff51b701004a711cef01483c8cdb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 77/80] fix: xsdparse: print only the schema that -ns selects

---
 cmd/xsdparse/xsdparse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/xsdparse/xsdparse.go b/cmd/xsdparse/xsdparse.go
index 557adfa..ced1ff2 100644
--- a/cmd/xsdparse/xsdparse.go
+++ b/cmd/xsdparse/xsdparse.go
@@ -51,8 +51,10 @@ func main() {
 	selected := make([]*xmltree.Element, 0, len(norm))
 	for _, root := range norm {
 		tns := root.Attr("", "targetNamespace")
-		if *TargetNS != "" && *TargetNS == tns {
-			selected = append(selected, root)
+		if *TargetNS != "" {
+			if *TargetNS == tns {
+				selected = append(selected, root)
+			}
 		} else if _, ok := filterSchema[tns]; !ok {
 			selected = append(selected, root)
 		}
-- 
2.43.0


From bed028c31e357f42c37b6b0570d1bcf4b0ca07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:13 +0000
Subject: [PATCH 78/80] fix: xsd: separate the annotation of a type from that
 of its content

---
 xsd/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 262127f..6fb8ac0 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -851,7 +851,11 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
-	t.Doc += string(doc)
+	if t.Doc != "" {
+		// from the simpleContent or complexContent element
+		doc = doc.append(annotation(t.Doc))
+	}
+	t.Doc = string(doc)
 	if t.Base == nil {
 		t.Base = AnyType
 	}
-- 
2.43.0


From 3c26bc78f01af56c46dc67834d16cddacfbf40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:51 +0000
Subject: [PATCH 79/80] fix: xmltree: attributes called xmlns that have a
 prefix are no namespace declarations

---
 xmltree/compare.go | 9 +++++++--
 xmltree/xmltree.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index b968349..d4a5d10 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -68,7 +68,7 @@ func equalElement(a, b *Element) bool {
 	}
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNSDecl(a.Name) {
 			continue
 		}
 		attrs[a.Name] = a.Value
@@ -76,7 +76,7 @@ func equalElement(a, b *Element) bool {
 
 	matched := 0
 	for _, a := range b.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNSDecl(a.Name) {
 			continue
 		}
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
@@ -86,3 +86,8 @@ func equalElement(a, b *Element) bool {
 	}
 	return matched == len(attrs)
 }
+
+// isNSDecl is true for the names of attributes that declare a namespace.
+func isNSDecl(name xml.Name) bool {
+	return name.Space == "xmlns" || name.Space == "" && name.Local == "xmlns"
+}
diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 77414a3..d4d026a 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -182,7 +182,7 @@ func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	for _, attr := range tag.Attr {
 		if attr.Name.Space == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, attr.Name.Local})
-		} else if attr.Name.Local == "xmlns" {
+		} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, ""})
 		} else {
 			newAttrs = append(newAttrs, attr)
-- 
2.43.0


From d99853ee6c3b0fad7cec9de029953f5160818ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:02 +0000
Subject: [PATCH 80/80] fix: wsdlgen: report types of parts that do not exist

---
 wsdlgen/wsdlgen.go | 3 +++
 xsdgen/xsdgen.go   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 8ec06c7..f11d381 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -377,6 +377,9 @@ func (p *printer) partType(part wsdl.Part) (private, public string, err error) {
 			return "", "", err
 		}
 	}
+	if !p.code.HasType(name) {
+		return "", "", fmt.Errorf("part %s: could not lookup type %v", part.Name, name)
+	}
 	return p.code.FieldTypeOf(name), p.code.NameOf(name), nil
 }
 
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a230f2a..8c0b000 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -84,6 +84,15 @@ func (c *Code) DocType(targetNS string) (*xsd.ComplexType, bool) {
 	return doc, ok
 }
 
+// HasType returns true if there is an XML type with the given name.
+func (c *Code) HasType(name xml.Name) bool {
+	if _, err := xsd.ParseBuiltin(name); err == nil {
+		return true
+	}
+	_, ok := c.types[name]
+	return ok
+}
+
 // NameOf returns the Go identifier associated with the canonical
 // XML type.
 func (c *Code) NameOf(name xml.Name) string {
-- 
2.43.0

