// Package model is an independent reference interpreter of the SVG subset go-svg supports.
// It works on an element tree (not on XML text), uses recursion over the tree instead of the
// implementation's stacks and flags, and shares no code with the implementation.
package model

import "strings"

// Node is an element, or a piece of character data / markup when Name is empty.
type Node struct {
	Name  string
	Attrs [][2]string
	Kids  []*Node
	Raw   string // XML text of a non-element node
	Text  string // character data it stands for
	raw   bool   // an element written as Raw
}

// E builds an element; kv are attribute names and values.
func E(name string, kv ...string) *Node {
	n := &Node{Name: name}
	for i := 0; i+1 < len(kv); i += 2 {
		n.Attrs = append(n.Attrs, [2]string{kv[i], kv[i+1]})
	}
	return n
}

// T builds character data.
func T(s string) *Node { return &Node{Raw: esc(s), Text: s} }

// R builds raw markup standing for the given text.
func R(raw, text string) *Node { return &Node{Raw: raw, Text: text} }

// AsElem keeps the raw markup but gives it the meaning of e.
func (n *Node) AsElem(e *Node) *Node { c := *e; c.Raw, c.raw = n.Raw, true; return &c }

// Add appends children.
func (n *Node) Add(k ...*Node) *Node { n.Kids = append(n.Kids, k...); return n }

// Set adds an attribute.
func (n *Node) Set(k, v string) *Node { n.Attrs = append(n.Attrs, [2]string{k, v}); return n }

// Get returns an attribute.
func (n *Node) Get(k string) (string, bool) {
	for _, a := range n.Attrs {
		if a[0] == k {
			return a[1], true
		}
	}
	return "", false
}

func esc(s string) string {
	if !strings.ContainsAny(s, "&<>\"\t\n\r") {
		return s
	}
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;")
	return r.Replace(s)
}

// XML serialises the tree.
func (n *Node) XML() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *Node) write(b *strings.Builder) {
	if n.Name == "" || n.raw {
		b.WriteString(n.Raw)
		return
	}
	b.WriteByte('<')
	b.WriteString(n.Name)
	for _, a := range n.Attrs {
		b.WriteByte(' ')
		b.WriteString(a[0])
		b.WriteString(`="`)
		b.WriteString(esc(a[1]))
		b.WriteByte('"')
	}
	if len(n.Kids) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteByte('>')
	for _, k := range n.Kids {
		k.write(b)
	}
	b.WriteString("</")
	b.WriteString(n.Name)
	b.WriteByte('>')
}
