package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strconv"
)

// The reference model of git objects: what git's own documentation says an
// object is, written without looking at the codec.

type Sha = [20]byte

type Person struct {
	Name, Email string
	Date, TZ    string // both may be empty, TZ alone may be
}

func (p Person) Line() string {
	s := p.Name + " <" + p.Email + ">"
	if p.Date != "" {
		s += " " + p.Date
	}
	if p.TZ != "" {
		s += " " + p.TZ
	}
	return s
}

// Tag is an annotated tag. For a tag embedded in a commit the message is the
// raw continuation lines, each starting with a space and ending in a newline.
type Tag struct {
	Object  Sha
	Type    string
	Name    string
	Tagger  *Person
	Message string
	NoBody  bool // standalone only: no blank line, no message
}

type Commit struct {
	Tree              Sha
	Parents           []Sha
	Author, Committer *Person
	Encoding          *string
	MergeTags         []Tag
	Sig               *string // raw lines between the armour's BEGIN and END lines
	Other             []string
	Message           string

	// Layout, if not nil, gives the order in which mergetags ('m'), the
	// signature ('s') and other lines ('o') are written. The canonical order
	// is all m, s, all o.
	Layout []byte
}

type Entry struct {
	Mode, Name string
	Hash       Sha
}

type Tree struct{ Entries []Entry }

type Blob struct{ Data []byte }

type Object interface {
	Kind() string
	Body() []byte
	// View is the canonical view of the node the object decodes to.
	View() string
}

// Raw is the whole object with its header.
func Raw(o Object) []byte {
	b := o.Body()
	return append([]byte(o.Kind()+" "+strconv.Itoa(len(b))+"\x00"), b...)
}

func (*Blob) Kind() string   { return "blob" }
func (*Tree) Kind() string   { return "tree" }
func (*Commit) Kind() string { return "commit" }
func (*Tag) Kind() string    { return "tag" }

func (b *Blob) Body() []byte { return b.Data }

func (tr *Tree) Body() []byte {
	var w bytes.Buffer
	for _, e := range tr.Entries {
		w.WriteString(e.Mode)
		w.WriteByte(' ')
		w.WriteString(e.Name)
		w.WriteByte(0)
		w.Write(e.Hash[:])
	}
	return w.Bytes()
}

func (g *Tag) Body() []byte {
	var w bytes.Buffer
	fmt.Fprintf(&w, "object %x\ntype %s\ntag %s\n", g.Object, g.Type, g.Name)
	if g.Tagger != nil {
		w.WriteString("tagger " + g.Tagger.Line() + "\n")
	}
	if !g.NoBody {
		w.WriteString("\n" + g.Message)
	}
	return w.Bytes()
}

func (g *Tag) embedded(w *bytes.Buffer) {
	fmt.Fprintf(w, "mergetag object %x\n type %s\n tag %s\n", g.Object, g.Type, g.Name)
	if g.Tagger != nil {
		w.WriteString(" tagger " + g.Tagger.Line() + "\n")
	}
	w.WriteString(" \n" + g.Message)
}

func (c *Commit) Body() []byte {
	var w bytes.Buffer
	w.WriteString("tree " + hex.EncodeToString(c.Tree[:]) + "\n")
	for _, p := range c.Parents {
		w.WriteString("parent " + hex.EncodeToString(p[:]) + "\n")
	}
	if c.Author != nil {
		w.WriteString("author " + c.Author.Line() + "\n")
	}
	if c.Committer != nil {
		w.WriteString("committer " + c.Committer.Line() + "\n")
	}
	if c.Encoding != nil {
		w.WriteString("encoding " + *c.Encoding + "\n")
	}
	lay := c.Layout
	if lay == nil {
		for range c.MergeTags {
			lay = append(lay, 'm')
		}
		lay = append(lay, 's')
		for range c.Other {
			lay = append(lay, 'o')
		}
	}
	mi, oi := 0, 0
	for _, k := range lay {
		switch k {
		case 'm':
			c.MergeTags[mi].embedded(&w)
			mi++
		case 's':
			if c.Sig != nil {
				w.WriteString("gpgsig -----BEGIN PGP SIGNATURE-----\n" + *c.Sig + " -----END PGP SIGNATURE-----\n")
			}
		case 'o':
			w.WriteString(c.Other[oi] + "\n")
			oi++
		}
	}
	w.WriteString("\n" + c.Message)
	return w.Bytes()
}

func (p *Person) view(v *viewer) {
	v.sb.WriteByte('{')
	v.str("date")
	v.str(p.Date)
	v.str("timezone")
	v.str(p.TZ)
	v.str("email")
	v.str(p.Email)
	v.str("name")
	v.str(p.Name)
	v.sb.WriteByte('}')
}

func (g *Tag) view(v *viewer) {
	v.sb.WriteByte('{')
	v.str("object")
	v.link(gitLink(g.Object))
	v.str("type")
	v.str(g.Type)
	v.str("tag")
	v.str(g.Name)
	v.str("tagger")
	if g.Tagger != nil {
		g.Tagger.view(v)
	} else {
		(&Person{}).view(v)
	}
	v.str("message")
	v.str(g.Message)
	v.sb.WriteByte('}')
}

func (g *Tag) View() string {
	v := viewer{}
	g.view(&v)
	return v.sb.String()
}

func (p *Person) View() string {
	v := viewer{}
	p.view(&v)
	return v.sb.String()
}

func (b *Blob) View() string {
	v := viewer{}
	v.bytes(Raw(b))
	return v.sb.String()
}

func (e *Entry) view(v *viewer) {
	v.sb.WriteByte('{')
	v.str("mode")
	v.str(e.Mode)
	v.str("hash")
	v.link(gitLink(e.Hash))
	v.sb.WriteByte('}')
}

func (tr *Tree) View() string {
	v := viewer{}
	v.sb.WriteByte('{')
	for i := range tr.Entries {
		v.str(tr.Entries[i].Name)
		tr.Entries[i].view(&v)
	}
	v.sb.WriteByte('}')
	return v.sb.String()
}

func (c *Commit) View() string {
	v := viewer{}
	v.sb.WriteByte('{')
	v.str("tree")
	v.link(gitLink(c.Tree))
	v.str("parents")
	v.sb.WriteByte('[')
	for _, p := range c.Parents {
		v.link(gitLink(p))
	}
	v.sb.WriteByte(']')
	v.str("message")
	v.str(c.Message)
	if c.Author != nil {
		v.str("author")
		c.Author.view(&v)
	}
	if c.Committer != nil {
		v.str("committer")
		c.Committer.view(&v)
	}
	if c.Encoding != nil {
		v.str("encoding")
		v.str(*c.Encoding)
	}
	if c.Sig != nil {
		v.str("signature")
		v.str(*c.Sig)
	}
	v.str("mergetag")
	v.sb.WriteByte('[')
	for i := range c.MergeTags {
		c.MergeTags[i].view(&v)
	}
	v.sb.WriteByte(']')
	v.str("other")
	v.sb.WriteByte('[')
	for _, o := range c.Other {
		v.str(o)
	}
	v.sb.WriteByte(']')
	v.sb.WriteByte('}')
	return v.sb.String()
}
