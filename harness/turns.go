package main

import (
	"fmt"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// Assembler calls made out of turn. A turn-taker assembles a value call by call
// and between the calls tries some whose turn it is not; each must be refused,
// with an error or a panic, and change nothing.

type turnState int

const (
	turnFresh  turnState = iota // nothing assigned yet
	turnReady                   // begun, the next entry may follow
	turnMidKey                  // a key assembler was handed out
	turnHasKey                  // the key is there, its value is next
	turnMidVal                  // a value assembler was handed out
	turnDone
)

var turnNames = []string{"fresh", "ready", "mid-key", "key-given", "mid-value", "finished"}

type turnHandle struct {
	v     *Val
	repr  bool
	state turnState
	na    datamodel.NodeAssembler // of the value itself, or of a key
	isKey bool
	ma    datamodel.MapAssembler
	la    datamodel.ListAssembler
}

type turnTaker struct {
	t     *T
	g     Gen
	ps    protoSet
	live  []*turnHandle // from the root to where the work is
	stale []*turnHandle // finished leaves of structs that are still being assembled
	tries int
}

type turnCall struct {
	name string
	f    func() error
}

// outOfTurn lists the calls on a handle whose turn it is not.
func (k *turnTaker) outOfTurn(h *turnHandle) (cs []turnCall) {
	add := func(name string, f func() error) { cs = append(cs, turnCall{name, f}) }
	if h.isKey {
		if h.state == turnDone {
			add("key.AssignString", func() error { return h.na.AssignString(pick(k.g.Rand, []string{"name", "message", "zz"})) })
			add("key.AssignNode", func() error { return h.na.AssignNode(basicnode.NewString("email")) })
		}
		return
	}
	if h.state != turnFresh {
		w := genVal(Gen{Rand: k.g.Rand, Small: true}, h.v.Type)
		add("AssignNull", func() error { return h.na.AssignNull() })
		add("AssignNode(null)", func() error { return h.na.AssignNode(datamodel.Null) })
		switch h.v.Kind {
		case datamodel.Kind_String:
			add("AssignString", func() error { return h.na.AssignString(w.S) })
		case datamodel.Kind_Bytes:
			add("AssignBytes", func() error { return h.na.AssignBytes(w.B) })
		case datamodel.Kind_Link:
			add("AssignLink", func() error { return h.na.AssignLink(w.L) })
		case datamodel.Kind_List:
			add("BeginList", func() error { _, err := h.na.BeginList(int64(k.g.IntN(3)) - 1); return err })
		case datamodel.Kind_Map:
			add("BeginMap", func() error { _, err := h.na.BeginMap(int64(k.g.IntN(3)) - 1); return err })
		}
		// a node of its own type
		add("AssignNode", func() error {
			n, err := (&asm{g: k.g, ps: k.ps, avoid: true}).build(k.ps[h.v.Type], w)
			if err != nil {
				harnessError("%v", err)
			}
			return h.na.AssignNode(n)
		})
		if h.v.Kind != datamodel.Kind_Map && h.v.Kind != datamodel.Kind_List {
			add("AssignNode(foreign)", func() error { return h.na.AssignNode(w.node(true, inOrder)) })
		}
	}
	key := func() string {
		sp := schemaSpec[h.v.Type]
		if sp.isStruct() {
			return pick(k.g.Rand, sp.fields).name
		}
		return "some name"
	}
	if h.ma != nil {
		if h.state != turnHasKey {
			add("AssembleValue", func() error { h.ma.AssembleValue(); return nil })
		}
		if h.state != turnReady {
			add("AssembleKey", func() error { h.ma.AssembleKey(); return nil })
			add("AssembleEntry", func() error { _, err := h.ma.AssembleEntry(key()); return err })
			add("Finish", func() error { return h.ma.Finish() })
		}
	}
	if h.la != nil && h.state != turnReady {
		add("AssembleValue", func() error { h.la.AssembleValue(); return nil })
		add("Finish", func() error { return h.la.Finish() })
	}
	return
}

// refused says whether the call came back with an error or panicked.
func (k *turnTaker) refused(c turnCall) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if fn, is := r.(failNow); is {
				panic(fn)
			}
			ok = true
		}
	}()
	return c.f() != nil
}

func (k *turnTaker) provoke(h *turnHandle) {
	cs := k.outOfTurn(h)
	if len(cs) == 0 {
		return
	}
	c := pick(k.g.Rand, cs)
	what := h.v.Type
	if h.repr {
		what += "__Repr"
	}
	k.tries++
	k.t.Count("turn:" + turnNames[h.state] + ":" + c.name)
	k.t.Distinct([]byte(what), []byte(turnNames[h.state]), []byte(c.name))
	if !k.refused(c) {
		k.t.Failf("%s on the assembler of a %s that is %s is accepted", c.name, what, turnNames[h.state])
	}
}

func (k *turnTaker) pause() {
	for k.g.p(25) {
		all := append(append([]*turnHandle{}, k.live...), k.stale...)
		if len(all) == 0 {
			return
		}
		k.provoke(pick(k.g.Rand, all))
	}
}

func (k *turnTaker) put(na datamodel.NodeAssembler, v *Val, repr bool) *turnHandle {
	h := &turnHandle{v: v, na: na, repr: repr}
	var parent *turnHandle
	if len(k.live) > 0 {
		parent = k.live[len(k.live)-1]
	}
	k.live = append(k.live, h)
	depth := len(k.live)
	must := func(err error) {
		if err != nil {
			k.t.Failf("a call in its turn on a %s fails after others were refused: %v", v.Type, err)
		}
	}
	k.pause()
	switch v.Kind {
	case datamodel.Kind_String:
		must(na.AssignString(v.S))
	case datamodel.Kind_Bytes:
		must(na.AssignBytes(v.B))
	case datamodel.Kind_Link:
		must(na.AssignLink(v.L))
	case datamodel.Kind_List:
		la, err := na.BeginList(int64(k.g.IntN(len(v.Vals)+2)) - 1)
		must(err)
		h.la, h.state = la, turnReady
		for _, x := range v.Vals {
			k.pause()
			k.stale = nil // list elements share one assembler
			va := la.AssembleValue()
			h.state = turnMidVal
			k.pause()
			k.put(va, x, repr)
			k.live = k.live[:depth]
		}
		k.pause()
		must(la.Finish())
	case datamodel.Kind_Map:
		ma, err := na.BeginMap(int64(k.g.IntN(len(v.Vals)+2)) - 1)
		must(err)
		h.ma, h.state = ma, turnReady
		for _, i := range (&asm{g: k.g}).order(len(v.Vals)) {
			if !schemaSpec[v.Type].isStruct() {
				break
			}
			k.entry(h, v.Keys[i], v.Vals[i], depth)
		}
		if !schemaSpec[v.Type].isStruct() {
			for i := range v.Vals {
				k.entry(h, v.Keys[i], v.Vals[i], depth)
			}
		}
		k.pause()
		must(ma.Finish())
	}
	h.state = turnDone
	if parent != nil {
		parent.state = turnReady
	}
	k.live = k.live[:depth]
	// at representation level they are not refused, which is K14
	if parent != nil && !repr && h.ma == nil && h.la == nil && schemaSpec[parent.v.Type].isStruct() {
		k.stale = append(k.stale, h)
	}
	k.pause()
	return h
}

func (k *turnTaker) entry(h *turnHandle, key string, x *Val, depth int) {
	k.pause()
	k.live = k.live[:depth]
	if !schemaSpec[h.v.Type].isStruct() {
		k.stale = nil
	}
	var va datamodel.NodeAssembler
	var err error
	if k.g.p(50) {
		va, err = h.ma.AssembleEntry(key)
	} else {
		kh := &turnHandle{v: &Val{Type: "String", Kind: datamodel.Kind_String}, isKey: true}
		kh.na = h.ma.AssembleKey()
		h.state = turnMidKey
		k.live = append(k.live, kh)
		k.pause()
		if err = kh.na.AssignString(key); err == nil {
			kh.state, h.state = turnDone, turnHasKey
			k.pause()
			k.live = k.live[:depth]
			va = h.ma.AssembleValue()
		}
	}
	if err != nil {
		k.t.Failf("key %q of a %s fails after other calls were refused: %v", key, h.v.Type, err)
	}
	h.state = turnMidVal
	k.pause()
	k.put(va, x, h.repr)
	k.live = k.live[:depth]
}

func outOfTurn(c *Ctx, ps protoSet) {
	c.Run("out-of-turn", c.N(60000, 1200000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		if t.IntN(3) == 0 {
			typ = pick(g.Rand, []string{"Commit", "Tag", "Tree", "PersonInfo"})
		}
		v := genVal(g, typ)
		t.Input([]byte(v.View()))
		repr := t.IntN(2) == 0
		name := typ
		if repr {
			name += "__Repr"
		}
		nb := ps[name].NewBuilder()
		k := &turnTaker{t: t, g: g, ps: ps}
		root := k.put(nb, v, repr)
		n := nb.Build()
		wantView(t, name+" built with calls out of turn between the others", View(n), v.View())
		// the assembler of a finished node, and those of its parts
		for i := 0; i < 6; i++ {
			k.provoke(pick(g.Rand, append(k.stale, root, root)))
		}
		wantView(t, name+" after calls on its finished assembler", View(n), v.View())
		wantView(t, name+" representation after calls on its finished assembler", View(reprOf(n)), v.View())
		t.CountN("event:refused-out-of-turn", int64(k.tries))
		if k.tries > 0 {
			t.Sample(2, map[string]any{"type": name, "value": clip([]byte(v.View()), 160), "refused": fmt.Sprint(k.tries)})
		}
	})
}
