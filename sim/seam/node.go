package seam

import (
	"fmt"

	"github.com/ipld/go-ipld-prime/datamodel"

	"verif.local/gitsim/core"
)

// NodeFaults decides which access to a node fails. Accesses are numbered in the
// order they happen over the whole node.
type NodeFaults struct {
	S      *core.Sim
	At     int // fail the access with this number; -1: none
	Sticky bool
	Err    error
	Read   error // nil: Err; else what fails with it instead: everything but lookups
	N      int
	Failed int
	Where  string
}

func (f *NodeFaults) hit(what string) error {
	f.S.Switch()
	i := f.N
	f.N++
	if f.At >= 0 && (i == f.At || f.Sticky && i > f.At) {
		if f.Failed == 0 {
			f.Where = what
		}
		f.Failed++
		f.S.Fault("node-" + what)
		f.S.Event("node access %d %s fails", i, what)
		if f.Read != nil && what != "lookup" {
			return f.Read
		}
		return f.Err
	}
	return nil
}

// Node is a node that may fail to be read, as a node backed by storage can.
type Node struct {
	datamodel.Node
	F     *NodeFaults
	Proto datamodel.NodePrototype // nil: the inner node's
}

// Wrap makes n subject to f.
func Wrap(n datamodel.Node, f *NodeFaults) datamodel.Node {
	if n == nil || n.IsAbsent() || n.IsNull() {
		return n
	}
	return &Node{Node: n, F: f}
}

func (n *Node) Prototype() datamodel.NodePrototype {
	if n.Proto != nil {
		return n.Proto
	}
	return n.Node.Prototype()
}

func (n *Node) wrap(x datamodel.Node, err error) (datamodel.Node, error) {
	if err != nil {
		return x, err
	}
	return Wrap(x, n.F), nil
}

func (n *Node) LookupByString(k string) (datamodel.Node, error) {
	if err := n.F.hit("lookup"); err != nil {
		return nil, err
	}
	return n.wrap(n.Node.LookupByString(k))
}

func (n *Node) LookupByNode(k datamodel.Node) (datamodel.Node, error) {
	if err := n.F.hit("lookup"); err != nil {
		return nil, err
	}
	if w, ok := k.(*Node); ok {
		k = w.Node
	}
	return n.wrap(n.Node.LookupByNode(k))
}

func (n *Node) LookupByIndex(i int64) (datamodel.Node, error) {
	if err := n.F.hit("lookup"); err != nil {
		return nil, err
	}
	return n.wrap(n.Node.LookupByIndex(i))
}

func (n *Node) LookupBySegment(s datamodel.PathSegment) (datamodel.Node, error) {
	if err := n.F.hit("lookup"); err != nil {
		return nil, err
	}
	return n.wrap(n.Node.LookupBySegment(s))
}

func (n *Node) AsString() (string, error) {
	if err := n.F.hit("as-string"); err != nil {
		return "", err
	}
	return n.Node.AsString()
}

func (n *Node) AsBytes() ([]byte, error) {
	if err := n.F.hit("as-bytes"); err != nil {
		return nil, err
	}
	return n.Node.AsBytes()
}

func (n *Node) AsLink() (datamodel.Link, error) {
	if err := n.F.hit("as-link"); err != nil {
		return nil, err
	}
	return n.Node.AsLink()
}

func (n *Node) MapIterator() datamodel.MapIterator {
	it := n.Node.MapIterator()
	if it == nil {
		return nil
	}
	return &mapIt{it, n.F}
}

func (n *Node) ListIterator() datamodel.ListIterator {
	it := n.Node.ListIterator()
	if it == nil {
		return nil
	}
	return &listIt{it, n.F}
}

type mapIt struct {
	datamodel.MapIterator
	f *NodeFaults
}

func (it *mapIt) Next() (datamodel.Node, datamodel.Node, error) {
	if err := it.f.hit("map-next"); err != nil {
		return nil, nil, err
	}
	k, v, err := it.MapIterator.Next()
	if err != nil {
		return k, v, err
	}
	return Wrap(k, it.f), Wrap(v, it.f), nil
}

type listIt struct {
	datamodel.ListIterator
	f *NodeFaults
}

func (it *listIt) Next() (int64, datamodel.Node, error) {
	if err := it.f.hit("list-next"); err != nil {
		return -1, nil, err
	}
	i, v, err := it.ListIterator.Next()
	if err != nil {
		return i, v, err
	}
	return i, Wrap(v, it.f), nil
}

// ---- assembler that may refuse

// Asm wraps a builder; the access with number At fails.
type Asm struct {
	datamodel.NodeAssembler
	F *NodeFaults
}

func (a *Asm) BeginMap(n int64) (datamodel.MapAssembler, error) {
	if err := a.F.hit("begin-map"); err != nil {
		return nil, err
	}
	m, err := a.NodeAssembler.BeginMap(n)
	if err != nil {
		return nil, err
	}
	return &mapAsm{m, a.F}, nil
}

func (a *Asm) BeginList(n int64) (datamodel.ListAssembler, error) {
	if err := a.F.hit("begin-list"); err != nil {
		return nil, err
	}
	m, err := a.NodeAssembler.BeginList(n)
	if err != nil {
		return nil, err
	}
	return &listAsm{m, a.F}, nil
}
func (a *Asm) AssignNull() error {
	if err := a.F.hit("assign"); err != nil {
		return err
	}
	return a.NodeAssembler.AssignNull()
}
func (a *Asm) AssignString(s string) error {
	if err := a.F.hit("assign"); err != nil {
		return err
	}
	return a.NodeAssembler.AssignString(s)
}
func (a *Asm) AssignBytes(b []byte) error {
	if err := a.F.hit("assign"); err != nil {
		return err
	}
	return a.NodeAssembler.AssignBytes(b)
}
func (a *Asm) AssignLink(l datamodel.Link) error {
	if err := a.F.hit("assign"); err != nil {
		return err
	}
	return a.NodeAssembler.AssignLink(l)
}
func (a *Asm) AssignNode(n datamodel.Node) error {
	if err := a.F.hit("assign-node"); err != nil {
		return err
	}
	return a.NodeAssembler.AssignNode(n)
}

type mapAsm struct {
	datamodel.MapAssembler
	f *NodeFaults
}

func (m *mapAsm) AssembleKey() datamodel.NodeAssembler {
	return &Asm{m.MapAssembler.AssembleKey(), m.f}
}
func (m *mapAsm) AssembleValue() datamodel.NodeAssembler {
	return &Asm{m.MapAssembler.AssembleValue(), m.f}
}
func (m *mapAsm) AssembleEntry(k string) (datamodel.NodeAssembler, error) {
	if err := m.f.hit("entry"); err != nil {
		return nil, err
	}
	a, err := m.MapAssembler.AssembleEntry(k)
	if err != nil {
		return nil, err
	}
	return &Asm{a, m.f}, nil
}
func (m *mapAsm) Finish() error {
	if err := m.f.hit("finish"); err != nil {
		return err
	}
	return m.MapAssembler.Finish()
}

type listAsm struct {
	datamodel.ListAssembler
	f *NodeFaults
}

func (m *listAsm) AssembleValue() datamodel.NodeAssembler {
	return &Asm{m.ListAssembler.AssembleValue(), m.f}
}
func (m *listAsm) Finish() error {
	if err := m.f.hit("finish"); err != nil {
		return err
	}
	return m.ListAssembler.Finish()
}

func (n *Node) String() string { return fmt.Sprintf("seam.Node(%T)", n.Node) }
