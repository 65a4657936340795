// Package e2e checks the public API of notify on the real filesystem and kernel.
package e2e

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sort"
	"strings"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// Kinds, in the bit order used by Op.E.
var Kinds = []notify.Event{
	notify.Create, notify.Remove, notify.Write, notify.Rename,
	notify.InAccess, notify.InModify, notify.InAttrib, notify.InCloseWrite, notify.InCloseNowrite, notify.InOpen,
	notify.InMovedFrom, notify.InMovedTo, notify.InCreate, notify.InDelete, notify.InDeleteSelf, notify.InMoveSelf,
}

var KindNames = []string{"Create", "Remove", "Write", "Rename", "InAccess", "InModify", "InAttrib", "InCloseWrite",
	"InCloseNowrite", "InOpen", "InMovedFrom", "InMovedTo", "InCreate", "InDelete", "InDeleteSelf", "InMoveSelf"}

// rawBits are the kernel notifications that imply a kind.
var rawBits = []uint32{
	unix.IN_CREATE | unix.IN_MOVED_TO, unix.IN_DELETE | unix.IN_DELETE_SELF, unix.IN_MODIFY, unix.IN_MOVED_FROM | unix.IN_MOVE_SELF,
	unix.IN_ACCESS, unix.IN_MODIFY, unix.IN_ATTRIB, unix.IN_CLOSE_WRITE, unix.IN_CLOSE_NOWRITE, unix.IN_OPEN,
	unix.IN_MOVED_FROM, unix.IN_MOVED_TO, unix.IN_CREATE, unix.IN_DELETE, unix.IN_DELETE_SELF, unix.IN_MOVE_SELF,
}

const (
	kCreate = 1 << iota
	kRemove
	kWrite
	kRename
	AllKinds = 1<<16 - 1
)

const dirNoise = unix.IN_OPEN | unix.IN_ACCESS | unix.IN_CLOSE_NOWRITE

func enc(e uint32) (m uint32) {
	for i, b := range rawBits {
		if e&(1<<i) != 0 {
			m |= b
		}
	}
	return
}

// Events expands a bit set into the arguments of Watch.
func Events(e uint32) (es []notify.Event) {
	for i, k := range Kinds {
		if e&(1<<i) != 0 {
			es = append(es, k)
		}
	}
	return
}

// Args are the arguments of a call of Watch. One of three calls lists the events in
// another order, repeats some or joins them; which ones depends on the operation.
func Args(op core.Op) []notify.Event {
	es := Events(op.E & AllKinds)
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %s %d %d %v", op.P, op.S, op.C, op.E, op.R)
	r := rand.New(rand.NewPCG(h.Sum64(), 1))
	if len(es) == 0 || r.IntN(3) > 0 {
		return es
	}
	for i := 1 + r.IntN(3); i > 0; i-- {
		var e notify.Event
		for _, x := range es {
			if r.IntN(2) == 0 {
				e |= x
			}
		}
		if e == 0 {
			e = es[0]
		}
		es = append(es, e)
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func kindIndex(e notify.Event) int {
	for i, k := range Kinds {
		if k == e {
			return i
		}
	}
	return -1
}

// Odd file names; an operation names them by token.
var oddNames = map[string]string{
	"~nl":   "x\ny",
	"~inv":  "\xff\xfe\x80",
	"~long": strings.Repeat("L", 255),
	"~dots": "x...",
	"~ddd":  "...",
	"~sp":   " s p ",
	"~uni":  "ünï-漢",
	"~bs":   "b\\s",
	"~star": "*?[a",
	"~tick": "..x",
	"~del":  "\x7f\x01",
	"~up":   "A",
	"~as":   "a ",
	"~sa":   " a",
	"~dec":  "u\u0308ni\u0308-漢",
	"~hid":  ".a",
	"~bak":  "a~",
	"~git":  ".git",
	"~at":   "a@",
}

func Tok(t string) string {
	if s, ok := oddNames[t]; ok {
		return s
	}
	return t
}

// obj is a filesystem object of the model.
type obj struct {
	dir, link bool
	loose     bool // its history is not known
	parent    *obj
	name      string // real name
	kids      map[string]*obj
	gone      bool
	size      int
	ino       uint64
	names     map[string]bool // paths it may be reported under
	ever      map[string]bool // all paths it had
	dirKids   map[string]bool // names of directories that were in it
	cov       map[*reg]bool   // registrations whose recursive coverage of it is settled
}

func (o *obj) path() string {
	if o.parent == nil {
		return o.name
	}
	return o.parent.path() + "/" + o.name
}

func (o *obj) under(a *obj) bool { // strictly
	for p := o.parent; p != nil; p = p.parent {
		if p == a {
			return true
		}
	}
	return false
}

func (o *obj) walk(fn func(*obj)) {
	fn(o)
	names := make([]string, 0, len(o.kids))
	for n := range o.kids {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		o.kids[n].walk(fn)
	}
}

// note is one notification the kernel raises for a watch on w.
type note struct {
	w    *obj
	name string // "" for the object itself
	bit  uint32
	on   *obj // the object it is about
	may  bool // not guaranteed
	path string
}

func mk(w *obj, name string, bit uint32, on *obj) note {
	p := w.path()
	if name != "" {
		p += "/" + name
	}
	return note{w: w, name: name, bit: bit, on: on, path: p}
}

// FS is the model of the tree below root.
type FS struct {
	root *obj
}

func newObj(parent *obj, name string, dir bool) *obj {
	o := &obj{parent: parent, name: name, dir: dir, names: map[string]bool{}, ever: map[string]bool{}, cov: map[*reg]bool{}}
	if dir {
		o.kids = map[string]*obj{}
	}
	if parent != nil {
		parent.kids[name] = o
	}
	p := o.path()
	o.names[p] = true
	o.ever[p] = true
	return o
}

func NewFS(base string) *FS { return &FS{root: newObj(nil, base, true)} }

// lookup resolves a token path relative to the root. parent is set if the last component
// may be created there.
func (f *FS) lookup(p string) (o, parent *obj, name string) {
	if p == "" || p == "." {
		return f.root, nil, ""
	}
	cur := f.root
	toks := strings.Split(p, "/")
	for i, t := range toks {
		if cur == nil || !cur.dir {
			return nil, nil, ""
		}
		n := Tok(t)
		if i == len(toks)-1 {
			return cur.kids[n], cur, n
		}
		cur = cur.kids[n]
	}
	return nil, nil, ""
}

func both(o *obj, bit uint32) []note {
	ns := []note{mk(o, "", bit, o)}
	if o.parent != nil {
		ns = append(ns, mk(o.parent, o.name, bit, o))
	}
	return ns
}

func child(o *obj, bit uint32) note { return mk(o.parent, o.name, bit, o) }
func self(o *obj, bit uint32) note  { return mk(o, "", bit, o) }

// mutation results
type effect struct {
	notes   []note
	removed []*obj // objects that cease to exist
	moved   *obj   // subtree that changes its path
	created *obj
}

func (f *FS) create(p string, n int) (e effect, ok bool) {
	o, par, name := f.lookup(p)
	if o != nil || par == nil {
		return e, false
	}
	o = newObj(par, name, false)
	o.size = n
	e.created = o
	e.notes = append(e.notes, child(o, unix.IN_CREATE))
	e.notes = append(e.notes, both(o, unix.IN_OPEN)...)
	if n > 0 {
		e.notes = append(e.notes, both(o, unix.IN_MODIFY)...)
	}
	e.notes = append(e.notes, both(o, unix.IN_CLOSE_WRITE)...)
	return e, true
}

func (f *FS) mkdir(p string) (e effect, ok bool) {
	o, par, name := f.lookup(p)
	if o != nil || par == nil {
		return e, false
	}
	o = newObj(par, name, true)
	e.created = o
	e.notes = append(e.notes, child(o, unix.IN_CREATE))
	return e, true
}

func (f *FS) symlink(p string) (e effect, ok bool) {
	o, par, name := f.lookup(p)
	if o != nil || par == nil {
		return e, false
	}
	o = newObj(par, name, false)
	o.link = true
	e.created = o
	e.notes = append(e.notes, child(o, unix.IN_CREATE))
	return e, true
}

func (f *FS) file(p string) *obj {
	o, _, _ := f.lookup(p)
	if o == nil || o.dir || o.link {
		return nil
	}
	return o
}

func (f *FS) write(p string, n int) (e effect, ok bool) {
	o := f.file(p)
	if o == nil || n <= 0 {
		return e, false
	}
	o.size += n
	e.notes = append(e.notes, both(o, unix.IN_OPEN)...)
	e.notes = append(e.notes, both(o, unix.IN_MODIFY)...)
	e.notes = append(e.notes, both(o, unix.IN_CLOSE_WRITE)...)
	return e, true
}

func (f *FS) read(p string) (e effect, ok bool) {
	o := f.file(p)
	if o == nil {
		return e, false
	}
	e.notes = append(e.notes, both(o, unix.IN_OPEN)...)
	if o.size > 0 {
		e.notes = append(e.notes, both(o, unix.IN_ACCESS)...)
	}
	e.notes = append(e.notes, both(o, unix.IN_CLOSE_NOWRITE)...)
	return e, true
}

func (f *FS) trunc(p string, n int) (e effect, ok bool) {
	o := f.file(p)
	if o == nil || n < 0 {
		return e, false
	}
	o.size = n
	e.notes = both(o, unix.IN_MODIFY)
	return e, true
}

func (f *FS) attrib(p string) (e effect, ok bool) {
	o, _, _ := f.lookup(p)
	if o == nil || o.link || o.parent == nil {
		return e, false
	}
	e.notes = both(o, unix.IN_ATTRIB)
	return e, true
}

func (f *FS) readdir(p string) (e effect, ok bool) {
	o, _, _ := f.lookup(p)
	if o == nil || !o.dir {
		return e, false
	}
	e.notes = append(e.notes, both(o, unix.IN_OPEN)...)
	acc := both(o, unix.IN_ACCESS)
	for i := range acc {
		acc[i].may = true
	}
	e.notes = append(e.notes, acc...)
	e.notes = append(e.notes, both(o, unix.IN_CLOSE_NOWRITE)...)
	return e, true
}

func (f *FS) remove(p string, dir bool) (e effect, ok bool) {
	o, _, _ := f.lookup(p)
	if o == nil || o.dir != dir || o.parent == nil || dir && len(o.kids) > 0 {
		return e, false
	}
	e.notes = append(e.notes, child(o, unix.IN_DELETE))
	if !dir {
		e.notes = append(e.notes, self(o, unix.IN_ATTRIB))
	}
	e.notes = append(e.notes, self(o, unix.IN_DELETE_SELF))
	f.drop(o)
	e.removed = []*obj{o}
	return e, true
}

func (f *FS) drop(o *obj) {
	delete(o.parent.kids, o.name)
	o.gone = true
}

func (f *FS) rename(p, q string) (e effect, ok bool) {
	o, par, _ := f.lookup(p)
	t, npar, nname := f.lookup(q)
	if o == nil || par == nil || npar == nil || o == t || npar == o || npar.under(o) {
		return e, false
	}
	if t != nil {
		if t.dir != o.dir || len(t.kids) > 0 {
			return e, false
		}
	}
	e.notes = append(e.notes, child(o, unix.IN_MOVED_FROM))
	e.notes = append(e.notes, mk(npar, nname, unix.IN_MOVED_TO, o))
	e.notes = append(e.notes, self(o, unix.IN_MOVE_SELF))
	if t != nil {
		a := self(t, unix.IN_ATTRIB)
		a.may = t.dir
		e.notes = append(e.notes, a, self(t, unix.IN_DELETE_SELF))
		f.drop(t)
		e.removed = []*obj{t}
	}
	delete(par.kids, o.name)
	o.parent, o.name = npar, nname
	npar.kids[nname] = o
	e.moved = o
	return e, true
}
