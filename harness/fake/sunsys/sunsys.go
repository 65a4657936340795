// Package sunsys stands in for syscall, and for the C library's event ports, in builds of the
// FEN backend that run here: files are real, event ports are simulated. An association is
// dissolved when its event is retrieved, and an event is there at once if the object changed
// since the times given when it was associated, as in port_associate(3C).
package sunsys

import (
	"fmt"
	"os"
	"sync"
	"syscall"
)

type (
	Errno    = syscall.Errno
	Timespec = syscall.Timespec
	Stat_t   = syscall.Stat_t
)

const (
	ENOTSUP = syscall.ENOTSUP
	EINTR   = syscall.EINTR
	ENOENT  = syscall.ENOENT
	EBADF   = syscall.EBADF
	EBADFD  = syscall.EBADFD
	EACCES  = syscall.EACCES
	EINVAL  = syscall.EINVAL
	EPERM   = syscall.EPERM
	EMFILE  = syscall.EMFILE
	ENOTDIR = syscall.ENOTDIR
	EAGAIN  = syscall.EAGAIN
	EBUSY   = syscall.EBUSY
	ETIME   = syscall.ETIME
)

const (
	FILE_ACCESS      = 0x1
	FILE_MODIFIED    = 0x2
	FILE_ATTRIB      = 0x4
	FILE_DELETE      = 0x10
	FILE_RENAME_TO   = 0x20
	FILE_RENAME_FROM = 0x40
	FILE_TRUNC       = 0x100000
	FILE_NOFOLLOW    = 0x10000000
	UNMOUNTED        = 0x20000000
	MOUNTEDOVER      = 0x40000000
	exceptions       = FILE_DELETE | FILE_RENAME_TO | FILE_RENAME_FROM | UNMOUNTED | MOUNTEDOVER

	PORT_SOURCE_ALERT = 5
	PORT_SOURCE_FILE  = 7
	PORT_ALERT_SET    = 1
)

// ID is an object of the file system.
type ID struct{ Dev, Ino uint64 }

// IDOf names the object of a file info.
func IDOf(fi os.FileInfo) ID {
	st := fi.Sys().(*syscall.Stat_t)
	return ID{uint64(st.Dev), st.Ino}
}

type assoc struct {
	obj     uintptr
	path    string
	id      ID
	mask    uint32
	pending uint32
	queued  bool
}

type port struct {
	as      map[uintptr]*assoc // by address of the object given
	active  []*assoc
	alert   bool
	waiting int
	closed  bool
}

type kernel struct {
	mu    sync.Mutex
	cond  *sync.Cond
	ports map[int]*port
	wrong []string
	fail  func(call, path string) error
	next  int
	old   int // the last port of the time before Reset
}

var k = func() *kernel {
	k := &kernel{ports: map[int]*port{}, next: 1 << 20}
	k.cond = sync.NewCond(&k.mu)
	return k
}()

func (k *kernel) refuse(call, path string) error {
	if k.fail == nil {
		return nil
	}
	return k.fail(call, path)
}

func PortCreate() (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.refuse("port_create", ""); err != nil {
		return -1, err
	}
	k.next++
	k.ports[k.next] = &port{as: map[uintptr]*assoc{}}
	return k.next, nil
}

// Associate is port_associate with source PORT_SOURCE_FILE; obj is the address of the file_obj.
func Associate(p int, obj uintptr, path string, events uint32, times [3]Timespec) error {
	fi, err := os.Stat(path)
	if events&FILE_NOFOLLOW != 0 {
		fi, err = os.Lstat(path)
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	pt := k.ports[p]
	if pt == nil {
		return EBADF
	}
	if err != nil {
		if e, ok := err.(*os.PathError); ok {
			return e.Err
		}
		return err
	}
	if err := k.refuse("port_associate", path); err != nil {
		return err
	}
	id := IDOf(fi)
	// The kernel knows an association by the object's address and its file.
	a := pt.as[obj]
	if a == nil {
		a = &assoc{obj: obj}
		pt.as[obj] = a
	}
	if a.id != id {
		pt.drop(a)
	}
	a.path, a.id, a.mask = path, id, events&^FILE_NOFOLLOW
	st := fi.Sys().(*syscall.Stat_t)
	var now uint32
	for i, b := range []struct {
		t syscall.Timespec
		e uint32
	}{{st.Atim, FILE_ACCESS}, {st.Mtim, FILE_MODIFIED}, {st.Ctim, FILE_ATTRIB}} {
		if b.t != times[i] {
			now |= b.e & a.mask
		}
	}
	if now != 0 {
		pt.activate(a, now)
	}
	return nil
}

func (p *port) activate(a *assoc, e uint32) {
	a.pending |= e
	if !a.queued {
		a.queued = true
		p.active = append(p.active, a)
	}
	k.cond.Broadcast()
}

func (p *port) drop(a *assoc) {
	a.queued, a.pending = false, 0
	for i, b := range p.active {
		if a == b {
			p.active = append(p.active[:i], p.active[i+1:]...)
			return
		}
	}
}

func Dissociate(p int, obj uintptr) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	pt := k.ports[p]
	if pt == nil {
		return EBADF
	}
	a := pt.as[obj]
	if a == nil {
		return ENOENT
	}
	pt.drop(a)
	delete(pt.as, obj)
	return nil
}

func PortAlert(p int) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	pt := k.ports[p]
	if pt == nil {
		return EBADF
	}
	pt.alert = true
	k.cond.Broadcast()
	return nil
}

// Event is what port_get returns.
type Event struct {
	Events uint32
	Source uint8
	Obj    uintptr
}

func Get(p int) (Event, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	pt := k.ports[p]
	if pt == nil {
		for p <= k.old {
			k.cond.Wait()
		}
		return Event{}, EBADF
	}
	pt.waiting++
	defer func() { pt.waiting-- }()
	k.cond.Broadcast()
	for len(pt.active) == 0 && !pt.alert {
		if pt.closed {
			return Event{}, EBADF
		}
		k.cond.Wait()
	}
	if pt.alert {
		return Event{Events: 666, Source: PORT_SOURCE_ALERT}, nil
	}
	a := pt.active[0]
	e := Event{Events: a.pending, Source: PORT_SOURCE_FILE, Obj: a.obj}
	pt.drop(a)
	delete(pt.as, a.obj)
	return e, nil
}

func Close(p int) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if pt := k.ports[p]; pt != nil {
		pt.closed = true
	} else {
		k.wrong = append(k.wrong, fmt.Sprintf("descriptor %d is not open, but was closed", p))
		return EBADF
	}
	delete(k.ports, p)
	k.cond.Broadcast()
	return nil
}

// The harness's side.

// Reset forgets everything, who waits for a port waits forever; fail is asked before every call that can fail.
func Reset(fail func(call, path string) error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.ports, k.wrong, k.fail, k.old = map[int]*port{}, nil, fail, k.next
	k.cond.Broadcast()
}

// Hold lets the harness change files and tell of it while no event is delivered.
func Hold(fn func(note func(id ID, events uint32))) {
	k.mu.Lock()
	defer k.mu.Unlock()
	fn(func(id ID, events uint32) {
		for _, p := range k.ports {
			for _, a := range p.as {
				if e := events & (a.mask | exceptions); a.id == id && e != 0 {
					p.activate(a, e)
				}
			}
		}
	})
}

// Idle reports whether all events were taken and every port is being waited for.
func Idle() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, p := range k.ports {
		if len(p.active) > 0 || p.waiting == 0 {
			return false
		}
	}
	return true
}

// Assoc is an association.
type Assoc struct {
	Path string
	ID   ID
	Mask uint32
}

// Assocs lists the associations.
func Assocs() (as []Assoc) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, p := range k.ports {
		for _, a := range p.as {
			as = append(as, Assoc{a.path, a.id, a.mask})
		}
	}
	return as
}

// Ports is the number of open ports.
func Ports() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.ports)
}

// Wrong lists uses of the calls that make no sense.
func Wrong() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string(nil), k.wrong...)
}
