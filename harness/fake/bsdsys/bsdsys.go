// Package bsdsys stands in for syscall in builds of the kqueue backend that run here: files
// are real, kqueue(2) is simulated. The harness tells the simulation what happened to which
// object (Note); EVFILT_VNODE filters with EV_CLEAR behave as documented in kqueue(2).
package bsdsys

import (
	"fmt"
	"os"
	"sync"
	"syscall"
)

type (
	Errno    = syscall.Errno
	Timespec = syscall.Timespec
	Stat_t   = syscall.Stat_t
)

const (
	ENOTSUP    = syscall.ENOTSUP
	EOPNOTSUPP = syscall.EOPNOTSUPP
	EINTR      = syscall.EINTR
	ENOENT     = syscall.ENOENT
	EBADF      = syscall.EBADF
	EACCES     = syscall.EACCES
	EINVAL     = syscall.EINVAL
	EPERM      = syscall.EPERM
	EMFILE     = syscall.EMFILE
	ENOTDIR    = syscall.ENOTDIR
	ELOOP      = syscall.ELOOP
	EAGAIN     = syscall.EAGAIN

	O_RDONLY   = syscall.O_RDONLY
	O_NONBLOCK = syscall.O_NONBLOCK
	O_CLOEXEC  = syscall.O_CLOEXEC
	O_NOFOLLOW = syscall.O_NOFOLLOW
	O_EVTONLY  = syscall.O_RDONLY

	EVFILT_READ  = -1
	EVFILT_WRITE = -2
	EVFILT_VNODE = -4

	EV_ADD     = 0x1
	EV_DELETE  = 0x2
	EV_ENABLE  = 0x4
	EV_DISABLE = 0x8
	EV_ONESHOT = 0x10
	EV_CLEAR   = 0x20
	EV_EOF     = 0x8000
	EV_ERROR   = 0x4000

	NOTE_DELETE = 0x1
	NOTE_WRITE  = 0x2
	NOTE_EXTEND = 0x4
	NOTE_ATTRIB = 0x8
	NOTE_LINK   = 0x10
	NOTE_RENAME = 0x20
	NOTE_REVOKE = 0x40
)

type Kevent_t struct {
	Ident  uint64
	Filter int16
	Flags  uint16
	Fflags uint32
	Data   int64
	Udata  *byte
}

func SetKevent(e *Kevent_t, fd, mode, flags int) {
	e.Ident, e.Filter, e.Flags = uint64(fd), int16(mode), uint16(flags)
}

// ID is an object of the file system.
type ID struct{ Dev, Ino uint64 }

type knote struct {
	ident   uint64
	filter  int16
	flags   uint16
	mask    uint32
	pending uint32
	queued  bool
	id      ID
}

type knoteKey struct {
	ident  uint64
	filter int16
}

type queue struct {
	notes   map[knoteKey]*knote
	active  []*knote
	waiting int
	closed  bool
}

type file struct {
	path string
	id   ID
	pipe int // 1 for the read end, 2 for the write end
	peer int
	data int
}

type kernel struct {
	mu    sync.Mutex
	cond  *sync.Cond
	files map[int]*file // descriptors opened through this package
	kqs   map[int]*queue
	wrong []string
	fail  func(call, path string) error
	next  int
	old   int // the last descriptor of the time before Reset
}

var k = func() *kernel {
	k := &kernel{files: map[int]*file{}, kqs: map[int]*queue{}, next: 1 << 20}
	k.cond = sync.NewCond(&k.mu)
	return k
}()

func (k *kernel) bad(format string, v ...interface{}) {
	k.wrong = append(k.wrong, fmt.Sprintf(format, v...))
}

func (k *kernel) refuse(call, path string) error {
	if k.fail == nil {
		return nil
	}
	return k.fail(call, path)
}

// Open opens an existing file; descriptors are numbers of the simulation, which are not used
// again.
func Open(path string, mode int, perm uint32) (int, error) {
	fi, err := os.Stat(path)
	if err != nil {
		if e, ok := err.(*os.PathError); ok {
			return -1, e.Err
		}
		return -1, err
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.refuse("open", path); err != nil {
		return -1, err
	}
	if fi.Mode()&os.ModeSocket != 0 {
		return -1, ENOTSUP
	}
	k.next++
	k.files[k.next] = &file{path: path, id: IDOf(fi)}
	return k.next, nil
}

// IDOf names the object of a file info.
func IDOf(fi os.FileInfo) ID {
	st := fi.Sys().(*syscall.Stat_t)
	return ID{uint64(st.Dev), st.Ino}
}

func Close(fd int) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if q, ok := k.kqs[fd]; ok {
		q.closed = true
		delete(k.kqs, fd)
		k.cond.Broadcast()
		return nil
	}
	if _, ok := k.files[fd]; !ok {
		k.bad("descriptor %d is not open, but was closed", fd)
		return EBADF
	}
	delete(k.files, fd)
	for _, q := range k.kqs {
		for key, n := range q.notes {
			if key.ident == uint64(fd) {
				q.remove(n)
			}
		}
	}
	return nil
}

func (q *queue) remove(n *knote) {
	delete(q.notes, knoteKey{n.ident, n.filter})
	for i, m := range q.active {
		if m == n {
			q.active = append(q.active[:i], q.active[i+1:]...)
			break
		}
	}
}

func Pipe(p []int) error { return Pipe2(p, 0) }

func Pipe2(p []int, flags int) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.refuse("pipe", ""); err != nil {
		return err
	}
	k.next += 2
	r, w := k.next-1, k.next
	k.files[r] = &file{path: "pipe", pipe: 1, peer: w}
	k.files[w] = &file{path: "pipe", pipe: 2, peer: r}
	p[0], p[1] = r, w
	return nil
}

func Write(fd int, b []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	f := k.files[fd]
	if f == nil || f.pipe != 2 {
		return -1, EBADF
	}
	r := k.files[f.peer]
	if r == nil {
		return -1, syscall.EPIPE
	}
	r.data += len(b)
	for _, q := range k.kqs {
		if n := q.notes[knoteKey{uint64(f.peer), EVFILT_READ}]; n != nil {
			q.activate(n, 0)
		}
	}
	return len(b), nil
}

func Read(fd int, b []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	f := k.files[fd]
	if f == nil || f.pipe != 1 {
		return -1, EBADF
	}
	if f.data == 0 {
		return -1, EAGAIN
	}
	n := min(len(b), f.data)
	f.data -= n
	return n, nil
}

func (q *queue) activate(n *knote, fflags uint32) {
	n.pending |= fflags
	if !n.queued {
		n.queued = true
		q.active = append(q.active, n)
	}
	k.cond.Broadcast()
}

func Kqueue() (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.refuse("kqueue", ""); err != nil {
		return -1, err
	}
	k.next++
	k.kqs[k.next] = &queue{notes: map[knoteKey]*knote{}}
	return k.next, nil
}

func Kevent(kq int, changes, events []Kevent_t, timeout *Timespec) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	q := k.kqs[kq]
	if q == nil {
		for kq <= k.old {
			k.cond.Wait()
		}
		return -1, EBADF
	}
	for _, c := range changes {
		key := knoteKey{c.Ident, c.Filter}
		n := q.notes[key]
		switch {
		case c.Flags&EV_ADD != 0:
			f := k.files[int(c.Ident)]
			if f == nil {
				return -1, EBADF
			}
			if err := k.refuse("kevent", f.path); err != nil {
				return -1, err
			}
			if c.Filter == EVFILT_VNODE && c.Flags&EV_CLEAR == 0 {
				k.bad("%q watched without EV_CLEAR", f.path)
			}
			if n == nil {
				n = &knote{ident: c.Ident, filter: c.Filter, id: f.id}
				q.notes[key] = n
			}
			n.flags, n.mask = c.Flags, c.Fflags
			if c.Filter == EVFILT_READ && f.data > 0 {
				q.activate(n, 0)
			}
		case c.Flags&EV_DELETE != 0:
			if n == nil {
				return -1, ENOENT
			}
			q.remove(n)
		}
	}
	if len(events) == 0 {
		return 0, nil
	}
	if err := k.refuse("wait", ""); err != nil {
		return -1, err
	}
	q.waiting++
	k.cond.Broadcast()
	for len(q.active) == 0 {
		if q.closed {
			q.waiting--
			return -1, EBADF
		}
		k.cond.Wait()
	}
	q.waiting--
	n := q.active[0]
	events[0] = Kevent_t{Ident: n.ident, Filter: n.filter, Flags: n.flags, Fflags: n.pending}
	if n.filter != EVFILT_READ {
		q.active = q.active[1:]
		n.queued, n.pending = false, 0
	}
	return 1, nil
}

// The harness's side.

// Reset forgets everything, who waits for a queue waits forever; fail is asked before every call that can fail.
func Reset(fail func(call, path string) error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.files, k.kqs, k.wrong, k.fail, k.old = map[int]*file{}, map[int]*queue{}, nil, fail, k.next
	k.cond.Broadcast()
}

// Note tells that something happened to an object.
func Note(id ID, fflags uint32) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, q := range k.kqs {
		for key, n := range q.notes {
			if key.filter == EVFILT_VNODE && n.id == id && n.mask&fflags != 0 {
				q.activate(n, n.mask&fflags)
			}
		}
	}
}

// Hold stops (or lets continue) the delivery of events by keeping the lock: everything that fn
// notes is there at once.
func Hold(fn func(note func(id ID, fflags uint32))) {
	k.mu.Lock()
	defer k.mu.Unlock()
	fn(func(id ID, fflags uint32) {
		for _, q := range k.kqs {
			for key, n := range q.notes {
				if key.filter == EVFILT_VNODE && n.id == id && n.mask&fflags != 0 {
					q.activate(n, n.mask&fflags)
				}
			}
		}
	})
}

// Idle reports whether all events were taken and every queue is being waited for.
func Idle() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, q := range k.kqs {
		if len(q.active) > 0 || q.waiting == 0 {
			return false
		}
	}
	return true
}

// Vnode is a registered object.
type Vnode struct {
	Path string // it was opened by
	ID   ID
	Mask uint32
}

// Vnodes lists the registered objects.
func Vnodes() (vs []Vnode) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, q := range k.kqs {
		for key, n := range q.notes {
			if key.filter == EVFILT_VNODE {
				vs = append(vs, Vnode{k.files[int(key.ident)].path, n.id, n.mask})
			}
		}
	}
	return vs
}

// OpenFiles lists the open descriptors: paths, "pipe" and "kqueue".
func OpenFiles() (ps []string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, f := range k.files {
		ps = append(ps, f.path)
	}
	for range k.kqs {
		ps = append(ps, "kqueue")
	}
	return ps
}

// Wrong lists uses of the calls that make no sense.
func Wrong() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string(nil), k.wrong...)
}
