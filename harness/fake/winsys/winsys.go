// Package winsys stands in for syscall in builds of the Windows backend that run here: the
// constants and functions it uses, and a simulation of directory handles, ReadDirectoryChangesW
// and I/O completion ports.
//
// The simulation follows the documented behaviour: a handle takes filter and depth from its
// first call; changes are buffered in the handle between calls; one call completes once; the
// removal of the directory or the closing of the handle completes a pending call with nothing
// read.
package winsys

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"unicode/utf16"
	"unsafe"
)

type Errno = syscall.Errno

const (
	ENOENT                       = syscall.ENOENT
	EINVAL                       = syscall.EINVAL
	ERROR_FILE_NOT_FOUND         = syscall.Errno(2)
	ERROR_PATH_NOT_FOUND         = syscall.Errno(3)
	ERROR_ACCESS_DENIED          = syscall.Errno(5)
	ERROR_INVALID_HANDLE         = syscall.Errno(6)
	ERROR_NOT_FOUND              = syscall.Errno(1168)
	ERROR_OPERATION_ABORTED      = syscall.Errno(995)
	ERROR_IO_PENDING             = syscall.Errno(997)
	ERROR_NOTIFY_ENUM_DIR        = syscall.Errno(1022)
	ERROR_ABANDONED_WAIT_0       = syscall.Errno(735)
	WAIT_TIMEOUT                 = 258
	INFINITE                     = 0xffffffff
	MAX_PATH                     = 260
	MAX_LONG_PATH                = 0x8000
	INVALID_FILE_ATTRIBUTES      = 0xffffffff
	FILE_ATTRIBUTE_DIRECTORY     = 0x10
	FILE_ATTRIBUTE_NORMAL        = 0x80
	FILE_LIST_DIRECTORY          = 0x00000001
	FILE_SHARE_READ              = 0x00000001
	FILE_SHARE_WRITE             = 0x00000002
	FILE_SHARE_DELETE            = 0x00000004
	CREATE_NEW                   = 1
	CREATE_ALWAYS                = 2
	OPEN_EXISTING                = 3
	OPEN_ALWAYS                  = 4
	GENERIC_READ                 = 0x80000000
	GENERIC_WRITE                = 0x40000000
	FILE_FLAG_OPEN_REPARSE_POINT = 0x00200000
	FILE_FLAG_BACKUP_SEMANTICS   = 0x02000000
	FILE_FLAG_OVERLAPPED         = 0x40000000

	FILE_NOTIFY_CHANGE_FILE_NAME   = 0x001
	FILE_NOTIFY_CHANGE_DIR_NAME    = 0x002
	FILE_NOTIFY_CHANGE_ATTRIBUTES  = 0x004
	FILE_NOTIFY_CHANGE_SIZE        = 0x008
	FILE_NOTIFY_CHANGE_LAST_WRITE  = 0x010
	FILE_NOTIFY_CHANGE_LAST_ACCESS = 0x020
	FILE_NOTIFY_CHANGE_CREATION    = 0x040

	// not in package syscall
	ChangeSecurity = 0x100
	ValidFilter    = 0x17f

	FILE_ACTION_ADDED            = 1
	FILE_ACTION_REMOVED          = 2
	FILE_ACTION_MODIFIED         = 3
	FILE_ACTION_RENAMED_OLD_NAME = 4
	FILE_ACTION_RENAMED_NEW_NAME = 5
)

type Handle uintptr

const InvalidHandle = ^Handle(0)

type Overlapped struct {
	Internal     uintptr
	InternalHigh uintptr
	Offset       uint32
	OffsetHigh   uint32
	HEvent       Handle
}

type FileNotifyInformation struct {
	NextEntryOffset uint32
	Action          uint32
	FileNameLength  uint32
	FileName        uint16
}

type SecurityAttributes struct {
	Length             uint32
	SecurityDescriptor uintptr
	InheritHandle      uint32
}

func UTF16FromString(s string) ([]uint16, error) {
	if strings.IndexByte(s, 0) >= 0 {
		return nil, EINVAL
	}
	return append(utf16.Encode([]rune(s)), 0), nil
}

func StringToUTF16(s string) []uint16 { u, _ := UTF16FromString(s); return u }

func UTF16PtrFromString(s string) (*uint16, error) {
	u, err := UTF16FromString(s)
	if err != nil {
		return nil, err
	}
	return &u[0], nil
}

func UTF16ToString(s []uint16) string {
	for i, v := range s {
		if v == 0 {
			s = s[:i]
			break
		}
	}
	return string(utf16.Decode(s))
}

func ptrString(p *uint16) string {
	var u []uint16
	for q := unsafe.Pointer(p); *(*uint16)(q) != 0; q = unsafe.Add(q, 2) {
		u = append(u, *(*uint16)(q))
	}
	return string(utf16.Decode(u))
}

// Change is one record.
type Change struct {
	Action uint32
	Name   string
}

// Dir is a directory handle.
type Dir struct {
	H       Handle
	Path    string
	Filter  uint32 // of the first call
	Subtree bool
	Started bool // a call was made
	Pending bool // a call waits for changes
	Deleted bool // the directory is gone
	Calls   int
	port    *port
	buf     []byte
	ov      *Overlapped
	queue   []Change
	over    bool
}

type packet struct {
	n, key uint32
	ov     *Overlapped
	err    error
}

type port struct {
	h       Handle
	q       []packet
	waiting int
	closed  bool
}

type kernel struct {
	mu    sync.Mutex
	cond  *sync.Cond
	next  Handle
	dirs  map[Handle]*Dir
	ports map[Handle]*port
	wrong []string
	// Fail, if not nil, is asked before every call that can fail.
	fail   func(call, path string) error
	filter []FilterCall
}

// FilterCall is a first ReadDirectoryChanges call on a handle.
type FilterCall struct {
	Path    string
	Filter  uint32
	Subtree bool
}

var k = newKernel()

func newKernel() *kernel {
	k := &kernel{next: 0x100, dirs: map[Handle]*Dir{}, ports: map[Handle]*port{}}
	k.cond = sync.NewCond(&k.mu)
	return k
}

func (k *kernel) bad(format string, v ...interface{}) {
	k.wrong = append(k.wrong, fmt.Sprintf(format, v...))
}

func (k *kernel) refuse(call, path string) error {
	if k.fail == nil {
		return nil
	}
	return k.fail(call, path)
}

func stat(p string) (os.FileInfo, error) {
	fi, err := os.Stat(p)
	if errors.Is(err, os.ErrNotExist) {
		err = ERROR_FILE_NOT_FOUND
	} else if err != nil {
		err = ERROR_ACCESS_DENIED
	}
	return fi, err
}

func CreateFile(name *uint16, access, mode uint32, sa *SecurityAttributes, createmode, attrs uint32, templatefile int32) (Handle, error) {
	p := ptrString(name)
	fi, err := stat(p)
	k.mu.Lock()
	defer k.mu.Unlock()
	if err == nil {
		err = k.refuse("CreateFile", p)
	}
	if err != nil {
		return InvalidHandle, err
	}
	if fi.IsDir() && attrs&FILE_FLAG_BACKUP_SEMANTICS == 0 {
		return InvalidHandle, ERROR_ACCESS_DENIED
	}
	if mode&(FILE_SHARE_READ|FILE_SHARE_WRITE|FILE_SHARE_DELETE) != FILE_SHARE_READ|FILE_SHARE_WRITE|FILE_SHARE_DELETE {
		k.bad("%q opened in a way that stops others from changing it (sharing %#x)", p, mode)
	}
	if attrs&FILE_FLAG_OVERLAPPED == 0 {
		k.bad("%q opened for synchronous use", p)
	}
	k.next += 4
	d := &Dir{H: k.next, Path: p}
	if !fi.IsDir() {
		d.Path = "\x00file " + p // a file handle: changes cannot be read
	}
	k.dirs[d.H] = d
	return d.H, nil
}

func CreateIoCompletionPort(h, cph Handle, key, threads uint32) (Handle, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.refuse("CreateIoCompletionPort", ""); err != nil {
		return 0, err
	}
	if h == InvalidHandle {
		k.next += 4
		k.ports[k.next] = &port{h: k.next}
		return k.next, nil
	}
	d, p := k.dirs[h], k.ports[cph]
	if d == nil || p == nil {
		return 0, ERROR_INVALID_HANDLE
	}
	d.port = p
	return cph, nil
}

func ReadDirectoryChanges(h Handle, buf *byte, buflen uint32, subtree bool, mask uint32, retlen *uint32, ov *Overlapped, routine uintptr) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	d := k.dirs[h]
	if d == nil {
		return ERROR_INVALID_HANDLE
	}
	if err := k.refuse("ReadDirectoryChanges", d.Path); err != nil {
		return err
	}
	if d.Path[0] == 0 || mask&^ValidFilter != 0 || mask == 0 {
		return EINVAL
	}
	if d.Deleted {
		return ERROR_ACCESS_DENIED
	}
	if d.Pending {
		k.bad("two calls of ReadDirectoryChanges wait on one handle of %q with one buffer", d.Path)
	}
	if !d.Started {
		d.Started, d.Filter, d.Subtree = true, mask, subtree
		k.filter = append(k.filter, FilterCall{d.Path, mask, subtree})
	}
	if d.port == nil {
		k.bad("ReadDirectoryChanges on a handle of %q without a port", d.Path)
		return nil
	}
	d.Calls++
	d.Pending, d.ov, d.buf = true, ov, unsafe.Slice(buf, buflen)
	k.complete(d)
	return nil
}

// complete ends the pending call of d if there is something to report.
func (k *kernel) complete(d *Dir) {
	if !d.Pending || len(d.queue) == 0 && !d.over {
		return
	}
	var n uint32
	if d.over {
		d.queue, d.over = nil, false
	}
	last := -1
	for len(d.queue) > 0 {
		c := d.queue[0]
		u := utf16.Encode([]rune(c.Name))
		off := (n + 3) &^ 3
		need := off + 12 + uint32(2*len(u))
		if need > uint32(len(d.buf)) {
			break
		}
		if last >= 0 {
			*(*uint32)(unsafe.Pointer(&d.buf[last])) = off - uint32(last)
		}
		r := (*FileNotifyInformation)(unsafe.Pointer(&d.buf[off]))
		r.NextEntryOffset, r.Action, r.FileNameLength = 0, c.Action, uint32(2*len(u))
		for i, v := range u {
			*(*uint16)(unsafe.Pointer(&d.buf[off+12+uint32(2*i)])) = v
		}
		// what follows is what an earlier call left
		for i := need; i < uint32(len(d.buf)) && i < need+8; i++ {
			d.buf[i] = 0xa5
		}
		last, n = int(off), need
		d.queue = d.queue[1:]
	}
	d.Pending = false
	k.post(d.port, packet{n: n, ov: d.ov})
}

func (k *kernel) post(p *port, c packet) {
	p.q = append(p.q, c)
	k.cond.Broadcast()
}

func CloseHandle(h Handle) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if d := k.dirs[h]; d != nil {
		delete(k.dirs, h)
		if d.Pending {
			d.Pending = false
			k.post(d.port, packet{ov: d.ov})
		}
		return nil
	}
	if p := k.ports[h]; p != nil {
		delete(k.ports, h)
		p.closed = true
		k.cond.Broadcast()
		return nil
	}
	k.bad("a handle which is not open was closed")
	return ERROR_INVALID_HANDLE
}

func Close(h Handle) error { return CloseHandle(h) }

func CancelIo(h Handle) error { return CancelIoEx(h, nil) }

func CancelIoEx(h Handle, ov *Overlapped) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	d := k.dirs[h]
	if d == nil {
		return ERROR_INVALID_HANDLE
	}
	if !d.Pending {
		return ERROR_NOT_FOUND
	}
	d.Pending = false
	k.post(d.port, packet{ov: d.ov, err: ERROR_OPERATION_ABORTED})
	return nil
}

func PostQueuedCompletionStatus(cph Handle, n uint32, key uint32, ov *Overlapped) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	p := k.ports[cph]
	if p == nil {
		return ERROR_INVALID_HANDLE
	}
	if err := k.refuse("PostQueuedCompletionStatus", ""); err != nil {
		return err
	}
	k.post(p, packet{n: n, key: key, ov: ov})
	return nil
}

func GetQueuedCompletionStatus(cph Handle, n *uint32, key *uint32, ov **Overlapped, timeout uint32) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	p := k.ports[cph]
	if p == nil {
		*ov = nil
		return ERROR_INVALID_HANDLE
	}
	p.waiting++
	k.cond.Broadcast()
	for len(p.q) == 0 && !p.closed {
		k.cond.Wait()
	}
	p.waiting--
	if p.closed {
		*ov = nil
		return ERROR_ABANDONED_WAIT_0
	}
	c := p.q[0]
	p.q = p.q[1:]
	*n, *key, *ov = c.n, c.key, c.ov
	return c.err
}

func GetFileAttributes(name *uint16) (uint32, error) {
	fi, err := stat(ptrString(name))
	if err != nil {
		return INVALID_FILE_ATTRIBUTES, err
	}
	if fi.IsDir() {
		return FILE_ATTRIBUTE_DIRECTORY, nil
	}
	return FILE_ATTRIBUTE_NORMAL, nil
}

// The harness's side.

// Reset forgets everything; fail is asked before every call that can fail.
func Reset(fail func(call, path string) error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, p := range k.ports {
		p.closed = true
	}
	k.cond.Broadcast()
	k.dirs, k.ports = map[Handle]*Dir{}, map[Handle]*port{}
	k.wrong, k.filter, k.fail = nil, nil, fail
}

// Idle waits until every port has a waiter and nothing is queued; false means that this did
// not happen for a port without a waiter after the given number of rounds of the caller's
// wait function.
func Idle(wait func(round int) bool) bool {
	for i := 0; ; i++ {
		k.mu.Lock()
		idle := true
		for _, p := range k.ports {
			if len(p.q) > 0 || p.waiting == 0 {
				idle = false
			}
		}
		k.mu.Unlock()
		if idle {
			return true
		}
		if !wait(i) {
			return false
		}
	}
}

// Report tells the kernel of a change: the entry at path, a file or directory, was changed in a
// way that belongs to the classes of filter. The number of handles that took it is returned.
func Report(path string, action, filter uint32) (n int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, d := range k.dirs {
		if !d.Started || d.Deleted || d.Filter&filter == 0 {
			continue
		}
		name, ok := strings.CutPrefix(path, strings.TrimSuffix(d.Path, "/")+"/")
		if !ok || !d.Subtree && filepath.Dir(path) != filepath.Clean(d.Path) {
			continue
		}
		n++
		d.queue = append(d.queue, Change{action, name})
		k.complete(d)
	}
	return n
}

// Batch holds back completions while fn runs, so that several changes end up in one buffer.
func Batch(fn func(report func(path string, action, filter uint32))) {
	k.mu.Lock()
	defer k.mu.Unlock()
	fn(func(path string, action, filter uint32) {
		for _, d := range k.dirs {
			if !d.Started || d.Deleted || d.Filter&filter == 0 {
				continue
			}
			name, ok := strings.CutPrefix(path, strings.TrimSuffix(d.Path, "/")+"/")
			if !ok || !d.Subtree && filepath.Dir(path) != filepath.Clean(d.Path) {
				continue
			}
			d.queue = append(d.queue, Change{action, name})
		}
	})
	for _, d := range k.dirs {
		k.complete(d)
	}
}

// Removed tells the kernel that a directory is gone.
func Removed(path string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, d := range k.dirs {
		if d.Path != path || d.Deleted {
			continue
		}
		d.Deleted = true
		if d.Pending {
			d.Pending = false
			k.post(d.port, packet{ov: d.ov, err: ERROR_ACCESS_DENIED})
		}
	}
}

// Dirs lists the open directory handles.
func Dirs() (ds []Dir) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, d := range k.dirs {
		ds = append(ds, *d)
	}
	return ds
}

// Ports is the number of open ports.
func Ports() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.ports)
}

// Filters lists the first call on every handle since Reset.
func Filters() []FilterCall {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]FilterCall(nil), k.filter...)
}

// Wrong lists uses of the calls that the documentation does not allow.
func Wrong() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string(nil), k.wrong...)
}
