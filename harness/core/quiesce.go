package core

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"golang.org/x/sys/unix"
)

// The packages whose goroutines are the library's.
const (
	libPrefix  = "github.com/rjeczalik/notify."
	platPrefix = "vh/plat/"
)

func isLib(l []byte) bool {
	return bytes.HasPrefix(l, []byte(libPrefix)) || bytes.HasPrefix(l, []byte("created by "+libPrefix)) ||
		bytes.HasPrefix(l, []byte(platPrefix)) || bytes.HasPrefix(l, []byte("created by "+platPrefix))
}

var stackBuf = make([]byte, 1<<20)

// Signal interrupts the system calls all threads are in.
func Signal() {
	ents, err := os.ReadDir(ProcSelf + "/task")
	if err != nil {
		return
	}
	for _, e := range ents {
		if tid, err := strconv.Atoi(e.Name()); err == nil {
			unix.Tgkill(os.Getpid(), tid, unix.SIGURG)
		}
	}
}

// AllStacks returns the stacks of all goroutines.
func AllStacks() []byte {
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			return stackBuf[:n]
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

var pollFrames = [][]byte{[]byte("EpollWait"), []byte("epollwait"), []byte(".Poll("), []byte(".Ppoll("), []byte(".Select("), []byte("epoll_wait")}

// LibGoroutines returns the goroutines of the library, and those of them that are not
// parked waiting for input.
func LibGoroutines() (all, busy int, sample string) {
	for _, g := range bytes.Split(AllStacks(), []byte("\n\n")) {
		if !bytes.Contains(g, []byte(libPrefix)) && !bytes.Contains(g, []byte(platPrefix)) {
			continue
		}
		// Only frames and "created by" lines count, not file names.
		lib := false
		lines := bytes.Split(g, []byte("\n"))
		for _, l := range lines[1:] {
			if isLib(l) {
				lib = true
				break
			}
		}
		if !lib {
			continue
		}
		all++
		hdr := lines[0]
		i, j := bytes.IndexByte(hdr, '['), bytes.IndexByte(hdr, ']')
		if i < 0 || j < i {
			busy++
			continue
		}
		state := string(hdr[i+1 : j])
		if k := strings.IndexByte(state, ','); k >= 0 {
			state = state[:k]
		}
		switch state {
		case "chan receive", "select", "IO wait", "sync.Cond.Wait", "chan receive (nil chan)", "select (no cases)":
			continue
		case "syscall":
			idle := false
			for _, f := range pollFrames {
				if bytes.Contains(g, f) {
					idle = true
				}
			}
			if idle {
				continue
			}
		}
		busy++
		if sample == "" {
			sample = string(g)
		}
	}
	return
}

// ProcSelf is where the files about this process are.
var ProcSelf = "/proc/self"

// InotifyFDs lists the inotify descriptors of the process.
func InotifyFDs() []int {
	var fds []int
	ents, err := os.ReadDir(ProcSelf + "/fd")
	if err != nil {
		Fatalf("reading %s/fd: %v", ProcSelf, err)
	}
	for _, e := range ents {
		if s, err := os.Readlink(ProcSelf + "/fd/" + e.Name()); err == nil && s == "anon_inode:inotify" {
			n, _ := strconv.Atoi(e.Name())
			fds = append(fds, n)
		}
	}
	return fds
}

// OwnFDs are inotify descriptors of the harness itself.
var OwnFDs = map[int]bool{}

func pending(fds []int) int {
	t := 0
	for _, fd := range fds {
		if OwnFDs[fd] {
			continue
		}
		n, err := unix.IoctlGetInt(fd, unix.TIOCINQ) // FIONREAD
		if err != nil {
			if errors.Is(err, unix.EBADF) || errors.Is(err, unix.ENOTTY) {
				continue
			}
			Fatalf("FIONREAD: %v", err)
		}
		t += n
	}
	return t
}

// ErrHang reports that the library did not become idle.
type ErrHang struct{ Stack string }

func (e ErrHang) Error() string { return "library did not become idle:\n" + e.Stack }

// QuiesceTimeout bounds Quiesce; exceeding it is reported as a hang and confirmed by the
// driver in a fresh process with a longer bound.
var QuiesceTimeout = 20 * time.Second

// Quiesce waits until all notifications have been read from the kernel and every goroutine
// of the library is parked waiting for input.
func Quiesce() error {
	deadline := time.Now().Add(QuiesceTimeout)
	wait := 20 * time.Microsecond
	fds := InotifyFDs()
	stable := 0
	for {
		if pending(fds) == 0 {
			_, busy, sample := LibGoroutines()
			if busy == 0 && pending(fds) == 0 {
				if stable++; stable >= 2 {
					return nil
				}
				runtime.Gosched()
				continue
			}
			if time.Now().After(deadline) {
				return ErrHang{sample}
			}
		} else if time.Now().After(deadline) {
			return ErrHang{"notifications are not read from the kernel\n" + string(AllStacks())}
		}
		stable = 0
		time.Sleep(wait)
		if wait < 2*time.Millisecond {
			wait *= 2
		}
	}
}

// KWatch is one kernel watch.
type KWatch struct {
	FD, Wd int
	Ino    uint64
	Dev    uint64
	Mask   uint32
}

// KernelWatches parses fdinfo of all inotify descriptors but the harness's own.
func KernelWatches() []KWatch {
	var ws []KWatch
	for _, fd := range InotifyFDs() {
		if OwnFDs[fd] {
			continue
		}
		b, err := os.ReadFile(fmt.Sprintf("%s/fdinfo/%d", ProcSelf, fd))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "inotify ") {
				continue
			}
			w := KWatch{FD: fd}
			for _, f := range strings.Fields(l)[1:] {
				k, v, _ := strings.Cut(f, ":")
				switch k {
				case "wd":
					n, _ := strconv.ParseInt(v, 16, 64)
					w.Wd = int(n)
				case "ino":
					w.Ino, _ = strconv.ParseUint(v, 16, 64)
				case "sdev":
					w.Dev, _ = strconv.ParseUint(v, 16, 64)
				case "mask":
					m, _ := strconv.ParseUint(v, 16, 32)
					w.Mask = uint32(m)
				}
			}
			ws = append(ws, w)
		}
	}
	return ws
}

// Fatalf ends a worker because the harness itself cannot go on.
func Fatalf(format string, v ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", v...)
	os.Exit(3)
}

// Parked reports whether a goroutine running fn waits in a select or channel operation.
func Parked(fn string) bool {
	for _, g := range bytes.Split(AllStacks(), []byte("\n\n")) {
		hdr, _, _ := bytes.Cut(g, []byte("\n"))
		if bytes.Contains(g, []byte(fn)) && (bytes.Contains(hdr, []byte("[select")) || bytes.Contains(hdr, []byte("[chan receive"))) {
			return true
		}
	}
	return false
}
