package proc

import (
	"bytes"
	"encoding/binary"
	"syscall"
)

// watcher counts files that appear in a directory under a name by being moved
// or created there.
type watcher struct {
	fd    int
	count map[string]int
	odd   []string // events on watched names other than being moved there
}

func watch(dir string) (*watcher, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_MOVED_TO|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	return &watcher{fd: fd, count: map[string]int{}}, nil
}

// poll reads the events that have happened so far.
func (w *watcher) poll() {
	b := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return
		}
		for o := 0; o+16 <= n; {
			mask := binary.LittleEndian.Uint32(b[o+4:])
			l := int(binary.LittleEndian.Uint32(b[o+12:]))
			name := string(bytes.TrimRight(b[o+16:o+16+l], "\x00"))
			o += 16 + l
			if mask&(syscall.IN_MOVED_TO|syscall.IN_CREATE) != 0 {
				w.count[name]++
			}
		}
	}
}

func (w *watcher) close() { syscall.Close(w.fd) }
