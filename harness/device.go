package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// FSEvent is one file-system call on the scratch directory.
type FSEvent struct {
	Name        string
	Path, Path2 string
	Fd          int
	Flags       int
	Mode        uint32
	Data        []byte
	Off         int64
	N           int
	Err         error
	Fault       string
}

func (e FSEvent) String() string {
	s := fmt.Sprintf("%s %s", e.Name, e.Path)
	if e.Path2 != "" {
		s += " -> " + e.Path2
	}
	if e.Data != nil {
		s += fmt.Sprintf(" [%d bytes at %d]", len(e.Data), e.Off)
	}
	if e.Err != nil {
		s += " = " + e.Err.Error()
	}
	if e.Fault != "" {
		s += " (injected: " + e.Fault + ")"
	}
	return s
}

// Fault is what happens to a call instead of its normal execution.
type Fault struct {
	Name  string
	Err   error
	Short int   // >= 0: perform only this many bytes of the write
	Then  error // after a short write, the error of the next write
	Twice bool  // the first call fails, and every later call of the kind too
}

type openFile struct {
	path  string
	then  error
	flags int
}

// Device observes and disturbs the file-system calls of a session.
type Device struct {
	root   string
	cwd    string
	record bool
	log    []FSEvent
	fds    [1024]*openFile
	n      int
	fault  func(i int, c *syscall.VerifCall, path string) *Fault
	after  func(ev *FSEvent)
}

func NewDevice(root string) *Device {
	cwd, _ := os.Getwd()
	return &Device{root: root, cwd: cwd}
}

func (d *Device) resolve(fd int, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	if f := d.fd(fd); f != nil {
		return filepath.Join(f.path, p)
	}
	return filepath.Join(d.cwd, p)
}

func (d *Device) fd(n int) *openFile {
	if n < 0 || n >= len(d.fds) {
		return nil
	}
	return d.fds[n]
}

func (d *Device) setFd(n int, f *openFile) {
	if n >= 0 && n < len(d.fds) {
		d.fds[n] = f
	}
}

func (d *Device) inside(p string) bool {
	return p == d.root || strings.HasPrefix(p, d.root+"/")
}

func (d *Device) call(t *Thread, c *syscall.VerifCall, do func()) {
	var path, path2 string
	f := d.fd(c.Fd)
	switch c.Name {
	case "write", "pwrite", "read", "pread", "fsync", "fdatasync", "ftruncate", "close", "fchmod", "fstat":
		if f == nil {
			do()
			return
		}
		path = f.path
	case "renameat", "linkat":
		path, path2 = d.resolve(c.Fd, c.Path), d.resolve(c.Fd2, c.Path2)
	case "symlinkat":
		path, path2 = d.resolve(c.Fd2, c.Path2), c.Path
	default:
		path = d.resolve(c.Fd, c.Path)
	}
	if !d.inside(path) && !(path2 != "" && d.inside(path2)) {
		do()
		return
	}
	i := d.n
	d.n++
	ev := FSEvent{Name: c.Name, Path: path, Path2: path2, Fd: c.Fd, Flags: c.Flags, Mode: c.Mode, Off: c.Off}
	if d.record {
		switch c.Name {
		case "write":
			off, err := syscall.Seek(c.Fd, 0, 1)
			if err == nil {
				ev.Off = off
			}
			if f.flags&syscall.O_APPEND != 0 {
				var st syscall.Stat_t
				if syscall.Fstat(c.Fd, &st) == nil {
					ev.Off = st.Size
				}
			}
		}
	}
	var ft *Fault
	if (c.Name == "write" || c.Name == "pwrite") && f.then != nil {
		ft = &Fault{Name: "after short write", Err: f.then, Short: -1}
		f.then = nil
	} else if t.fault != nil {
		ft = t.fault(i, c, path)
	} else if d.fault != nil {
		ft = d.fault(i, c, path)
	}
	switch {
	case ft == nil:
		do()
	case ft.Short >= 0 && (c.Name == "write" || c.Name == "pwrite"):
		ev.Fault = ft.Name
		n := ft.Short
		if n > len(c.Buf) {
			n = len(c.Buf)
		}
		c.Buf = c.Buf[:n]
		do()
		f.then = ft.Then
	case c.Name == "close":
		ev.Fault = ft.Name
		do()
		c.Err = ft.Err
	default:
		ev.Fault = ft.Name
		c.N = -1
		c.Err = ft.Err
	}
	if c.Name == "close" {
		d.setFd(c.Fd, nil)
	}
	if (c.Name == "openat" || c.Name == "Openat") && c.Err == nil {
		d.setFd(c.N, &openFile{path: path, flags: c.Flags})
	}
	ev.N, ev.Err = c.N, c.Err
	if d.record {
		if c.Buf != nil && (c.Name == "write" || c.Name == "pwrite") && c.Err == nil {
			ev.Data = append([]byte{}, c.Buf[:c.N]...)
		}
		d.log = append(d.log, ev)
	}
	if d.after != nil {
		d.after(&ev)
	}
}

// mutating reports whether a call may change the file system.
func mutating(name string, flags int) bool {
	switch name {
	case "write", "pwrite", "renameat", "unlinkat", "mkdirat", "ftruncate", "truncate", "fchmod", "fchmodat", "linkat", "symlinkat":
		return true
	case "openat":
		return flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	}
	return false
}
