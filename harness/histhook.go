//go:build histhook

package main

import (
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
)

// Built with an overlay of the standard library's syscall package (hist.go) that
// calls VerifHook first in everything that touches files.

var hookBusy, hookOn int32

func init() {
	histQuiet = func(f func()) {
		was := atomic.SwapInt32(&hookBusy, 1)
		f()
		atomic.StoreInt32(&hookBusy, was)
	}
	histSetup = func(dir string, op func(h *histOp)) {
		if op == nil {
			atomic.StoreInt32(&hookOn, 0)
			return
		}
		syscall.VerifHook = func(name string, fd int, path, path2 string, flags int, p []byte) (bool, int, error) {
			if atomic.LoadInt32(&hookOn) == 0 || atomic.LoadInt32(&hookBusy) != 0 {
				return false, 0, nil
			}
			if fd >= 0 {
				var b [4096]byte
				n, err := syscall.Readlink("/proc/self/fd/"+strconv.Itoa(fd), b[:])
				if err != nil {
					return false, 0, nil
				}
				path = string(b[:n])
			}
			if !strings.HasPrefix(path, dir+"/") {
				return false, 0, nil
			}
			atomic.StoreInt32(&hookBusy, 1)
			defer atomic.StoreInt32(&hookBusy, 0)
			h := &histOp{name: name, on: "tmp", p: p}
			if strings.TrimSuffix(path, " (deleted)") == dir+"/h" {
				h.on = "file"
			}
			h.do = func(p []byte) (n int, err error) {
				switch name {
				case "write":
					return syscall.Write(fd, p)
				case "open":
					return syscall.Open(path, flags, 0666)
				case "rename":
					return 0, os.Rename(path, path2)
				case "unlink":
					return 0, os.Remove(path)
				case "close":
					return 0, syscall.Close(fd)
				case "ftruncate":
					return 0, syscall.Ftruncate(fd, int64(flags))
				case "truncate":
					return 0, os.Truncate(path, int64(flags))
				case "pwrite":
					return syscall.Pwrite(fd, p, int64(flags))
				}
				return 0, nil
			}
			op(h)
			return h.handled, h.n, h.err
		}
		atomic.StoreInt32(&hookOn, 1)
	}
}
