package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/creack/pty"
	"github.com/ricochet1k/termemu"
)

// ptyBackend passes what the simulated backend decides through a real PTY and
// PTYBackend: reads, writes and sizes. How much is transferred when, and what
// fails, is still up to the simulated backend, so that runs are repeatable.
type ptyBackend struct {
	*SimBackend
	real  *termemu.PTYBackend
	slave *os.File
	data  bool // the slave is in raw mode
}

func newPTY(w *World) *ptyBackend {
	b := &ptyBackend{SimBackend: w.be, real: &termemu.PTYBackend{}}
	s, err := b.real.Open()
	if err != nil {
		w.st.Probe("pty_unavailable")
		return b
	}
	w.st.Probe("pty_opened")
	b.slave = s
	b.data = rawMode(s)
	return b
}

// rawMode makes the PTY pass all bytes unchanged.
func rawMode(f *os.File) bool {
	var t syscall.Termios
	ioctl := func(req uintptr) bool {
		c, err := f.SyscallConn()
		ok := false
		if err == nil {
			_ = c.Control(func(fd uintptr) {
				_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(unsafe.Pointer(&t)))
				ok = e == 0
			})
		}
		return ok
	}
	if !ioctl(syscall.TCGETS) {
		return false
	}
	t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
	t.Cflag = t.Cflag&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	return ioctl(syscall.TCSETS)
}

// transfer writes out to w and returns what comes out of r. A PTY delivers at
// once what is written to it; the limit is for code that loses some of it.
func transfer(w io.Writer, out []byte, r io.Reader) (n int, werr error, got []byte) {
	type result struct {
		n   int
		err error
		buf []byte
	}
	read := make(chan []byte, 1)
	wrote := make(chan result, 1)
	go func() {
		buf := make([]byte, len(out))
		n, _ := io.ReadFull(r, buf)
		read <- buf[:n]
	}()
	go func() {
		n, err := w.Write(out)
		wrote <- result{n: n, err: err}
	}()
	limit := time.After(10 * time.Second)
	select {
	case res := <-wrote:
		n, werr = res.n, res.err
	case <-limit:
		return 0, errSim, nil
	}
	if n != len(out) || werr != nil {
		return n, werr, nil
	}
	select {
	case got = <-read:
	case <-limit:
	}
	return n, nil, got
}

func (b *ptyBackend) Read(p []byte) (int, error) {
	n, err := b.SimBackend.Read(p)
	if n == 0 || !b.data {
		return n, err
	}
	m, werr, got := transfer(b.slave, p[:n], b.real)
	if m != n || werr != nil {
		b.w.st.Probe("pty_write_failed")
		return n, err
	}
	if len(got) != n {
		b.w.k.fail("bytes", "PTYBackend.Read does not deliver the %d bytes that the application wrote", n)
	}
	copy(p, got)
	return n, err
}

func (b *ptyBackend) Write(p []byte) (int, error) {
	orig := append([]byte(nil), p...)
	n, err := b.SimBackend.Write(p)
	if n == 0 || !b.data {
		return n, err
	}
	m, werr, got := transfer(b.real, p[:n], b.slave)
	if m != n || werr != nil {
		b.w.k.fail("write", "PTYBackend.Write of %d bytes returns %d, %v", n, m, werr)
	} else if !bytes.Equal(got, orig[:n]) {
		b.w.k.fail("write", "PTYBackend.Write sends %q instead of %q", got, orig[:n])
	}
	return n, err
}

func (b *ptyBackend) SetSize(w, h int) error {
	err := b.SimBackend.SetSize(w, h)
	if b.slave == nil {
		return err
	}
	return b.real.SetSize(w, h)
}

func (b *ptyBackend) check() {
	if b.slave == nil {
		return
	}
	w, h := b.w.term.Size()
	rows, cols, err := pty.Getsize(b.slave)
	if err == nil && (rows != h || cols != w) {
		b.w.report(&Viol{Cat: "setsize", Msg: fmt.Sprintf("the PTY has %d rows and %d columns, the terminal is %dx%d", rows, cols, w, h)})
	}
	b.slave.Close() // the master is closed when it is collected
}
