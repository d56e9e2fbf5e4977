package harness

// A pseudo terminal for the checks of the terminal and hotkey packages.

import (
	"fmt"
	"os"
	"strings"

	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/unix"
)

// Pty is a pseudo terminal; the slave side takes the place of standard input
type Pty struct {
	master, slave int
	stdin         *os.File
	old           *os.File
	closed        bool
}

func tryPty() (*Pty, error) {
	p := &Pty{}
	var err error
	if p.master, err = unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0); err != nil {
		return nil, err
	}
	var lock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(p.master), unix.TIOCSPTLCK, uintptr(unsafe.Pointer(&lock))); e != 0 {
		unix.Close(p.master)
		return nil, e
	}
	n, err := unix.IoctlGetInt(p.master, unix.TIOCGPTN)
	if err != nil {
		unix.Close(p.master)
		return nil, err
	}
	if p.slave, err = unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0); err != nil {
		unix.Close(p.master)
		return nil, err
	}
	return p, nil
}

// newPty opens a pseudo terminal
func newPty() *Pty {
	for i := 0; ; i++ {
		p, err := tryPty()
		if err == nil {
			return p
		}
		if i > 200 { // other checks may use all of them for a while
			panic(harnessBug("no pseudo terminal: " + err.Error()))
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// asStdin makes the slave side the standard input of the process
func (p *Pty) asStdin() {
	fd, err := unix.FcntlInt(uintptr(p.slave), unix.F_DUPFD_CLOEXEC, 10)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	p.stdin = os.NewFile(uintptr(fd), "/dev/stdin")
	p.old, os.Stdin = os.Stdin, p.stdin
}

// attrs reads the attributes of the terminal
func (p *Pty) attrs() unix.Termios {
	t, err := unix.IoctlGetTermios(p.slave, unix.TCGETS)
	if err != nil {
		panic(harnessBug("tcgetattr: " + err.Error()))
	}
	return *t
}

// setAttrs sets the attributes and returns those the system accepted
func (p *Pty) setAttrs(t unix.Termios) unix.Termios {
	if err := unix.IoctlSetTermios(p.slave, unix.TCSETS, &t); err != nil {
		panic(harnessBug("tcsetattr: " + err.Error()))
	}
	return p.attrs()
}

// press sends the bytes of a key
func (p *Pty) press(key []byte) {
	if n, err := unix.Write(p.master, key); err != nil || n != len(key) {
		panic(harnessBug(fmt.Sprint("write to pseudo terminal: ", n, err)))
	}
}

// waiting returns the number of bytes which wait to be read
func (p *Pty) waiting() int {
	n, err := unix.IoctlGetInt(p.slave, unix.TIOCINQ)
	if err != nil {
		panic(harnessBug("fionread: " + err.Error()))
	}
	return n
}

// shown returns what the terminal displayed up to the marker, which it writes
func (p *Pty) shown() (s string, ok bool) {
	const marker = "#end#"
	// output processing off, so that the marker comes as it is
	t := p.attrs()
	t.Oflag &^= unix.OPOST
	p.setAttrs(t)
	unix.Write(p.slave, []byte(marker))
	unix.SetNonblock(p.master, true)
	defer unix.SetNonblock(p.master, false)
	b := make([]byte, 4096)
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		n, err := unix.Read(p.master, b)
		if err == unix.EAGAIN || err == unix.EINTR {
			time.Sleep(100 * time.Microsecond)
			continue
		}
		if err != nil {
			return s, false
		}
		if s += string(b[:n]); strings.HasSuffix(s, marker) {
			return strings.TrimSuffix(s, marker), true
		}
	}
	return s, false
}

// hangup closes the master side: pending reads of the slave side end
func (p *Pty) hangup() {
	if p.master >= 0 {
		unix.Close(p.master)
		p.master = -1
	}
}

// close closes both sides
func (p *Pty) close() {
	if p.closed {
		return
	}
	p.closed = true
	p.hangup()
	unix.Close(p.slave)
	if p.stdin != nil {
		os.Stdin = p.old
		p.stdin.Close()
	}
}
