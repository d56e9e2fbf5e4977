package harness

// A simulated network with as little synchronisation as there can be: packets
// of different pairs of hosts must not order the goroutines which send them,
// or the race detector would not see their races.

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type lightPacket struct {
	from net.UDPAddr
	data []byte
	due  time.Time
}

// LightNet is the network; all hosts have the same IP
type LightNet struct {
	hosts   sync.Map // port -> *lightConn
	port    atomic.Int32
	latency time.Duration
	lossPm  int // per mille
	dupPm   int
	calm    atomic.Bool // no losses any more
}

type lightConn struct {
	n      *LightNet
	port   int
	q      chan lightPacket
	closed chan struct{}
	once   sync.Once
}

const lightIP = "10.0.0.1"

func lightAddr(port int) string { return fmt.Sprintf("%s:%d", lightIP, port) }

// ListenPacket is the replacement of net.ListenPacket
func (n *LightNet) ListenPacket(_, address string) (net.PacketConn, error) {
	var port int
	fmt.Sscanf(address[strings.LastIndex(address, ":")+1:], "%d", &port)
	for p := port; ; {
		if port == 0 {
			p = 40000 + int(n.port.Add(1))
		}
		c := &lightConn{n: n, port: p, q: make(chan lightPacket, 4096), closed: make(chan struct{})}
		if _, taken := n.hosts.LoadOrStore(p, c); !taken {
			return c, nil
		}
		if port != 0 {
			return nil, &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
}

func (c *lightConn) WriteTo(p []byte, addr net.Addr) (int, error) {
	select {
	case <-c.closed:
		return 0, net.ErrClosed
	default:
	}
	a, ok := addr.(*net.UDPAddr)
	if !ok || a == nil {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.EINVAL}
	}
	if len(p) > maxIPv4Payload {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.EMSGSIZE}
	}
	n := 1
	if !c.n.calm.Load() {
		if rand.IntN(1000) < c.n.lossPm {
			n = 0
		} else if rand.IntN(1000) < c.n.dupPm {
			n = 2
		}
	}
	v, ok := c.n.hosts.Load(a.Port)
	if !ok {
		return len(p), nil
	}
	to := v.(*lightConn)
	for range n {
		pk := lightPacket{from: net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: c.port},
			data: append([]byte(nil), p...), due: time.Now().Add(c.n.latency)}
		select {
		case to.q <- pk:
		default: // lost
		}
	}
	return len(p), nil
}

func (c *lightConn) ReadFrom(p []byte) (int, net.Addr, error) {
	select {
	case <-c.closed:
		return 0, nil, net.ErrClosed
	case pk := <-c.q:
		if d := time.Until(pk.due); d > 0 {
			time.Sleep(d)
		}
		return copy(p, pk.data), &pk.from, nil
	}
}

func (c *lightConn) Close() error {
	err := net.ErrClosed
	c.once.Do(func() {
		c.n.hosts.CompareAndDelete(c.port, c)
		close(c.closed)
		err = nil
	})
	return err
}

func (c *lightConn) LocalAddr() net.Addr {
	return &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: c.port}
}
func (c *lightConn) SetDeadline(time.Time) error      { return nil }
func (c *lightConn) SetReadDeadline(time.Time) error  { return nil }
func (c *lightConn) SetWriteDeadline(time.Time) error { return nil }
