package harness

// A simulated datagram network: in-memory net.PacketConn endpoints, a fault
// policy which decides the fate of every datagram, and a capture of everything
// that was sent and everything that arrived.

import (
	"container/heap"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// maxIPv4Payload is the largest UDP payload an IPv4 host can send
const maxIPv4Payload = 65507

// Datagram is one datagram put on the network
type Datagram struct {
	Seq     int       // position among all datagrams sent
	T       time.Time // time of sending
	From    string
	To      string
	Data    []byte
	Hdr     Hdr
	Copy    int // how often a datagram with this From, To, status and id was sent before
	TooLong bool
	EP      *Endpoint       // the endpoint which sent it
	Copies  []time.Duration // delays of the copies delivered (empty: lost)
}

// Arrival is one datagram handed to an endpoint's receive queue
type Arrival struct {
	T    time.Time
	D    *Datagram
	Data []byte // as it arrived (perhaps altered)
	To   string
	From string
	Seq  int // number of datagrams sent by then
}

// Fate is what the policy decides for a datagram
type Fate struct {
	Delays []time.Duration // one delivered copy per delay
	Alter  func(data []byte) []byte
}

// Net is the simulated network
type Net struct {
	mu       sync.Mutex
	hosts    map[string]*Endpoint
	nextIP   string
	nextPort int
	Policy   func(d *Datagram) Fate
	Sent     []*Datagram
	Arrived  []Arrival
	counts   map[string]int
	onSend   func(d *Datagram)
	Latency  time.Duration
	Tick     time.Duration // datagrams arrive only at multiples of this after the start
	start    time.Time
	closed   bool
	noCap    bool // do not capture (long runs)
	nSent    int
	flight   flight // datagrams on their way
	nFlight  int
}

// NewNet creates a network with the given base latency
func NewNet(latency time.Duration) *Net {
	return &Net{hosts: map[string]*Endpoint{}, counts: map[string]int{}, Latency: latency, nextPort: 40000, start: time.Now()}
}

// Endpoint implements net.PacketConn
type Endpoint struct {
	n      *Net
	local  *net.UDPAddr // address as seen by peers
	mu     sync.Mutex
	q      []Arrival
	notify chan struct{}
	closed chan struct{}
	once   sync.Once
	// reads counts the datagrams taken from the queue
	reads int
}

func key(ip string, port int) string { return net.JoinHostPort(ip, fmt.Sprint(port)) }

// Bind opens an endpoint on ip:port (port 0 picks a free one)
func (n *Net) Bind(ip string, port int) (*Endpoint, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if port == 0 {
		for {
			n.nextPort++
			if _, ok := n.hosts[key(ip, n.nextPort)]; !ok {
				break
			}
		}
		port = n.nextPort
	}
	k := key(ip, port)
	if _, ok := n.hosts[k]; ok {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	e := &Endpoint{n: n, local: &net.UDPAddr{IP: net.ParseIP(ip), Port: port},
		notify: make(chan struct{}, 1), closed: make(chan struct{})}
	n.hosts[k] = e
	return e, nil
}

// ListenPacket is the replacement of net.ListenPacket
func (n *Net) ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := net.ResolveUDPAddr("udp", address)
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	ip := n.nextIP
	n.mu.Unlock()
	if a.IP != nil && !a.IP.IsUnspecified() {
		ip = a.IP.String()
	} else if six := strings.Contains(ip, ":"); six && (network == "udp4" || a.IP.To4() != nil) || !six && network == "udp6" {
		ip = "192.0.2.1" // the socket is of the other family, nobody reaches it
	}
	e, err := n.Bind(ip, a.Port)
	if err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Endpoint) addr() string { return e.local.String() }

// ReadFrom implements net.PacketConn
func (e *Endpoint) ReadFrom(p []byte) (int, net.Addr, error) {
	for {
		e.mu.Lock()
		select {
		case <-e.closed:
			e.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		default:
		}
		if len(e.q) > 0 {
			a := e.q[0]
			e.q[0] = Arrival{}
			e.q = e.q[1:]
			e.reads++
			e.mu.Unlock()
			yield()
			from := net.UDPAddrFromAddrPort(netip.MustParseAddrPort(a.From))
			return copy(p, a.Data), from, nil
		}
		e.mu.Unlock()
		select {
		case <-e.notify:
		case <-e.closed:
		}
	}
}

// WriteTo implements net.PacketConn
func (e *Endpoint) WriteTo(p []byte, addr net.Addr) (int, error) {
	select {
	case <-e.closed:
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	default:
	}
	ua, ok := addr.(*net.UDPAddr)
	if !ok || ua == nil {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.EINVAL}
	}
	yield()
	if err := e.n.send(e, e.addr(), ua.String(), p); err != nil {
		return 0, err
	}
	yield()
	return len(p), nil
}

// yield lets other goroutines go on, now and then: more orders of what happens
// at the same instant
func yield() {
	if r := rand.Uint32(); r%16 == 0 {
		for range r >> 8 % 30 {
			runtime.Gosched()
		}
	}
}

var errTooLong = &net.OpError{Op: "write", Net: "udp", Err: os.NewSyscallError("sendto", syscall.EMSGSIZE)}

func (n *Net) send(e *Endpoint, from, to string, p []byte) error {
	d := &Datagram{T: time.Now(), EP: e, From: from, To: to, Data: append([]byte(nil), p...), Hdr: parseHdr(p)}
	n.mu.Lock()
	if e != nil && n.hosts[from] != e {
		n.mu.Unlock()
		return &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	d.Seq = n.nSent
	n.nSent++
	if !n.noCap {
		n.Sent = append(n.Sent, d)
		ck := fmt.Sprintf("%s>%s/%d/%d", from, to, d.Hdr.Status, d.Hdr.ID)
		d.Copy = n.counts[ck]
		n.counts[ck]++
	}
	if n.onSend != nil {
		n.onSend(d)
	}
	if len(p) > maxIPv4Payload {
		d.TooLong = true
		n.mu.Unlock()
		return errTooLong
	}
	f := Fate{Delays: []time.Duration{n.Latency}}
	if n.Policy != nil {
		f = n.Policy(d)
	}
	d.Copies = f.Delays
	data := d.Data
	if f.Alter != nil {
		data = f.Alter(append([]byte(nil), d.Data...))
	}
	due := false
	for _, dl := range f.Delays {
		if n.Tick > 0 {
			at := d.T.Add(dl).Sub(n.start)
			dl += (n.Tick - at%n.Tick) % n.Tick
		}
		heap.Push(&n.flight, inFlight{d.T.Add(dl), n.nFlight, d, data})
		n.nFlight++
		if dl > 0 {
			time.AfterFunc(dl, n.flush)
		} else {
			due = true
		}
	}
	if due {
		n.flushLocked()
	}
	n.mu.Unlock()
	return nil
}

// inFlight is a datagram on its way
type inFlight struct {
	due  time.Time
	seq  int
	d    *Datagram
	data []byte
}

type flight []inFlight

func (f flight) Len() int { return len(f) }
func (f flight) Less(i, j int) bool {
	return f[i].due.Before(f[j].due) || f[i].due.Equal(f[j].due) && f[i].seq < f[j].seq
}
func (f flight) Swap(i, j int) { f[i], f[j] = f[j], f[i] }
func (f *flight) Push(x any)   { *f = append(*f, x.(inFlight)) }
func (f *flight) Pop() any {
	l := len(*f) - 1
	x := (*f)[l]
	(*f)[l] = inFlight{}
	*f = (*f)[:l]
	return x
}

// flush delivers what is due, in the order of sending when due at the same time
func (n *Net) flush() {
	n.mu.Lock()
	n.flushLocked()
	n.mu.Unlock()
}

func (n *Net) flushLocked() {
	now := time.Now()
	for len(n.flight) > 0 && !n.flight[0].due.After(now) {
		f := heap.Pop(&n.flight).(inFlight)
		n.inject(f.d, f.d.From, f.d.To, f.data)
	}
}

// Inject puts a datagram into the receive queue of an endpoint at once
func (n *Net) Inject(d *Datagram, from, to string, data []byte) {
	n.mu.Lock()
	n.inject(d, from, to, data)
	n.mu.Unlock()
}

func (n *Net) inject(d *Datagram, from, to string, data []byte) {
	e := n.hosts[to]
	if e == nil || n.closed {
		return
	}
	a := Arrival{T: time.Now(), D: d, Data: append([]byte(nil), data...), To: to, From: from, Seq: n.nSent}
	if !n.noCap {
		n.Arrived = append(n.Arrived, a)
	}
	e.mu.Lock()
	e.q = append(e.q, a)
	e.mu.Unlock()
	select {
	case e.notify <- struct{}{}:
	default:
	}
}

// Close implements net.PacketConn
func (e *Endpoint) Close() error {
	err := errors.New("already closed")
	e.once.Do(func() {
		e.n.mu.Lock()
		if e.n.hosts[e.addr()] == e {
			delete(e.n.hosts, e.addr())
		}
		e.n.mu.Unlock()
		close(e.closed)
		err = nil
	})
	if err != nil {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	return nil
}

// LocalAddr is the wildcard address with the port, as for a real wildcard bind
func (e *Endpoint) LocalAddr() net.Addr {
	return &net.UDPAddr{IP: net.IPv6unspecified, Port: e.local.Port}
}

// SetDeadline is not used by tru
func (e *Endpoint) SetDeadline(time.Time) error      { return nil }
func (e *Endpoint) SetReadDeadline(time.Time) error  { return nil }
func (e *Endpoint) SetWriteDeadline(time.Time) error { return nil }

// Close shuts the network: nothing is delivered any more
func (n *Net) Close() {
	n.mu.Lock()
	n.closed = true
	var es []*Endpoint
	for _, e := range n.hosts {
		es = append(es, e)
	}
	n.mu.Unlock()
	for _, e := range es {
		e.Close()
	}
}

// SetPolicy replaces the fault policy
func (n *Net) SetPolicy(p func(d *Datagram) Fate) {
	n.mu.Lock()
	n.Policy = p
	n.mu.Unlock()
}

// SentCopy returns what was sent so far
func (n *Net) SentCopy() []*Datagram {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Datagram(nil), n.Sent...)
}

// ArrivedCopy returns what arrived so far, in order of arrival
func (n *Net) ArrivedCopy() []Arrival {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Arrival(nil), n.Arrived...)
}

// Bound tells the addresses in use
func (n *Net) Bound() (l []string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for k := range n.hosts {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// Hdr is a packet header
type Hdr struct {
	Status int
	ID     uint32
	OK     bool
}

func parseHdr(p []byte) Hdr {
	if len(p) < 4 {
		return Hdr{Status: -1}
	}
	v := binary.LittleEndian.Uint32(p)
	return Hdr{Status: int(v >> 24), ID: v & (1<<20 - 1), OK: true}
}
