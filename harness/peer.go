package harness

// A reference peer: an independent implementation of the TRU v5 protocol on a
// raw endpoint of the simulated network. It answers by itself only what it is
// told to, so that scenarios can withhold, forge and reorder what it sends.

import (
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"
)

// PeerPacket is a datagram a peer received
type PeerPacket struct {
	T     time.Time
	From  string
	Hdr   Hdr
	Body  []byte
	Plain []byte // decrypted, for data packets of a session
	Err   error
}

// Sess is an established session of a peer with a node
type Sess struct {
	p      *Peer
	Addr   string // the node
	Key    []byte
	Pub    *rsa.PublicKey // of the node, when it is the server
	UUID   string
	Server bool // the peer is the server
	Done   bool
	Next   uint32 // number of the next data packet
	Gone   bool   // the node disconnected
	GoneT  time.Time

	// what arrived from the node
	exp   uint32
	early map[uint32]PeerPacket
	part  []byte
	Msgs  [][]byte // messages, in order
	Acked map[uint32]int
	Bad   string // protocol violation seen
}

// Peer is the reference peer
type Peer struct {
	w    *World
	ep   *Endpoint
	IP   string
	Port int
	key  *rsa.PrivateKey

	mu    sync.Mutex
	Log   []PeerPacket
	sess  map[string]*Sess
	Pend  map[string]*Sess // by uuid: sessions being connected
	dials int

	AutoAck    bool // acknowledge data packets
	AutoPong   bool // answer pings
	AutoAccept bool // be a server
	// OnPacket sees a datagram first; true: it is not processed any further
	OnPacket func(pk PeerPacket) bool
}

// Peer starts a reference peer at a host number of its own
func (w *World) Peer(host, port int) *Peer {
	ep, err := w.net.Bind(nodeIP(host), port)
	if err != nil {
		panic(harnessBug("peer: " + err.Error()))
	}
	p := &Peer{w: w, ep: ep, IP: nodeIP(host), Port: ep.local.Port, key: peerKey(), sess: map[string]*Sess{},
		Pend: map[string]*Sess{}, AutoAck: true, AutoPong: true, AutoAccept: true}
	go p.loop()
	return p
}

// Address of the peer
func (p *Peer) Address() string { return key(p.IP, p.Port) }

func (p *Peer) loop() {
	buf := make([]byte, 1<<16)
	for {
		n, from, err := p.ep.ReadFrom(buf)
		if err != nil {
			return
		}
		b := append([]byte(nil), buf[:n]...)
		pk := PeerPacket{T: time.Now(), From: from.String(), Hdr: parseHdr(b)}
		if n >= 4 {
			pk.Body = b[4:]
		}
		p.handle(pk)
	}
}

func (p *Peer) handle(pk PeerPacket) {
	p.mu.Lock()
	s := p.sess[pk.From]
	if s != nil && isData(pk.Hdr.Status) {
		pk.Plain, pk.Err = openData(s.Key, pk.Hdr.ID, pk.Body)
	}
	p.Log = append(p.Log, pk)
	hook := p.OnPacket
	ack, pong, accept := p.AutoAck, p.AutoPong, p.AutoAccept
	p.mu.Unlock()
	if hook != nil && hook(pk) {
		return
	}
	switch pk.Hdr.Status {
	case stConnect:
		if accept {
			p.answerConnect(pk)
		}
	case stServerAnswer:
		p.answerServer(pk)
	case stClientAnswer:
		if accept {
			p.acceptClient(pk)
		}
	case stConnectDone:
		p.connectDone(pk)
	case stData, stDataNext:
		if s == nil || pk.Err != nil {
			return
		}
		if ack {
			p.Send(pk.From, stAck, pk.Hdr.ID, nil)
		}
		p.mu.Lock()
		s.take(pk)
		p.mu.Unlock()
	case stAck:
		if s != nil {
			p.mu.Lock()
			s.Acked[pk.Hdr.ID]++
			p.mu.Unlock()
		}
	case stPing:
		if s != nil && pong {
			p.Send(pk.From, stPong, 0, nil)
		}
	case stDisconnect:
		if s != nil {
			p.mu.Lock()
			if !s.Gone {
				s.Gone, s.GoneT = true, pk.T
			}
			p.mu.Unlock()
		}
	}
}

// take is the reference receiver
func (s *Sess) take(pk PeerPacket) {
	d := (pk.Hdr.ID - s.exp) & (idLimit - 1)
	if d >= idLimit/2 {
		return // already had
	}
	s.early[pk.Hdr.ID] = pk
	for {
		q, ok := s.early[s.exp]
		if !ok {
			return
		}
		delete(s.early, s.exp)
		s.exp = (s.exp + 1) & (idLimit - 1)
		s.part = append(s.part, q.Plain...)
		if q.Hdr.Status == stData {
			s.Msgs = append(s.Msgs, s.part)
			s.part = nil
		}
	}
}

func (p *Peer) newSess(addr, uuid string, key []byte, server bool) *Sess {
	return &Sess{p: p, Addr: addr, UUID: uuid, Key: key, Server: server, early: map[uint32]PeerPacket{}, Acked: map[uint32]int{}}
}

// Raw sends bytes
func (p *Peer) Raw(to string, b []byte) {
	a, err := net.ResolveUDPAddr("udp", to)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	p.ep.WriteTo(b, a)
}

// Send sends a packet
func (p *Peer) Send(to string, status int, id uint32, body []byte) {
	p.Raw(to, encodePacket(status, id, body))
}

// ---- server side ----

func (p *Peer) answerConnect(pk PeerPacket) {
	uuid, content, err := parseHandshake(pk.Body)
	if err != nil {
		return
	}
	pub, err := decodePub(content)
	if err != nil {
		return
	}
	c, err := rsaSeal(pub, encodePub(&p.key.PublicKey))
	if err != nil {
		return
	}
	p.Send(pk.From, stServerAnswer, 0, handshakeBody(uuid, c))
}

func (p *Peer) acceptClient(pk PeerPacket) {
	uuid, content, err := parseHandshake(pk.Body)
	if err != nil {
		return
	}
	k, err := rsaOpen(p.key, content)
	if err != nil {
		return
	}
	p.mu.Lock()
	s := p.newSess(pk.From, uuid, k, true)
	s.Done = true
	p.sess[pk.From] = s
	p.mu.Unlock()
	p.Send(pk.From, stConnectDone, 0, handshakeBody(uuid, nil))
}

// ---- client side ----

func newUUID() string {
	var b [16]byte
	rand.Read(b[:])
	b[6] = b[6]&0x0f | 0x40
	b[8] = b[8]&0x3f | 0x80
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

// StartDial sends the connect packet
func (p *Peer) StartDial(addr string) *Sess { return p.startDial(addr, newUUID()) }

func (p *Peer) startDial(addr, uuid string) *Sess {
	k := make([]byte, 32)
	rand.Read(k)
	s := p.newSess(addr, uuid, k, false)
	p.mu.Lock()
	p.Pend[s.UUID] = s
	p.mu.Unlock()
	p.Send(addr, stConnect, 0, handshakeBody(s.UUID, encodePub(&p.key.PublicKey)))
	return s
}

func (p *Peer) answerServer(pk PeerPacket) {
	uuid, content, err := parseHandshake(pk.Body)
	if err != nil {
		return
	}
	p.mu.Lock()
	s := p.Pend[uuid]
	p.mu.Unlock()
	if s == nil || s.Addr != pk.From {
		return
	}
	pubText, err := rsaOpen(p.key, content)
	if err != nil {
		s.Bad = "server answer: " + err.Error()
		return
	}
	pub, err := decodePub(pubText)
	if err != nil {
		s.Bad = "server key: " + err.Error()
		return
	}
	s.Pub = pub
	c, err := rsaSeal(pub, s.Key)
	if err != nil {
		s.Bad = "server key: " + err.Error()
		return
	}
	p.Send(pk.From, stClientAnswer, 0, handshakeBody(uuid, c))
}

func (p *Peer) connectDone(pk PeerPacket) {
	uuid, rest, err := parseHandshake(pk.Body)
	if err != nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.Pend[uuid]
	if s == nil || s.Addr != pk.From {
		return
	}
	if len(rest) > 0 {
		s.Bad = "connect done packet with content"
	}
	delete(p.Pend, uuid)
	s.Done = true
	p.sess[pk.From] = s
}

// Dial connects to a node as a client
func (p *Peer) Dial(addr string) (*Sess, error) { return p.DialID(addr, newUUID()) }

// DialID connects with a given connection id
func (p *Peer) DialID(addr, uuid string) (*Sess, error) {
	s := p.startDial(addr, uuid)
	for i := 0; i < 500; i++ {
		p.w.Settle()
		p.mu.Lock()
		done, bad := s.Done, s.Bad
		p.mu.Unlock()
		if bad != "" {
			return nil, errors.New(bad)
		}
		if done {
			return s, nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, errors.New("no answer")
}

// Session with a node, nil if there is none
func (p *Peer) Session(addr string) *Sess {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.sess[addr]
}

// Data sends one data packet with a given number
func (s *Sess) Data(id uint32, last bool, plain []byte) {
	st := stDataNext
	if last {
		st = stData
	}
	s.p.Send(s.Addr, st, id, sealData(s.Key, id, plain))
}

// Message sends a message in packets of at most limit bytes
func (s *Sess) Message(msg []byte, limit int) {
	if limit <= 0 {
		limit = 1200
	}
	for len(msg) > limit {
		s.Data(s.Next, false, msg[:limit])
		s.Next = (s.Next + 1) & (idLimit - 1)
		msg = msg[limit:]
	}
	s.Data(s.Next, true, msg)
	s.Next = (s.Next + 1) & (idLimit - 1)
}

// Received returns the messages so far
func (s *Sess) Received() [][]byte {
	s.p.mu.Lock()
	defer s.p.mu.Unlock()
	return append([][]byte(nil), s.Msgs...)
}

// Packets returns what arrived, filtered
func (p *Peer) Packets(f func(pk PeerPacket) bool) (l []PeerPacket) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pk := range p.Log {
		if f(pk) {
			l = append(l, pk)
		}
	}
	return
}

// KeepAlive pings the node every 2 seconds until stop is closed
func (s *Sess) KeepAlive(stop chan struct{}) {
	t := time.NewTicker(2 * time.Second)
	defer t.Stop()
	for {
		select {
		case <-t.C:
			s.p.Send(s.Addr, stPing, 0, nil)
		case <-stop:
			return
		}
	}
}
