package harness

// C12: the wire format, against the independent implementation.

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// CodecCase is a packet
type CodecCase struct {
	ID     int    `json:"id"`
	Status int    `json:"st"`
	Data   []byte `json:"data"`
	Big    int    `json:"big"` // so many bytes more
}

// IMsg is a message of the interoperation
type IMsg struct {
	Side  int   `json:"side"` // 0 the node, 1 the reference peer
	Size  int   `json:"size"`
	Cuts  []int `json:"cuts"` // how the reference peer splits it
	WaitU int   `json:"wait"`
	Again bool  `json:"again"` // the peer sends its packets twice, encrypted anew
	Swap  bool  `json:"swap"`  // the peer sends its packets in reverse order
}

// InteropCase is the scenario
type InteropCase struct {
	Server  bool        `json:"server"` // the node is the server
	LatU    int         `json:"lat"`
	Max     int         `json:"max"`
	UUID    int         `json:"uuid"` // length of the connection id
	Chunk   int         `json:"chunk"`
	KeyBits int         `json:"bits"`
	Seed    uint64      `json:"seed"`
	Msgs    []IMsg      `json:"msgs"`
	IdleMs  int         `json:"idle"`
	Pings   int         `json:"pings"`
	Start   [2]int      `json:"start"` // numbers of the first packets: the node's, the peer's
	End     int         `json:"end"`   // 0 the node closes, 1 the peer disconnects
	Codec   []CodecCase `json:"codec"`
}

func runCodec(e *Env, c CodecCase) {
	data := append(append([]byte{}, c.Data...), rnd(c.ID, c.Big)...)
	want := encodePacket(c.Status, uint32(c.ID), data)
	p := new(tru.Packet).SetID(c.ID).SetStatus(c.Status).SetData(append([]byte{}, data...))
	if p.ID() != c.ID || p.Status() != c.Status || !bytes.Equal(p.Data(), data) {
		e.Failf("codec", "a packet made of %d, %d, %s says %d, %d, %s", c.ID, c.Status, brief(data), p.ID(), p.Status(), brief(p.Data()))
	}
	if p.Len() != len(want) || p.HeaderLen() != 4 {
		e.Failf("length", "a packet with %d bytes of data: Len %d, HeaderLen %d", len(data), p.Len(), p.HeaderLen())
	}
	got, err := p.MarshalBinary()
	if err != nil || !bytes.Equal(got, want) {
		e.Failf("encode", "packet %d, %d, %s is encoded as %s (%v)", c.ID, c.Status, brief(data), brief(got), err)
	}
	q := new(tru.Packet)
	in := append([]byte{}, want...)
	if err := q.UnmarshalBinary(in); err != nil {
		e.Failf("decode", "packet %d, %d, %s: %v", c.ID, c.Status, brief(data), err)
	}
	for i := range in { // a buffer may be used again
		in[i] ^= 0xff
	}
	if q.ID() != c.ID || q.Status() != c.Status || !bytes.Equal(q.Data(), data) || q.Len() != len(want) {
		e.Failf("decode", "packet %d, %d, %s is decoded as %d, %d, %s, length %d", c.ID, c.Status, brief(data), q.ID(), q.Status(), brief(q.Data()), q.Len())
	}
	for n := range 4 {
		if err := new(tru.Packet).UnmarshalBinary(want[:n]); err == nil {
			e.Failf("short", "%d bytes are decoded as a packet", n)
		}
	}
	if m := p.MaxDataLen(); m <= 0 || m+4+28 > maxIPv4Payload {
		e.Failf("length", "MaxDataLen %d", m)
	}
}

var bigKeys = sync.OnceValue(func() map[int]*rsa.PrivateKey {
	m := map[int]*rsa.PrivateKey{}
	for _, n := range []int{1024, 2048} {
		k, err := rsa.GenerateKey(rand.Reader, n)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		m[n] = k
	}
	return m
})

func runInterop(e *Env, c InteropCase) {
	for _, k := range c.Codec {
		runCodec(e, k)
	}
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	n := w.Node(maxLenParam(c.Max)...)
	p := w.Peer(10, 9000)
	var s *Sess
	var ch *tru.Channel
	if c.Server {
		var err error
		p.key = bigKeys()[c.KeyBits]
		if s, err = p.DialID(n.Addr(), uuidOf(c.UUID)); err != nil {
			e.Failf("connect", "a reference client (connection id of %d bytes, RSA key of %d bits) could not connect: %v", c.UUID, c.KeyBits, err)
			return
		}
		if ch = n.ChannelTo(p.Address()); ch == nil {
			e.Failf("connect", "a reference client connected, the node does not list it")
			return
		}
		if !ch.ServerMode() {
			e.Failf("connect", "the node's channel with a client is not in server mode")
		}
	} else {
		var err error
		p.key = bigKeys()[c.KeyBits]
		if ch, err = n.Tru.Connect(p.Address()); err != nil {
			e.Failf("connect", "the node could not connect to a reference server: %v", err)
			return
		}
		w.Settle()
		s = p.Session(n.Addr())
		if s == nil || len(s.Key) != 32 {
			e.Failf("connect", "the node connected, the reference server has no session with it (or the key is not one of 32 bytes)")
			return
		}
		if ch.ServerMode() {
			e.Failf("connect", "the node's channel with a server is in server mode")
		}
	}
	if s.Bad != "" {
		e.Failf("connect", "handshake: %s", s.Bad)
	}
	w.Sleep(lat + 10*time.Millisecond)
	if c.Start != [2]int{} {
		if !setIDs(ch, uint32(c.Start[0]), c.Start[1]) {
			c.Start = [2]int{}
			setIDs(ch, 0, 0)
			e.Class("packet numbers cannot be set")
		}
		p.mu.Lock()
		s.exp, s.Next = uint32(c.Start[0]), uint32(c.Start[1])
		p.mu.Unlock()
	}
	follow := func(id uint32) uint32 { return (id + 1) & (idLimit - 1) }
	var sent [2][][]byte
	type pkt struct {
		id    uint32
		last  bool
		plain []byte
	}
	own := map[uint32]int{} // the peer's packets and how often it sent them
	for i, m := range c.Msgs {
		time.Sleep(time.Duration(m.WaitU) * time.Microsecond)
		x := payload(c.Seed, i, m.Size)
		sent[m.Side] = append(sent[m.Side], x)
		if m.Side == 0 {
			id, err := ch.WriteTo(append([]byte{}, x...))
			if err != nil {
				e.Failf("send", "sending to the reference peer: %v", err)
				return
			}
			_ = id
			continue
		}
		var ps []pkt
		rest := x
		for _, k := range m.Cuts {
			if k > 0 && k < len(rest) {
				ps = append(ps, pkt{s.Next, false, rest[:k]})
				s.Next = follow(s.Next)
				rest = rest[k:]
			}
		}
		for len(rest) > 60_000 {
			ps = append(ps, pkt{s.Next, false, rest[:60_000]})
			s.Next = follow(s.Next)
			rest = rest[60_000:]
		}
		ps = append(ps, pkt{s.Next, true, rest})
		s.Next = follow(s.Next)
		rounds := 1
		if m.Again {
			rounds = 2
		}
		if m.Swap {
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
		for range rounds {
			for _, q := range ps {
				s.Data(q.id, q.last, q.plain)
				own[q.id]++
			}
		}
	}
	for range c.Pings {
		p.Send(n.Addr(), stPing, 0, nil)
	}
	w.Sleep(2*time.Second + 6*lat)
	// the peer's receiver got everything
	if k, dt := prefixOf(s.Received(), sent[0], true); k != "" {
		e.Failf(k, "reference peer: %s", dt)
	}
	if k, dt := prefixOf(datas(n.Msgs(ch)), sent[1], true); k != "" {
		e.Failf(k, "node: %s", dt)
	}
	next, fresh := uint32(c.Start[0]), 0
	pongs := 0
	for _, pk := range p.Packets(func(pk PeerPacket) bool { return true }) {
		switch pk.Hdr.Status {
		case stData, stDataNext:
			if pk.Err != nil {
				e.Failf("decrypt", "packet %d (%d bytes): %v", pk.Hdr.ID, len(pk.Body), pk.Err)
			}
			if d := (pk.Hdr.ID - next) & (idLimit - 1); d > 0 && d < idLimit/2 {
				e.Failf("number", "packet %d was sent when %d was next", pk.Hdr.ID, next)
			}
			if pk.Hdr.ID == next {
				next = follow(next)
				fresh++
			}
			if len(pk.Plain) <= 64 && len(pk.Body) != len(pk.Plain) || len(pk.Plain) > 64 && len(pk.Body) != len(pk.Plain)+28 {
				e.Failf("length", "packet %d with %d bytes of a message is %d bytes long", pk.Hdr.ID, len(pk.Plain), len(pk.Body))
			}
		case stAck:
			if len(pk.Body) != 0 {
				e.Failf("ack", "an acknowledgement with %d bytes of content", len(pk.Body))
			}
			if own[pk.Hdr.ID] == 0 {
				e.Failf("ack", "acknowledgement of packet %d, which was not sent", pk.Hdr.ID)
			}
		case stPing:
		case stPong:
			pongs++
		case stConnect, stServerAnswer, stClientAnswer, stConnectDone:
		default:
			e.Failf("status", "a packet of status %d", pk.Hdr.Status)
		}
	}
	for id, k := range own {
		if s.Acked[id] != k {
			e.Failf("ack", "packet %d, sent %d times, was acknowledged %d times", id, k, s.Acked[id])
		}
	}
	if pongs != c.Pings {
		e.Failf("ping", "%d pings, %d pongs", c.Pings, pongs)
	}
	if l := ch.Addr().String(); l != p.Address() {
		e.Failf("address", "the channel's address is %s", l)
	}
	// idle: it lives on the pongs
	if c.IdleMs > 0 {
		if c.Server { // the client keeps the channel alive
			stop := make(chan struct{})
			go s.KeepAlive(stop)
			e.Cleanup(func() { close(stop) })
		}
		w.Sleep(time.Duration(c.IdleMs) * time.Millisecond)
		if ch.Destroyed() || s.Gone {
			e.Failf("idle", "the channel with a reference peer, which answers pings, ended")
		}
		if c.IdleMs > 6000 && !c.Server && len(p.Packets(func(pk PeerPacket) bool { return pk.Hdr.Status == stPing })) == 0 {
			e.Failf("idle", "no ping in %d ms", c.IdleMs)
		}
	}
	if c.End == 0 {
		ch.Close()
		w.Sleep(lat + 20*time.Millisecond)
		if !s.Gone {
			e.Failf("disconnect", "the node closed the channel, no disconnect packet came")
		}
	} else {
		p.Send(n.Addr(), stDisconnect, 0, nil)
		w.Sleep(lat + 20*time.Millisecond)
		if !ch.Destroyed() || len(n.DestroyNotices(ch, "node")) != 1 {
			e.Failf("disconnect", "the reference peer disconnected, the channel is still there or its reader was not told once")
		}
	}
	e.ClassIf(c.Server, "node is server")
	e.ClassIf(!c.Server, "node is client")
	e.ClassIf(c.Codec != nil, "codec")
	e.ClassIf(c.Start != [2]int{}, "other first numbers")
	e.ClassIf(fresh > 0, "node sends")
	e.ClassIf(fresh > len(sent[0]), "node splits")
	e.ClassIf(len(own) > 0, "peer sends")
	e.ClassIf(len(own) > len(sent[1]), "peer splits")
	e.ClassIf(c.IdleMs > 6000, "idle")
	e.NonTrivial()
}

// uuidOf makes a connection id of a given length
func uuidOf(n int) string {
	if n == 36 {
		return newUUID()
	}
	u := ""
	for len(u) < n {
		u += newUUID()
	}
	return u[:n]
}

func init() {
	register(&Spec{
		ID:    "C12",
		Rule:  "Packets of every status, number below 2^20 and content are encoded and decoded and compared with the independent codec. A node, as server or as client, talks to the independent implementation: handshake (connection ids of 8-200 bytes, RSA keys of 1024 and 2048 bits), in half of the cases continued at any packet numbers, messages both ways with any splitting, repeated and reversed packets, pings, keepalive, disconnect by either. Every case is non-trivial.",
		Cases: map[Tier]int{Quick: 6000, Thorough: 120000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := InteropCase{Server: rapid.Bool().Draw(rt, "server"), LatU: rapid.SampledFrom([]int{0, 500, 30_000}).Draw(rt, "lat"),
				Max: rapid.SampledFrom([]int{0, 0, 1, 16, 64, 65, 100, 1000, 30_000}).Draw(rt, "max"), UUID: rapid.SampledFrom([]int{36, 36, 36, 8, 16, 37, 200}).Draw(rt, "uuid"),
				KeyBits: rapid.SampledFrom([]int{1024, 1024, 2048}).Draw(rt, "bits"), Seed: uint64(rapid.IntRange(0, 1000).Draw(rt, "seed")),
				IdleMs: rapid.SampledFrom([]int{0, 0, 0, 2000, 10_000, 30_000}).Draw(rt, "idle"), Pings: rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "pings"),
				End: rapid.IntRange(0, 1).Draw(rt, "end")}
			if !c.Server {
				c.UUID = 36
			}
			if rapid.Bool().Draw(rt, "numbers") {
				num := rapid.OneOf(rapid.IntRange(0, idLimit-1), rapid.SampledFrom([]int{250, 65530, 65534, 1<<19 - 3, idLimit - 1, idLimit - 4}))
				c.Start = [2]int{num.Draw(rt, "first"), num.Draw(rt, "first")}
			}
			sizes := rapid.OneOf(rapid.IntRange(1, 100), rapid.SampledFrom([]int{1, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 66, 127, 128, 255, 256}), rapid.IntRange(1, 3000), rapid.SampledFrom([]int{65475, 65476, 65507, 100_000, 200_000}))
			for i := rapid.IntRange(0, 10).Draw(rt, "msgs"); i > 0; i-- {
				m := IMsg{Side: rapid.IntRange(0, 1).Draw(rt, "side"), Size: sizes.Draw(rt, "size"), WaitU: rapid.SampledFrom([]int{0, 0, 1000, 70_000}).Draw(rt, "wait")}
				if m.Side == 0 && c.Max > 0 && m.Size > 200*c.Max {
					m.Size = 200 * c.Max
				}
				if m.Side == 1 {
					m.Cuts = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 70), rapid.IntRange(1, 3000), rapid.SampledFrom([]int{16, 20, 32, 64, 65})), 0, 6).Draw(rt, "cuts")
					m.Again = rapid.IntRange(0, 4).Draw(rt, "again") == 0
					m.Swap = rapid.IntRange(0, 4).Draw(rt, "swap") == 0
				}
				c.Msgs = append(c.Msgs, m)
			}
			for i := rapid.IntRange(0, 8).Draw(rt, "codecs"); i > 0; i-- {
				c.Codec = append(c.Codec, CodecCase{ID: rapid.OneOf(rapid.IntRange(0, idLimit-1), rapid.SampledFrom([]int{0, 1, 255, 256, 65535, 65536, idLimit - 1})).Draw(rt, "id"),
					Status: rapid.OneOf(rapid.IntRange(0, 255), rapid.IntRange(0, 9)).Draw(rt, "st"),
					Data:   rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "data"), Big: rapid.SampledFrom([]int{0, 0, 0, 100, 1500, 65475}).Draw(rt, "big")})
			}
			return c
		},
		Fixed: func(tier Tier) (l []any) {
			// every status with several numbers
			var c InteropCase
			c.KeyBits, c.UUID = 1024, 36
			for st := range 256 {
				c.Codec = append(c.Codec, CodecCase{ID: st * 4099 % idLimit, Status: st, Data: []byte{byte(st), 0, 255}})
			}
			for bit := range 20 {
				c.Codec = append(c.Codec, CodecCase{ID: 1 << bit, Status: bit}, CodecCase{ID: 1<<(bit+1) - 1, Status: stDataNext, Data: []byte(fmt.Sprint(bit))})
			}
			return []any{c}
		},
		Run: func(e *Env, raw jsonRaw) { runInterop(e, decode[InteropCase](raw)) },
	})
}
