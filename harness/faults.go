package harness

// Network fault plans: a function of the identity of a datagram (direction,
// status, number, how often it was sent), so that a run does not depend on how
// goroutines happen to interleave.

import (
	"encoding/binary"
	"hash/fnv"
	"time"

	"pgregory.net/rapid"
)

// Faults is a fault plan
type Faults struct {
	Seed    uint32 `json:"seed"`
	LossPct int    `json:"loss"`    // datagrams lost, per cent
	DupPct  int    `json:"dup"`     // datagrams duplicated
	SlowPct int    `json:"slow"`    // datagrams delayed
	SlowMs  int    `json:"slowms"`  // by up to this many ms
	DupMs   int    `json:"dupms"`   // second copy comes up to this much later
	UntilMs int    `json:"until"`   // the faults end then
	Handsh  bool   `json:"handsh"`  // handshakes are hit too
	Rules   []Rule `json:"rules"`   // individual datagrams
	Outages []Cut  `json:"outages"` // periods without any delivery
}

// Rule hits one datagram
type Rule struct {
	Dir    int    `json:"dir"` // 0 from the first node, 1 to it
	Class  string `json:"class"`
	Nth    int    `json:"nth"`  // number of the packet
	Copy   int    `json:"copy"` // which transmission of it, -1 all
	Action string `json:"act"`  // drop, dup, delay
	Ms     int    `json:"ms"`
}

// Cut is a period without delivery in a direction (2: both)
type Cut struct {
	Dir  int `json:"dir"`
	From int `json:"from"`
	Len  int `json:"len"`
}

func classOf(status int) string {
	switch status {
	case stConnect, stServerAnswer, stClientAnswer, stConnectDone:
		return "handshake"
	case stData, stDataNext:
		return "data"
	case stAck:
		return "ack"
	case stPing, stPong:
		return "ping"
	case stDisconnect:
		return "disconnect"
	}
	return "other"
}

func (f *Faults) hash(dir int, d *Datagram, what byte) uint32 {
	h := fnv.New64a()
	var b [18]byte
	binary.LittleEndian.PutUint32(b[:], f.Seed)
	b[4], b[5], b[6] = byte(dir), byte(d.Hdr.Status), what
	binary.LittleEndian.PutUint32(b[8:], d.Hdr.ID)
	binary.LittleEndian.PutUint32(b[12:], uint32(d.Copy))
	h.Write(b[:])
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return uint32(x >> 16)
}

// policy makes the network policy; zero is when the plan's time starts, dir
// tells the direction of a datagram (0, 1; -1: not touched)
func (f *Faults) policy(w *World, zero time.Time, dir func(d *Datagram) int) func(d *Datagram) Fate {
	lat := w.net.Latency
	return func(d *Datagram) Fate {
		dr := dir(d)
		if dr < 0 {
			return Fate{Delays: []time.Duration{lat}}
		}
		cls := classOf(d.Hdr.Status)
		ms := int(d.T.Sub(zero) / time.Millisecond)
		for _, c := range f.Outages {
			if (c.Dir == 2 || c.Dir == dr) && ms >= c.From && ms < c.From+c.Len {
				return Fate{}
			}
		}
		for _, r := range f.Rules {
			if r.Dir == dr && r.Class == cls && uint32(r.Nth) == d.Hdr.ID && (r.Copy == -1 || r.Copy == d.Copy) {
				switch r.Action {
				case "drop":
					return Fate{}
				case "dup":
					return Fate{Delays: []time.Duration{lat, lat + time.Duration(r.Ms)*time.Millisecond}}
				case "delay":
					return Fate{Delays: []time.Duration{lat + time.Duration(r.Ms)*time.Millisecond}}
				}
			}
		}
		if ms >= f.UntilMs || cls == "disconnect" || cls == "handshake" && !f.Handsh {
			return Fate{Delays: []time.Duration{lat}}
		}
		if int(f.hash(dr, d, 1)%100) < f.LossPct {
			return Fate{}
		}
		first := lat
		if f.SlowMs > 0 && int(f.hash(dr, d, 2)%100) < f.SlowPct {
			first += time.Duration(f.hash(dr, d, 3)%uint32(f.SlowMs*1000)) * time.Microsecond
		}
		out := []time.Duration{first}
		if int(f.hash(dr, d, 4)%100) < f.DupPct {
			out = append(out, lat+time.Duration(f.hash(dr, d, 5)%uint32(f.DupMs*1000+1))*time.Microsecond)
		}
		return Fate{Delays: out}
	}
}

// drawFaults generates a fault plan for about n packets
func drawFaults(rt *rapid.T, n, spanMs int) Faults {
	var f Faults
	f.UntilMs = spanMs
	switch rapid.IntRange(0, 5).Draw(rt, "faultkind") {
	case 0: // none
	case 1: // individual datagrams
		f.Rules = drawRules(rt, n)
	case 2, 3: // random
		f.Seed = uint32(rapid.IntRange(0, 1<<16).Draw(rt, "fseed"))
		f.LossPct = rapid.SampledFrom([]int{0, 5, 10, 30, 50}).Draw(rt, "loss")
		f.DupPct = rapid.SampledFrom([]int{0, 5, 20, 60}).Draw(rt, "dup")
		f.DupMs = rapid.SampledFrom([]int{0, 3, 50, 400, 3000}).Draw(rt, "dupms")
		f.SlowPct = rapid.SampledFrom([]int{0, 10, 50, 100}).Draw(rt, "slow")
		f.SlowMs = rapid.SampledFrom([]int{1, 10, 120, 700, 2500}).Draw(rt, "slowms")
	case 4: // outages
		for i := rapid.IntRange(1, 3).Draw(rt, "nout"); i > 0; i-- {
			f.Outages = append(f.Outages, Cut{Dir: rapid.IntRange(0, 2).Draw(rt, "odir"),
				From: rapid.IntRange(0, spanMs).Draw(rt, "ofrom"), Len: rapid.IntRange(1, 3500).Draw(rt, "olen")})
		}
	case 5: // everything at once
		f.Rules = drawRules(rt, n)
		f.Seed = uint32(rapid.IntRange(0, 1<<16).Draw(rt, "fseed"))
		f.LossPct = rapid.IntRange(0, 30).Draw(rt, "loss")
		f.DupPct = rapid.IntRange(0, 50).Draw(rt, "dup")
		f.DupMs = rapid.IntRange(0, 1000).Draw(rt, "dupms")
		f.SlowPct = rapid.IntRange(0, 100).Draw(rt, "slow")
		f.SlowMs = rapid.IntRange(1, 1000).Draw(rt, "slowms")
		f.Outages = append(f.Outages, Cut{Dir: rapid.IntRange(0, 2).Draw(rt, "odir"),
			From: rapid.IntRange(0, spanMs).Draw(rt, "ofrom"), Len: rapid.IntRange(1, 2500).Draw(rt, "olen")})
	}
	return f
}

func drawRules(rt *rapid.T, n int) (l []Rule) {
	for i := rapid.IntRange(1, 6).Draw(rt, "nrules"); i > 0; i-- {
		l = append(l, Rule{Dir: rapid.IntRange(0, 1).Draw(rt, "rdir"),
			Class:  rapid.SampledFrom([]string{"data", "ack"}).Draw(rt, "rclass"),
			Nth:    rapid.IntRange(0, max(n-1, 0)).Draw(rt, "rnth"),
			Copy:   rapid.IntRange(0, 2).Draw(rt, "rcopy"),
			Action: rapid.SampledFrom([]string{"drop", "dup", "delay"}).Draw(rt, "ract"),
			Ms:     rapid.SampledFrom([]int{0, 1, 60, 250, 1000, 4000}).Draw(rt, "rms")})
	}
	return
}

// harmless tells whether nothing is done to the data and its acknowledgements
func (f Faults) harmless() bool {
	return len(f.Rules) == 0 && len(f.Outages) == 0 && f.LossPct == 0 && f.DupPct == 0 && f.SlowPct == 0
}
