package harness

import (
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// defaultMax is the most message bytes which fit into one packet: an IPv4 UDP
// datagram less the packet header and the encryption overhead
const defaultMax = maxIPv4Payload - 4 - 28

// C02: sizes
type sizesCase struct {
	Max    [2]int   `json:"max"`              // configured maximum of each side, 0 none
	Setter [2]bool  `json:"setter"`           // set by SetMaxDataLen and not by parameter
	Before []int    `json:"before,omitempty"` // set earlier
	Msgs   [][2]int `json:"msgs"`             // side, size
	Fill   uint64   `json:"fill"`
	GapU   int      `json:"gap"`
	Faults Faults   `json:"faults"`
	Peer   bool     `json:"peer"` // reference peer as the second side
}

func runSizes(e *Env, s sizesCase) {
	w := NewWorld(e, time.Millisecond)
	mk := func(i int) *Node {
		if s.Setter[i] {
			var n *Node
			if len(s.Before) > 0 {
				n = w.Node(maxLenParam(s.Before[0])...)
				for _, m := range s.Before[1:] {
					n.Tru.SetMaxDataLen(m)
				}
			} else {
				n = w.Node()
			}
			n.Tru.SetMaxDataLen(s.Max[i])
			return n
		}
		return w.Node(maxLenParam(s.Max[i])...)
	}
	a := mk(0)
	b := mk(1)
	l := w.MustConnect(a, b, false)
	if l == nil {
		return
	}
	zero := time.Now()
	w.net.SetPolicy(s.Faults.policy(w, zero, func(d *Datagram) int {
		if d.From == a.Addr() {
			return 0
		}
		return 1
	}))
	side := [2]*Node{a, b}
	chs := [2]*tru.Channel{l.CA, l.CB}
	var sent [2][][]byte
	var ids [2][]int
	for i, m := range s.Msgs {
		data := payload(s.Fill, i, m[1])
		keep := append([]byte{}, data...)
		id, err := chs[m[0]].WriteTo(data)
		if err != nil {
			e.Failf("write", "writing a message of %d bytes: %v", m[1], err)
			return
		}
		for j := range data {
			data[j] ^= 0x33
		}
		sent[m[0]] = append(sent[m[0]], keep)
		ids[m[0]] = append(ids[m[0]], id)
		if s.GapU > 0 {
			time.Sleep(time.Duration(s.GapU) * time.Microsecond)
		}
	}
	w.Sleep(time.Duration(s.Faults.UntilMs)*time.Millisecond + 15*time.Second)
	frag := false
	for i := 0; i < 2; i++ {
		to := side[1-i]
		evs := to.Msgs(chs[1-i])
		if k, d := prefixOf(datas(evs), sent[i], true); k != "" {
			e.Failf(k, "%s to %s (maximum %d): %s", side[i].Name, to.Name, s.Max[i], d)
			return
		}
		for j, ev := range evs {
			if ev.ID != ids[i][j] {
				e.Failf("message-id", "message %d of %d bytes: WriteTo returned number %d, the reader got %d", j, len(ev.Data), ids[i][j], ev.ID)
			}
		}
		if j, bad := mutated(evs); bad {
			e.Failf("mutated", "message %d changed after delivery", j)
		}
	}
	for _, d := range w.net.SentCopy() {
		if d.TooLong || len(d.Data) > maxIPv4Payload {
			e.Failf("datagram-too-long", "a datagram of %d bytes was put on the network", len(d.Data))
		}
		if !isData(d.Hdr.Status) {
			continue
		}
		i := 0
		if d.From == b.Addr() {
			i = 1
		}
		if lim := s.Max[i]; lim > 0 && plainLen(len(d.Data)-4) > lim {
			e.Failf("over-maximum", "a packet with %d message bytes was sent, the maximum is %d", plainLen(len(d.Data)-4), lim)
		}
		if d.Hdr.Status == stDataNext {
			frag = true
		}
	}
	for i := range side {
		if len(side[i].DestroyNotices(chs[i], "node")) > 0 {
			e.Failf("unexpected-end", "the channel of %s ended", side[i].Name)
		}
	}
	e.ClassIf(frag, "split messages")
	e.ClassIf(len(s.Before) > 0 && (s.Setter[0] || s.Setter[1]), "maximum set again")
	for _, m := range s.Msgs {
		e.ClassIf(m[1] == 0, "empty message")
		e.ClassIf(m[1] > defaultMax, "beyond the datagram limit")
		if lim := s.Max[m[0]]; lim > 0 {
			e.ClassIf(m[1]%lim == 0 && m[1] > 0, "exact multiple of the maximum")
			e.ClassIf(m[1] > 2*lim, "three and more packets")
		}
	}
	if frag && len(s.Msgs) > 1 {
		e.NonTrivial()
	}
}

func init() {
	register(&Spec{
		ID: "C02",
		Rule: "Two nodes with generated maximum packet lengths (parameter or setter, including 1 and the largest allowed) send messages of generated sizes, clustered around multiples of the maximum and around the encryption size classes, on a slightly lossy network. " +
			"Every message must arrive as one message with the same bytes and the number WriteTo returned; every captured datagram is measured. Non-trivial: at least two messages and at least one of them split.",
		Cases: map[Tier]int{Quick: 5000, Thorough: 80000},
		Fixed: func(tier Tier) (l []any) {
			for _, m := range []int{0, defaultMax, 65000, 512, 64, 1} {
				lim := m
				if lim == 0 {
					lim = defaultMax
				}
				var c sizesCase
				c.Max = [2]int{m, m}
				for _, k := range []int{0, 1, 2, 3} {
					for _, dl := range []int{-1, 0, 1} {
						if sz := k*lim + dl; sz >= 0 {
							c.Msgs = append(c.Msgs, [2]int{(k + dl + 1) % 2, sz})
						}
					}
				}
				l = append(l, c)
				c.Setter = [2]bool{true, true}
				c.Fill = 2
				l = append(l, c)
			}
			// many packets
			l = append(l, sizesCase{Max: [2]int{1, 3}, Msgs: [][2]int{{0, 3000}, {1, 5000}, {0, 5}, {1, 0}}},
				sizesCase{Msgs: [][2]int{{0, 3_000_000}, {1, 2_000_000}, {0, 5}, {1, 0}}})
			return
		},
		Draw: func(rt *rapid.T, tier Tier) any {
			var s sizesCase
			budget := 0
			lims := rapid.SampledFrom([]int{0, 0, defaultMax, 65000, 9000, 1400, 512, 100, 93, 92, 65, 64, 63, 36, 33, 20, 16, 7, 2, 1})
			for i := range s.Max {
				if rapid.IntRange(0, 4).Draw(rt, "any") == 0 {
					s.Max[i] = rapid.IntRange(1, 3000).Draw(rt, "max")
				} else {
					s.Max[i] = lims.Draw(rt, "max")
				}
				s.Setter[i] = rapid.Bool().Draw(rt, "setter")
			}
			if rapid.IntRange(0, 3).Draw(rt, "before") == 0 {
				s.Before = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 64, 100, 1400, 65000, defaultMax}), 1, 3).Draw(rt, "settings")
			}
			s.Fill = uint64(rapid.IntRange(0, 1000).Draw(rt, "fill"))
			s.GapU = rapid.SampledFrom([]int{0, 0, 100, 20_000}).Draw(rt, "gap")
			packets := 0
			for n := rapid.IntRange(1, 8).Draw(rt, "n"); n > 0; n-- {
				side := rapid.IntRange(0, 1).Draw(rt, "side")
				lim := s.Max[side]
				if lim == 0 {
					lim = defaultMax
				}
				var sz int
				switch rapid.IntRange(0, 5).Draw(rt, "how") {
				case 0:
					sz = rapid.SampledFrom([]int{0, 0, 1, 16, 17, 20, 21, 32, 33, 63, 64, 65, 66, 92, 93}).Draw(rt, "size")
				case 1, 2:
					sz = rapid.IntRange(0, 6).Draw(rt, "k")*lim + rapid.IntRange(-2, 2).Draw(rt, "d")
				case 3:
					sz = rapid.IntRange(0, 40*lim).Draw(rt, "size")
				case 4:
					sz = rapid.IntRange(0, 4000).Draw(rt, "size")
				case 5:
					sz = rapid.IntRange(0, 200_000).Draw(rt, "size")
				}
				if sz < 0 {
					sz = 0
				}
				if sz > 600*lim {
					sz = 600*lim - 1
				}
				if packets+sz/lim > 1500 || budget+sz > 1_500_000 {
					sz %= 3 * lim
				}
				packets += sz / lim
				budget += sz
				s.Msgs = append(s.Msgs, [2]int{side, sz})
			}
			s.Faults.Seed = rapid.Uint32().Draw(rt, "seed")
			s.Faults.LossPct = rapid.SampledFrom([]int{0, 0, 3, 15}).Draw(rt, "loss")
			s.Faults.DupPct = rapid.SampledFrom([]int{0, 0, 5}).Draw(rt, "dup")
			s.Faults.SlowPct = rapid.SampledFrom([]int{0, 0, 20}).Draw(rt, "slow")
			s.Faults.SlowMs = 50
			s.Faults.UntilMs = 1000
			return s
		},
		Run: func(e *Env, raw jsonRaw) { runSizes(e, decode[sizesCase](raw)) },
	})
}
