package h

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// member is a connection that may receive broadcasts.
type bmember struct {
	key   int
	c     *MemConn
	ws    *snapws.Conn
	d     *rd
	open  bool
	rooms map[int]bool
	got   int // messages already judged
}

// inbox decodes the wire and returns the messages received after the first `from`.
func (m *bmember) inbox(s *S, info string) []WMsg {
	w := DecodeWire(m.c.Out(), true)
	if w.Err != "" {
		s.Violate("wire", "connection %d received an invalid stream: %s; %s", m.key, w.Err, info)
	}
	return w.Msgs
}

func closedBy(c *MemConn) int { return DecodeWire(c.Out(), true).CloseCode() }

func dup(b []byte) []byte { return append([]byte(nil), b...) }

// ---------------------------------------------------------------- C21

var _ = register("C21", &Prop{Quick: 18000, Thorough: 450000,
	Rule: "one half: sequences of joins, leaves, closes and broadcasts (text, binary, JSON; 0 to 70 000 bytes; manager or one of several rooms; exclusions that match, do not match or repeat), every wire compared with the exact expectation after each step; other half: 1 to 6 goroutines broadcasting while members join, leave and close and others send and stream on the same connections over slow transports, judged by who certainly and who possibly was a target, by order per goroutine and by conservation of the returned counts; non-trivial: at least one broadcast was delivered",
	Run: func(t *testing.T, s *S) {
		if s.Idx%451 == 5 {
			realNet(s, "C21")
			return
		}
		if s.Idx%2 == 0 {
			broadcastSequential(t, s)
		} else {
			broadcastConcurrent(t, s)
		}
	}})

func broadcastSequential(t *testing.T, s *S) {
	r := s.R
	o := outOpts(r)
	o.BroadcastChannelsSize = 1 + r.IntN(8)
	o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[r.IntN(3)]
	noise := s.Noise()
	s.Bubble(t, func() {
		u := snapws.NewUpgrader(o)
		m := snapws.NewManager[int](u)
		rm := snapws.NewRoomManager[int](u)
		NR := 1 + r.IntN(3)
		rooms := make([]*snapws.Room[int], NR)
		for i := range rooms {
			rooms[i] = rm.Add(i)
		}
		var ms []*bmember
		byKey := map[int]*bmember{}
		var steps []string
		delivered := 0
		nkey := 0
		nsteps, crowd := 6+r.IntN(25), 12
		if s.Long(206) {
			nsteps, crowd = 100+r.IntN(200), 80
		}
		wide, exmax := 0, 4
		if s.Long(802) { // hundreds of members
			wide, exmax = 100+r.IntN(300), 100
			if s.Idx%4 == 0 {
				wide = 1000 + r.IntN(300)
			}
			nsteps, crowd = wide+12, wide
		}
		huge := s.Long(902)
		if huge {
			nsteps, crowd, wide = 12, 3, 0
		}
		for seq := range nsteps {
			step := ""
			switch a := r.IntN(12); {
			case a <= 1 && len(ms) < crowd || len(ms) == 0 || len(ms) < wide || wide == 0 && crowd > 12 && len(ms) < 40 && r.IntN(2) == 0:
				x := &bmember{key: nkey, c: NewMemConn(), open: true, rooms: map[int]bool{}}
				nkey++
				NewClient(x.c)
				switch r.IntN(3) {
				case 0: // only in rooms
					x.key = -1 - x.key
					if r.IntN(2) == 0 {
						ri := r.IntN(NR)
						ws, _, err := rm.Connect(NewRW(x.c, 4096, 4096, nil), Request(), ri)
						if err != nil {
							s.Violate("upgrade", "refused: %v", err)
							return
						}
						x.ws = ws
						x.rooms[ri] = true
					} else if x.ws = s.dial(u, x.c); x.ws == nil {
						return
					}
				default:
					mc, err := s.mconnect(m, x.key, NewRW(x.c, 4096, 4096, nil), Request())
					if err != nil {
						s.Violate("upgrade", "refused: %v", err)
						return
					}
					x.ws = mc.Conn
					byKey[x.key] = x
				}
				x.d = s.Reader(x.ws)
				ms = append(ms, x)
				step = fmt.Sprint("open ", x.key)
				if wide > 0 && r.IntN(4) > 0 {
					ri := r.IntN(NR)
					rooms[ri].Add(x.ws)
					x.rooms[ri] = true
				}
			case a == 2:
				x, ri := ms[r.IntN(len(ms))], r.IntN(NR)
				rooms[ri].Add(x.ws)
				if x.open {
					x.rooms[ri] = true
				}
				step = fmt.Sprintf("add %d to room %d", x.key, ri)
			case a == 3:
				x, ri := ms[r.IntN(len(ms))], r.IntN(NR)
				rooms[ri].Remove(x.ws)
				delete(x.rooms, ri)
				step = fmt.Sprintf("remove %d from room %d", x.key, ri)
			case a == 4 && r.IntN(2) == 0:
				x := ms[r.IntN(len(ms))]
				if r.IntN(2) == 0 {
					x.ws.Close()
				} else {
					x.c.FeedEOF()
				}
				x.open, x.rooms = false, map[int]bool{}
				step = fmt.Sprint("close ", x.key)
			default:
				ri := r.IntN(NR+1) - 1 // -1: the manager
				op := byte(1 + r.IntN(2))
				n := r.IntN(200)
				switch r.IntN(6) {
				case 0:
					n = rsize(r, 6000)
				case 1:
					n = rsize(r, 70000)
				}
				data := rbytes(r, n)
				if huge && r.IntN(3) == 0 {
					data = hugeBytes(r, hugeSize(r))
				} else if r.IntN(3) == 0 {
					data = pay(1, seq, r.IntN(50))
				}
				isJSON := r.IntN(5) == 0
				var ctx context.Context = bg
				switch r.IntN(4) {
				case 0:
					ctx = nil
				case 1:
					c, cancel := context.WithCancel(bg)
					ctx = c
					defer cancel()
				}
				// exclusions
				var exM []*bmember
				var exK []int
				var exC []*snapws.Conn
				for range r.IntN(exmax) * r.IntN(2) {
					x := ms[r.IntN(len(ms))]
					exM = append(exM, x)
					exK = append(exK, x.key)
					exC = append(exC, x.ws)
				}
				if r.IntN(5) == 0 {
					exK = append(exK, 100000+r.IntN(5))
					exC = append(exC, nil)
				}
				want := dup(data)
				arg := dup(data)
				var got int
				var err error
				if isJSON {
					op = opText
					want, _ = json.Marshal(string(data))
				}
				if ri < 0 {
					switch {
					case isJSON:
						got, err = m.BroadcastJSON(ctx, string(data), exK...)
					case op == opText:
						got, err = m.BroadcastString(ctx, arg, exK...)
					default:
						got, err = m.BroadcastBytes(ctx, arg, exK...)
					}
				} else {
					switch {
					case isJSON:
						got, err = rooms[ri].BroadcastJSON(ctx, string(data), exC...)
					case op == opText:
						got, err = rooms[ri].BroadcastString(ctx, arg, exC...)
					default:
						got, err = rooms[ri].BroadcastBytes(ctx, arg, exC...)
					}
				}
				step = fmt.Sprintf("broadcast #%d of %d bytes to %d excluding %v", seq, len(want), ri, exK)
				for i := range arg { // the caller may reuse its buffer
					arg[i] = '#'
				}
				info := fmt.Sprintf("%s; steps %q; noise %s", step, steps, noise)
				if err != nil {
					s.Violate("error", "a broadcast to open connections failed with %v; %s", err, info)
					return
				}
				s.Settle()
				time.Sleep(50 * time.Millisecond)
				targets := 0
				for _, x := range ms {
					t := x.open && (ri < 0 && byKey[x.key] == x || ri >= 0 && x.rooms[ri])
					for _, e := range exM {
						t = t && e != x
					}
					in := x.inbox(s, info)
					newer := in[x.got:]
					x.got = len(in)
					if !t {
						if len(newer) > 0 {
							s.Violate("stranger", "connection %d received %s although it was not a target; %s", x.key, clip(newer[0].Data), info)
							return
						}
						continue
					}
					targets++
					if len(newer) != 1 {
						s.Violate("count", "connection %d received the broadcast %d times; %s", x.key, len(newer), info)
						return
					}
					if newer[0].Op != op || !bytes.Equal(newer[0].Data, want) {
						s.Violate("content", "connection %d received opcode %d, %s; expected opcode %d, %s (%s); %s", x.key, newer[0].Op, clip(newer[0].Data), op, clip(want), diffAt(newer[0].Data, want), info)
						return
					}
					if newer[0].Frames != 1 {
						s.Violate("fragmented", "connection %d received the broadcast in %d frames; %s", x.key, newer[0].Frames, info)
						return
					}
					delivered++
				}
				if got != targets {
					s.Violate("returned", "the broadcast returned %d and there are %d targets; %s", got, targets, info)
					return
				}
				s.Count("broadcasts", 1)
			}
			steps = append(steps, step)
			time.Sleep(time.Millisecond)
			s.Settle()
			if s.Failed() {
				return
			}
		}
		for _, x := range ms {
			if x.c.Closed() == x.open {
				s.Violate("closed", "connection %d: closed %v, expected %v; steps %q", x.key, x.c.Closed(), !x.open, steps)
			}
			x.ws.Close()
			x.d.op.Within(time.Minute)
		}
		s.Sig(steps)
		s.Count("deliveries", delivered)
		if delivered > 0 {
			s.NonTrivial()
		}
		s.Sample(map[string]any{"steps": steps, "deliveries": delivered, "noise": noise})
	})
}

func broadcastConcurrent(t *testing.T, s *S) {
	r := s.R
	o := outOpts(r)
	o.WriteWait = 10 * time.Minute
	o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureWait, snapws.BackpressureWait}[r.IntN(3)]
	o.BroadcastChannelsSize = 4096
	if o.BroadcastBackpressure == snapws.BackpressureWait {
		o.BroadcastChannelsSize = 1 + r.IntN(6)
	}
	G, N, K := 1+r.IntN(6), 1+r.IntN(12), 1+r.IntN(6)
	noise := s.Noise()
	s.Sig(s.Idx, G, N, K, noise)
	s.Bubble(t, func() {
		h := newHist()
		u := snapws.NewUpgrader(o)
		m := snapws.NewManager[int](u)
		rm := snapws.NewRoomManager[int](u)
		rooms := []*snapws.Room[int]{rm.Add(0), rm.Add(1)}
		// targets 0: manager, 1 and 2: rooms
		type mem struct {
			bmember
			mu   Mutex
			in   [3][]int64 // alternating: begin of join, end of join, begin of leave, end of leave
			cut  int64      // when closing began, 0 if never
			join [3]bool
		}
		var mu Mutex
		var ms []*mem
		connect := func(key int) *mem {
			x := &mem{bmember: bmember{key: key, c: NewMemConn()}}
			NewClient(x.c)
			call := h.tick()
			mc, err := s.mconnect(m, key, NewRW(x.c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "refused: %v", err)
				return nil
			}
			x.ws = mc.Conn
			x.in[0] = []int64{call, h.tick()}
			x.d = s.Reader(x.ws)
			if r := s.Rng(fmt.Sprint("slow", key)); r.IntN(3) == 0 {
				x.c.mu.Lock()
				x.c.SlowR, x.c.SlowMax = r, time.Duration(1+r.IntN(500))*time.Microsecond
				x.c.mu.Unlock()
			}
			mu.Lock()
			ms = append(ms, x)
			mu.Unlock()
			return x
		}
		for i := range K {
			x := connect(i)
			if x == nil {
				return
			}
			for ri := range 2 {
				if r.IntN(2) == 0 {
					call := h.tick()
					rooms[ri].Add(x.ws)
					x.in[ri+1] = []int64{call, h.tick()}
				}
			}
		}
		type brec struct {
			id        pid
			to        int
			call, ret int64
			n         int
			err       error
			ex        int // excluded key, -1
			ctx       bool
		}
		var recs []brec
		var ops []*Op
		for g := range G {
			gr := s.Rng(fmt.Sprint("b", g))
			ops = append(ops, s.Go("broadcaster", func() {
				for k := range N {
					to, ex := gr.IntN(3), -1
					size := gr.IntN(100)
					if gr.IntN(5) == 0 {
						size = rsize(gr, 9000)
					}
					p := pay(g, k, size)
					if gr.IntN(3) == 0 {
						ex = gr.IntN(K)
					}
					ctx, cancel, lim := context.Context(bg), func() {}, false
					if gr.IntN(6) == 0 {
						lim = true
						ctx, cancel = context.WithTimeout(bg, time.Duration(gr.IntN(500))*time.Microsecond)
					}
					b := brec{id: pid{g, k}, to: to, ex: ex, ctx: lim, call: h.tick()}
					if to == 0 {
						var l []int
						if ex >= 0 {
							l = append(l, ex)
						}
						b.n, b.err = m.BroadcastBytes(ctx, p, l...)
					} else {
						var l []*snapws.Conn
						if ex >= 0 {
							mu.Lock()
							l = append(l, ms[ex].ws)
							mu.Unlock()
						}
						b.n, b.err = rooms[to-1].BroadcastBytes(ctx, p, l...)
					}
					b.ret = h.tick()
					cancel()
					mu.Lock()
					recs = append(recs, b)
					mu.Unlock()
					if gr.IntN(3) == 0 {
						time.Sleep(time.Duration(gr.IntN(1000)) * time.Microsecond)
					}
				}
			}))
		}
		churn := r.IntN(3)
		nk := 100
		for i := range churn {
			gr := s.Rng(fmt.Sprint("churn", i))
			ops = append(ops, s.Go("churn", func() {
				for range 1 + gr.IntN(8) {
					mu.Lock()
					var x *mem
					if len(ms) > K {
						x = ms[K+gr.IntN(len(ms)-K)]
					}
					nk++
					key := nk
					mu.Unlock()
					a := gr.IntN(6)
					if x == nil || a == 0 {
						x = connect(key)
						a = 1
					}
					if x == nil {
						return
					}
					if !x.mu.TryLock() { // one membership change at a time
						continue
					}
					ri := 1 + gr.IntN(2)
					call := h.tick()
					switch {
					case a <= 2 && len(x.in[ri])%4 == 0 && x.cut == 0:
						rooms[ri-1].Add(x.ws)
						x.in[ri] = append(x.in[ri], call, h.tick())
					case a <= 4 && len(x.in[ri])%4 == 2:
						rooms[ri-1].Remove(x.ws)
						x.in[ri] = append(x.in[ri], call, h.tick())
					case a == 5 && x.cut == 0 && gr.IntN(2) == 0:
						x.cut = call
						if gr.IntN(2) == 0 {
							x.ws.Close()
						} else {
							x.c.FeedEOF()
						}
					}
					x.mu.Unlock()
					time.Sleep(time.Duration(gr.IntN(500)) * time.Microsecond)
				}
			}))
		}
		for i := range r.IntN(4) { // other traffic on the same connections
			gr := s.Rng(fmt.Sprint("other", i))
			ops = append(ops, s.Go("other traffic", func() {
				for k := range 1 + gr.IntN(8) {
					mu.Lock()
					x := ms[gr.IntN(K)]
					mu.Unlock()
					p := pay(1000+i, k, gr.IntN(300))
					if gr.IntN(2) == 0 {
						x.ws.SendBytes(bg, p)
					} else if w, err := x.ws.NextWriter(bg, opText); err == nil {
						for _, part := range fragment(gr, p, 1+gr.IntN(4)) {
							w.Write(part)
							w.Flush()
							time.Sleep(time.Duration(gr.IntN(300)) * time.Microsecond)
						}
						w.Close()
					}
				}
			}))
		}
		for _, op := range ops {
			if !s.MustEnd(op, 20*time.Minute, "stuck") {
				return
			}
		}
		for _, x := range ms {
			slow(s, x.c, 0)
		}
		time.Sleep(5 * time.Second)
		s.Settle()
		info := fmt.Sprintf("%d broadcasters x %d, %d stable members, churn %d, noise %s", G, N, K, churn, noise)
		byID := map[pid]brec{}
		for _, b := range recs {
			byID[b.id] = b
		}
		total, anyClosed, anyCtx := 0, false, false
		counts := map[pid]int{}
		for xi, x := range ms {
			closed := x.c.Closed()
			anyClosed = anyClosed || closed
			if closed && x.cut == 0 {
				anyCtx2 := false
				for _, b := range recs {
					anyCtx2 = anyCtx2 || b.ctx
				}
				s.Violate("closed", "connection %d was closed (code %d) by nobody (contexts %v); %s", x.key, closedBy(x.c), anyCtx2, info)
				continue
			}
			seen := map[pid]bool{}
			last := map[int]int{}
			for _, msg := range x.inbox(s, info) {
				id, ok := parsePay(msg.Data)
				if !ok {
					s.Violate("corrupt", "connection %d received %s; %s", x.key, clip(msg.Data), info)
					return
				}
				if id.g >= 1000 {
					continue
				}
				b, ok := byID[id]
				if !ok || seen[id] {
					s.Violate("twice", "connection %d received broadcast %v twice (%v); %s", x.key, id, seen[id], info)
					return
				}
				seen[id] = true
				counts[id]++
				total++
				if msg.Frames != 1 || msg.Op != opBin {
					s.Violate("content", "connection %d received broadcast %v in %d frames with opcode %d; %s", x.key, id, msg.Frames, msg.Op, info)
				}
				if p, ok := last[id.g]; ok && p > id.seq {
					s.Violate("order", "connection %d received broadcast %d of goroutine %d after its broadcast %d; %s", x.key, id.seq, id.g, p, info)
				}
				last[id.g] = id.seq
				if xi < K && b.ex == x.key {
					s.Violate("stranger", "connection %d received broadcast %v which excluded it; %s", x.key, id, info)
				}
				// possibly a member at some moment of the call?
				poss := false
				in := x.in[b.to]
				for i := 0; i < len(in); i += 4 {
					end := int64(1 << 62)
					if i+3 < len(in) {
						end = in[i+3]
					}
					poss = poss || in[i] < b.ret && b.call < end
				}
				if !poss {
					s.Violate("stranger", "connection %d received broadcast %v although it was not a member of its target (%d) at any time during the call [%d,%d], memberships %v; %s", x.key, id, b.to, b.call, b.ret, in, info)
				}
			}
			if closed {
				continue
			}
			for _, b := range recs {
				if seen[b.id] || b.ctx || b.ex == x.key {
					continue
				}
				in := x.in[b.to]
				for i := 0; i+1 < len(in); i += 4 {
					end := int64(1 << 62)
					if i+2 < len(in) {
						end = in[i+2]
					}
					if in[i+1] < b.call && b.ret < end {
						s.Violate("lost", "connection %d was a member of target %d during the whole broadcast %v, which returned %d, %v, and did not receive it; %s", x.key, b.to, b.id, b.n, b.err, info)
					}
				}
			}
		}
		sum := 0
		for _, b := range recs {
			anyCtx = anyCtx || b.ctx
			if b.err != nil && !b.ctx {
				s.Violate("error", "broadcast %v returned %v; %s", b.id, b.err, info)
			}
			if b.err != nil && !errors.Is(b.err, context.DeadlineExceeded) {
				s.Violate("error", "broadcast %v returned %v; %s", b.id, b.err, info)
			}
			sum += b.n
			if counts[b.id] > b.n {
				s.Violate("returned", "broadcast %v returned %d and was received by %d connections; %s", b.id, b.n, counts[b.id], info)
			}
			if !b.ctx && !anyClosed && counts[b.id] != b.n {
				s.Violate("returned", "broadcast %v returned %d and was received by %d connections, and no connection was closed; %s", b.id, b.n, counts[b.id], info)
			}
		}
		s.Count("broadcasts", len(recs))
		s.Count("deliveries", total)
		s.Count("counted_as_queued", sum)
		if total > 0 {
			s.NonTrivial()
		}
		s.Sample(map[string]any{"broadcasters": G, "each": N, "members": len(ms), "deliveries": total, "noise": noise})
		for _, x := range ms {
			x.ws.Close()
			x.d.op.Within(time.Minute)
		}
	})
}

// ---------------------------------------------------------------- C22

var _ = register("C22", &Prop{Quick: 9000, Thorough: 225000,
	Rule: "1 to 6 connections of which 1 or more stop taking data (before a frame or inside one), queues of 1 to 8, the three policies, plain and batch broadcasts through a manager or a room; the stuck connections recover, stay stuck, close, or the context ends; every step's returned count, duration, close codes and all wires are compared with the policy; a quarter of the scenarios broadcast from several goroutines and check conservation; non-trivial: at least one queue was full when a broadcast was made",
	Run: func(t *testing.T, s *S) {
		if s.Idx%4 == 3 {
			pressureConcurrent(t, s)
			return
		}
		r := s.R
		o := outOpts(r)
		W := time.Duration(10+r.IntN(20)) * time.Second
		o.WriteWait = W
		q := 1 + r.IntN(8)
		if r.IntN(10) == 0 {
			o.BroadcastChannelsSize = 0 // default
			q = 8
		} else {
			o.BroadcastChannelsSize = q
		}
		policy := []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[r.IntN(3)]
		o.BroadcastBackpressure = policy
		pname := []string{"drop", "close", "wait"}[policy]
		K := 1 + r.IntN(6)
		NS := 1 + r.IntN(K)
		if r.IntN(2) == 0 {
			NS = 1
		}
		batch := r.IntN(3) == 0
		useRoom := r.IntN(2) == 0
		if s.Long(200) {
			if r.IntN(2) == 0 {
				q = []int{64, 100, 255, 256, 257, 300}[r.IntN(6)]
				o.BroadcastChannelsSize = q
			} else {
				K = 10 + r.IntN(110)
				NS = 1 + r.IntN(K)
				if r.IntN(2) == 0 {
					NS = K - r.IntN(5)
				}
			}
		}
		B := q + 1 + r.IntN(6)
		end := []string{"recover", "recover", "stay", "close", "cancel"}[r.IntN(5)]
		noise := s.Noise()
		s.Sig(s.Idx, q, pname, K, NS, batch, end, B)
		s.Count("policy "+pname+", "+end, 1)
		info := fmt.Sprintf("policy %s, queue %d, %d of %d connections stuck, batch %v, room %v, then %s, noise %s", pname, q, NS, K, batch, useRoom, end, noise)
		s.Bubble(t, func() {
			u := snapws.NewUpgrader(o)
			if batch {
				u.EnableJSONBatching(bg, 20*time.Millisecond)
				defer u.Flusher.Close()
			}
			m := snapws.NewManager[int](u)
			room := snapws.NewRoomManager[int](u).Add(1)
			var ms []*bmember
			for i := range K {
				x := &bmember{key: i, c: NewMemConn(), open: true}
				NewClient(x.c)
				mc, err := s.mconnect(m, i, NewRW(x.c, 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return
				}
				x.ws = mc.Conn
				room.Add(x.ws)
				x.d = s.Reader(x.ws)
				ms = append(ms, x)
			}
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			stuck, well := ms[:NS], ms[NS:]
			time.Sleep(time.Millisecond)
			s.Settle()
			for _, x := range stuck {
				x.c.SetWindow(x.c.OutLen() + r.IntN(2)*r.IntN(6))
			}
			// a plain broadcast that the queue's consumer blocks on
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			type brec struct {
				id    pid
				batch bool
				n     int
			}
			var recs []brec
			send := func(c context.Context, k int, bt bool) (int, error) {
				p := pay(1, k, 10+(k*37)%100)
				switch {
				case bt:
					j, _ := json.Marshal(string(p))
					if useRoom {
						return room.BatchBroadcast(c, j)
					}
					return m.BatchBroadcast(c, j)
				case useRoom:
					return room.BroadcastString(c, p)
				}
				return m.BroadcastString(c, p)
			}
			blocked := false
			full := 0
			for k := range B {
				bt := batch && k > 0 && r.IntN(2) == 0
				if policy == snapws.BackpressureWait && k > q {
					break
				}
				was := time.Now()
				n, err := send(ctx, k, bt)
				if d := time.Since(was); d > 100*time.Millisecond {
					s.Violate("delayed", "broadcast %d took %v; %s", k, d, info)
					return
				}
				if err != nil {
					s.Violate("error", "broadcast %d failed with %v; %s", k, err, info)
					return
				}
				recs = append(recs, brec{pid{1, k}, bt, n})
				want := len(well)
				if k <= q {
					want = K
				} else {
					full++
				}
				closing := policy == snapws.BackpressureClose && k > q+1 && n >= want && n <= K
				if n != want && !closing {
					s.Violate("returned", "broadcast %d (after %d others with %d connections stuck) returned %d, expected %d; %s", k, k, NS, n, want, info)
					return
				}
				s.Settle()
				time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
				s.Settle()
			}
			time.Sleep(50 * time.Millisecond) // batches are flushed
			s.Settle()
			judgeWell := func(all bool) {
				for _, x := range well {
					checkQueued(s, x, len(recs), func(i int) bool { return true }, func(i int) bool { return recs[i].batch }, info)
					if x.c.Closed() {
						s.Violate("closed", "connection %d, which was not slow, was closed with %d; %s", x.key, closedBy(x.c), info)
					}
				}
			}
			judgeWell(true)
			if s.Failed() {
				return
			}
			var waiter *Op
			var wn int
			var werr error
			if policy == snapws.BackpressureWait {
				full++
				k := q + 1
				bt := batch && r.IntN(2) == 0
				was := time.Now()
				waiter = s.Go("broadcast to a full queue", func() {
					wn, werr = send(ctx, k, bt)
				})
				recs = append(recs, brec{pid{1, k}, bt, 0})
				hold := time.Duration(r.IntN(3000)) * time.Millisecond
				time.Sleep(hold)
				s.Settle()
				blocked = !waiter.Done()
				if !blocked {
					s.Violate("not-waiting", "a broadcast to a full queue returned %d, %v after %v under the wait policy; %s", wn, werr, waiter.End.Sub(was), info)
					return
				}
			}
			accepted := min(len(recs), q+1) // by each stuck connection
			if policy == snapws.BackpressureClose && full > 0 {
				time.Sleep(10 * time.Millisecond)
			}
			switch end {
			case "recover":
				for _, x := range stuck {
					x.c.Unstall()
				}
				time.Sleep(100 * time.Millisecond)
				s.Settle()
				if waiter != nil {
					if !s.MustEnd(waiter, time.Second, "wait") {
						return
					}
					if werr != nil || wn != K {
						s.Violate("returned", "the waiting broadcast returned %d, %v after the connections recovered, expected %d; %s", wn, werr, K, info)
						return
					}
					accepted = len(recs)
				}
				time.Sleep(100 * time.Millisecond)
				s.Settle()
				judgeWell(true)
				for _, x := range stuck {
					if policy == snapws.BackpressureClose && full > 0 {
						if !x.c.Closed() || closedBy(x.c) != 1008 {
							s.Violate("not-closed", "connection %d, whose queue was full, is closed: %v, with code %d, expected 1008; %s", x.key, x.c.Closed(), closedBy(x.c), info)
						}
						checkPrefix(s, x, info)
						continue
					}
					if x.c.Closed() {
						s.Violate("closed", "connection %d was closed with %d although the policy is %s; %s", x.key, closedBy(x.c), pname, info)
						continue
					}
					checkQueued(s, x, len(recs), func(i int) bool { return i < accepted }, func(i int) bool { return recs[i].batch }, info)
				}
				if !s.Failed() { // and everything works again
					k := 900
					n, err := send(bg, k, false)
					recs = append(recs, brec{pid{1, k}, false, n})
					time.Sleep(50 * time.Millisecond)
					s.Settle()
					alive := K
					if policy == snapws.BackpressureClose && full > 0 {
						alive = len(well)
					}
					if err != nil || n != alive {
						s.Violate("returned", "a broadcast after the recovery returned %d, %v, expected %d; %s", n, err, alive, info)
					}
				}
			case "close", "stay":
				for _, x := range stuck {
					if end == "close" {
						if r.IntN(2) == 0 {
							x.c.FeedEOF()
						} else {
							s.Go("close", x.ws.Close)
						}
					}
				}
				if waiter != nil {
					if !s.MustEnd(waiter, time.Duration(NS+1)*3*W, "wait") {
						return
					}
					if werr != nil || wn != len(well) {
						s.Violate("returned", "the waiting broadcast returned %d, %v after the stuck connections closed, expected %d; %s", wn, werr, len(well), info)
					}
				}
				time.Sleep(3 * W)
				s.Settle()
				judgeWell(true)
				for _, x := range stuck {
					if !x.c.Closed() {
						s.Violate("open", "connection %d is still open; %s", x.key, info)
					}
				}
			case "cancel":
				cancel()
				if waiter != nil {
					if !s.MustEnd(waiter, 100*time.Millisecond, "wait") {
						return
					}
					if !errors.Is(werr, context.Canceled) || wn > len(well) {
						s.Violate("returned", "the waiting broadcast returned %d, %v after its context had ended; %s", wn, werr, info)
					}
				}
				time.Sleep(100 * time.Millisecond)
				if n, err := m.BroadcastString(ctx, []byte("<late>")); err == nil && n < len(well) {
					s.Violate("returned", "a broadcast with an ended context returned %d without an error; %s", n, info)
				}
			}
			s.Count("broadcasts", len(recs))
			s.Count("full_queues", full*NS)
			if full > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"policy": pname, "queue": q, "connections": K, "stuck": NS, "batch": batch, "end": end, "broadcasts": len(recs), "noise": noise})
			for _, x := range ms {
				x.c.Unstall()
				x.ws.Close()
				x.d.op.Within(time.Minute)
			}
		})
	}})

// received returns the ids of plain and batched messages received, in order.
func received(s *S, x *bmember, info string) (plain, batched []pid, ok bool) {
	for _, m := range x.inbox(s, info) {
		if len(m.Data) > 0 && m.Data[0] == '[' {
			var items []string
			if err := json.Unmarshal(m.Data, &items); err != nil {
				s.Violate("corrupt", "a batch does not parse (%v): %s; %s", err, clip(m.Data), info)
				return
			}
			for _, it := range items {
				id, ok := parsePay([]byte(it))
				if !ok {
					s.Violate("corrupt", "connection %d received %s in a batch; %s", x.key, clip([]byte(it)), info)
					return nil, nil, false
				}
				batched = append(batched, id)
			}
			continue
		}
		id, ok := parsePay(m.Data)
		if !ok {
			s.Violate("corrupt", "connection %d received %s; %s", x.key, clip(m.Data), info)
			return nil, nil, false
		}
		plain = append(plain, id)
	}
	return plain, batched, true
}

// checkQueued requires exactly the messages for which due holds, plain and batched ones each in order.
func checkQueued(s *S, x *bmember, n int, due, isBatch func(i int) bool, info string) {
	plain, batched, ok := received(s, x, info)
	if !ok {
		return
	}
	var wp, wb []pid
	for i := range n {
		if due(i) {
			if isBatch(i) {
				wb = append(wb, pid{1, i})
			} else {
				wp = append(wp, pid{1, i})
			}
		}
	}
	if fmt.Sprint(plain) != fmt.Sprint(wp) || fmt.Sprint(batched) != fmt.Sprint(wb) {
		s.Violate("delivery", "connection %d received %v and batched %v, expected %v and %v; %s", x.key, plain, batched, wp, wb, info)
	}
}

// checkPrefix requires an in-order prefix of the plain messages.
func checkPrefix(s *S, x *bmember, info string) {
	plain, batched, _ := received(s, x, info)
	for _, l := range [][]pid{plain, batched} {
		if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i].seq < l[j].seq }) {
			s.Violate("order", "connection %d received %v, %v; %s", x.key, plain, batched, info)
		}
	}
}

// pressureConcurrent broadcasts from several goroutines over small queues and slow transports.
func pressureConcurrent(t *testing.T, s *S) {
	r := s.R
	o := outOpts(r)
	W := 30 * time.Second
	o.WriteWait = W
	o.BroadcastChannelsSize = 1 + r.IntN(4)
	policy := []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureDrop, snapws.BackpressureWait}[r.IntN(3)]
	o.BroadcastBackpressure = policy
	K, G, N := 1+r.IntN(6), 1+r.IntN(6), 5+r.IntN(30)
	noise := s.Noise()
	s.Sig(s.Idx, K, G, N, policy)
	info := fmt.Sprintf("policy %v, queue %d, %d connections, %d broadcasters x %d, noise %s", policy, o.BroadcastChannelsSize, K, G, N, noise)
	s.Bubble(t, func() {
		u := snapws.NewUpgrader(o)
		m := snapws.NewManager[int](u)
		var ms []*bmember
		pauses := make([]time.Duration, K)
		for i := range K {
			x := &bmember{key: i, c: NewMemConn()}
			NewClient(x.c)
			mc, err := s.mconnect(m, i, NewRW(x.c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "refused: %v", err)
				return
			}
			x.ws = mc.Conn
			x.d = s.Reader(x.ws)
			ms = append(ms, x)
			gr := s.Rng(fmt.Sprint("t", i))
			if gr.IntN(2) == 0 {
				pauses[i] = time.Duration(1+gr.IntN(20)) * time.Millisecond
				x.c.mu.Lock()
				x.c.SlowR, x.c.SlowMax = gr, pauses[i]
				x.c.mu.Unlock()
			}
		}
		if r.IntN(2) == 0 {
			x := ms[r.IntN(K)]
			x.c.Stall()
			time.AfterFunc(time.Duration(1+r.IntN(10))*time.Second, x.c.Unstall)
		}
		var mu Mutex
		sum := 0
		var ops []*Op
		for g := range G {
			gr := s.Rng(fmt.Sprint("g", g))
			ops = append(ops, s.Go("broadcaster", func() {
				for k := range N {
					was := time.Now()
					n, err := m.BroadcastBytes(bg, pay(g, k, gr.IntN(60)))
					if d := time.Since(was); policy == snapws.BackpressureDrop && d > 100*time.Millisecond {
						s.Violate("delayed", "a broadcast took %v; %s", d, info)
						return
					}
					if err != nil || n > K || policy == snapws.BackpressureWait && n != K {
						s.Violate("returned", "a broadcast returned %d, %v; %s", n, err, info)
						return
					}
					mu.Lock()
					sum += n
					mu.Unlock()
					if gr.IntN(2) == 0 {
						time.Sleep(time.Duration(gr.IntN(5000)) * time.Microsecond)
					}
				}
			}))
		}
		for _, op := range ops {
			if !s.MustEnd(op, time.Hour, "stuck") {
				return
			}
		}
		for _, x := range ms {
			slow(s, x.c, 0)
		}
		time.Sleep(20 * time.Second)
		s.Settle()
		total := 0
		for _, x := range ms {
			if x.c.Closed() {
				s.Violate("closed", "connection %d was closed with %d; %s", x.key, closedBy(x.c), info)
				continue
			}
			plain, _, ok := received(s, x, info)
			if !ok {
				return
			}
			seen := map[pid]bool{}
			last := map[int]int{}
			for _, id := range plain {
				if seen[id] {
					s.Violate("twice", "connection %d received %v twice; %s", x.key, id, info)
				}
				seen[id] = true
				if l, ok := last[id.g]; ok && l > id.seq {
					s.Violate("order", "connection %d received %v after %d; %s", x.key, id, l, info)
				}
				last[id.g] = id.seq
			}
			total += len(plain)
		}
		if total != sum && !s.Failed() {
			s.Violate("conservation", "%d messages were counted as queued and %d delivered, with all connections open; %s", sum, total, info)
		}
		s.Count("counted_as_queued", sum)
		s.Count("deliveries", total)
		s.Count("dropped", G*N*K-sum)
		if policy == snapws.BackpressureWait || sum < G*N*K {
			s.NonTrivial()
		}
		s.Sample(map[string]any{"policy": policy, "connections": K, "broadcasters": G, "queued": sum, "delivered": total})
		for _, x := range ms {
			x.ws.Close()
			x.d.op.Within(time.Minute)
		}
	})
}

var _ = rand.IntN
