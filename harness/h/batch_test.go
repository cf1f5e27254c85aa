package h

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

const (
	bJSON = iota
	bPrefix
	bCustom
)

var bName = []string{"json", "length-prefix", "custom"}

// bbatch is one batch that reached a connection.
type bbatch struct {
	items [][]byte
	t     time.Time
}

// batcher is an upgrader with batching enabled, and everything its custom sender was given.
type batcher struct {
	s        *S
	u        *snapws.Upgrader
	kind     int
	pre, suf bool
	extraLen int // how much longer the prefix and suffix are

	mu     Mutex
	custom map[*snapws.Conn][]bbatch
	active map[*snapws.Conn]int
	sendT  func() time.Duration // how long the custom sender takes
	pcalls int
	within func(ws *snapws.Conn) // what the callbacks do
}

// callback is run by the functions the application gave.
func (b *batcher) callback(ws *snapws.Conn) {
	if b.within != nil {
		b.within(ws)
	}
}

func (b *batcher) enable(ctx context.Context, every time.Duration) {
	switch b.kind {
	case bJSON:
		b.u.EnableJSONBatching(ctx, every)
	case bPrefix:
		b.u.EnablePrefixBatching(ctx, every)
	default:
		b.u.EnableBatching(ctx, every, func(_ context.Context, ws *snapws.Conn, msgs [][]byte) error {
			x := bbatch{t: time.Now()}
			for _, m := range msgs {
				x.items = append(x.items, dup(m))
			}
			b.mu.Lock()
			b.custom[ws] = append(b.custom[ws], x)
			b.active[ws]++
			f := b.sendT
			b.mu.Unlock()
			b.callback(ws)
			if f != nil {
				if d := f(); d > 0 {
					time.Sleep(d)
				}
			}
			b.mu.Lock()
			b.active[ws]--
			n := len(b.custom[ws]) + b.s.Idx
			b.mu.Unlock()
			// an error of the application is about this batch only.
			return []error{nil, nil, errors.New("the sender failed"), context.DeadlineExceeded, snapws.ErrTimeout, nil, nil}[n%7]
		})
	}
	tag := func(what string) snapws.PrefixSuffixFunc {
		return func(ws *snapws.Conn, msgs [][]byte) []byte {
			b.mu.Lock()
			b.pcalls++
			b.mu.Unlock()
			b.callback(ws)
			return b.extra(what, len(msgs))
		}
	}
	if b.pre {
		b.u.Flusher.BatchPrefixFunc = tag("pre")
	}
	if b.suf {
		b.u.Flusher.BatchSuffixFunc = tag("suf")
	}
}

// extra is the prefix or suffix of a batch of n messages.
func (b *batcher) extra(what string, n int) []byte {
	return fmt.Appendf(nil, "%q", fmt.Sprintf("%s%d%s", what, n, strings.Repeat("+", b.extraLen)))
}

// batches decodes what reached a connection. Other messages, which start with '<', are skipped.
func (b *batcher) batches(ws *snapws.Conn, c *MemConn, info string) (out []bbatch) {
	s := b.s
	if b.kind == bCustom {
		b.mu.Lock()
		defer b.mu.Unlock()
		return append(out, b.custom[ws]...)
	}
	marks := c.Marks()
	w := DecodeWire(c.Out(), true)
	if w.Err != "" {
		s.Violate("wire", "invalid stream: %s; %s", w.Err, info)
		return
	}
	for _, m := range w.Msgs {
		if len(m.Data) > 0 && m.Data[0] == '<' {
			continue
		}
		if m.Op != opBin {
			s.Violate("type", "a batch was sent with opcode %d; %s", m.Op, info)
		}
		x := bbatch{}
		// when the last byte was written
		for len(marks) > 1 && marks[1].Off <= len(w.HTTP)+m.End-1 {
			marks = marks[1:]
		}
		if len(marks) > 0 {
			x.t = marks[0].T
		}
		if b.kind == bJSON {
			var items []json.RawMessage
			if err := json.Unmarshal(m.Data, &items); err != nil {
				s.Violate("format", "a batch is not a JSON array (%v): %s; %s", err, clip(m.Data), info)
				return
			}
			for _, it := range items {
				x.items = append(x.items, it)
			}
		} else {
			for d := m.Data; len(d) > 0; {
				if len(d) < 4 || uint64(len(d)-4) < uint64(binary.BigEndian.Uint32(d)) {
					s.Violate("format", "a batch has a broken length prefix: %s; %s", clip(m.Data), info)
					return
				}
				n := int(binary.BigEndian.Uint32(d))
				x.items = append(x.items, d[4:4+n])
				d = d[4+n:]
			}
		}
		// the optional elements
		n := len(x.items) - b2i(b.pre) - b2i(b.suf)
		if n < 0 {
			s.Violate("format", "a batch misses its prefix or suffix: %s; %s", clip(m.Data), info)
			return
		}
		if b.pre {
			if want := b.extra("pre", n); string(x.items[0]) != string(want) {
				s.Violate("format", "a batch of %d messages starts with %s, expected the prefix %s; %s", n, clip(x.items[0]), clip(want), info)
			}
			x.items = x.items[1:]
		}
		if b.suf {
			if want := b.extra("suf", n); string(x.items[n]) != string(want) {
				s.Violate("format", "a batch of %d messages ends with %s, expected the suffix %s; %s", n, clip(x.items[n]), clip(want), info)
			}
			x.items = x.items[:n]
		}
		out = append(out, x)
	}
	return
}

// message returns a batchable message and its decoding.
func (b *batcher) message(g, k, n int) []byte {
	p := pay(g, k, n)
	if b.kind == bJSON {
		p, _ = json.Marshal(string(p))
	}
	return p
}
func (b *batcher) parse(m []byte) (pid, bool) {
	if b.kind == bJSON || len(m) > 0 && m[0] == '"' {
		var x string
		if json.Unmarshal(m, &x) != nil {
			return pid{}, false
		}
		m = []byte(x)
	}
	return parsePay(m)
}

// accepted is a message whose batching call succeeded.
type accepted struct {
	id        pid
	call, ret int64
	retT      time.Time
	size      int
}

func newBatcher(s *S, o *snapws.Options) *batcher {
	r := s.R
	return &batcher{s: s, u: snapws.NewUpgrader(o), kind: r.IntN(3), pre: r.IntN(3) == 0, suf: r.IntN(3) == 0,
		custom: map[*snapws.Conn][]bbatch{}, active: map[*snapws.Conn]int{}}
}

// ---------------------------------------------------------------- C23

var _ = register("C23", &Prop{Quick: 6000, Thorough: 150000,
	Rule: "1 to 8 goroutines batching (bytes, JSON values, through a manager or a room) on 1 to 3 connections with a random format, prefix, suffix, interval (0.1 to 100 ms) and size limit (10 bytes to 1 MB), with messages of 0 to 9000 bytes, other traffic, slow transports and custom senders; everything that arrived is decoded independently and matched with the accepted messages: each once, in real-time order, each batch within the limit; non-trivial: at least two batches arrived",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = 10 * time.Minute
		o.MaxBatchSize = []int{0, 10, 50, 100, 300, 1000, 5000}[r.IntN(7)]
		limit := o.MaxBatchSize
		if limit == 0 {
			limit = 1 << 20
		}
		o.BroadcastChannelsSize = 512
		every := time.Duration(100+r.IntN(5000)) * time.Microsecond
		if r.IntN(4) == 0 {
			every = time.Duration(r.IntN(100)) * time.Millisecond
		}
		G, N, K := 1+r.IntN(8), 1+r.IntN(25), 1+r.IntN(3)
		roof := 20000 // of one message
		switch r.IntN(120) {
		case 0: // big messages, big batches
			limit = []int{65535, 65536, 70000, 150000}[r.IntN(4)]
			o.MaxBatchSize, roof, N = limit, 160000, 1+r.IntN(6)
		case 1: // many messages in a batch
			every, G, N, K = time.Duration(20+r.IntN(80))*time.Millisecond, 1+r.IntN(3), 150+r.IntN(300), 1
		}
		if s.Long(307) { // thousands of messages in a batch
			o.MaxBatchSize, limit, roof, o.BroadcastChannelsSize = 0, 1<<20, 40, 10000
			every, G, N, K = time.Second, 1+r.IntN(3), 1000+r.IntN(2000), 1
			if r.IntN(2) == 0 {
				N, o.BroadcastChannelsSize = 6000+r.IntN(8000), 50000
			}
		}
		noise := s.Noise()
		s.Bubble(t, func() {
			b := newBatcher(s, o)
			switch x := r.IntN(120); {
			case x < 30:
				b.extraLen = r.IntN(frugal(o, 600) + 1)
			case x == 30 && (o.WriteBufferSize == 0 || o.WriteBufferSize >= 1000) && (b.pre || b.suf):
				b.extraLen = 65500 + r.IntN(5000)
				every = max(every, 5*time.Millisecond)
				N = min(N, 6)
			}
			b.enable(bg, every)
			if b.kind == bCustom && r.IntN(2) == 0 {
				sr := s.Rng("sender")
				b.sendT = func() time.Duration { // called under no lock of ours, but serialise the generator
					b.mu.Lock()
					defer b.mu.Unlock()
					return time.Duration(sr.IntN(3)) * time.Duration(sr.Int64N(int64(every)*2+1))
				}
			}
			s.Sig(s.Idx, b.kind, G, N, K)
			info := fmt.Sprintf("%s batches (prefix %v, suffix %v) of at most %d bytes every %v, %d goroutines x %d, write buffer %d, noise %s", bName[b.kind], b.pre, b.suf, limit, every, G, N, o.WriteBufferSize, noise)
			m := snapws.NewManager[int](b.u)
			rm := snapws.NewRoomManager[int](b.u)
			room := rm.Add(1)
			h := newHist()
			var mu Mutex
			acc := make([][]accepted, K)
			nq := make([]map[pid]bool, K) // batch broadcasts that may be there
			hollow := make([]int, K)      // empty messages
			var ms []*bmember
			for i := range K {
				x := &bmember{key: i, c: NewMemConn()}
				NewClient(x.c).AutoPong(0)
				mc, err := s.mconnect(m, i, NewRW(x.c, 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return
				}
				x.ws = mc.Conn
				room.Add(x.ws)
				x.d = s.Reader(x.ws)
				ms = append(ms, x)
				nq[i] = map[pid]bool{}
				if gr := s.Rng(fmt.Sprint("slow", i)); gr.IntN(3) == 0 {
					x.c.mu.Lock()
					x.c.SlowR, x.c.SlowMax = gr, time.Duration(1+gr.IntN(2000))*time.Microsecond
					x.c.mu.Unlock()
				}
			}
			if r.IntN(3) == 0 { // the callbacks use the library
				cr := s.Rng("callbacks")
				left := 1 + r.IntN(6)
				b.within = func(ws *snapws.Conn) {
					mu.Lock()
					act, ci := cr.IntN(5), cr.IntN(K)
					k := left
					if left > 0 {
						left--
					}
					mu.Unlock()
					if k == 0 {
						return
					}
					switch act {
					case 0:
						m.GetAllConns()
						room.GetAllConns()
					case 1, 2, 3: // even the connection whose batch it is
						if act < 3 {
							for i, x := range ms {
								if x.ws == ws {
									ci = i
								}
							}
						}
						a := accepted{id: pid{7000, k}}
						msg := b.message(7000, k, 30)
						a.size = len(msg)
						a.call = h.tick()
						err := ms[ci].ws.Batch(msg)
						a.ret = h.tick()
						if err != nil {
							s.Violate("error", "Batch returned %v in a callback", err)
							return
						}
						mu.Lock()
						acc[ci] = append(acc[ci], a)
						mu.Unlock()
						s.Count("batched_in_callbacks", 1)
					default:
						m.BroadcastString(bg, pay(1100, k, 30))
					}
				}
			}
			var ops []*Op
			nb := 0
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				kind := gr.IntN(5)
				ops = append(ops, s.Go("batching", func() {
					for k := range N {
						n := gr.IntN(60)
						switch gr.IntN(8) {
						case 0:
							n = rsize(gr, min(9000, roof))
						case 1:
							n = max(0, limit/(1+gr.IntN(3))-gr.IntN(14)) % roof
						}
						n = frugal(o, n)
						msg := b.message(g, k, n)
						a := accepted{id: pid{g, k}, size: len(msg)}
						if b.kind != bJSON && gr.IntN(12) == 0 {
							msg = [][]byte{nil, {}}[gr.IntN(2)]
							if kind >= 3 {
								if cnt, err := m.BatchBroadcast(bg, msg); err != nil || cnt != K {
									s.Violate("error", "a batch broadcast of nothing returned %d, %v; %s", cnt, err, info)
									return
								}
								mu.Lock()
								for i := range K {
									hollow[i]++
								}
								mu.Unlock()
							} else {
								ci := gr.IntN(K)
								if err := ms[ci].ws.Batch(msg); err != nil {
									s.Violate("error", "Batch of nothing returned %v on an open connection; %s", err, info)
									return
								}
								mu.Lock()
								hollow[ci]++
								mu.Unlock()
							}
							continue
						}
						if kind >= 3 { // broadcast
							var cnt int
							var err error
							var exK []int
							var exC []*snapws.Conn
							out := map[int]bool{}
							if gr.IntN(3) == 0 {
								for range 1 + gr.IntN(K) {
									i := gr.IntN(K)
									out[i] = true
									exK, exC = append(exK, i), append(exC, ms[i].ws)
								}
							}
							switch {
							case kind == 3:
								cnt, err = m.BatchBroadcast(bg, msg, exK...)
							case gr.IntN(2) == 0:
								cnt, err = room.BatchBroadcast(bg, msg, exC...)
							case b.kind == bJSON || gr.IntN(2) == 0:
								cnt, err = room.BatchBroadcastJSON(bg, string(pay(g, k, n)), exC...)
							default:
								cnt, err = m.BatchBroadcastJSON(bg, string(pay(g, k, n)), exK...)
							}
							if err != nil || cnt != K-len(out) {
								s.Violate("error", "a batch broadcast to %d connections returned %d, %v; %s", K-len(out), cnt, err, info)
								return
							}
							mu.Lock()
							nb++
							for i := range K {
								if !out[i] {
									nq[i][a.id] = true
								}
							}
							mu.Unlock()
						} else {
							ci := gr.IntN(K)
							a.call = h.tick()
							var err error
							if gr.IntN(4) == 0 {
								err = ms[ci].ws.BatchJSON(string(pay(g, k, n)))
								a.size = 0
							} else {
								err = ms[ci].ws.Batch(msg)
							}
							a.ret = h.tick()
							if err != nil {
								s.Violate("error", "Batch returned %v on an open connection; %s", err, info)
								return
							}
							mu.Lock()
							acc[ci] = append(acc[ci], a)
							mu.Unlock()
						}
						if gr.IntN(max(3, N-500)) == 0 {
							time.Sleep(time.Duration(gr.Int64N(int64(every)*2 + 1000)))
						}
					}
				}))
			}
			for i := range r.IntN(3) {
				gr := s.Rng(fmt.Sprint("other", i))
				ops = append(ops, s.Go("other traffic", func() {
					for k := range 1 + gr.IntN(6) {
						ms[gr.IntN(K)].ws.SendString(bg, pay(1000+i, k, gr.IntN(3000)))
						time.Sleep(time.Duration(gr.Int64N(int64(every)*2 + 1)))
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, time.Hour, "stuck") {
					return
				}
			}
			for _, x := range ms {
				slow(s, x.c, 0)
			}
			for range 100 { // until everything is there, and a little longer
				time.Sleep(20*every + 20*time.Millisecond)
				s.Settle()
				all := true
				for i, x := range ms {
					n := 0
					for _, bt := range b.batches(x.ws, x.c, info) {
						n += len(bt.items)
					}
					all = all && n >= len(acc[i])+len(nq[i])+hollow[i]
				}
				if all || s.Failed() {
					break
				}
			}
			time.Sleep(20*every + 20*time.Millisecond)
			s.Settle()
			nbatch, nmsg := 0, 0
			for i, x := range ms {
				if x.c.Closed() {
					s.Violate("closed", "connection %d was closed with %d; %s", i, closedBy(x.c), info)
					continue
				}
				bs := b.batches(x.ws, x.c, info)
				pos := map[pid]int{}
				n, empties := 0, 0
				for _, bt := range bs {
					size := 0
					if len(bt.items) == 0 {
						s.Violate("empty", "an empty batch was sent; %s", info)
					}
					for _, it := range bt.items {
						if len(it) == 0 && b.kind != bJSON {
							empties++
							continue
						}
						id, ok := b.parse(it)
						if !ok {
							s.Violate("corrupt", "a batch contains %s, which nobody batched; %s", clip(it), info)
							return
						}
						if _, ok := pos[id]; ok {
							s.Violate("twice", "message %v was delivered twice; %s", id, info)
							return
						}
						pos[id] = n
						n++
						size += len(it)
					}
					if size > limit && len(bt.items) > 1 {
						s.Violate("too-big", "a batch of %d messages holds %d bytes; %s", len(bt.items), size, info)
					}
				}
				nbatch += len(bs)
				nmsg += n
				if empties != hollow[i] {
					s.Violate("lost", "%d empty messages were delivered to connection %d, %d were accepted; %s", empties, i, hollow[i], info)
				}
				if want := len(acc[i]) + len(nq[i]); n != want {
					s.Violate("lost", "%d messages were delivered to connection %d, %d were accepted; %s", n, i, want, info)
				}
				sort.Slice(acc[i], func(a, c int) bool { return pos[acc[i][a].id] < pos[acc[i][c].id] })
				// in delivery order, no message may have been accepted before the call of an earlier one
				var maxCall int64
				var maxID pid
				for _, a := range acc[i] {
					if _, ok := pos[a.id]; !ok {
						s.Violate("lost", "message %v was accepted and not delivered; %s", a.id, info)
						break
					}
					if a.ret < maxCall {
						s.Violate("order", "message %v was accepted before message %v was batched, and delivered after it; %s", a.id, maxID, info)
						break
					}
					if a.call > maxCall {
						maxCall, maxID = a.call, a.id
					}
				}
				last := map[int]int{}
				var ids []pid
				for id := range pos {
					ids = append(ids, id)
				}
				sort.Slice(ids, func(a, c int) bool { return pos[ids[a]] < pos[ids[c]] })
				for _, id := range ids {
					if !nq[i][id] {
						continue
					}
					if l, ok := last[id.g]; ok && l > id.seq {
						s.Violate("order", "batch broadcast %v was delivered after number %d; %s", id, l, info)
					}
					last[id.g] = id.seq
				}
			}
			s.Count("batches", nbatch)
			s.Count("messages", nmsg)
			s.Count("batch_broadcasts", nb)
			s.Count("format "+bName[b.kind], 1)
			if nbatch >= 2 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"format": bName[b.kind], "prefix": b.pre, "suffix": b.suf, "limit": limit, "interval": every.String(), "batches": nbatch, "messages": nmsg, "noise": noise})
			b.u.Flusher.Close()
			for _, x := range ms {
				x.ws.Close()
				x.d.op.Within(time.Minute)
			}
		})
	}})

// ---------------------------------------------------------------- C24

var _ = register("C24", &Prop{Quick: 8000, Thorough: 200000,
	Rule: "1 to 60 connections (some stuck) with messages batched at random moments; the time from each acceptance to the write of its batch is measured in virtual time; then the flusher is closed, its context ends, or batching is enabled again, while 1 to 4 goroutines keep batching: all accepted before a close must arrive, every call after it must fail, and connections opened after a re-enable must work; non-trivial: at least one message was on time and the shutdown judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		if s.Idx%7 == 3 {
			waitingBatch(t, s)
			return
		}
		o := outOpts(r)
		W := time.Duration(20+r.IntN(40)) * time.Second
		o.WriteWait = W
		o.BroadcastChannelsSize = 256
		K := []int{1, 1, 2, 3, 8, 20, 60}[r.IntN(7)]
		every := time.Duration(1+r.IntN(200)) * time.Millisecond
		if r.IntN(5) == 0 {
			every = 0
		}
		if s.Long(307) {
			K, every = 150+r.IntN(250), 400*time.Millisecond
		}
		eff := every
		if eff == 0 {
			eff = 50 * time.Millisecond
		}
		stuckP := []float64{0, 0, 0.2, 0.7}[r.IntN(4)]
		end := []string{"close", "close", "close", "cancel", "re-enable", "re-enable"}[r.IntN(6)]
		noise := s.Noise()
		s.Sig(s.Idx, K, every, end)
		s.Count("end: "+end, 1)
		s.Bubble(t, func() {
			b := newBatcher(s, o)
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if _, err := snapws.NewManager[int](b.u).BatchBroadcast(bg, []byte("1")); err == nil {
				s.Violate("disabled", "a batch broadcast succeeded although batching was never enabled")
			}
			fctx := ctx
			if r.IntN(4) == 0 && end != "cancel" {
				fctx = nil
			}
			b.enable(fctx, every)
			slack := 3*time.Millisecond + time.Duration(K)*time.Millisecond + s.vslack
			info := fmt.Sprintf("%s batches every %v, %d connections (stuck %.1f), then %s, noise %s", bName[b.kind], every, K, stuckP, end, noise)
			m := snapws.NewManager[int](b.u)
			room := snapws.NewRoomManager[int](b.u).Add(1)
			var ms []*bmember
			well := map[int]bool{}
			connect := func(key int) *bmember {
				x := &bmember{key: key, c: NewMemConn()}
				NewClient(x.c)
				mc, err := s.mconnect(m, key, NewRW(x.c, 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return nil
				}
				x.ws = mc.Conn
				room.Add(x.ws)
				x.d = s.Reader(x.ws)
				ms = append(ms, x)
				well[key] = true
				return x
			}
			for i := range K {
				x := connect(i)
				if x == nil {
					return
				}
				if r.Float64() < stuckP && i > 0 && b.kind != bCustom {
					well[i] = false
					x.c.SetWindow(x.c.OutLen() + r.IntN(3))
				}
			}
			h := newHist()
			var mu Mutex
			acc := make([]map[pid]accepted, 2*K)
			for i := range acc {
				acc[i] = map[pid]accepted{}
			}
			started := make(chan struct{})
			over := make(chan struct{})
			var closeCall, closeRet int64
			type late struct {
				call int64
				what string
				n    int
				err  error
			}
			var lates []late // calls that ended after the shutdown began
			batch := func(g, k, ci, n int) error {
				msg := b.message(g, k, n)
				a := accepted{id: pid{g, k}, call: h.tick()}
				err := ms[ci].ws.Batch(msg)
				a.ret, a.retT = h.tick(), time.Now()
				mu.Lock()
				defer mu.Unlock()
				if err == nil {
					acc[ci][a.id] = a
				}
				if closeCall != 0 {
					lates = append(lates, late{a.call, "Batch", 0, err})
				} else if err != nil {
					s.Violate("error", "Batch returned %v on an open connection; %s", err, info)
				}
				return err
			}
			// first part: on time
			P := 1 + r.IntN(4)
			N := 1 + r.IntN(20)
			var ops []*Op
			for g := range P {
				gr := s.Rng(fmt.Sprint("g", g))
				ops = append(ops, s.Go("batching", func() {
					for k := range N {
						if batch(g, k, gr.IntN(K), gr.IntN(200)) != nil {
							return
						}
						time.Sleep(time.Duration(gr.Int64N(int64(eff))))
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, 10*time.Minute, "stuck") {
					return
				}
			}
			type key struct {
				ci int
				id pid
			}
			arrived := func() map[key]time.Time {
				out := map[key]time.Time{}
				for i, x := range ms {
					if !well[x.key] && b.kind != bCustom {
						continue
					}
					for _, bt := range b.batches(x.ws, x.c, info) {
						for _, it := range bt.items {
							id, ok := b.parse(it)
							if !ok {
								s.Violate("corrupt", "a batch contains %s; %s", clip(it), info)
								return out
							}
							if _, ok := out[key{i, id}]; ok {
								s.Violate("twice", "message %v was delivered twice to connection %d; %s", id, i, info)
							}
							out[key{i, id}] = bt.t
						}
					}
				}
				return out
			}
			time.Sleep(eff + slack)
			s.Settle()
			ontime := 0
			got := arrived()
			for i := range K {
				if !well[i] {
					continue
				}
				for _, a := range acc[i] {
					t, ok := got[key{i, a.id}]
					if !ok {
						s.Violate("late", "message %v, accepted on connection %d at +%v, was not sent by +%v; %s", a.id, i, a.retT.Sub(epoch), at(), info)
						return
					}
					if d := t.Sub(a.retT); d > eff+slack {
						s.Violate("late", "message %v was sent %v after it had been accepted; %s", a.id, d, info)
						return
					}
					ontime++
				}
			}
			if s.Failed() {
				return
			}
			// second part: the end, with producers running
			for g := range 1 + r.IntN(4) {
				gr := s.Rng(fmt.Sprint("e", g))
				// until the end is over, or a number of times
				n, gap, bcast := 3+gr.IntN(40), int64(eff)/4+1, 4
				if gr.IntN(2) == 0 {
					bcast = 40
					n, gap = 120, []int64{1000, 20_000, 200_000}[gr.IntN(3)]
				}
				ops = append(ops, s.Go("batching at the end", func() {
					<-started
					for k := range n {
						if gr.IntN(bcast) == 0 {
							call := h.tick()
							var n int
							var err error
							if gr.IntN(2) == 0 {
								n, err = m.BatchBroadcast(bg, b.message(500+g, k, 5))
							} else {
								n, err = room.BatchBroadcast(bg, b.message(500+g, k, 5))
							}
							mu.Lock()
							if closeCall != 0 {
								lates = append(lates, late{call, "BatchBroadcast", n, err})
							} else if err != nil {
								s.Violate("error", "BatchBroadcast returned %v; %s", err, info)
							}
							mu.Unlock()
						} else {
							batch(100+g, k, gr.IntN(K), gr.IntN(100))
						}
						if gr.IntN(3) == 0 {
							time.Sleep(time.Duration(gr.Int64N(gap)))
						}
						select {
						case <-over:
							if gr.IntN(3) == 0 {
								return
							}
						default:
						}
					}
				}))
			}
			close(started)
			time.Sleep(time.Duration(r.Int64N(int64(2 * eff))))
			old := b.u.Flusher
			s.Burst()
			mu.Lock()
			closeCall = h.tick()
			mu.Unlock()
			var closers []*Op
			switch end {
			case "cancel":
				cancel()
			default:
				for range r.IntN(3) {
					closers = append(closers, s.Go("Flusher.Close", old.Close))
				}
				if end == "close" || r.IntN(2) == 0 {
					s.Timed("Flusher.Close", 5*time.Second, func() error { old.Close(); return nil })
				}
				if end == "re-enable" {
					b.enable(bg, every)
				}
			}
			mu.Lock()
			closeRet = h.tick()
			mu.Unlock()
			close(over)
			for _, op := range append(ops, closers...) {
				if !s.MustEnd(op, 10*time.Minute, "stuck") {
					return
				}
			}
			// after the end
			for i, x := range ms {
				call := h.tick()
				lates = append(lates, late{call, fmt.Sprint("Batch on connection ", i), 0, x.ws.Batch([]byte("1"))})
				lates = append(lates, late{call, fmt.Sprint("BatchJSON on connection ", i), 0, x.ws.BatchJSON(1)})
			}
			if end != "re-enable" {
				call := h.tick()
				n, err := m.BatchBroadcast(bg, []byte("1"))
				lates = append(lates, late{call, "BatchBroadcast", n, err})
				n, err = room.BatchBroadcastJSON(bg, 1)
				lates = append(lates, late{call, "BatchBroadcast", n, err})
				// nobody to send it to
				n, err = snapws.NewManager[int](b.u).BatchBroadcast(bg, []byte("1"))
				lates = append(lates, late{call, "BatchBroadcast to nobody", n, err})
			}
			judged := 0
			for _, l := range lates {
				if l.call < closeRet || l.what == "BatchBroadcast" && end == "re-enable" {
					continue
				}
				judged++
				if l.err == nil {
					s.Violate("accepted-late", "%s, called after the end (%s), succeeded; %s", l.what, end, info)
					return
				}
			}
			time.Sleep(time.Second + slack)
			s.Settle()
			for i, x := range ms {
				if !well[i] {
					x.c.Unstall()
					well[i] = true
				}
			}
			time.Sleep(100*time.Millisecond + slack)
			s.Settle()
			got = arrived()
			n := 0
			for i, x := range ms {
				if x.c.Closed() {
					if end == "cancel" {
						continue // its unfinished batch was given up
					}
					s.Violate("closed", "connection %d was closed with %d; %s", i, closedBy(x.c), info)
					return
				}
				for _, a := range acc[i] {
					n++
					if _, ok := got[key{i, a.id}]; !ok && end != "cancel" {
						s.Violate("lost", "message %v was accepted on connection %d (call [%d,%d], shutdown [%d,%d]) and never sent; %s", a.id, i, a.call, a.ret, closeCall, closeRet, info)
						return
					}
				}
			}
			for k := range got {
				if k.id.g < 500 {
					if _, ok := acc[k.ci][k.id]; !ok {
						s.Violate("refused", "message %v was sent on connection %d although batching it had failed; %s", k.id, k.ci, info)
						return
					}
				}
			}
			// batching works again for new connections once it is enabled again
			if end == "re-enable" || r.IntN(2) == 0 {
				if end != "re-enable" {
					b.enable(bg, every)
				}
				first := len(ms)
				for range 1 + r.IntN(3) {
					if connect(len(ms)) == nil {
						return
					}
				}
				cnt, err := m.BatchBroadcast(bg, b.message(900, 0, 9))
				if err != nil || cnt < len(ms)-first {
					s.Violate("re-enabled", "a batch broadcast returned %d, %v after batching had been enabled again; %s", cnt, err, info)
					return
				}
				for i := first; i < len(ms); i++ {
					if err := ms[i].ws.Batch(b.message(901, i, 9)); err != nil {
						s.Violate("re-enabled", "Batch on a new connection returned %v after batching had been enabled again; %s", err, info)
						return
					}
				}
				time.Sleep(eff + slack)
				s.Settle()
				got = arrived()
				for i := first; i < len(ms); i++ {
					_, ok1 := got[key{i, pid{900, 0}}]
					_, ok2 := got[key{i, pid{901, i}}]
					if !ok1 || !ok2 {
						s.Violate("re-enabled", "new connection %d received the broadcast: %v, its own message: %v, after batching had been enabled again; %s", i, ok1, ok2, info)
						return
					}
				}
				s.Count("enabled_again", 1)
			}
			s.Count("messages_on_time", ontime)
			s.Count("messages_accepted", n)
			s.Count("calls_refused_after_end", judged)
			if ontime > 0 && judged > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"format": bName[b.kind], "connections": K, "interval": every.String(), "end": end, "accepted": n, "refused": judged, "noise": noise})
			b.u.Flusher.Close()
			for _, x := range ms {
				x.ws.Close()
				x.d.op.Within(time.Minute)
			}
		})
	}})

// waitingBatch: batch broadcasts wait for the full queue of an occupied connection (BackpressureWait) until
// the flusher is closed or its context ends, their own context ends, the connection closes or is free again.
func waitingBatch(t *testing.T, s *S) {
	r := s.R
	o := outOpts(r)
	o.WriteWait = 10 * time.Minute
	o.BroadcastBackpressure = snapws.BackpressureWait
	o.BroadcastChannelsSize = 1 + r.IntN(4)
	Q := o.BroadcastChannelsSize
	every := time.Duration(1+r.IntN(100)) * time.Millisecond
	end := []string{"close", "cancel", "own", "connection", "free"}[r.IntN(5)]
	K, P := 1+r.IntN(4), 1+r.IntN(4)
	noise := s.Noise()
	s.Sig(s.Idx, end, K, P)
	s.Count("waiting for a full queue, then "+end, 1)
	s.Bubble(t, func() {
		b := newBatcher(s, o)
		fctx, fcancel := context.WithCancel(bg)
		defer fcancel()
		b.enable(fctx, every)
		info := fmt.Sprintf("%s batches every %v, %d connections, queues of %d, the first occupied, then %s, noise %s", bName[b.kind], every, K, Q, end, noise)
		m, solo := snapws.NewManager[int](b.u), snapws.NewRoomManager[int](b.u).Add(2)
		room := snapws.NewRoomManager[int](b.u).Add(1)
		var cs []*MemConn
		var wss []*snapws.Conn
		for i := range K {
			c := NewMemConn()
			NewClient(c).AutoPong(0)
			mc, err := s.mconnect(m, i, NewRW(c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "refused: %v", err)
				return
			}
			room.Add(mc.Conn)
			s.Reader(mc.Conn)
			cs, wss = append(cs, c), append(wss, mc.Conn)
		}
		solo.Add(wss[0])
		w, err := wss[0].NextWriter(nil, opText)
		if err == nil {
			_, err = w.Write([]byte("<"))
		}
		if err != nil {
			s.Violate("writer", "%v; %s", err, info)
			return
		}
		for i := range Q + 1 { // one is taken out of the queue and waits for the writer
			err := s.Timed("broadcast", time.Second, func() error { _, err := solo.BroadcastString(nil, fmt.Append(nil, "<", i)); return err })
			if err != nil {
				s.Violate("fill", "broadcast %d to a connection with a queue of %d: %v; %s", i, Q, err, info)
				return
			}
			s.Settle()
		}
		own, ocancel := context.WithCancel(bg)
		defer ocancel()
		type call struct {
			id  pid
			n   int
			err error
			op  *Op
		}
		var calls []*call
		for g := range P {
			x := &call{id: pid{g, 7}}
			calls = append(calls, x)
			msg, how := b.message(g, 7, r.IntN(100)), r.IntN(2)
			ctx := bg
			if end == "own" {
				ctx = own
			} else if r.IntN(3) == 0 {
				ctx = nil
			}
			x.op = s.Go("BatchBroadcast", func() {
				if how == 0 {
					x.n, x.err = m.BatchBroadcast(ctx, msg)
				} else {
					x.n, x.err = room.BatchBroadcast(ctx, msg)
				}
			})
		}
		time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
		s.Settle()
		for _, x := range calls {
			if x.op.Done() {
				s.Violate("wait", "a batch broadcast to a connection whose queue is full returned %d, %v under Wait; %s", x.n, x.err, info)
				return
			}
		}
		switch end {
		case "close":
			s.Timed("Flusher.Close", 5*time.Second, func() error { b.u.Flusher.Close(); return nil })
		case "cancel":
			fcancel()
		case "own":
			ocancel()
		case "connection":
			wss[0].Close()
		default:
			if err := w.Close(); err != nil {
				s.Violate("writer", "%v; %s", err, info)
			}
		}
		lim := 100*time.Millisecond + s.vslack
		if end == "connection" {
			lim += o.WriteWait
		}
		for _, x := range calls {
			if !s.MustEnd(x.op, lim, "stuck") {
				return
			}
			switch {
			case end == "free" && (x.n != K || x.err != nil):
				s.Violate("result", "a batch broadcast to %d connections that waited until there was room returned %d, %v; %s", K, x.n, x.err, info)
			case end == "connection" && (x.n != K-1 || x.err != nil):
				s.Violate("result", "a batch broadcast to %d connections, one of which closed, returned %d, %v; %s", K, x.n, x.err, info)
			case end == "own" && !errors.Is(x.err, context.Canceled):
				s.Violate("result", "a batch broadcast whose context had ended returned %d, %v; %s", x.n, x.err, info)
			case (end == "close" || end == "cancel") && x.err == nil:
				s.Violate("result", "a batch broadcast waiting for a full queue when the flusher ended returned %d, %v; %s", x.n, x.err, info)
			case x.err != nil && x.n >= K:
				s.Violate("result", "a batch broadcast that failed (%v) counts %d of %d connections; %s", x.err, x.n, K, info)
			}
			s.Count("waiting batch broadcasts ended", 1)
		}
		if end != "connection" && end != "free" {
			if cs[0].Closed() {
				s.Violate("closed", "the occupied connection was closed with %d; %s", closedBy(cs[0]), info)
				return
			}
			w.Close()
		}
		time.Sleep(every + 100*time.Millisecond + s.vslack)
		s.Settle()
		// what arrived
		counts := map[pid]int{}
		for i, ws := range wss {
			seen := map[pid]bool{}
			for _, bt := range b.batches(ws, cs[i], info) {
				for _, it := range bt.items {
					id, ok := b.parse(it)
					if !ok || seen[id] {
						s.Violate("corrupt", "connection %d got %s (duplicate: %v); %s", i, clip(it), ok, info)
						return
					}
					seen[id] = true
					counts[id]++
				}
			}
			if i == 0 {
				wire := DecodeWire(cs[0].Out(), true)
				plain := 0
				for _, m := range wire.Msgs {
					if m.Op == opText && len(m.Data) > 0 && m.Data[0] == '<' {
						plain++
					}
				}
				if end != "connection" && plain != Q+2 {
					s.Violate("lost", "%d of %d messages sent before arrived on the occupied connection; %s", plain, Q+2, info)
				}
			}
		}
		for _, x := range calls {
			if got := counts[x.id]; end != "cancel" && got != x.n {
				s.Violate("count", "a batch broadcast that returned %d, %v was delivered to %d of %d connections; %s", x.n, x.err, got, K, info)
			}
		}
		s.NonTrivial()
		for _, ws := range wss {
			ws.Close()
		}
	})
}
