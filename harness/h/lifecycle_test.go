package h

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net/http"
	"runtime"
	"testing"
	"time"
	"weak"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- C14

type lifeRef struct {
	how string
	c   weak.Pointer[MemConn]
	ws  weak.Pointer[snapws.Conn]
}

var lifeEnds = []string{"close", "close", "client-close", "eof", "reset", "protocol", "silent", "write-fail", "stalled", "replaced", "shutdown", "room-shutdown", "rate", "hook-close", "close-fault", "connect-close",
	"hs-method", "hs-header", "hs-key", "hs-protocol", "hs-middleware", "hs-hijack", "hs-nohijack", "hs-write", "hs-partial", "hs-deadline"}

// life opens one connection, uses it, ends it in the given way and forgets it.
//
//go:noinline
func life(s *S, w *world, i int, how string, W time.Duration, rooms int) lifeRef {
	r := s.Rng(fmt.Sprint("life", i))
	c := NewMemConn()
	cl := NewClient(c)
	ref := lifeRef{how: how, c: weak.Make(c)}
	answering := how != "silent"
	if answering {
		cl.AutoPong(0)
	}
	rw := NewRW(c, 4096, 4096, nil)
	req := Request()
	fails := true
	switch how {
	case "hs-method":
		req.Method = "POST"
	case "hs-header":
		req.Header.Del([]string{"Connection", "Upgrade", "Sec-WebSocket-Version"}[r.IntN(3)])
	case "hs-key":
		req.Header.Set("Sec-WebSocket-Key", "short")
	case "hs-protocol":
		req.Header.Set("X-Fail", "protocol")
	case "hs-middleware":
		req.Header.Set("X-Fail", "1")
	case "hs-hijack":
		rw.HijackErr = errors.New("injected: cannot hijack")
	case "hs-write":
		c.FailAt = 0
	case "hs-partial":
		c.FailAt = 1 + r.IntN(100)
	case "connect-close":
		fails = false
		w.mu.Lock()
		w.closeIn[c] = pick(r, "OnConnect", "OnConnect-later", "OnRegister", "OnRegister-later", "OnJoin", "OnJoin-later")
		w.mu.Unlock()
	default:
		fails = false
	}
	var resp http.ResponseWriter = rw
	if how == "hs-nohijack" {
		resp = struct{ http.ResponseWriter }{plainRW{rw}}
		fails = true
	}
	var ws *snapws.Conn
	var mc *snapws.ManagedConn[int]
	var err error
	via := r.IntN(3)
	if how == "replaced" || how == "shutdown" {
		via = 1
	}
	if how == "room-shutdown" {
		via = 2
	}
	key := i
	if how == "replaced" {
		key = 1_000_000
	}
	switch via {
	case 0:
		ws, err = w.u.Upgrade(resp, req)
	case 1:
		if mc, err = s.mconnect(w.m, key, resp, req); err == nil {
			ws = mc.Conn
		}
	default:
		ws, _, err = w.rm.Connect(resp, req, r.IntN(3), "arg", i)
	}
	if fails {
		if err == nil || ws != nil {
			s.Violate("handshake", "a handshake that cannot succeed (%s) returned %v, %v", how, ws != nil, err)
		}
		if rw.Hijacked && !c.Closed() {
			s.Violate("leak-transport", "the handshake failed (%s: %v) after the connection had been taken over and the transport was left open", how, err)
		}
		return ref
	}
	if err != nil {
		if how == "hs-deadline" {
			return ref
		}
		s.Violate("upgrade", "a valid request was refused: %v", err)
		return ref
	}
	ref.ws = weak.Make(ws)
	ws.MetaData.Store("big", make([]byte, 1000))
	for range r.IntN(rooms + 1) {
		w.rm.Add(r.IntN(4)).Add(ws, "x")
	}
	var ops []*Op
	d := s.Reader(ws)
	use := func() {
		for k := range r.IntN(6) {
			switch r.IntN(9) {
			case 0:
				ws.SendBytes(bg, rbytes(r, r.IntN(5000)))
			case 1:
				ws.Batch([]byte("1"))
			case 2:
				w.m.BroadcastString(bg, []byte("all"))
			case 3:
				w.room.BroadcastBytes(bg, []byte("room"))
			case 4:
				c.Feed(cf(opPing, []byte("p"), r).Bytes())
			case 5:
				b := cf(opBin, rbytes(r, 300), r).Bytes()
				c.Feed(b)
			case 6:
				w.room.BatchBroadcast(bg, []byte("2"))
			case 7:
				if cw, err := ws.NextWriter(bg, opText); err == nil {
					cw.Write(rbytes(r, r.IntN(3000)))
					cw.Flush()
					if r.IntN(3) == 0 {
						ops = append(ops, s.Go("holder", func() { time.Sleep(W / 2); cw.Write([]byte("z")); cw.Close() }))
					} else {
						cw.Close()
					}
				}
			default:
				rm := w.rm.Get(r.IntN(3))
				if rm != nil {
					rm.Add(ws, k)
					if r.IntN(2) == 0 {
						rm.Remove(ws)
					} else {
						rm.Move(ws, r.IntN(4))
					}
				}
			}
		}
	}
	use()
	time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
	if r.IntN(2) == 0 {
		s.Burst()
	}
	switch how {
	case "connect-close":
		if r.IntN(2) == 0 { // where nothing of it is left to say so
			w.room.Add(ws)
		}
		ws.Close()
	case "close", "hs-deadline":
		ops = append(ops, s.Go("use", func() { w.m.BroadcastString(bg, []byte("late")); ws.SendString(bg, []byte("late")) }))
		ws.CloseWithCode(uint16(3000+r.IntN(100)), "x")
	case "client-close":
		c.Feed(cf(opClose, []byte{3, 232}, r).Bytes())
	case "eof":
		c.FeedEOF()
	case "reset":
		c.Feed([]byte{0x82})
		c.FeedErr(errReset)
	case "protocol":
		c.Feed([]byte{0xf2, 0x80, 0, 0, 0, 0})
	case "silent":
		time.Sleep(w.o.ReadWait + 4*W)
	case "write-fail":
		c.mu.Lock()
		c.FailAt = len(c.out) + r.IntN(50)
		c.mu.Unlock()
		for range 30 {
			if ws.SendBytes(bg, rbytes(r, 100)) != nil {
				break
			}
		}
	case "stalled":
		c.Stall()
		ws.SendBytes(bg, rbytes(r, 100))
	case "close-fault":
		c.mu.Lock()
		switch r.IntN(3) {
		case 0:
			c.FailAt = len(c.out) + r.IntN(4)
		case 1:
			c.SetWDErr = errors.New("injected")
		default:
			c.Window = len(c.out)
		}
		c.mu.Unlock()
		ws.Close()
	case "replaced":
		// the next one with this key replaces it; the last one is closed at the end
	case "shutdown":
		w.m.Shutdown()
	case "room-shutdown":
		w.rm.Shutdown()
		w.room = w.rm.Add(0)
		ws.Close() // it may have left the rooms before
	case "rate":
		for range 60 {
			c.Feed(cf(opBin, []byte("m"), r).Bytes())
		}
		time.Sleep(time.Millisecond)
		ws.Close()
	case "hook-close":
		w.mu.Lock()
		w.inHook = func(h string, x *snapws.Conn) {
			if h == "OnDisconnect" {
				x.Close()
				w.room.Add(x)
			}
		}
		w.mu.Unlock()
		ws.Close()
	}
	if how != "replaced" {
		if !d.op.Within(w.o.ReadWait + 10*W) {
			s.MustEnd(d.op, time.Second, "not-closed")
			return ref
		}
		// use after close must not tie it down again
		use()
		if r.IntN(2) == 0 {
			w.room.Add(ws)
		}
		if mc != nil && r.IntN(3) == 0 {
			w.m.Register(key+500_000, mc)
		}
	}
	for _, op := range ops {
		op.Within(10 * W)
	}
	return ref
}

// plainRW hides Hijack.
type plainRW struct{ w *RW }

func (p plainRW) Header() http.Header         { return p.w.Header() }
func (p plainRW) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p plainRW) WriteHeader(c int)           { p.w.WriteHeader(c) }

var _ = register("C14", &Prop{Quick: 6000, Thorough: 150000,
	Rule: "1 to 8 connections (limiter, batching of each kind, manager, several rooms, pooled buffers, pending batches and broadcasts, held writers) each ended in one of 16 ways (also from its first hooks) or refused in one of 9; then the library's goroutines are counted and, after garbage collection, weak pointers to each connection and its transport are checked; non-trivial: at least one connection or failed handshake was checked",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		W := time.Duration(50+r.IntN(500)) * time.Millisecond
		o.WriteWait = W
		o.PingEvery = time.Duration(200+r.IntN(2000)) * time.Millisecond
		o.ReadWait = o.PingEvery + time.Duration(100+r.IntN(1000))*time.Millisecond
		o.BroadcastChannelsSize = 1 + r.IntN(10)
		limiter := r.IntN(2) == 0
		batching := []string{"", "json", "prefix", "custom"}[r.IntN(4)]
		flusherEnd := []string{"close", "ctx", "re-enable", "early-close", "early-ctx"}[r.IntN(5)]
		noise := s.Noise()
		n := 1 + r.IntN(8)
		if s.Long(151) {
			n = 20 + r.IntN(60)
		}
		parallel := r.IntN(2) == 0
		together := s.Long(101) // many connections at the same time
		if together {
			n, limiter, parallel = 60+r.IntN(90), r.IntN(4) > 0, true
		}
		var hows []string
		for range n {
			h := lifeEnds[r.IntN(len(lifeEnds))]
			for together && (h == "shutdown" || h == "room-shutdown" || h == "hook-close") {
				h = lifeEnds[r.IntN(len(lifeEnds))]
			}
			hows = append(hows, h)
		}
		s.Sig(hows, batching, flusherEnd, limiter, parallel)
		s.Bubble(t, func() {
			o.Middlwares = snapws.Middlwares{func(_ http.ResponseWriter, r *http.Request) error {
				if r.Header.Get("X-Fail") != "" {
					return snapws.NewMiddlewareErr(403, "no")
				}
				return nil
			}}
			w := newWorld(s, o)
			if limiter {
				w.u.Limiter = snapws.NewRateLimiter(10, 20)
				if r.IntN(2) == 0 {
					w.u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { return errHook }
				}
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			enable := func() {
				iv := time.Duration(5+r.IntN(40)) * time.Millisecond
				switch batching {
				case "json":
					w.u.EnableJSONBatching(ctx, iv)
				case "prefix":
					w.u.EnablePrefixBatching(ctx, iv)
				case "custom":
					w.u.EnableBatching(ctx, iv, func(ctx context.Context, ws *snapws.Conn, ms [][]byte) error {
						return ws.SendBytes(ctx, bytes.Join(ms, nil))
					})
				}
			}
			enable()
			s.Settle()
			baseline := len(libGoroutines())
			info := fmt.Sprintf("ends %v, batching %q ended by %s, limiter %v, parallel %v, noise %s", hows, batching, flusherEnd, limiter, parallel, noise)
			var mu Mutex
			var refs []lifeRef
			run := func(i int) *Op {
				return s.Go("life", func() {
					x := life(s, w, i, hows[i], W, 3)
					mu.Lock()
					refs = append(refs, x)
					mu.Unlock()
				})
			}
			old := w.u.Flusher
			var ops []*Op
			par := parallel
			for _, h := range hows {
				if h == "shutdown" || h == "room-shutdown" || h == "hook-close" {
					par = false
				}
			}
			for i := range hows {
				op := run(i)
				ops = append(ops, op)
				if !par && !op.Within(5*time.Minute) {
					s.MustEnd(op, time.Minute, "hang")
					return
				}
				if i == n/2 && batching != "" {
					switch flusherEnd {
					case "early-close":
						w.u.Flusher.Close()
					case "early-ctx":
						cancel()
					case "re-enable":
						if !par {
							enable()
						}
					}
				}
			}
			for _, op := range ops {
				if !op.Within(5 * time.Minute) {
					s.MustEnd(op, time.Minute, "hang")
					return
				}
			}
			ops = nil
			w.m.Shutdown() // the last replaced one
			time.Sleep(o.ReadWait + 6*W)
			s.Settle()
			if batching != "" {
				if gs := libGoroutines(); len(gs) > baseline {
					s.Violate("leak-goroutine", "%d goroutines of the library are left after every connection has closed (%d before); %s\n%s", len(gs), baseline, info, bubbleStacks(8))
				}
				switch flusherEnd {
				case "ctx", "early-ctx":
					cancel()
				default:
					w.u.Flusher.Close()
				}
				time.Sleep(time.Second)
				s.Settle()
			}
			if gs := libGoroutines(); len(gs) > 0 {
				s.Violate("leak-goroutine", "%d goroutines of the library are left after every connection has closed and batching was shut down; %s\n%s", len(gs), info, bubbleStacks(8))
			}
			w.mu.Lock()
			w.disc, w.conn, w.reg, w.unreg, w.join, w.leave, w.inHook, w.closeIn = nil, nil, nil, nil, nil, nil, nil, nil
			w.mu.Unlock()
			for try := 0; ; try++ {
				runtime.GC()
				left := 0
				what := ""
				for _, x := range refs {
					if c, ws := x.c.Value() != nil, x.ws.Value() != nil; c || ws {
						left++
						what += fmt.Sprintf(" %s(conn %v, transport %v)", x.how, ws, c)
					}
				}
				if left == 0 {
					break
				}
				if try >= 5 {
					s.Violate("leak-memory", "%d of %d connections are still reachable:%s; %s", left, len(refs), what, info)
					break
				}
				time.Sleep(time.Second)
				s.Settle()
			}
			runtime.KeepAlive(w)
			runtime.KeepAlive(old)
			runtime.KeepAlive(w.room)
			for _, h := range hows {
				s.Count("ended by "+h, 1)
			}
			s.NonTrivial()
			s.Sample(map[string]any{"ends": hows, "batching": batching, "flusher_end": flusherEnd, "limiter": limiter})
		})
	}})

// ---------------------------------------------------------------- C15

var _ = register("C15", &Prop{Quick: 8000, Thorough: 200000,
	Rule: "3 to 20 connections opened, used and closed by concurrent goroutines on one upgrader (pooled or own write buffers of few sizes), with every byte sent naming its connection: streams interrupted by closes, writer handles used after the connection closed, sends on closed connections, slow peers, pings and close reasons; non-trivial: at least two connections' bytes were attributed",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteBufferSize = []int{32, 64, 200, 1000, 4096}[r.IntN(5)]
		o.DisableWriteBuffersPooling = r.IntN(5) == 0
		o.WriteWait = 2 * time.Second
		bw := 4096
		if r.IntN(3) == 0 {
			bw = 77
		}
		total := 3 + r.IntN(18)
		if s.Long(101) {
			total = 60 + r.IntN(240)
		}
		workers := 1 + r.IntN(6)
		noise := s.Noise()
		s.Sig(s.Idx, total, workers, o.WriteBufferSize)
		s.Bubble(t, func() {
			u := snapws.NewUpgrader(o)
			if r.IntN(3) == 0 {
				u.EnablePrefixBatching(bg, 5*time.Millisecond)
			}
			type one struct {
				id   int
				c    *MemConn
				ws   *snapws.Conn
				mu   Mutex
				seq  int
				sent map[int][]byte
				d    *rd
			}
			all := make([]*one, total)
			open := func(id int) *one {
				x := &one{id: id, c: NewMemConn(), sent: map[int][]byte{}}
				NewClient(x.c)
				ws, err := dialBW(u, x.c, 4096, bw)
				if err != nil {
					s.Violate("upgrade", "a valid request was refused: %v", err)
					return nil
				}
				x.ws = ws
				x.d = s.Reader(ws)
				return x
			}
			msg := func(x *one, n int) []byte {
				x.mu.Lock()
				defer x.mu.Unlock()
				x.seq++
				p := pay(x.id, x.seq, n)
				x.sent[x.seq] = p
				return p
			}
			var ops []*Op
			var next Mutex
			cur := 0
			for wk := range workers {
				gr := s.Rng(fmt.Sprint("worker", wk))
				ops = append(ops, s.Go("worker", func() {
					var stale []*snapws.ConnWriter
					var mine []*one
					for {
						next.Lock()
						id := cur
						cur++
						next.Unlock()
						if id >= total {
							break
						}
						x := open(id)
						if x == nil {
							return
						}
						all[id] = x
						mine = append(mine, x)
						if gr.IntN(3) == 0 {
							x.c.mu.Lock()
							x.c.SlowR, x.c.SlowMax = s.Rng(fmt.Sprint("slow", id)), 300*time.Microsecond
							x.c.mu.Unlock()
						}
						for range 1 + gr.IntN(6) {
							y := mine[gr.IntN(len(mine))] // open or closed
							size := gr.IntN(300)
							if gr.IntN(4) == 0 {
								size = gr.IntN(3 * o.WriteBufferSize)
							}
							p := msg(y, size)
							switch gr.IntN(8) {
							case 0, 1:
								y.ws.SendBytes(bg, p)
							case 2:
								if cw, err := y.ws.NextWriter(bg, opText); err == nil {
									k := gr.IntN(len(p) + 1)
									cw.Write(p[:k])
									if gr.IntN(2) == 0 {
										cw.Flush()
									}
									if gr.IntN(2) == 0 {
										time.Sleep(time.Duration(gr.IntN(500)) * time.Microsecond)
									}
									if gr.IntN(4) == 0 {
										stale = append(stale, cw)
										go y.ws.CloseWithCode(4000, string(pay(y.id, 0, 5)))
										time.Sleep(time.Duration(gr.IntN(100)) * time.Microsecond)
									} else {
										cw.Write(p[k:])
										cw.Close()
										if gr.IntN(2) == 0 {
											stale = append(stale, cw)
										}
									}
								}
							case 3:
								q := pay(y.id, 0, 10)
								y.c.Feed(cf(opPing, q, gr).Bytes())
							case 4:
								y.ws.Batch(p)
							case 5:
								go y.ws.SendString(bg, p)
							case 6:
								pp := fragment(gr, p, 3)
								if cw, err := y.ws.NextWriter(bg, opBin); err == nil {
									for _, z := range pp {
										cw.Write(z)
										cw.Flush()
									}
									cw.Close()
								}
							default:
								if gr.IntN(2) == 0 {
									y.ws.CloseWithCode(4001, string(pay(y.id, 0, 5)))
								}
							}
							// handles of finished messages or closed connections, written to again: the bytes name
							// the connection they were obtained from only by chance, so they name nobody
							for _, cw := range stale {
								if gr.IntN(3) == 0 {
									cw.Write([]byte("!!!!STALE!!!!"))
								}
								if gr.IntN(3) == 0 {
									cw.Flush()
								}
								if gr.IntN(3) == 0 {
									cw.Close()
								}
							}
						}
						if gr.IntN(2) == 0 {
							op := s.Go("close", func() { x.ws.CloseWithCode(4002, string(pay(x.id, 0, 5))) })
							if gr.IntN(2) == 0 {
								op.Within(10 * time.Second)
							}
						}
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, 30*time.Minute, "stuck") {
					return
				}
			}
			for _, x := range all {
				if x != nil {
					slow(s, x.c, 0)
				}
			}
			time.Sleep(10 * time.Second)
			s.Settle()
			info := fmt.Sprintf("%d connections, %d goroutines, write buffer %d, HTTP buffer %d, pooling %v, noise %s", total, workers, o.WriteBufferSize, bw, !o.DisableWriteBuffersPooling, noise)
			attributed := 0
			for _, x := range all {
				if x == nil {
					continue
				}
				w := DecodeWire(x.c.Out(), true)
				if w.Err != "" {
					s.Violate("wire", "connection %d: invalid stream: %s; %s", x.id, w.Err, info)
					continue
				}
				// the beginning of an own message, with bytes written later through the own handle
				own := func(b []byte) bool {
					b = bytes.ReplaceAll(b, []byte("!!!!STALE!!!!"), nil)
					for i := max(0, len(b)-12); i <= len(b); i++ {
						if !bytes.HasPrefix([]byte("!!!!STALE!!!!"), b[i:]) {
							continue
						}
						for _, p := range x.sent {
							if bytes.HasPrefix(p, b[:i]) {
								return true
							}
						}
					}
					return false
				}
				check := func(b []byte, what string) {
					id, ok := parsePay(b)
					if !ok && what == "message" && own(b) {
						s.Count("messages_cut_by_their_own_writer", 1)
						return
					}
					if !ok {
						s.Violate("foreign", "connection %d received a %s that nobody sent to it: %s; %s", x.id, what, clip(b), info)
					} else if id.g != x.id {
						s.Violate("foreign", "connection %d received a %s sent to connection %d: %s; %s", x.id, what, id.g, clip(b), info)
					}
				}
				for _, m := range w.Msgs {
					if len(m.Data) >= 4 && m.Data[0] == 0 {
						for b := m.Data; len(b) > 0; {
							if len(b) < 4 || int(binary.BigEndian.Uint32(b)) > len(b)-4 {
								s.Violate("foreign", "connection %d received a batch that does not parse; %s", x.id, info)
								break
							}
							k := int(binary.BigEndian.Uint32(b))
							check(b[4:4+k], "batched message")
							b = b[4+k:]
						}
						continue
					}
					check(m.Data, "message")
				}
				// an unfinished message must be the beginning of one of its own
				if w.Partial != nil && len(w.Partial.Data) > 0 && w.Partial.Data[0] != 0 {
					ok := own(w.Partial.Data)
					if !ok {
						s.Violate("foreign", "connection %d received the beginning of a message that nobody sent to it: %s; %s", x.id, clip(w.Partial.Data), info)
					}
				}
				for _, f := range w.Ctrl {
					switch {
					case f.Op == opPong:
						check(f.Payload, "pong")
					case f.Op == opClose && len(f.Payload) > 2:
						check(f.Payload[2:], "close reason")
					}
				}
				if len(w.Frames) > 0 {
					attributed++
				}
				s.Count("frames_attributed", len(w.Frames))
			}
			s.Count("connections", total)
			if attributed > 1 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"connections": total, "goroutines": workers, "write_buffer": o.WriteBufferSize, "pooling": !o.DisableWriteBuffersPooling})
			if u.Flusher != nil {
				u.Flusher.Close()
			}
			for _, x := range all {
				if x != nil {
					x.ws.Close()
					x.d.op.Within(time.Minute)
				}
			}
			time.Sleep(time.Second)
		})
	}})
