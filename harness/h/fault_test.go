package h

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"sync/atomic"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// Timed makes a call and reports it when it has not returned after limit of virtual time.
func (s *S) Timed(name string, limit time.Duration, f func() error) error {
	tm := time.AfterFunc(limit, func() {
		s.Violate("hang", "%s had not returned %v after it was called\n%s", name, limit, bubbleStacks(10))
	})
	err := f()
	tm.Stop()
	return err
}

// world is one upgrader with a manager, a room and some connections.
type world struct {
	s    *S
	o    *snapws.Options
	u    *snapws.Upgrader
	m    *snapws.Manager[int]
	rm   *snapws.RoomManager[int]
	room *snapws.Room[int]

	mu    Mutex
	disc  map[*snapws.Conn]int
	conn  map[*snapws.Conn]int
	unreg map[*snapws.Conn]int
	reg   map[*snapws.Conn]int
	join  map[*snapws.Conn]int
	leave map[*snapws.Conn]int
	calls atomic.Int64
	errs  atomic.Int64

	// what hooks do besides counting
	inHook func(hook string, ws *snapws.Conn)
	// hooks that close the connection on a transport
	closeIn map[net.Conn]string
}

func newWorld(s *S, o *snapws.Options) *world {
	w := &world{s: s, o: o, disc: map[*snapws.Conn]int{}, conn: map[*snapws.Conn]int{}, unreg: map[*snapws.Conn]int{}, reg: map[*snapws.Conn]int{}, join: map[*snapws.Conn]int{}, leave: map[*snapws.Conn]int{}, closeIn: map[net.Conn]string{}}
	count := func(m map[*snapws.Conn]int, hook string, ws *snapws.Conn) {
		w.mu.Lock()
		m[ws]++
		f := w.inHook
		g := w.closeIn[ws.NetConn()]
		w.mu.Unlock()
		if g == hook {
			ws.Close()
		} else if g == hook+"-later" {
			s.Go("closer", func() { ws.Close() })
		}
		if f != nil {
			f(hook, ws)
		}
	}
	o.OnConnect = func(ws *snapws.Conn) { count(w.conn, "OnConnect", ws) }
	o.OnDisconnect = func(ws *snapws.Conn) { count(w.disc, "OnDisconnect", ws) }
	w.u = snapws.NewUpgrader(o)
	w.m = snapws.NewManager[int](w.u)
	w.m.OnRegister = func(c *snapws.ManagedConn[int]) { count(w.reg, "OnRegister", c.Conn) }
	w.m.OnUnregister = func(c *snapws.ManagedConn[int]) { count(w.unreg, "OnUnregister", c.Conn) }
	w.rm = snapws.NewRoomManager[int](w.u)
	w.rm.DefaultOnJoin = func(_ *snapws.Room[int], ws *snapws.Conn, _ ...any) { count(w.join, "OnJoin", ws) }
	w.rm.DefaultOnLeave = func(_ *snapws.Room[int], ws *snapws.Conn, _ ...any) { count(w.leave, "OnLeave", ws) }
	w.room = w.rm.Add(0)
	return w
}

func (w *world) n(m map[*snapws.Conn]int, ws *snapws.Conn) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return m[ws]
}

// open connects key over c, and puts it in the room.
func (w *world) open(key int, c *MemConn) *snapws.Conn {
	mc, err := w.s.mconnect(w.m, key, NewRW(c, 4096, 4096, nil), Request())
	if err != nil {
		w.s.Violate("upgrade", "a valid request was refused: %v", err)
		return nil
	}
	w.room.Add(mc.Conn)
	return mc.Conn
}

// one makes one call of the given kind.
func (w *world) one(kind string, ws *snapws.Conn, gr *rand.Rand, g, k int, pause time.Duration) (err error) {
	p := pay(g, k, gr.IntN(120))
	if gr.IntN(5) == 0 {
		p = pay(g, k, rsize(gr, 5000))
	}
	if gr.IntN(80) == 0 {
		p = pay(g, k, rsize(gr, 140000))
	}
	ctx, cancel := context.Context(bg), func() {}
	switch gr.IntN(6) {
	case 0:
		ctx, cancel = context.WithCancel(bg)
	case 1:
		ctx = nil
	}
	defer cancel()
	switch kind {
	case "send":
		if gr.IntN(2) == 0 {
			return ws.SendBytes(ctx, p)
		}
		return ws.SendString(ctx, p)
	case "json":
		return ws.SendJSON(ctx, string(p))
	case "stream":
		var cw *snapws.ConnWriter
		if cw, err = ws.NextWriter(ctx, byte(1+gr.IntN(2))); err != nil {
			return err
		}
		for _, part := range fragment(gr, p, 1+gr.IntN(4)) {
			if _, err = cw.Write(part); err != nil {
				break
			}
			if gr.IntN(3) == 0 {
				if err = cw.Flush(); err != nil {
					break
				}
			}
			if pause > 0 && gr.IntN(3) == 0 {
				time.Sleep(time.Duration(gr.Int64N(int64(pause))))
			}
		}
		if e := cw.Close(); e != nil {
			err = e
		} else if err != nil {
			w.s.Violate("truncated", "Close of a writer succeeded although a Write or Flush before it had failed with %v", err)
		}
		return err
	case "broadcast":
		_, err = w.m.BroadcastString(ctx, p)
	case "room":
		_, err = w.room.BroadcastBytes(ctx, p)
	case "batch":
		j, _ := json.Marshal(string(p))
		err = ws.Batch(j)
	case "batch-broadcast":
		j, _ := json.Marshal(string(p))
		if gr.IntN(2) == 0 {
			_, err = w.m.BatchBroadcast(ctx, j)
		} else {
			_, err = w.room.BatchBroadcast(ctx, j)
		}
	case "ping":
		if err = ws.Ping(); err == snapws.ErrPingAlreadySent {
			err = nil
		}
	}
	return err
}

// busy runs n calls of one kind; each must return within limit.
func (w *world) busy(kind string, ws *snapws.Conn, g, n int, limit, pause time.Duration, r string) *Op {
	gr := w.s.Rng(fmt.Sprint("busy", r, g))
	return w.s.Go(kind, func() {
		for k := range n {
			err := w.s.Timed(kind, limit, func() error { return w.one(kind, ws, gr, g, k, pause) })
			w.calls.Add(1)
			if err != nil {
				w.errs.Add(1)
				if snapws.IsFatalErr(err) || errors.Is(err, snapws.ErrConnClosed) {
					return
				}
			}
			if pause > 0 {
				time.Sleep(time.Duration(gr.Int64N(int64(pause))))
			}
		}
	})
}

// partialAt is the index of the first write that left a frame unfinished, -1 if none, given the
// writes after the response.
func partialAt(c *MemConn) (int, []wmark) {
	ms := c.Marks()
	out := c.Out()
	for i, m := range ms {
		if m.Err == nil {
			continue
		}
		w := DecodeWire(out[:m.Off+m.Len], true)
		if len(w.Rest) > 0 || len(w.HTTP) > 0 && len(w.Frames) == 0 && indexCRLF2(w.HTTP) < 0 {
			return i, ms
		}
	}
	return -1, ms
}

// judgeWire checks everything the server put on a transport that may have failed.
func (s *S) judgeWire(c *MemConn, info string) *Wire {
	i, ms := partialAt(c)
	out := c.Out()
	if i >= 0 {
		for _, m := range ms[i+1:] {
			if m.Len > 0 {
				s.Violate("after-partial", "%d bytes (%s) were put on the wire after a write of %d bytes had failed with %v in the middle of a frame; %s", m.Len, clip(out[m.Off:m.Off+m.Len]), ms[i].Len, ms[i].Err, info)
				break
			}
		}
		out = out[:ms[i].Off+ms[i].Len]
	}
	w := DecodeWire(out, true)
	if w.Err != "" {
		s.Violate("wire", "invalid stream: %s; %s", w.Err, info)
	}
	return w
}

// mustBeDead checks that a connection is closed for good.
func (w *world) mustBeDead(ws *snapws.Conn, c *MemConn, limit time.Duration, reader bool, info string) {
	s := w.s
	if !c.Closed() {
		s.Violate("open", "the transport is still open; %s", info)
		// nothing else would tell more, and calls may wait for ever
		s.Go("closer", func() { ws.Close() })
		return
	}
	if n := w.n(w.disc, ws); n != 1 {
		s.Violate("hook", "the disconnect hook ran %d times; %s", n, info)
	}
	before := c.OutLen()
	check := func(what string, err error) {
		if err == nil {
			s.Violate("alive", "%s succeeded on a closed connection; %s", what, info)
		}
	}
	s.Timed("SendString on a closed connection", limit, func() error { check("SendString", ws.SendString(bg, []byte("x"))); return nil })
	s.Timed("NextWriter on a closed connection", limit, func() error {
		_, err := ws.NextWriter(bg, opBin)
		check("NextWriter", err)
		return nil
	})
	s.Timed("SendJSON on a closed connection", limit, func() error { check("SendJSON", ws.SendJSON(bg, 1)); return nil })
	s.Timed("Ping on a closed connection", limit, func() error { check("Ping", ws.Ping()); return nil })
	s.Timed("Batch on a closed connection", limit, func() error { check("Batch", ws.Batch([]byte("1"))); return nil })
	if reader {
		s.Timed("ReadMessage on a closed connection", limit, func() error {
			_, _, err := ws.ReadMessage()
			check("ReadMessage", err)
			return nil
		})
	}
	s.Timed("Close on a closed connection", limit, func() error { ws.Close(); return nil })
	if c.OutLen() != before {
		s.Violate("alive", "calls on a closed connection put %d bytes on the wire; %s", c.OutLen()-before, info)
	}
	if x := w.m.GetAllConnsAsConn(); contains(x, ws) {
		s.Violate("registry", "a closed connection is still in the manager; %s", info)
	}
	if x := w.room.GetAllConns(); contains(x, ws) {
		s.Violate("registry", "a closed connection is still in its room; %s", info)
	}
}

func contains(l []*snapws.Conn, x *snapws.Conn) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

var busyKinds = []string{"send", "send", "json", "stream", "stream", "broadcast", "room", "batch", "batch-broadcast", "ping"}

var _ = register("C12", &Prop{Quick: 16000, Thorough: 400000,
	Rule: "a connection used by 1 to 8 goroutines (sends, streams, broadcasts, batches, pings, answers to client pings, closes) whose transport fails once at a chosen place: a write at any byte offset (for good or once), writes that stop being taken (for good or for a while), the n-th SetWriteDeadline, SetReadDeadline, a read error or end of file in the middle of a frame; non-trivial: the fault took effect and everything after it was judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		W := time.Duration(20+r.IntN(1500)) * time.Millisecond
		o.WriteWait = W
		o.ReadWait, o.PingEvery = 1000*time.Hour, 900*time.Hour
		R := time.Duration(0)
		if r.IntN(3) == 0 {
			o.PingEvery = time.Duration(50+r.IntN(500)) * time.Millisecond
			o.ReadWait = o.PingEvery + time.Duration(10+r.IntN(2000))*time.Millisecond
			R = o.ReadWait
		}
		o.BroadcastChannelsSize = 1 + r.IntN(4)
		o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[r.IntN(4)]
		if s.Idx%2 == 0 && o.BroadcastBackpressure == snapws.BackpressureClose {
			o.BroadcastBackpressure = snapws.BackpressureDrop
		}
		fault := []string{"write", "write", "write", "write-once", "write-once", "stall", "stall", "pause", "wd-once", "wd-once", "wd", "rd", "read", "eof"}[r.IntN(14)]
		noise := s.Noise()
		off := r.IntN(400)
		if r.IntN(2) == 0 {
			off = r.IntN(6000)
		}
		at := time.Duration(r.IntN(20_000)) * time.Microsecond
		closer := r.IntN(3) == 0
		G := 1 + r.IntN(8)
		others := r.IntN(3)
		batching := r.IntN(3) != 0
		s.Count("fault: "+fault, 1)
		s.Sig(fault, off, G, W, s.Idx)
		s.Bubble(t, func() {
			w := newWorld(s, o)
			if batching {
				w.u.EnableJSONBatching(bg, time.Duration(2+r.IntN(20))*time.Millisecond)
			}
			c := NewMemConn()
			cl := NewClient(c)
			cl.AutoPong(0)
			ws := w.open(1, c)
			if ws == nil {
				return
			}
			type peer struct {
				c  *MemConn
				ws *snapws.Conn
				d  *rd
			}
			var ps []peer
			for i := range others {
				oc := NewMemConn()
				NewClient(oc).AutoPong(0)
				ow := w.open(10+i, oc)
				if ow == nil {
					return
				}
				ps = append(ps, peer{oc, ow, s.Reader(ow)})
			}
			if r.IntN(2) == 0 {
				slow(s, c, time.Duration(r.IntN(1500))*time.Microsecond)
				c.SlowAll = W
			}
			base := c.OutLen()
			unstall := false
			c.mu.Lock()
			switch fault {
			case "write":
				c.FailAt = base + off
			case "write-once":
				c.FailAt, c.FailOnce = base+off, true
			case "stall":
				c.Window = base + off
			case "pause":
				c.Window = base + off
				unstall = true
			case "wd-once":
				c.FailSetWD = c.nSetWD + 1 + r.IntN(20)
			}
			c.mu.Unlock()
			pauseFor := time.Duration(r.Int64N(int64(3 * W)))
			go func() {
				time.Sleep(at)
				c.mu.Lock()
				switch fault {
				case "wd":
					c.SetWDErr = errors.New("injected: cannot set the write deadline")
				case "rd":
					c.SetRDErr = errors.New("injected: cannot set the read deadline")
				}
				c.mu.Unlock()
				if unstall {
					time.Sleep(pauseFor)
					c.Unstall()
				}
			}()
			limit := 6*W + 100*time.Millisecond
			d := s.Reader(ws)
			feed := s.Go("client", func() {
				fr := s.Rng("client")
				var b []byte
				for range fr.IntN(12) {
					switch fr.IntN(3) {
					case 0:
						b = append(b, cf(opPing, rbytes(fr, fr.IntN(126)), fr).Bytes()...)
					default:
						b = append(b, cf(opBin, rbytes(fr, fr.IntN(300)), fr).Bytes()...)
					}
				}
				cut := len(b)
				if fault == "read" || fault == "eof" {
					if fr.IntN(3) == 0 { // inside the last frame
						last := cf([]byte{opClose, opPing, opPong, opText}[fr.IntN(4)], append([]byte{3, 232}, rtext(fr, fr.IntN(60))...), fr).Bytes()
						cut += fr.IntN(len(last))
						b = append(b, last...)
					} else if len(b) > 0 {
						cut = fr.IntN(len(b))
					}
				}
				for _, x := range segment(fr, b[:cut]) {
					c.Feed(x)
					if len(b) < 2000 && fr.IntN(3) == 0 {
						time.Sleep(time.Duration(fr.IntN(2000)) * time.Microsecond)
					}
				}
				if fr.IntN(2) == 0 {
					s.Burst()
				}
				if fault == "read" {
					c.FeedErr(errReset)
				} else if fault == "eof" {
					c.FeedEOF()
				} else if fault == "rd" {
					time.Sleep(at)
					c.Feed(cf(opBin, []byte("x"), fr).Bytes())
				}
			})
			var ops []*Op
			for g := range G {
				kind := busyKinds[r.IntN(len(busyKinds))]
				ops = append(ops, w.busy(kind, ws, g, 3+r.IntN(25), limit, time.Duration(1+r.IntN(4000))*time.Microsecond, "x"))
			}
			if closer {
				delay := time.Duration(r.IntN(30_000)) * time.Microsecond
				ops = append(ops, s.Go("close", func() {
					time.Sleep(delay)
					s.Timed("Close", 5*W, func() error { ws.CloseWithCode(4000, "bye"); return nil })
					if !c.Closed() {
						s.Violate("open", "Close returned and the transport is still open; fault %s", fault)
					}
				}))
			}
			for _, op := range append(ops, feed) {
				if !op.Within(10 * time.Minute) {
					if !s.Failed() {
						s.MustEnd(op, time.Hour, "hang")
					}
					return
				}
			}
			slow(s, c, 0)
			time.Sleep(6*W + R + 200*time.Millisecond)
			if c.Stuck() {
				// it may have run into the fault just now
				time.Sleep(6*W + 200*time.Millisecond)
			}
			s.Settle()
			info := fmt.Sprintf("fault %s at offset %d/%v, %d goroutines, write timeout %v, write buffer %d, backpressure %v, closer %v, noise %s", fault, off, at, G, W, o.WriteBufferSize, o.BroadcastBackpressure, closer, noise)
			wire := s.judgeWire(c, info)
			hit := c.Faults() > 0 || fault == "read" || fault == "eof"
			if hit {
				s.Count("faults_that_took_effect", 1)
				if !c.Closed() {
					s.Violate("open", "the transport failed and the connection is still open; %s", info)
				} else if f := c.FaultAt(); !f.IsZero() && c.ClosedAt().Sub(f) > 6*W {
					s.Violate("late", "the transport was closed %v after it had failed; %s", c.ClosedAt().Sub(f), info)
				}
				if !s.MustEnd(d.op, limit, "hang") {
					return
				}
				w.mustBeDead(ws, c, limit, true, info)
				s.NonTrivial()
			} else if !c.Closed() {
				if len(wire.Rest) > 0 || wire.Partial != nil {
					s.Violate("wire", "the stream ends inside a message although every call returned; %s", info)
				}
			}
			for i, p := range ps {
				ow := s.judgeWire(p.c, info)
				if o.BroadcastBackpressure != snapws.BackpressureClose && (p.c.Closed() || ow.Close != nil) {
					s.Violate("collateral", "connection %d was closed although only the transport of another one had failed; %s", i, info)
				}
			}
			s.Count("calls", int(w.calls.Load()))
			s.Count("calls_that_failed", int(w.errs.Load()))
			s.Sample(map[string]any{"fault": fault, "offset": off, "goroutines": G, "write_wait": W.String(), "took_effect": hit, "frames": len(wire.Frames)})
			if batching {
				w.u.Flusher.Close()
			}
			ws.Close()
			for _, p := range ps {
				p.ws.Close()
				p.d.op.Within(time.Minute)
			}
			d.op.Within(time.Minute)
			time.Sleep(time.Second)
		})
	}})

// ---------------------------------------------------------------- C13

var _ = register("C13", &Prop{Quick: 24000, Thorough: 600000,
	Rule: "1 to 8 close calls (and client closes) at the same or close moments, on a healthy, slow or stuck peer, while readers, writers, writer holders, waiting broadcasts, pings and half-received pings are blocked, with hooks that close, send, batch, use and shut down the manager and rooms; non-trivial: at least one call was blocked or one hook re-entered when the connection closed",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		W := time.Duration(20+r.IntN(2000)) * time.Millisecond
		o.WriteWait = W
		if r.IntN(4) == 0 {
			o.PingEvery = time.Duration(20+r.IntN(500)) * time.Millisecond
			o.ReadWait = o.PingEvery + 10*time.Minute
		}
		o.BroadcastChannelsSize = 1 + r.IntN(2)
		o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureWait, snapws.BackpressureWait}[r.IntN(3)]
		noise := s.Noise()
		peerKind := []string{"stuck", "stuck", "stuck-later", "slow", "healthy"}[r.IntN(5)]
		parts := map[string]bool{}
		for _, k := range []string{"reader", "stream-reader", "holder", "waiter", "sender", "broadcast", "ping", "partial-ping", "client-close", "batch"} {
			parts[k] = r.IntN(5) < 2
		}
		if parts["reader"] {
			parts["stream-reader"] = false
		}
		hookActs := r.IntN(3) != 0
		K := 1 + r.IntN(8)
		same := r.IntN(2) == 0
		if s.Long(501) {
			K, same = 40+r.IntN(100), r.IntN(4) > 0
		}
		s.Count("peer: "+peerKind, 1)
		s.Sig(s.Idx, peerKind, K, parts)
		s.Bubble(t, func() {
			w := newWorld(s, o)
			if parts["batch"] {
				w.u.EnablePrefixBatching(bg, time.Duration(5+r.IntN(20))*time.Millisecond)
			}
			limited := r.IntN(6) == 0 && (parts["reader"] || parts["stream-reader"])
			if limited {
				w.u.Limiter = snapws.NewRateLimiter(1, 1)
				w.u.Limiter.OnRateLimitHit = func(ws *snapws.Conn) error { ws.CloseWithCode(4008, "limited"); return errHook }
			}
			var hookOps, reent atomic.Int64
			hr := s.Rng("hook")
			var hmu Mutex
			var target *snapws.Conn
			w.inHook = func(hook string, ws *snapws.Conn) {
				if ws != target || !hookActs {
					return
				}
				hookOps.Add(1)
				defer hookOps.Add(-1)
				hmu.Lock()
				acts := []int{hr.IntN(16), hr.IntN(16)}
				hmu.Unlock()
				for _, a := range acts {
					reent.Add(1)
					s.Timed(fmt.Sprintf("action %d in %s", a, hook), 5*W+time.Millisecond, func() error {
						switch a {
						case 0:
							ws.Close()
						case 1:
							ws.CloseWithCode(4001, "again")
						case 2:
							return ws.SendString(bg, []byte("from a hook"))
						case 3:
							return ws.Ping()
						case 4:
							return ws.Batch([]byte("1"))
						case 5:
							w.m.Get(1)
							w.m.GetAllConns()
						case 6:
							ctx, cancel := context.WithTimeout(bg, W)
							defer cancel()
							_, err := w.m.BroadcastString(ctx, []byte("left"))
							return err
						case 7:
							w.room.Remove(ws)
						case 8:
							w.room.Add(ws)
						case 9:
							w.room.GetAllConns()
							w.rm.GetRoomKeys()
						case 10:
							w.m.Shutdown()
						case 11:
							w.rm.Shutdown()
						case 12:
							w.room.Close()
						case 13:
							w.rm.Add(5).Add(ws)
							w.room.Move(ws, 5)
						case 14:
							if w.u.Flusher != nil {
								w.u.Flusher.Close()
							}
						default:
							ctx, cancel := context.WithTimeout(bg, W)
							defer cancel()
							_, err := w.room.BroadcastString(ctx, []byte("left"))
							return err
						}
						return nil
					})
				}
			}
			c := NewMemConn()
			cl := NewClient(c)
			if o.PingEvery < time.Hour && peerKind != "stuck" {
				cl.AutoPong(0)
			}
			ws := w.open(1, c)
			if ws == nil {
				return
			}
			target = ws
			switch peerKind {
			case "stuck":
				c.SetWindow(c.OutLen() + r.IntN(3)*r.IntN(300))
			case "slow":
				slow(s, c, 2*time.Millisecond)
				c.SlowAll = W
			case "stuck-later":
				when := time.Duration(r.IntN(20_000)) * time.Microsecond
				go func() { time.Sleep(when); c.Stall() }()
			}
			var ops []*Op
			goOp := func(name string, f func()) { ops = append(ops, s.Go(name, f)) }
			fr := s.Rng("client")
			if parts["partial-ping"] {
				b := cf(opPing, rbytes(fr, 1+fr.IntN(125)), fr).Bytes()
				c.Feed(b[:1+fr.IntN(len(b)-1)])
			} else if r.IntN(2) == 0 {
				for range fr.IntN(5) {
					c.Feed(cf([]byte{opPing, opBin, opText}[fr.IntN(3)], []byte("abc"), fr).Bytes())
				}
			}
			if parts["reader"] {
				d := s.Reader(ws)
				ops = append(ops, d.op)
			}
			if parts["stream-reader"] {
				if !parts["partial-ping"] {
					b := cf(opBin, rbytes(fr, 2000), fr).Bytes()
					c.Feed(b[:fr.IntN(len(b))])
				}
				goOp("stream reader", func() {
					for {
						rdr, _, err := ws.NextReader()
						if err != nil {
							if snapws.IsFatalErr(err) {
								return
							}
							continue
						}
						buf := make([]byte, 100)
						for err == nil {
							_, err = rdr.Read(buf)
						}
						if snapws.IsFatalErr(err) {
							return
						}
					}
				})
			}
			if parts["holder"] {
				hold := time.Duration(r.Int64N(int64(20 * W)))
				goOp("writer holder", func() {
					cw, err := ws.NextWriter(bg, opText)
					if err != nil {
						return
					}
					cw.Write([]byte("held"))
					if fr.IntN(2) == 0 {
						cw.Flush()
					}
					time.Sleep(hold)
					cw.Write([]byte("more"))
					cw.Flush()
					cw.Close()
				})
			}
			if parts["waiter"] {
				for range 1 + r.IntN(3) {
					goOp("NextWriter", func() {
						time.Sleep(time.Millisecond)
						if cw, err := ws.NextWriter(nil, opText); err == nil {
							cw.Close()
						}
					})
				}
			}
			loop := func(name, kind string, n int) {
				gr := s.Rng("loop" + name)
				goOp(name, func() {
					for k := range n {
						err := w.one(kind, ws, gr, 0, k, time.Millisecond)
						if snapws.IsFatalErr(err) || errors.Is(err, snapws.ErrConnClosed) {
							return
						}
						time.Sleep(time.Duration(gr.IntN(1000)) * time.Microsecond)
					}
				})
			}
			if parts["sender"] {
				for i := range 1 + r.IntN(3) {
					loop(fmt.Sprint("sender", i), []string{"send", "stream", "json"}[r.IntN(3)], 20)
				}
			}
			if parts["broadcast"] {
				for i := range 1 + r.IntN(3) {
					loop(fmt.Sprint("broadcast", i), []string{"broadcast", "room"}[r.IntN(2)], 20)
				}
			}
			if parts["ping"] {
				loop("ping", "ping", 5)
			}
			if parts["batch"] {
				loop("batch", []string{"batch", "batch-broadcast"}[r.IntN(2)], 20)
			}
			var base time.Duration
			if r.IntN(3) != 0 {
				base = time.Duration(r.IntN(10_000)) * time.Microsecond
				if r.IntN(3) == 0 {
					base = time.Duration(r.Int64N(int64(2 * W)))
				}
			}
			var closes []*Op
			for i := range K {
				delay := base
				if !same {
					delay += time.Duration(r.Int64N(int64(W)))
				}
				def := r.IntN(2) == 0
				closes = append(closes, s.Go(fmt.Sprint("Close ", i), func() {
					time.Sleep(delay)
					if i == 0 && delay%2 == 0 {
						s.Burst()
					}
					s.Timed("Close", 5*W+5*W*time.Duration(b2i(hookActs))*4, func() error {
						if def {
							ws.Close()
						} else {
							ws.CloseWithCode(uint16(3000+i), "closing")
						}
						return nil
					})
					if !c.Closed() {
						s.Violate("open", "a close call returned and the transport is still open; peer %s, parts %v", peerKind, parts)
					}
				}))
			}
			if parts["client-close"] && !parts["partial-ping"] {
				delay := base
				go func() {
					time.Sleep(delay)
					c.Feed(cf(opClose, []byte{3, 232}, nil).Bytes())
				}()
			}
			time.Sleep(base)
			blocked := 0
			for _, op := range ops {
				if !op.Done() {
					blocked++
				}
			}
			for _, op := range closes {
				if !op.Within(10 * time.Minute) {
					if !s.Failed() {
						s.MustEnd(op, time.Hour, "close-stuck")
					}
					return
				}
			}
			for _, op := range ops {
				lim := 6*W + 100*time.Millisecond
				if op.Name == "writer holder" {
					lim += 20 * W
				}
				if !s.MustEnd(op, lim, "still-blocked") {
					return
				}
			}
			slow(s, c, 0)
			time.Sleep(12 * W)
			s.Settle()
			info := fmt.Sprintf("peer %s, parts %v, %d closers (same moment %v), hooks act %v, limited %v, write timeout %v, noise %s", peerKind, trueKeys(parts), K, same, hookActs, limited, W, noise)
			if n := hookOps.Load(); n != 0 {
				s.Violate("hook-stuck", "%d hooks have not returned; %s\n%s", n, info, bubbleStacks(8))
				return
			}
			s.judgeWire(c, info)
			w.mustBeDead(ws, c, 6*W, true, info)
			if n := w.n(w.conn, ws); n != 1 {
				s.Violate("hook", "the connect hook ran %d times; %s", n, info)
			}
			if n := w.n(w.unreg, ws); n != 1 {
				s.Violate("hook", "the unregister hook ran %d times; %s", n, info)
			}
			if j, l := w.n(w.join, ws), w.n(w.leave, ws); j != l {
				s.Violate("hook", "the join hook ran %d times and the leave hook %d times for a closed connection; %s", j, l, info)
			}
			s.Count("calls_blocked_at_close", blocked)
			s.Count("actions_in_hooks", int(reent.Load()))
			s.Count("close_calls", K)
			if blocked > 0 || reent.Load() > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"peer": peerKind, "parts": trueKeys(parts), "closers": K, "hook_actions": reent.Load(), "blocked": blocked, "noise": noise})
			if w.u.Flusher != nil {
				w.u.Flusher.Close()
			}
			time.Sleep(time.Second)
		})
	}})

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func trueKeys(m map[string]bool) (o []string) {
	for _, k := range sortedKeys(m) {
		if m[k] {
			o = append(o, k)
		}
	}
	return
}

var _ = http.MethodGet
