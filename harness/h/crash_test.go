package h

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// guard runs a call into the library and reports a panic raised by the library. (A panic in one of
// the library's own goroutines ends the process, which check.py judges.)
func (s *S) guard(name string, f func()) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		st := string(debug.Stack())
		if libPanic(st) {
			s.Violate("panic", "%s panicked: %v\n%s", name, p, st)
			return
		}
		panic(p)
	}()
	f()
}

// libPanic reports whether the innermost frame that is neither the runtime's nor the standard
// library's belongs to the library.
func libPanic(st string) bool {
	i := strings.LastIndex(st, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i+1:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, pkgFrame) {
			return true
		}
		if strings.HasPrefix(l, "verif/harness/") {
			return false
		}
	}
	return false
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.IntN(len(l))] }

// wildOpts draws any legal configuration.
func wildOpts(r *rand.Rand) *snapws.Options {
	o := &snapws.Options{}
	if r.IntN(2) == 0 {
		o.ReadBufferSize = pick(r, 0, 1, 2, 15, 16, 17, 64, 124, 125, 126, 127, 4095, 4096, 4097, 1<<20)
	}
	if r.IntN(2) == 0 {
		o.WriteBufferSize = pick(r, 0, 1, 2, 3, 9, 10, 13, 14, 15, 16, 24, 125, 126, 139, 140, 4096, 1<<16+14, 1<<20)
	}
	o.DisableWriteBuffersPooling = r.IntN(2) == 0
	if r.IntN(3) != 0 {
		o.MaxMessageSize = pick(r, 0, -1, 1, 2, 8, 125, 126, 1000, math.MaxInt32, math.MaxInt)
	}
	if r.IntN(2) == 0 {
		o.ReaderMaxFragments = pick(r, 0, 1, 2, 3, math.MaxInt)
	}
	if r.IntN(2) == 0 {
		o.BroadcastChannelsSize = pick(r, 0, 1, 2, 100)
	}
	o.BroadcastBackpressure = pick[snapws.BackpressureStrategy](r, snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait)
	if r.IntN(2) == 0 {
		o.MaxBatchSize = pick(r, 0, 1, 2, 10, 100, math.MaxInt)
	}
	o.SkipUTF8Validation = r.IntN(3) == 0
	if r.IntN(2) == 0 {
		o.WriteWait = pick(r, 1, time.Microsecond, time.Millisecond, 30*time.Millisecond, time.Second, time.Hour)
	}
	if r.IntN(2) == 0 {
		o.ReadWait = pick(r, time.Microsecond, time.Millisecond, 20*time.Millisecond, time.Second, 1000*time.Hour)
	}
	if r.IntN(2) == 0 {
		o.PingEvery = pick(r, time.Millisecond, 5*time.Millisecond, time.Second, 900*time.Hour)
	}
	if r.IntN(3) == 0 {
		o.SubProtocols = pick(r, nil, []string{}, []string{"chat"}, []string{"a", "b", "chat"}, []string{""})
		o.RejectRaw = r.IntN(4) == 0
	}
	if r.IntN(4) == 0 {
		o.Middlwares = pick(r, nil, snapws.Middlwares{}, snapws.Middlwares{func(http.ResponseWriter, *http.Request) error { return nil }})
	}
	return o
}

func wildLimiter(r *rand.Rand, u *snapws.Upgrader) {
	if r.IntN(3) != 0 {
		return
	}
	u.Limiter = snapws.NewRateLimiter(pick(r, 0, 1, 10, 1000, math.MaxInt), pick(r, 0, 1, 5, math.MaxInt))
	switch r.IntN(4) {
	case 0:
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { return nil }
	case 1:
		u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { return errHook }
	case 2:
		u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { c.Close(); return errHook }
	}
}

// hostile is a stream of client bytes nothing can be expected of.
func hostile(r *rand.Rand) ([]byte, string) {
	var fs []*CFrame
	g := genCfg{msgs: r.IntN(5), maxSize: pick(r, 20, 300, 5000), maxFrames: 1 + r.IntN(6), ctl: r.Float64() * 0.5, pongs: true, text: 0.5, json: 0.3, badUTF8: 0.2}
	kind := ""
	switch r.IntN(8) {
	case 0:
		return rbytes(r, 1+r.IntN(400)), "noise"
	case 1, 2: // frames with random headers
		var b []byte
		for range 1 + r.IntN(12) {
			f := &CFrame{Fin: r.IntN(3) != 0, Op: byte(r.IntN(16)), Payload: rbytes(r, pick(r, 0, 1, 2, 3, 125, 126, 127, 200)), Key: rkey(r), NoMask: r.IntN(5) == 0}
			if r.IntN(3) != 0 {
				f.Op = pick[byte](r, 0, 1, 2, 8, 9, 10)
			}
			if r.IntN(8) == 0 {
				f.Rsv = byte(r.IntN(8)) << 4
			}
			if r.IntN(5) == 0 {
				f.LenEnc = pick(r, 7, 126, 127)
				if f.LenEnc == 7 && len(f.Payload) > 125 {
					f.LenEnc = 0
				}
			}
			b = append(b, f.Bytes()...)
		}
		return b, "frames"
	case 3: // lengths
		f := &CFrame{Fin: r.IntN(2) == 0, Op: pick[byte](r, 1, 2, 0, 8, 9, 10), Payload: rbytes(r, r.IntN(300)), Key: rkey(r), HasFake: true, LenEnc: 127,
			FakeLen: pick(r, int64(0), 1, 125, 126, 65535, 65536, 1<<20, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<40, 1<<62, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-14, int64(math.MinInt64), -1, -2, -14)}
		pre := stream(genFrames(r, genCfg{msgs: r.IntN(2), maxSize: 40, maxFrames: 2}))
		if r.IntN(2) == 0 {
			pre = append(pre, (&CFrame{Op: opBin, Payload: rbytes(r, 5), Key: rkey(r)}).Bytes()...)
			f.Op = 0
		}
		return append(pre, f.Bytes()...), "length"
	case 4:
		fs, kind = mutate(r, genFrames(r, g))
	default:
		fs, kind = genFrames(r, g), "conforming"
	}
	b := stream(fs)
	// damage
	for range pick(r, 0, 0, 1, 1, 2, 10) {
		if len(b) == 0 {
			break
		}
		i := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b[i] ^= 1 << r.IntN(8)
		case 1:
			b[i] = byte(r.UintN(256))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append(rbytes(r, 1+r.IntN(4)), b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return b, kind + " damaged"
}

// wildRead makes one read of any kind, also wrong ones.
func (s *S) wildRead(ws *snapws.Conn, r *rand.Rand, old *io.Reader) (err error) {
	switch r.IntN(9) {
	case 0:
		err = ws.ReadJSON(nil)
	case 1:
		var v int
		err = ws.ReadJSON(v)
	case 2:
		v := map[string]any{}
		err = ws.ReadJSON(&v)
	case 3:
		_, err = ws.ReadString()
	case 4:
		_, err = ws.ReadBinary()
	case 5:
		if *old != nil { // a reader whose message may be over
			_, err = (*old).Read(make([]byte, r.IntN(20)))
			if err == io.EOF {
				err = nil
			}
		}
	case 6, 7:
		var rd io.Reader
		if rd, _, err = ws.NextReader(); err == nil {
			*old = rd
			for range r.IntN(20) {
				var buf []byte
				if r.IntN(4) != 0 {
					buf = make([]byte, pick(r, 0, 1, 2, 7, 100, 5000))
				}
				if _, err = rd.Read(buf); err != nil {
					if err == io.EOF {
						err = nil
						if r.IntN(2) == 0 {
							rd.Read(buf)
						}
					}
					break
				}
			}
		} else if rd != nil {
			rd.Read(make([]byte, 3))
		}
	default:
		_, _, err = ws.ReadMessage()
	}
	return
}

// oddRW misbehaves in the ways a response writer may.
type oddRW struct {
	hdr  http.Header
	code int
	body int
}

func (w *oddRW) Header() http.Header         { return w.hdr }
func (w *oddRW) WriteHeader(c int)           { w.code = c }
func (w *oddRW) Write(b []byte) (int, error) { w.body += len(b); return 0, errPipe }

type crashRun struct {
	s   *S
	ops atomic.Int64
}

var _ = register("C27", &Prop{Quick: 48000, Thorough: 400000,
	Rule: "extreme but legal configurations (buffer sizes from 0, limits from -1 to MaxInt, waits from 1 ns, unset hooks) under (a) random, malformed and damaged client bytes read by random and wrong read calls, (b) random orders of all public calls, also on closed objects, with nil and ended contexts, (c) transport faults while many goroutines work, (d) odd handshake requests and response writers; non-trivial: calls were made and their ends observed",
	Run: func(t *testing.T, s *S) {
		switch s.Idx % 4 {
		case 0:
			crashBytes(t, s)
		case 1:
			crashZoo(t, s)
		case 2:
			crashFault(t, s)
		default:
			crashHandshake(t, s)
		}
	}})

func crashBytes(t *testing.T, s *S) {
	r := s.R
	o := wildOpts(r)
	b, kind := hostile(r)
	if r.IntN(2) == 0 {
		o.ReadWait, o.PingEvery, o.WriteWait = 1000*time.Hour, 900*time.Hour, time.Second
	}
	s.Count("bytes: "+kind, 1)
	s.Sig(kind, len(b), hash64(string(b)), fmt.Sprintf("%+v", o.ReadBufferSize), o.MaxMessageSize)
	s.Noise()
	s.Bubble(t, func() {
		var u *snapws.Upgrader
		s.guard("NewUpgrader", func() { u = snapws.NewUpgrader(o) })
		wildLimiter(r, u)
		c := NewMemConn()
		NewClient(c)
		early, rest := early(r, b)
		var ws *snapws.Conn
		s.guard("Upgrade", func() {
			ws, _ = u.Upgrade(NewRW(c, pick(r, 16, 64, 1024, 4096), pick(r, 16, 129, 1024, 4096), early), Request())
		})
		if ws == nil {
			return
		}
		feed := s.Go("client", func() {
			fr := s.Rng("feed")
			for _, x := range segment(fr, rest) {
				c.Feed(x)
				if fr.IntN(8) == 0 {
					time.Sleep(time.Duration(fr.IntN(3000)) * time.Microsecond)
				}
			}
			if fr.IntN(4) != 0 {
				c.FeedErr(pick[error](fr, io.EOF, errReset, io.ErrUnexpectedEOF))
			}
		})
		n := 0
		rd := s.Go("reader", func() {
			rr := s.Rng("read")
			fatal := 0
			var old io.Reader
			for range 400 {
				var err error
				s.guard("a read call", func() { err = s.wildRead(ws, rr, &old) })
				n++
				if s.Failed() {
					return
				}
				if err != nil && (snapws.IsFatalErr(err) || errors.Is(err, snapws.ErrConnClosed)) {
					if fatal++; fatal > 3 { // reading on after the end
						return
					}
				}
			}
		})
		feed.Within(time.Minute)
		rd.Within(time.Second)
		s.guard("Close", func() {
			ws.CloseWithCode(pick[uint16](r, 1000, 1001, 0, 1, 999, 1005, 1006, 1015, 4999, 5000, 65535), string(rbytes(r, r.IntN(200))))
		})
		c.Close()
		if rd.Within(time.Minute) {
			s.Count("reads", n)
			s.NonTrivial()
			s.Sample(map[string]any{"client bytes": kind, "length": len(b), "options": fmt.Sprintf("read buffer %d, write buffer %d, max message %d, fragments %d", o.ReadBufferSize, o.WriteBufferSize, o.MaxMessageSize, o.ReaderMaxFragments), "read calls": n})
		}
	})
}

func crashZoo(t *testing.T, s *S) {
	r := s.R
	nops := 20 + r.IntN(100)
	s.Sig("zoo", s.Idx)
	s.Noise()
	s.Bubble(t, func() {
		o := wildOpts(r)
		var u *snapws.Upgrader
		var m *snapws.Manager[int]
		var rm *snapws.RoomManager[string]
		s.guard("constructors", func() {
			if r.IntN(4) == 0 {
				u, o = snapws.NewUpgrader(nil), nil
			} else {
				u = snapws.NewUpgrader(o)
			}
			if r.IntN(6) == 0 {
				m = snapws.NewManager[int](nil)
			} else {
				m = snapws.NewManager[int](u)
			}
			if r.IntN(6) == 0 {
				rm = snapws.NewRoomManager[string](nil)
			} else {
				rm = snapws.NewRoomManager[string](u)
			}
		})
		if s.Failed() {
			return
		}
		wildLimiter(r, u)
		if r.IntN(2) == 0 {
			m.OnRegister = func(*snapws.ManagedConn[int]) {}
			m.OnUnregister = func(*snapws.ManagedConn[int]) {}
			rm.DefaultOnJoin = func(_ *snapws.Room[string], _ *snapws.Conn, args ...any) {
				snapws.GetArg[int](args, 0)
			}
			rm.DefaultOnLeave = func(_ *snapws.Room[string], _ *snapws.Conn, args ...any) {
				snapws.GetArg[string](args, 1)
			}
		}
		var cs []*MemConn
		var wss []*snapws.Conn
		var mcs []*snapws.ManagedConn[int]
		var rooms []*snapws.Room[string]
		var cws []*snapws.ConnWriter
		reading := map[*snapws.Conn]*Op{}
		writing := map[*snapws.ConnWriter]*Op{}
		old := map[*snapws.Conn]*io.Reader{}
		cancelled, cc := context.WithCancel(bg)
		cc()
		expired, c2 := context.WithDeadline(bg, time.Now())
		defer c2()
		soon, c3 := context.WithTimeout(bg, 100*time.Millisecond)
		defer c3()
		ctx := func(rr *rand.Rand) context.Context { return pick(rr, nil, nil, bg, bg, cancelled, expired, soon) }
		data := func(rr *rand.Rand) []byte {
			switch rr.IntN(4) {
			case 0:
				return nil
			case 1:
				return []byte{}
			case 2:
				return rtext(rr, rr.IntN(300))
			}
			n := rr.IntN(3000)
			if o != nil {
				n = frugal(o, n)
			}
			return rbytes(rr, n)
		}
		conn := func(rr *rand.Rand) *snapws.Conn {
			if len(wss) == 0 {
				return nil
			}
			return wss[rr.IntN(len(wss))]
		}
		var outstanding []*Op
		ended, calls := 0, 0
		hist := ""
		// do runs a call in its own goroutine; one that does not return soon is left alone.
		do := func(name string, f func()) *Op {
			hist += name + " "
			op := s.Go(name, func() { s.guard(name, f) })
			calls++
			if op.Within(time.Duration(1+r.IntN(5000)) * time.Microsecond) {
				ended++
			} else {
				outstanding = append(outstanding, op)
			}
			return op
		}
		newConn := func() {
			c := NewMemConn()
			cl := NewClient(c)
			if r.IntN(2) == 0 {
				cl.AutoPong(0)
			}
			if r.IntN(5) == 0 {
				slow(s, c, time.Duration(r.IntN(2000))*time.Microsecond)
			}
			if r.IntN(8) == 0 {
				c.SetWindow(r.IntN(500))
			}
			var ws *snapws.Conn
			how := r.IntN(3)
			key, rk := r.IntN(3), pick(r, "", "a", "b")
			do("connect", func() {
				switch how {
				case 0:
					ws, _ = u.Upgrade(NewRW(c, 4096, 4096, nil), Request())
				case 1:
					if mc, _ := m.Connect(key, NewRW(c, 4096, 4096, nil), Request()); mc != nil {
						ws = mc.Conn
					}
				default:
					ws, _, _ = rm.Connect(NewRW(c, 4096, 4096, nil), Request(), rk, 1, "x")
				}
			})
			if op := outstanding; len(op) > 0 && op[len(op)-1].Name == "connect" && !op[len(op)-1].Within(time.Second) {
				return
			}
			if ws != nil {
				cs = append(cs, c)
				wss = append(wss, ws)
				old[ws] = new(io.Reader)
			}
		}
		for range r.IntN(3) {
			newConn()
		}
		for k := range nops {
			if s.Failed() {
				break
			}
			rr := s.Rng(fmt.Sprint("op", k))
			ws := conn(r)
			if r.IntN(12) == 0 && len(wss) < 6 {
				newConn()
				continue
			}
			switch x := r.IntN(34); {
			case x < 3 && ws != nil:
				do("send", func() {
					p := data(rr)
					switch rr.IntN(5) {
					case 0:
						ws.SendBytes(ctx(rr), p)
					case 1:
						ws.SendString(ctx(rr), p)
					case 2:
						ws.SendJSON(ctx(rr), pick[any](rr, nil, 1, "x", math.NaN(), make(chan int), map[string]any{"a": []int{1}}, p))
					default:
						ws.SendMessage(ctx(rr), byte(rr.IntN(256)), p)
					}
				})
			case x == 3 && ws != nil:
				var cw *snapws.ConnWriter
				op := do("NextWriter", func() { cw, _ = ws.NextWriter(ctx(rr), byte(pick(rr, 0, 1, 2, 3, 8, 9, 255))) })
				if op.Done() && (cw != nil || r.IntN(4) == 0) {
					cws = append(cws, cw)
				}
			case x < 8 && len(cws) > 0:
				cw := cws[r.IntN(len(cws))]
				if op := writing[cw]; cw != nil && op != nil && !op.Done() {
					continue
				}
				writing[cw] = do("writer call", func() {
					switch rr.IntN(4) {
					case 0:
						cw.Close()
					case 1:
						cw.Flush()
					default:
						cw.Write(data(rr))
					}
				})
			case x == 8 && ws != nil:
				do("Ping", func() { ws.Ping() })
			case x == 9 && ws != nil && r.IntN(3) == 0:
				do("Close", func() {
					if rr.IntN(2) == 0 {
						ws.Close()
					} else {
						ws.CloseWithCode(uint16(rr.UintN(65536)), string(rbytes(rr, rr.IntN(300))))
					}
				})
			case x < 13 && ws != nil:
				if op := reading[ws]; op != nil && !op.Done() {
					continue
				}
				i := indexOf(wss, ws)
				if r.IntN(3) != 0 {
					b, _ := hostile(rr)
					if rr.IntN(3) != 0 {
						b = stream(genFrames(rr, genCfg{msgs: 2, maxSize: 200, maxFrames: 3, ctl: 0.2, pongs: true, text: 0.5, json: 0.3}))
					}
					cs[i].Feed(b)
				}
				reading[ws] = do("read", func() { s.wildRead(ws, rr, old[ws]) })
			case x == 13 && ws != nil:
				cs[indexOf(wss, ws)].FeedErr(pick[error](rr, io.EOF, errReset))
			case x < 16 && ws != nil:
				do("batch", func() {
					if rr.IntN(2) == 0 {
						ws.Batch(data(rr))
					} else {
						ws.BatchJSON(pick[any](rr, nil, 1, "x", math.Inf(1), func() {}))
					}
				})
			case x == 16 && r.IntN(2) == 0:
				every := time.Duration(pick(rr, 0, 1_000_000, 5_000_000, 50_000_000))
				if every == 0 && r.IntN(2) == 0 {
					every = time.Hour
				}
				do("enable batching", func() {
					switch rr.IntN(3) {
					case 0:
						u.EnableJSONBatching(ctx(rr), every)
					case 1:
						u.EnablePrefixBatching(ctx(rr), every)
					default:
						u.EnableBatching(ctx(rr), every, func(ctx context.Context, c *snapws.Conn, ms [][]byte) error {
							for _, b := range ms {
								if err := c.SendBytes(ctx, b); err != nil {
									return err
								}
							}
							return nil
						})
					}
					if rr.IntN(3) == 0 {
						u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return nil }
						u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return []byte("z") }
					}
				})
			case x < 20:
				ex := make([]int, rr.IntN(3))
				do("manager broadcast", func() {
					switch rr.IntN(6) {
					case 0:
						m.BroadcastString(ctx(rr), data(rr), ex...)
					case 1:
						m.BroadcastBytes(ctx(rr), data(rr), ex...)
					case 2:
						m.BroadcastJSON(ctx(rr), pick[any](rr, nil, 1, math.NaN()), ex...)
					case 3:
						m.BatchBroadcast(ctx(rr), data(rr), ex...)
					case 4:
						m.BatchBroadcastJSON(ctx(rr), pick[any](rr, nil, "x", math.NaN()), ex...)
					default:
						m.GetAllConns(ex...)
						m.GetAllConnsAsConn(ex...)
						m.Get(rr.IntN(5))
					}
				})
			case x < 22:
				do("room manager", func() {
					switch rr.IntN(5) {
					case 0:
						rm.Get(pick(rr, "", "a", "zz"))
					case 1:
						rm.GetRoomKeys()
					default:
						if ro := rm.Add(pick(rr, "", "a", "b", "c")); ro != nil {
							s.mu.Lock()
							rooms = append(rooms, ro)
							s.mu.Unlock()
						}
					}
				})
			case x < 29:
				s.mu.Lock()
				var ro *snapws.Room[string]
				if len(rooms) > 0 {
					ro = rooms[r.IntN(len(rooms))]
				}
				s.mu.Unlock()
				if ro == nil {
					continue
				}
				var ex []*snapws.Conn
				if ws != nil && r.IntN(2) == 0 {
					ex = append(ex, ws)
				}
				if r.IntN(4) == 0 {
					ex = append(ex, nil)
				}
				rr2 := r.IntN(12)
				if ws == nil && rr2 < 5 {
					continue
				}
				do("room", func() {
					switch rr2 {
					case 0, 1:
						ro.Add(ws, pick[any](rr, nil, 1, "x"))
					case 2:
						ro.Add(ws)
					case 3:
						ro.Remove(ws, "a", 2)
					case 4:
						ro.Move(ws, pick(rr, "", "a", "b", "nowhere"))
					case 5:
						ro.RemoveAll()
					case 6:
						ro.BroadcastString(ctx(rr), data(rr), ex...)
					case 7:
						ro.BroadcastBytes(ctx(rr), data(rr), ex...)
					case 8:
						ro.BroadcastJSON(ctx(rr), pick[any](rr, nil, 1, func() {}), ex...)
					case 9:
						ro.BatchBroadcast(ctx(rr), data(rr), ex...)
					case 10:
						ro.BatchBroadcastJSON(ctx(rr), pick[any](rr, nil, 1, func() {}), ex...)
					default:
						ro.GetAllConns(ex...)
						if rr.IntN(5) == 0 {
							ro.Close()
						}
						if rr.IntN(8) == 0 {
							ro.OnJoin, ro.OnLeave = nil, nil
						}
					}
				})
			case x == 29:
				args := [][]any{nil, {}, {1}, {nil, "x"}}[r.IntN(4)]
				do("GetArg", func() {
					for _, i := range []int{0, 1, 2, -1, math.MaxInt, math.MinInt} {
						snapws.GetArg[int](args, i)
						snapws.GetArg[error](args, i)
					}
				})
			case x == 30 && ws != nil:
				if r.IntN(2) == 0 && len(mcs) > 0 {
					mc := mcs[r.IntN(len(mcs))]
					do("register", func() { m.Register(mc.Key, mc) })
				} else {
					mc := &snapws.ManagedConn[int]{Conn: ws, Key: len(mcs) + 10, Manager: m}
					mcs = append(mcs, mc)
					do("register", func() { m.Register(mc.Key, mc) })
				}
			case x == 31 && r.IntN(3) == 0:
				do("shutdown", func() {
					if rr.IntN(2) == 0 {
						m.Shutdown()
					} else {
						rm.Shutdown()
					}
				})
			case x == 32:
				do("helpers", func() {
					snapws.IsFatalErr(pick[error](rr, nil, io.EOF, snapws.ErrConnClosed, &snapws.FatalError{Err: io.EOF}, snapws.NewMiddlewareErr(0, "")))
					snapws.AsMiddlewareErr(pick[error](rr, nil, io.EOF, snapws.NewMiddlewareErr(400, "x"), fmt.Errorf("w: %w", snapws.NewMiddlewareErr(400, "x"))))
					_ = snapws.NewMiddlewareErr(999, "").Error()
					u.Use(func(http.ResponseWriter, *http.Request) error { return nil })
					if ws != nil {
						ws.NetConn().RemoteAddr()
						_ = ws.SubProtocol
						_ = ws.MetaData
					}
				})
			default:
				time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
			}
		}
		if len(hist) > 2000 {
			hist = hist[:2000]
		}
		s.Sig(hist)
		// the end: everything is torn down while calls may still be under way
		s.Go("teardown", func() {
			s.guard("teardown", func() {
				m.Shutdown()
				rm.Shutdown()
				if u.Flusher != nil {
					u.Flusher.Close()
					u.Flusher.Close()
				}
			})
		}).Within(time.Second)
		for i := range wss {
			ws := wss[i]
			cs[i].Close()
			s.Go("close", func() { s.guard("Close", func() { ws.Close() }) }).Within(time.Millisecond)
		}
		time.Sleep(2 * time.Second)
		for _, op := range outstanding {
			if op.Done() {
				ended++
			}
		}
		s.Count("calls", calls)
		s.Count("calls that ended", ended)
		if ended > 0 {
			s.NonTrivial()
		}
		s.Sample(map[string]any{"calls": hist})
	})
}

func indexOf(l []*snapws.Conn, x *snapws.Conn) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func crashFault(t *testing.T, s *S) {
	r := s.R
	o := wildOpts(r)
	s.Sig("fault", s.Idx)
	s.Noise()
	if o.ReadWait < time.Second {
		o.ReadWait = 1000 * time.Hour
	}
	if o.PingEvery < 5*time.Millisecond {
		o.PingEvery = 900 * time.Hour
	}
	o.SubProtocols, o.RejectRaw, o.Middlwares = nil, false, nil
	s.Bubble(t, func() {
		w := newWorld(s, o)
		if r.IntN(3) == 0 {
			w.o.OnConnect, w.o.OnDisconnect, w.m.OnRegister, w.m.OnUnregister, w.rm.DefaultOnJoin, w.rm.DefaultOnLeave = nil, nil, nil, nil, nil, nil
			w.room.OnJoin, w.room.OnLeave = nil, nil
		}
		wildLimiter(r, w.u)
		if r.IntN(3) != 0 {
			every := time.Duration(1+r.IntN(20)) * time.Millisecond
			if r.IntN(2) == 0 {
				w.u.EnablePrefixBatching(nil, every)
			} else {
				w.u.EnableJSONBatching(bg, every)
			}
		}
		type cn struct {
			c  *MemConn
			ws *snapws.Conn
		}
		var cns []cn
		for i := range 1 + r.IntN(3) {
			c := NewMemConn()
			NewClient(c).AutoPong(0)
			mc, err := w.m.Connect(i, NewRW(c, 4096, 4096, nil), Request())
			if err != nil { // a wait of 1 ns may be over before anything is written
				s.Count("upgrades that failed", 1)
				continue
			}
			w.room.Add(mc.Conn)
			cns = append(cns, cn{c, mc.Conn})
		}
		if len(cns) == 0 {
			return
		}
		var ops []*Op
		for i, x := range cns {
			x := x
			c := x.c
			if r.IntN(3) == 0 {
				slow(s, c, time.Duration(r.IntN(1500))*time.Microsecond)
			}
			base := c.OutLen()
			fr := s.Rng(fmt.Sprint("fault", i))
			c.mu.Lock()
			switch fr.IntN(6) {
			case 0, 1:
				c.FailAt, c.FailOnce = base+fr.IntN(2000), fr.IntN(2) == 0
			case 2:
				c.Window = base + fr.IntN(500)
			case 3:
				c.FailSetWD = c.nSetWD + 1 + fr.IntN(10)
			}
			c.mu.Unlock()
			go func() {
				time.Sleep(time.Duration(fr.IntN(20_000)) * time.Microsecond)
				switch fr.IntN(6) {
				case 0:
					c.mu.Lock()
					c.SetWDErr = errPipe
					c.mu.Unlock()
				case 1:
					c.mu.Lock()
					c.SetRDErr = net.ErrClosed
					c.mu.Unlock()
				case 2:
					c.FeedErr(errReset)
				case 3:
					c.Close()
				case 4:
					c.Unstall()
				}
			}()
			for g := range 1 + r.IntN(4) {
				kind := busyKinds[r.IntN(len(busyKinds))]
				tag := fmt.Sprint("c27", i, "/", g)
				gr := s.Rng("busy" + tag)
				ops = append(ops, s.Go(kind, func() {
					for k := range 2 + gr.IntN(15) {
						s.guard(kind, func() { w.one(kind, x.ws, gr, g, k, time.Millisecond) })
						w.calls.Add(1)
						if s.Failed() {
							return
						}
						time.Sleep(time.Duration(gr.IntN(2000)) * time.Microsecond)
					}
				}))
			}
			rr := s.Rng(fmt.Sprint("read", i))
			ops = append(ops, s.Go("reader", func() {
				var old io.Reader
				fatal := 0
				for range 60 {
					var err error
					s.guard("a read call", func() { err = s.wildRead(x.ws, rr, &old) })
					if err != nil && snapws.IsFatalErr(err) {
						if fatal++; fatal > 2 {
							return
						}
					}
				}
			}))
			b, _ := hostile(fr)
			c.Feed(b)
			if r.IntN(3) == 0 {
				d := time.Duration(r.IntN(20_000)) * time.Microsecond
				ops = append(ops, s.Go("close", func() {
					time.Sleep(d)
					s.guard("Close", func() { x.ws.Close() })
				}))
			}
		}
		for _, op := range ops {
			op.Within(300 * time.Millisecond)
		}
		s.Go("shutdown", func() { s.guard("Shutdown", func() { w.m.Shutdown(); w.rm.Shutdown() }) }).Within(time.Second)
		for _, x := range cns {
			x.c.Close()
		}
		if w.u.Flusher != nil {
			s.Go("flusher close", func() { s.guard("Flusher.Close", func() { w.u.Flusher.Close() }) }).Within(time.Second)
		}
		time.Sleep(5 * time.Second)
		s.Count("calls under faults", int(w.calls.Load()))
		s.Count("faults that took effect", func() (n int) {
			for _, x := range cns {
				n += x.c.Faults()
			}
			return
		}())
		if w.calls.Load() > 0 {
			s.NonTrivial()
		}
	})
}

func crashHandshake(t *testing.T, s *S) {
	r := s.R
	s.Noise()
	s.Bubble(t, func() {
		o := wildOpts(r)
		switch r.IntN(5) {
		case 0:
			o.Middlwares = append(o.Middlwares, func(http.ResponseWriter, *http.Request) error {
				return pick[error](r, errHook, snapws.NewMiddlewareErr(403, "no"), snapws.NewMiddlewareErr(200, ""), fmt.Errorf("w: %w", snapws.NewMiddlewareErr(401, "no")))
			})
		case 1:
			o.OnConnect = func(c *snapws.Conn) { c.Close() }
		case 2:
			o.OnConnect = func(c *snapws.Conn) { c.SendString(nil, []byte("hi")); c.Ping() }
			o.OnDisconnect = func(c *snapws.Conn) { c.SendString(nil, []byte("bye")); c.Close() }
		}
		var u *snapws.Upgrader
		s.guard("NewUpgrader", func() { u = snapws.NewUpgrader(o) })
		wildLimiter(r, u)
		if r.IntN(3) == 0 {
			u2 := snapws.NewUpgrader(o) // the same options again
			u2.Use(nil2)
		}
		m := snapws.NewManager[int](u)
		rm := snapws.NewRoomManager[int](u)
		n := 0
		for k := range 1 + r.IntN(6) {
			h := genHS(r, pick(r, nil, []string{"chat"}, []string{"a", "b", "chat", "", ","}))
			req := h.request()
			if r.IntN(4) == 0 {
				for name, vs := range req.Header {
					if r.IntN(3) == 0 {
						req.Header[name] = pick(r, nil, []string{}, []string{""}, append(vs, vs...), []string{strings.Repeat("x,", r.IntN(3000))}, []string{string(rbytes(r, 20))})
					}
				}
			}
			if r.IntN(20) == 0 {
				req.Header = nil
			}
			if r.IntN(8) == 0 {
				req.ProtoMajor, req.ProtoMinor = pick(r, 0, 1, 2), 0
			}
			var w http.ResponseWriter
			c := NewMemConn()
			var rw *RW
			switch r.IntN(6) {
			case 0:
				w = &oddRW{hdr: http.Header{}}
			case 1:
				rw = NewRW(c, 4096, 4096, nil)
				rw.HijackErr = errHook
				w = rw
			default:
				var e []byte
				if r.IntN(2) == 0 {
					e, _ = hostile(r)
				}
				rw = NewRW(c, pick(r, 16, 20, 4096, 1<<16), pick(r, 16, 20, 129, 4096), e)
				if r.IntN(8) == 0 { // nothing but a connection
					rw.bw = bufio.NewWriterSize(c, 16)
					if len(e) == 0 {
						rw.br = nil
					}
				}
				w = rw
			}
			c.mu.Lock()
			switch r.IntN(8) {
			case 0:
				c.FailAt = r.IntN(300)
			case 1:
				c.Window = r.IntN(300)
			case 2:
				c.SetWDErr = errPipe
			case 3:
				c.closed = true
			}
			c.mu.Unlock()
			s.Sig(h, o.WriteBufferSize, o.ReadBufferSize)
			s.Trace("%v", h)
			var ws *snapws.Conn
			how := r.IntN(3)
			op := s.Go("handshake", func() {
				s.guard(fmt.Sprintf("the handshake %v", h), func() {
					switch how {
					case 0:
						ws, _ = u.Upgrade(w, req)
					case 1:
						if mc, err := m.Connect(k%2, w, req); err == nil {
							ws = mc.Conn
						}
					default:
						ws, _, _ = rm.Connect(w, req, k%2)
					}
				})
			})
			if !op.Within(time.Minute) {
				c.Close()
				continue
			}
			n++
			if ws == nil {
				s.Count("handshakes refused", 1)
				continue
			}
			s.Count("handshakes accepted", 1)
			rr := s.Rng(fmt.Sprint("use", k))
			s.Go("use", func() {
				var old io.Reader
				s.guard("first calls", func() {
					ws.SendString(nil, rtext(rr, rr.IntN(frugal(o, 3000)+1)))
					s.wildRead(ws, rr, &old)
					ws.Close()
				})
			}).Within(10 * time.Millisecond)
			c.Close()
		}
		s.Go("shutdown", func() { s.guard("Shutdown", func() { m.Shutdown(); rm.Shutdown() }) }).Within(time.Minute)
		if n > 0 {
			s.NonTrivial()
		}
	})
}

func nil2(http.ResponseWriter, *http.Request) error { return nil }
