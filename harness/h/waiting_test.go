package h

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- C30

// ownCtx is a context of a type the library does not know.
type ownCtx struct {
	context.Context
	done chan struct{}
}

func (c *ownCtx) Done() <-chan struct{} { return c.done }
func (c *ownCtx) Err() error {
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}
func (c *ownCtx) Deadline() (time.Time, bool) { return time.Time{}, false }

// waitCtx makes a context that ends after d (never if d < 0, before the call if 0).
func waitCtx(r *rand.Rand, d time.Duration) (context.Context, string) {
	if d < 0 {
		switch r.IntN(4) {
		case 0:
			return nil, "nil"
		case 1:
			return bg, "background"
		case 2:
			ctx, cancel := context.WithCancel(bg)
			time.AfterFunc(time.Hour, cancel)
			return ctx, "not cancelled"
		default:
			ctx, cancel := context.WithTimeout(bg, time.Hour)
			time.AfterFunc(time.Hour, cancel)
			return ctx, "far deadline"
		}
	}
	switch r.IntN(5) {
	case 0, 1:
		ctx, cancel := context.WithTimeout(bg, d)
		time.AfterFunc(time.Hour, cancel)
		return ctx, fmt.Sprint("deadline ", d)
	case 2:
		ctx, cancel := context.WithCancel(bg)
		if d == 0 {
			cancel()
		} else {
			time.AfterFunc(d, cancel)
		}
		return ctx, fmt.Sprint("cancelled after ", d)
	case 3:
		ctx, cancel := context.WithCancelCause(context.WithValue(bg, 1, 2))
		if d == 0 {
			cancel(errHook)
		} else {
			time.AfterFunc(d, func() { cancel(errHook) })
		}
		return ctx, fmt.Sprint("cancelled with a cause after ", d)
	default:
		c := &ownCtx{Context: bg, done: make(chan struct{})}
		if d == 0 {
			close(c.done)
		} else {
			time.AfterFunc(d, func() { close(c.done) })
		}
		return c, fmt.Sprint("own type, ended after ", d)
	}
}

type waiter struct {
	kind, cname string
	id          pid
	start, end  time.Duration // after the beginning of the round; end of its context, <0: never
	ctx         context.Context
	op          *Op
	n           int
	err         error
}

var _ = register("C30", &Prop{Quick: 50000, Thorough: 1250000,
	Rule: "rounds in which the connection is occupied for 1 to 60 s (a writer held, a write or a ping to a peer that takes nothing) while 1 to 8 calls wait for it (whole messages, JSON, unencodable values, writers, pings, Wait broadcasts to a full queue, a flush), each with a context of some kind that ends before, meanwhile or never; every call's return time, error and message are compared with its own context, another connection must stay unaffected; non-trivial: a call was given up by its context and one went through after waiting",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = 10 * time.Minute
		o.BroadcastBackpressure = snapws.BackpressureWait
		o.BroadcastChannelsSize = 1 + r.IntN(4)
		rounds := 1 + r.IntN(4)
		if s.Long(101) {
			rounds = 40
		}
		crowd := 8
		if s.Long(307) { // many calls wait
			rounds, crowd = 1+r.IntN(3), 120
		}
		noise := s.Noise()
		s.Sig(s.Idx, rounds)
		s.Bubble(t, func() {
			u := snapws.NewUpgrader(o)
			m := snapws.NewManager[int](u)
			room := snapws.NewRoomManager[int](u).Add(1)
			var cs [2]*MemConn
			var wss [2]*snapws.Conn
			for i := range 2 {
				cs[i] = NewMemConn()
				NewClient(cs[i]).AutoPong(0)
				mc, err := s.mconnect(m, i, NewRW(cs[i], 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return
				}
				wss[i] = mc.Conn
				s.Reader(mc.Conn)
			}
			ws, c := wss[0], cs[0]
			room.Add(ws)
			both := r.IntN(3) == 0
			if both {
				room.Add(wss[1])
			}
			must := map[pid]bool{} // on the wire of connection 0 exactly once
			never := map[pid]string{}
			maybe := map[pid]bool{}
			second := map[pid]int{} // on the wire of connection 1 so often
			seq := 0
			gaveUp, through := 0, 0
			slack := 60*time.Millisecond + s.vslack
			next := func(r *rand.Rand) (pid, []byte) {
				seq++
				id := pid{0, seq}
				n := r.IntN(60)
				if r.IntN(6) == 0 {
					n = frugal(o, rsize(r, 9000))
				}
				return id, pay(0, seq, n)
			}
			var lateErr error
			for round := range rounds {
				hold := []string{"writer", "write", "ping"}[r.IntN(3)]
				T := time.Duration(1000+r.IntN(59000)) * time.Millisecond
				info := fmt.Sprintf("round %d: occupied by a %s for %v, queue of %d, write buffer %d, noise %s", round, hold, T, o.BroadcastChannelsSize, o.WriteBufferSize, noise)
				t0 := time.Now()
				var release func()
				var holder *Op
				var fw *snapws.ConnWriter
				var fwEnd time.Duration
				switch hold {
				case "writer":
					w, err := ws.NextWriter(nil, opText)
					if err != nil {
						s.Violate("stuck", "NextWriter on an idle connection returned %v; %s", err, info)
						return
					}
					id, p := next(r)
					if r.IntN(2) == 0 {
						w.Write(p)
					} else {
						w.Write(p[:len(p)/2])
						w.Flush()
						w.Write(p[len(p)/2:])
					}
					must[id] = true
					release = func() {
						if err := w.Close(); err != nil {
							lateErr = fmt.Errorf("Close of the held writer returned %w", err)
						}
					}
				case "write":
					c.Stall()
					id, p := next(r)
					must[id] = true
					holder = s.Go("the send in progress", func() {
						if err := ws.SendBytes(bg, p); err != nil {
							lateErr = fmt.Errorf("the send in progress returned %w", err)
						}
					})
					release = c.Unstall
				default:
					var ctx context.Context
					if r.IntN(2) == 0 {
						fwEnd = time.Duration(300+r.IntN(int(T/time.Millisecond)-500)) * time.Millisecond
						ctx, _ = waitCtx(r, fwEnd)
						var err error
						if fw, err = ws.NextWriter(ctx, opBin); err != nil {
							s.Violate("stuck", "NextWriter on an idle connection returned %v; %s", err, info)
							return
						}
					}
					c.Stall()
					holder = s.Go("the ping in progress", func() {
						if err := ws.Ping(); err != nil {
							lateErr = fmt.Errorf("the ping in progress returned %w", err)
						}
					})
					release = c.Unstall
				}
				s.Settle()
				var waiters []*waiter
				bcasts := r.IntN(3) == 0
				if bcasts {
					for k := range o.BroadcastChannelsSize + 1 {
						id, p := next(r)
						ctx := context.Context(bg)
						if k == o.BroadcastChannelsSize && r.IntN(3) == 0 {
							ctx, _ = waitCtx(r, T/2)
							maybe[id] = true
						} else {
							must[id] = true
						}
						want := 1
						if both {
							want = 2
							second[id] = 1
							if maybe[id] {
								second[id] = -1
							}
						}
						op := s.Go("broadcast", func() {
							if n, err := room.BroadcastBytes(ctx, p); n != want || err != nil {
								lateErr = fmt.Errorf("a broadcast with room in the queue returned %d, %w", n, err)
							}
						})
						if !op.Within(time.Second) {
							s.Violate("hang", "a broadcast to a queue with room did not return; %s", info)
							return
						}
						s.Settle()
					}
				}
				if fw != nil {
					x := &waiter{kind: "Flush", cname: "of the writer", start: 0, end: fwEnd}
					x.id, _ = next(r)
					p := pay(0, x.id.seq, 5)
					x.op = s.Go("Flush", func() {
						fw.Write(p)
						x.err = fw.Flush()
						if err := fw.Close(); !isNonFatal(err) {
							lateErr = fmt.Errorf("Close after a flush that was given up returned %w", err)
						}
					})
					waiters = append(waiters, x)
				}
				pinged := false
				for range 1 + r.IntN(crowd) {
					x := &waiter{end: -1}
					x.start = time.Since(t0) + time.Duration(r.Int64N(int64(T/2)))
					switch r.IntN(5) {
					case 0: // ended before the call
						x.end = 0
					case 1, 2:
						x.end = time.Duration(r.Int64N(int64(T - x.start - 400*time.Millisecond)))
						if x.end < time.Millisecond {
							x.end = time.Millisecond
						}
					}
					x.kind = []string{"SendBytes", "SendString", "SendMessage", "SendJSON", "bad JSON", "NextWriter", "NextWriter", "broadcast", "ping"}[r.IntN(9)]
					if x.kind == "broadcast" && !bcasts || x.kind == "ping" && (pinged || hold == "ping") {
						x.kind = "SendBytes"
					}
					if x.kind == "ping" {
						pinged, x.end = true, -1
					}
					if x.kind == "bad JSON" && hold == "ping" {
						x.end = -1 // the writer is free
					}
					var p []byte
					x.id, p = next(r)
					typ := byte(1 + r.IntN(2))
					xr := s.Rng(fmt.Sprint("waiter", x.id))
					if both && x.kind == "broadcast" {
						second[x.id] = -1
					}
					x.op = &Op{Name: x.kind, done: make(chan struct{})}
					go func() {
						time.Sleep(time.Until(t0.Add(x.start)))
						x.ctx, x.cname = waitCtx(xr, x.end)
						x.op.Start = time.Now()
						switch x.kind {
						case "SendBytes":
							x.err = ws.SendBytes(x.ctx, p)
						case "SendString":
							x.err = ws.SendString(x.ctx, p)
						case "SendMessage":
							x.err = ws.SendMessage(x.ctx, typ, p)
						case "SendJSON":
							x.err = ws.SendJSON(x.ctx, string(p))
						case "bad JSON":
							x.err = ws.SendJSON(x.ctx, func() {})
						case "NextWriter":
							var w *snapws.ConnWriter
							if w, x.err = ws.NextWriter(x.ctx, typ); x.err == nil {
								// waiting is over, the context may still end before the flush
								if _, x.err = w.Write(p); x.err == nil {
									x.err = w.Close()
								} else {
									w.Close()
								}
							}
						case "broadcast":
							x.n, x.err = room.BroadcastString(x.ctx, p)
						default:
							x.err = ws.Ping()
						}
						x.op.End = time.Now()
						close(x.op.done)
					}()
					waiters = append(waiters, x)
				}
				// somebody else's connection is not concerned
				time.Sleep(T / 3)
				id2, p2 := next(r)
				op := s.Go("send on another connection", func() {
					if err := wss[1].SendBytes(bg, p2); err != nil {
						lateErr = fmt.Errorf("a send on another connection returned %w", err)
					}
				})
				second[id2] = 1
				if !op.Within(slack) {
					s.Violate("hang", "a send on another, idle connection had not returned after %v; %s", slack, info)
					return
				}
				time.Sleep(time.Until(t0.Add(T)))
				for _, x := range waiters {
					if x.end < 0 && x.op.Done() && !(x.kind == "ping" && hold == "writer") && !(x.kind == "bad JSON" && hold == "ping") {
						s.Violate("early", "%s (context: %s) returned %d, %v while the connection was occupied; %s", x.kind, x.cname, x.n, x.err, info)
						return
					}
				}
				rel := s.Go("release", release)
				if !rel.Within(time.Minute) {
					s.Violate("hang", "the connection could not be released; %s", info)
					return
				}
				free := time.Now()
				for _, x := range waiters {
					if !x.op.Within(time.Minute) {
						s.Violate("hang", "%s (context: %s) had not returned a minute after the connection was free again; %s\n%s", x.kind, x.cname, info, bubbleStacks(8))
						return
					}
					d := fmt.Sprintf("%s at +%v (context: %s) returned %d, %v at +%v; %s", x.kind, x.start, x.cname, x.n, x.err, x.op.End.Sub(t0), info)
					if x.end >= 0 { // given up
						due := t0.Add(x.start + x.end)
						if x.kind == "Flush" {
							due = t0.Add(x.end)
						}
						want := error(context.Canceled)
						if x.ctx != nil {
							want = x.ctx.Err()
						}
						switch {
						case x.err == nil:
							s.Violate("context", "a call whose context had ended while it waited succeeded: %s", d)
						case snapws.IsFatalErr(x.err):
							s.Violate("context", "a call whose context ended while it waited failed with a fatal error: %s", d)
						case !errors.Is(x.err, want) && !(x.kind == "Flush" && errors.Is(x.err, context.DeadlineExceeded)):
							s.Violate("context", "a call whose context ended with %v while it waited returned another error: %s", want, d)
						case x.op.End.Before(due.Add(-time.Microsecond)):
							s.Violate("early", "a call returned before its context ended at +%v: %s", due.Sub(t0), d)
						case x.op.End.After(due.Add(slack)):
							s.Violate("late", "a call whose context ended at +%v returned late: %s", due.Sub(t0), d)
						}
						if x.kind == "broadcast" && (x.n < 0 || x.n > b2i(both)) {
							s.Violate("count", "a broadcast that was given up counted a connection whose queue was full: %s", d)
						}
						if x.kind == "broadcast" && both {
							second[x.id] = x.n
							if x.n == 1 {
								second[x.id] = -1 // its context may end before it is written
							}
						}
						never[x.id] = d
						gaveUp++
						continue
					}
					switch {
					case x.kind == "bad JSON":
						if !isNonFatal(x.err) {
							s.Violate("error", "an unencodable value: %s", d)
						}
						never[x.id] = d
						continue
					case x.err != nil:
						s.Violate("error", "a call that only had to wait failed: %s", d)
					case x.op.End.After(free.Add(time.Second + slack)):
						s.Violate("late", "a waiting call went on long after the connection was free (+%v): %s", free.Sub(t0), d)
					case x.kind == "broadcast" && x.n != 1+b2i(both):
						s.Violate("count", "a broadcast that waited did not count its connections: %s", d)
					}
					through++
					if x.kind != "ping" {
						must[x.id] = true
						if x.kind == "broadcast" && both {
							second[x.id] = 1
						}
					}
				}
				if holder != nil && !holder.Within(time.Minute) {
					s.Violate("hang", "%s had not returned a minute after the peer took data again; %s", holder.Name, info)
					return
				}
				id, p := next(r)
				must[id] = true
				op = s.Go("send", func() {
					if err := ws.SendBytes(nil, p); err != nil {
						lateErr = fmt.Errorf("a send after the round returned %w", err)
					}
				})
				if !op.Within(2 * time.Second) {
					s.Violate("hang", "a send after everything was over did not return; %s\n%s", info, bubbleStacks(8))
					return
				}
				time.Sleep(time.Second) // queued broadcasts
				s.Settle()
				if lateErr != nil {
					s.Violate("error", "%v; %s", lateErr, info)
				}
				if c.Closed() || cs[1].Closed() {
					s.Violate("closed", "a connection was closed; %s", info)
				}
				if s.Failed() {
					return
				}
			}
			for i := range cs {
				w := DecodeWire(cs[i].Out(), true)
				if w.Err != "" || w.Partial != nil {
					s.Violate("wire", "connection %d: invalid stream: %s, unfinished message %v; noise %s", i, w.Err, w.Partial != nil, noise)
					return
				}
				have := map[pid]int{}
				for _, x := range w.Msgs {
					p, ok := ownItem(x.Data)
					if !ok {
						s.Violate("wire", "connection %d received %s; noise %s", i, clip(x.Data), noise)
						return
					}
					have[p]++
				}
				if i == 1 {
					for p, n := range second {
						if n >= 0 && have[p] != n || have[p] > 1 {
							s.Violate("delivery", "message %v reached the other connection %d times instead of %d; noise %s", p, have[p], n, noise)
						}
						delete(have, p)
					}
				} else {
					for p := range must {
						if have[p] != 1 {
							s.Violate("delivery", "message %v, whose call succeeded, is on the wire %d times; noise %s", p, have[p], noise)
						}
						delete(have, p)
					}
					for p, d := range never {
						if have[p] != 0 {
							s.Violate("delivery", "a message was sent although its call had failed: %s", d)
						}
						delete(have, p)
					}
					for p := range maybe {
						if have[p] > 1 {
							s.Violate("delivery", "message %v is on the wire %d times", p, have[p])
						}
						delete(have, p)
					}
				}
				for p := range have {
					s.Violate("delivery", "connection %d received message %v, which was not for it; noise %s", i, p, noise)
				}
			}
			s.Count("calls given up by their context", gaveUp)
			s.Count("calls that waited and went through", through)
			s.Sample(fmt.Sprintf("%d rounds, %d given up, %d went through", rounds, gaveUp, through))
			if gaveUp > 0 && through > 0 {
				s.NonTrivial()
			}
			m.Shutdown()
		})
	}})
