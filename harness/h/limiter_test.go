package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// lmsg is a message of a rate-limit scenario.
type lmsg struct {
	op     byte
	data   []byte
	frames []*CFrame
	gaps   []time.Duration // before each frame
	pings  int
	mode   string
	fedAt  time.Time // when the first data frame arrived
}

// lconn is a connection of a rate-limit scenario.
type lconn struct {
	c      *MemConn
	ws     *snapws.Conn
	opened time.Time
	msgs   []*lmsg
	op     *Op
	feeder *Op
	hits   int // runs of the hook
	tokens float64
	last   time.Time
	tol    float64
	ended  bool
	admits int
	denies int
	unsure int
}

var _ = register("C25", &Prop{Quick: 20000, Thorough: 500000,
	Rule: "1 to 6 connections share a limiter (0 to 1000 messages per second, burst 0 to 20) and send 5 to 60 messages each at chosen moments (bursts, exactly at refill, long pauses), whole or fragmented over time, with pings before and inside, read whole, streamed or left unread, with no hook, a hook, or a hook that ends the connection; each read is compared with a reference bucket of that connection in virtual time; non-trivial: at least one message was admitted and one rejected",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := quietOpts()
		o.MaxMessageSize = 1 << 20
		o.WriteWait = time.Second
		mps := []int{0, 1, 2, 3, 7, 10, 50, 1000}[r.IntN(8)]
		burst := []int{0, 1, 1, 2, 3, 5, 20}[r.IntN(7)]
		K := 1 + r.IntN(6)
		long := s.Long(103)
		if long && r.IntN(2) == 0 {
			burst = 255 + r.IntN(4)
		}
		hook := []string{"none", "none", "log", "log", "error", "close+error"}[r.IntN(6)]
		failAt := 1 + r.IntN(6)
		noise := "none"
		switch r.IntN(4) {
		case 0:
			noise = s.Noise()
		case 1, 2:
			setNoise(1, uint32(20+r.IntN(300)), [4]int32{}, 0, r.Uint64())
			noise = "yield"
		}
		s.Sig(s.Idx, mps, burst, K, hook)
		s.Count("hook: "+hook, 1)
		hookErr := []error{errHook, errHook, context.Canceled, io.EOF, snapws.ErrMessageTypeMismatch, fmt.Errorf("over: %w", errHook), snapws.ErrConnClosed}[r.IntN(7)]
		info := fmt.Sprintf("%d messages per second, burst %d, %d connections, hook %s, noise %s", mps, burst, K, hook, noise)
		s.Bubble(t, func() {
			u := snapws.NewUpgrader(o)
			lim := snapws.NewRateLimiter(mps, burst)
			u.Limiter = lim
			var mu Mutex
			byWS := map[*snapws.Conn]*lconn{}
			if hook != "none" {
				lim.OnRateLimitHit = func(ws *snapws.Conn) error {
					mu.Lock()
					x := byWS[ws]
					if x == nil {
						mu.Unlock()
						s.Violate("hook", "the limit hook ran for an unknown connection; %s", info)
						return nil
					}
					x.hits++
					n := x.hits
					mu.Unlock()
					if n < failAt || hook == "log" {
						return nil
					}
					if hook == "close+error" {
						ws.CloseWithCode(snapws.ClosePolicyViolation, "slow down")
					}
					return hookErr
				}
			}
			var cs []*lconn
			for i := range K {
				gr := s.Rng(fmt.Sprint("c", i))
				x := &lconn{c: NewMemConn()}
				NewClient(x.c)
				refill := time.Second
				if mps > 0 {
					refill = time.Second / time.Duration(mps)
				}
				style := gr.IntN(4)
				nm := 5 + gr.IntN(40)
				if long {
					nm = 150 + gr.IntN(300)
				}
				for k := range nm {
					m := &lmsg{op: byte(1 + gr.IntN(2)), data: pay(i, k, gr.IntN(300)), mode: []string{"message", "stream", "stream", "stop"}[gr.IntN(4)]}
					if gr.IntN(8) == 0 {
						m.data = nil
					}
					var gap time.Duration
					switch style {
					case 0: // all at once
					case 1:
						gap = time.Duration(gr.Int64N(int64(refill) * 2))
					case 2:
						if gr.IntN(6) == 0 {
							gap = refill * time.Duration(gr.IntN(burst+3))
						}
					default:
						gap = []time.Duration{0, 0, refill, refill - 1, refill + 1, refill / 2, 3 * refill}[gr.IntN(7)]
					}
					nf := 1
					if gr.IntN(3) == 0 {
						nf = 2 + gr.IntN(5)
					}
					spread := nf > 1 && gr.IntN(2) == 0
					if spread && m.mode == "message" {
						m.mode = "stream"
					}
					for j, part := range fragment(gr, m.data, nf) {
						for gr.IntN(4) == 0 {
							m.frames = append(m.frames, cf(opPing, rbytes(gr, gr.IntN(20)), gr))
							m.gaps = append(m.gaps, 0)
							m.pings++
						}
						f := &CFrame{Fin: j == nf-1, Op: opCont, Payload: part, Key: rkey(gr)}
						if j == 0 {
							f.Op = m.op
						}
						m.frames = append(m.frames, f)
						g := time.Duration(0)
						if j == 0 {
							g = gap
						} else if spread {
							g = time.Duration(gr.Int64N(int64(refill) * 2))
						}
						m.gaps = append(m.gaps, g)
					}
					x.msgs = append(x.msgs, m)
				}
				cs = append(cs, x)
			}
			// start begins the use of a connection, in the connect hook or after the upgrade
			start := func(i int, ws *snapws.Conn) {
				x := cs[i]
				x.ws = ws
				x.opened = time.Now()
				x.tokens, x.last = float64(burst), x.opened
				mu.Lock()
				byWS[x.ws] = x
				mu.Unlock()
				gr := s.Rng(fmt.Sprint("read", i))
				x.feeder = s.Go("feeder", func() {
					for _, m := range x.msgs {
						first := true
						for j, f := range m.frames {
							if m.gaps[j] > 0 {
								time.Sleep(m.gaps[j])
							}
							if first && f.Op != opPing {
								first = false
								mu.Lock()
								m.fedAt = time.Now()
								mu.Unlock()
							}
							x.c.Feed(f.Bytes())
						}
					}
				})
				x.op = s.Go("reader", func() {
					for k, m := range x.msgs {
						// read
						called := time.Now()
						var got []byte
						var op byte
						var err error
						var dec time.Time
						whole := true
						mu.Lock()
						hits := x.hits
						mu.Unlock()
						if m.mode == "message" {
							op, got, err = x.ws.ReadMessage()
							dec = time.Now()
						} else {
							var rr io.Reader
							rr, op, err = x.ws.NextReader()
							dec = time.Now()
							if err == nil {
								if m.mode == "stop" {
									whole = false
									b := make([]byte, gr.IntN(50))
									var n int
									n, err = rr.Read(b)
									if err == io.EOF {
										err = nil
									}
									got = b[:n]
								} else {
									got, err = io.ReadAll(rr)
								}
								if err != nil {
									s.Violate("read", "reading the admitted message %d failed with %v; %s", k, err, info)
									return
								}
							}
						}
						mu.Lock()
						hit := x.hits - hits
						from := called
						if m.fedAt.After(from) {
							from = m.fedAt
						}
						mu.Unlock()
						// the reference bucket: it decides between from and dec
						r := float64(mps)
						if err == nil && m.mode == "message" && len(m.frames) > 1 || err != nil {
							// the decision was taken when the first frame was there
							if from.Before(dec) && noise != "none" && noise != "yield" {
								// unknown within the window
							} else {
								dec = from
							}
						}
						x.tol += r * dec.Sub(from).Seconds()
						x.tokens += r * dec.Sub(x.last).Seconds()
						if x.tokens >= float64(burst) {
							x.tokens = float64(burst)
							x.tol = r * dec.Sub(from).Seconds()
						}
						x.last = dec
						admit := err == nil
						sure := math.Abs(x.tokens-1) > x.tol+1e-5
						if sure && admit != (x.tokens >= 1) {
							s.Violate("decision", "message %d of connection %d (%s, %d frames), arrived at +%v, was admitted: %v (%v); its bucket had %.6f tokens; %s", k, i, m.mode, len(m.frames), from.Sub(epoch), admit, err, x.tokens, info)
							return
						}
						if !sure {
							x.unsure++
						}
						if admit {
							x.tokens = math.Max(x.tokens, 1) - 1
							x.admits++
							want := m.data
							if !whole {
								want = want[:min(len(want), len(got))]
							}
							if op != m.op || !bytes.Equal(got, want) {
								s.Violate("content", "message %d of connection %d: opcode %d, %s, expected opcode %d, %s; %s", k, i, op, clip(got), m.op, clip(m.data), info)
								return
							}
							if hit != 0 {
								s.Violate("hook", "the limit hook ran for an admitted message; %s", info)
							}
							continue
						}
						x.tokens = math.Min(x.tokens, 1)
						x.denies++
						if hook != "none" && hit != 1 {
							s.Violate("hook", "the limit hook ran %d times for a rejected message; %s", hit, info)
						}
						ends := (hook == "error" || hook == "close+error") && x.hits >= failAt
						if snapws.IsFatalErr(err) != ends {
							s.Violate("fatal", "message %d of connection %d was rejected with %v (fatal: %v), hook runs: %d; %s", k, i, err, snapws.IsFatalErr(err), x.hits, info)
							return
						}
						if ends {
							x.ended = true
							if !x.c.Closed() {
								s.Violate("open", "a read returned the fatal error %v of the hook on an open connection; %s", err, info)
							}
							if !errors.Is(err, hookErr) && err.Error() != hookErr.Error() {
								s.Count("hook_error_not_passed_on", 1)
							}
							if _, _, err := x.ws.ReadMessage(); err == nil || !snapws.IsFatalErr(err) {
								s.Violate("alive", "a read after the hook ended the connection returned %v; %s", err, info)
							}
							return
						}
					}
				})
			}
			inHook := -1
			o.OnConnect = func(ws *snapws.Conn) {
				if i := inHook; i >= 0 {
					inHook = -1
					start(i, ws)
					time.Sleep(time.Duration(r.IntN(3)*r.IntN(2000)) * time.Microsecond)
				}
			}
			for i, x := range cs {
				early := r.IntN(3) == 0
				if early {
					inHook = i
				}
				ws := s.dial(u, x.c)
				if ws == nil {
					return
				}
				if !early {
					start(i, ws)
				} else {
					s.Count("used from the connect hook on", 1)
				}
			}
			if r.IntN(3) == 0 { // others come and go
				gr := s.Rng("churn")
				s.Go("churn", func() {
					for range 10 {
						c := NewMemConn()
						NewClient(c)
						ws, err := dialBW(u, c, 4096, 4096)
						if err != nil {
							return
						}
						mu.Lock()
						byWS[ws] = &lconn{hits: -1000}
						mu.Unlock()
						for range gr.IntN(3) {
							c.Feed(cf(opText, []byte("x"), gr).Bytes())
							ws.ReadMessage()
						}
						time.Sleep(time.Duration(gr.IntN(100)) * time.Millisecond)
						ws.Close()
					}
				})
			}
			admits, denies, unsure := 0, 0, 0
			for i, x := range cs {
				if !x.op.Within(100*time.Hour) && !s.Failed() {
					s.Violate("stuck", "connection %d: %d of %d messages were read (%d bytes not taken); %s\n%s", i, x.admits+x.denies, len(x.msgs), x.c.PendingIn(), info, bubbleStacks(6))
				}
				if s.Failed() {
					return
				}
				x.feeder.Within(time.Hour)
				admits += x.admits
				denies += x.denies
				unsure += x.unsure
				s.Settle()
				if x.ended {
					continue
				}
				// the last message may have been left unread on purpose: read on until the end of the stream
				x.c.FeedEOF()
				for k := 0; ; k++ {
					_, b, err := x.ws.ReadMessage()
					if err == nil {
						s.Violate("ghost", "connection %d received %s after its last message; %s", i, clip(b), info)
						return
					}
					if snapws.IsFatalErr(err) {
						break
					}
					if k > 3 {
						s.Violate("endless", "reads at the end of the stream keep returning %v; %s", err, info)
						return
					}
				}
				s.Settle()
				pings, pongs := 0, 0
				for _, m := range x.msgs {
					pings += m.pings
				}
				for _, f := range DecodeWire(x.c.Out(), true).Ctrl {
					pongs += b2i(f.Op == opPong)
				}
				if pings != pongs {
					s.Violate("pong", "connection %d: %d pings were sent and %d answered; %s", i, pings, pongs, info)
				}
			}
			s.Count("admitted", admits)
			s.Count("rejected", denies)
			s.Count("too_close_to_call", unsure)
			if admits > 0 && denies > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"mps": mps, "burst": burst, "connections": K, "hook": hook, "admitted": admits, "rejected": denies, "noise": noise})
			for _, x := range cs {
				x.ws.Close()
			}
			time.Sleep(time.Minute)
		})
	}})
