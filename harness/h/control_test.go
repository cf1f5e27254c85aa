package h

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"testing"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

var bg = context.Background()

var _ = register("C06", &Prop{Quick: 36000, Thorough: 900000,
	Rule: "client streams dense in pings and unsolicited pongs (0..125 bytes, between and inside messages, small read buffers and message limits), while server goroutines send and stream over a slow transport and the server pings too; non-trivial: at least one ping was answered and compared",
	Run: func(t *testing.T, s *S) {
		if s.Idx%901 == 5 {
			realNet(s, "C06")
			return
		}
		r := s.R
		g := genCfg{msgs: r.IntN(5), maxSize: 600, maxFrames: 1 + r.IntN(4), ctl: 0.3 + r.Float64()*0.4, pongs: true, text: 0.5}
		if s.Long(101) {
			g.msgs, g.maxSize = 150+r.IntN(300), 30
		}
		o := outOpts(r)
		ro := inOpts(r)
		o.ReadBufferSize = ro.ReadBufferSize
		switch r.IntN(3) {
		case 0:
			o.MaxMessageSize = -1
		case 1:
			o.MaxMessageSize = 1 + r.IntN(64)
			g.maxSize = min(g.maxSize, max(0, o.MaxMessageSize-3))
		}
		if r.IntN(3) == 0 {
			o.ReaderMaxFragments = g.maxFrames
		}
		o.ReadWait, o.PingEvery = 1000*time.Hour, 900*time.Hour
		keep := r.IntN(3) == 0 // the server pings by itself
		if keep {
			o.PingEvery = time.Duration(1+r.IntN(3000)) * time.Millisecond
			g.pongs = false // an unsolicited pong might meet an outstanding ping
		}
		o.WriteWait = time.Hour
		fs := genFrames(r, g)
		ref := Reference(fs, RefCfg{Max: -1})
		s.Sig(frameLine(fs), keep, o.MaxMessageSize, o.WriteBufferSize)
		nSend := r.IntN(4)
		noise := s.Noise()
		s.Bubble(t, func() {
			c := NewMemConn()
			cl := NewClient(c)
			if keep {
				cl.AutoPong(time.Duration(r.IntN(900)) * time.Microsecond)
			}
			u := snapws.NewUpgrader(o)
			ws := s.dial(u, c)
			if ws == nil {
				return
			}
			if r.IntN(2) == 0 {
				slow(s, c, 3*time.Millisecond)
			}
			d := s.Reader(ws)
			var ops []*Op
			sent := make([]int, nSend)
			for i := range nSend {
				gr := s.Rng(fmt.Sprint("send", i))
				ops = append(ops, s.Go("sender", func() {
					for k := 0; k < 1+gr.IntN(5); k++ {
						time.Sleep(time.Duration(gr.IntN(5000)) * time.Microsecond)
						var err error
						switch gr.IntN(3) {
						case 0:
							err = ws.SendBytes(bg, rbytes(gr, rsize(gr, 3000)))
						default:
							var w *snapws.ConnWriter
							if w, err = ws.NextWriter(bg, opText); err == nil {
								for j := 0; j < gr.IntN(4); j++ {
									w.Write(rtext(gr, rsize(gr, 300)))
									if gr.IntN(2) == 0 {
										w.Flush()
									}
									time.Sleep(time.Duration(gr.IntN(3000)) * time.Microsecond)
								}
								err = w.Close()
							}
						}
						if err != nil {
							s.Violate("send", "a send failed on a healthy connection: %v; frames%s", err, frameLine(fs))
							return
						}
						sent[i]++
					}
				}))
			}
			spread := time.Duration(0)
			if r.IntN(2) == 0 {
				spread = time.Duration(r.Int64N(int64(40 * time.Millisecond)))
			}
			if keep || r.IntN(2) == 0 {
				feedFrames(c, s.Rng("feed"), fs, spread)
			} else {
				feedTimed(s, c, s.Rng("feed"), stream(fs), spread)
			}
			for _, op := range ops {
				if !s.MustEnd(op, time.Hour, "send-stuck") {
					return
				}
			}
			slow(s, c, 0)
			time.Sleep(20 * time.Second)
			s.Settle()
			w := DecodeWire(c.Out(), true)
			ctx := fmt.Sprintf("frames%s; max %d, read buffer %d, write buffer %d, noise %s, %d senders, server pings %v", frameLine(fs), o.MaxMessageSize, o.ReadBufferSize, o.WriteBufferSize, noise, nSend, keep)
			if w.Err != "" || len(w.Rest) > 0 || w.Partial != nil {
				s.Violate("wire", "the server's stream is not valid: %s (rest %d bytes); %s", w.Err, len(w.Rest), ctx)
			} else if c.Closed() || w.Close != nil {
				s.Violate("closed", "the connection was closed (code %d, reader error %v); %s", w.CloseCode(), d.End(), ctx)
			}
			var pongs [][]byte
			pings := 0
			for _, f := range w.Ctrl {
				switch f.Op {
				case opPong:
					pongs = append(pongs, f.Payload)
				case opPing:
					pings++
				}
			}
			for i := range max(len(pongs), len(ref.Pings)) {
				if i >= len(pongs) || i >= len(ref.Pings) || !bytes.Equal(pongs[i], ref.Pings[i]) {
					s.Violate("pong", "%d pings sent, %d pongs received; the first difference is at %d (%s); %s", len(ref.Pings), len(pongs), i, func() string {
						if i < len(pongs) && i < len(ref.Pings) {
							return diffAt(pongs[i], ref.Pings[i])
						}
						return "one is missing"
					}(), ctx)
					break
				}
			}
			if !keep && pings > 0 {
				s.Violate("ghost-ping", "the server pinged before its interval; %s", ctx)
			}
			total := 0
			for _, n := range sent {
				total += n
			}
			if !s.Failed() && len(w.Msgs) != total {
				s.Violate("send", "%d messages sent, %d received; %s", total, len(w.Msgs), ctx)
			}
			if got := d.Msgs(); !s.Failed() && len(got) != len(ref.Msgs) {
				s.Violate("delivery", "%d of %d messages delivered; %s", len(got), len(ref.Msgs), ctx)
			}
			s.Count("pings_checked", len(ref.Pings))
			s.Count("server_pings_seen", pings)
			s.Count("messages_sent_concurrently", total)
			if len(ref.Pings) > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"frames": frameLine(fs), "pings": len(ref.Pings), "server_pings": pings, "sent": total})
			ws.Close()
			d.op.Within(time.Minute)
		})
	}})

// ---------------------------------------------------------------- C07

var goodCodes = []int{1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 3001, 3999, 4000, 4321, 4999}
var badCodes = []int{0, 1, 999, 1004, 1005, 1006, 1015, 1016, 1100, 2000, 2999, 5000, 5001, 65535}

var _ = register("C07", &Prop{Quick: 70000, Thorough: 1750000,
	Rule: "connections ended by a valid or malformed close frame from the client, by CloseWithCode with any code and reason, by several closers at once, by a protocol error or by end of file, while senders, streamers, pingers and broadcasts are active; non-trivial: the wire after the end was judged",
	Run: func(t *testing.T, s *S) {
		if s.Idx%1751 == 5 {
			realNet(s, "C07")
			return
		}
		r := s.R
		o := outOpts(r)
		var hooks int
		kind := []string{"client", "client", "client-bad", "app", "app", "app-many", "both", "eof", "proto"}[r.IntN(9)]
		busy := r.IntN(3) != 0
		noise := s.Noise()
		s.Sig(kind, busy, o.WriteBufferSize, s.Idx)
		s.Count("end: "+kind, 1)
		s.Bubble(t, func() {
			c := NewMemConn()
			NewClient(c)
			o.OnDisconnect = func(*snapws.Conn) { hooks++ }
			u := snapws.NewUpgrader(o)
			m := snapws.NewManager[int](u)
			mc, err := m.Connect(1, NewRW(c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "a valid request was refused: %v", err)
				return
			}
			ws := mc.Conn
			if r.IntN(2) == 0 {
				slow(s, c, 2*time.Millisecond)
			}
			var ops []*Op
			if busy {
				for i := range 1 + r.IntN(4) {
					gr := s.Rng(fmt.Sprint("busy", i))
					ops = append(ops, s.Go("sender", func() {
						for k := 0; k < 200; k++ {
							var err error
							switch gr.IntN(5) {
							case 0:
								err = ws.SendBytes(bg, rbytes(gr, rsize(gr, 2000)))
							case 1:
								var w *snapws.ConnWriter
								if w, err = ws.NextWriter(bg, opText); err == nil {
									w.Write(rtext(gr, gr.IntN(200)))
									w.Flush()
									time.Sleep(time.Duration(gr.IntN(2000)) * time.Microsecond)
									w.Write(rtext(gr, gr.IntN(200)))
									err = w.Close()
								}
							case 2:
								if err = ws.Ping(); err == snapws.ErrPingAlreadySent {
									err = nil
								}
							case 3:
								m.BroadcastString(bg, rtext(gr, gr.IntN(300)))
							default:
								time.Sleep(time.Duration(gr.IntN(3000)) * time.Microsecond)
							}
							if err != nil {
								return
							}
						}
					}))
				}
			}
			d := s.Reader(ws)
			if busy {
				time.Sleep(time.Duration(r.IntN(6000)) * time.Microsecond)
			}
			expect := map[string]bool{} // acceptable close payload prefixes: code (and reason for the application's)
			anyCode := false
			code := func(k int) string { return string(binary.BigEndian.AppendUint16(nil, uint16(k))) }
			what := ""
			appClose := func(k int, reason string) {
				if closeCodeOK(k) && len(reason) <= 123 && utf8.ValidString(reason) {
					expect["="+code(k)+reason] = true
				} else if closeCodeOK(k) {
					expect[code(k)] = true
				} else {
					anyCode = true
				}
				what += fmt.Sprintf(" close(%d,%s)", k, clip([]byte(reason)))
			}
			pickApp := func() (int, string) {
				k := goodCodes[r.IntN(len(goodCodes))]
				if r.IntN(6) == 0 {
					k = badCodes[r.IntN(len(badCodes))]
				}
				n := []int{0, 1, 5, 122, 123, 124, 125, 126, 300}[r.IntN(9)]
				reason := make([]byte, 0)
				for len(reason) < n {
					reason = append(reason, byte('a'+r.IntN(26)))
				}
				switch r.IntN(8) {
				case 0:
					reason = badUTF8(r, reason)
				case 1:
					reason = rtext(r, n)
				}
				return k, string(reason)
			}
			clientClose := func() {
				pre := genFrames(r, genCfg{msgs: r.IntN(3), maxSize: 300, maxFrames: 3, ctl: 0.2, text: 0.5})
				if len(pre) > 0 && r.IntN(3) == 0 {
					pre = pre[:r.IntN(len(pre))]
				}
				var p []byte
				if kind == "client-bad" {
					switch r.IntN(3) {
					case 0:
						p = []byte{byte(r.IntN(256))}
					case 1:
						p = binary.BigEndian.AppendUint16(nil, uint16(badCodes[r.IntN(len(badCodes))]))
						p = append(p, rtext(r, r.IntN(60))...)
					default:
						p = binary.BigEndian.AppendUint16(nil, uint16(goodCodes[r.IntN(len(goodCodes))]))
						p = append(p, badUTF8(r, rtext(r, r.IntN(60)))...)
					}
					expect[code(1002)] = true
				} else if r.IntN(5) == 0 {
					expect[code(1000)] = true
				} else {
					k := goodCodes[r.IntN(len(goodCodes))]
					p = binary.BigEndian.AppendUint16(nil, uint16(k))
					n := []int{0, 0, 1, 60, 119}[r.IntN(5)]
					p = append(p, rtext(r, n)...)
					expect[code(k)] = true
				}
				b := append(stream(pre), cf(opClose, p, r).Bytes()...)
				if r.IntN(3) == 0 { // a client that goes on
					b = append(b, stream(genFrames(r, genCfg{msgs: 1, maxSize: 50, maxFrames: 1, ctl: 0.5}))...)
				}
				what += fmt.Sprintf(" client close %x after%s", p, frameLine(pre))
				c.FeedSegs(segment(r, b))
			}
			var closers []*Op
			doApp := func(delay bool) {
				k, reason := pickApp()
				def := r.IntN(5) == 0
				if def {
					what += " Close()"
					expect[code(1000)] = true
				} else {
					appClose(k, reason)
				}
				pause := time.Duration(0)
				if delay {
					pause = time.Duration(r.IntN(300)) * time.Microsecond
				}
				closers = append(closers, s.Go("close", func() {
					time.Sleep(pause)
					if def {
						ws.Close()
					} else {
						ws.CloseWithCode(uint16(k), reason)
					}
					if !c.Closed() {
						s.Violate("open", "a close call returned and the transport is still open (%s)", what)
					}
				}))
			}
			s.Burst()
			switch kind {
			case "client", "client-bad":
				clientClose()
			case "app":
				doApp(false)
			case "app-many":
				for range 2 + r.IntN(6) {
					doApp(r.IntN(2) == 0)
				}
			case "both":
				clientClose()
				for range 1 + r.IntN(3) {
					doApp(true)
				}
			case "eof":
				anyCode = true
				b := stream(genFrames(r, genCfg{msgs: 1 + r.IntN(2), maxSize: 100, maxFrames: 2}))
				c.Feed(b[:r.IntN(len(b)+1)])
				c.FeedErr([]error{errEOF, errReset}[r.IntN(2)])
			case "proto":
				fs, why := mutate(r, genFrames(r, genCfg{msgs: r.IntN(2), maxSize: 100, maxFrames: 3}))
				ref := Reference(fs, RefCfg{Max: -1})
				for k := range ref.Codes {
					expect[code(k)] = true
				}
				what += " " + why
				c.FeedSegs(segment(r, stream(fs)))
			}
			for _, op := range closers {
				if !s.MustEnd(op, time.Minute, "close-stuck") {
					return
				}
			}
			for _, op := range append(ops, d.op) {
				if !s.MustEnd(op, 2*time.Minute, "stuck") {
					return
				}
			}
			time.Sleep(time.Second)
			// late use must put nothing on the wire
			ws.SendString(bg, []byte("late"))
			ws.Ping()
			m.BroadcastString(bg, []byte("late"))
			ws.CloseWithCode(4000, "late")
			time.Sleep(10 * time.Second)
			s.Settle()
			w := DecodeWire(c.Out(), true)
			ctx := fmt.Sprintf("%s:%s; busy %v, noise %s, write buffer %d", kind, what, busy, noise, o.WriteBufferSize)
			if w.Err != "" {
				s.Violate("wire", "invalid stream: %s; %s", w.Err, ctx)
			}
			if !c.Closed() {
				s.Violate("open", "the transport is still open; %s", ctx)
			}
			nclose := 0
			for _, f := range w.Frames {
				if f.Op == opClose {
					nclose++
				}
			}
			if nclose > 1 {
				s.Violate("many", "%d close frames; %s", nclose, ctx)
			}
			if len(w.Rest) > 0 {
				s.Violate("wire", "the stream ends inside a frame (%d bytes) although no fault was injected; %s", len(w.Rest), ctx)
			}
			if kind != "eof" && !s.Failed() {
				if w.Close == nil {
					s.Violate("code", "no close frame was sent; %s", ctx)
				} else {
					p := string(w.Close.Payload)
					ok := anyCode
					for e := range expect {
						if e[0] == '=' {
							ok = ok || p == e[1:]
						} else {
							ok = ok || (len(p) >= 2 && p[:2] == e[:2])
						}
					}
					if !ok {
						var ex []string
						for e := range expect {
							ex = append(ex, fmt.Sprintf("%q", e))
						}
						s.Violate("code", "close frame %q, expected one of %v; %s", p, ex, ctx)
					}
				}
			}
			if hooks != 1 {
				s.Violate("hook", "the disconnect hook ran %d times; %s", hooks, ctx)
			}
			s.Count("frames_before_close", len(w.Frames))
			s.NonTrivial()
			s.Sample(map[string]any{"end": kind + what, "close_code": w.CloseCode(), "frames": len(w.Frames), "noise": noise})
		})
	}})

// ---------------------------------------------------------------- C08

var _ = register("C08", &Prop{Quick: 100000, Thorough: 2500000,
	Rule: "virtual-time runs over ping intervals P and read timeouts R > P with peers that answer each ping after a delay below R-P (0 included), with and without client messages and manual pings, then stop (silent, stalled, mismatching) at a random moment; non-trivial: at least three ping intervals were observed",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := &snapws.Options{}
		var P, R time.Duration
		switch r.IntN(5) {
		case 0: // the defaults
			P, R = 50*time.Second, 60*time.Second
		default:
			P = time.Duration(1+r.IntN(60_000)) * time.Millisecond
			R = P + time.Duration(1+r.Int64N(int64([]time.Duration{P / 4, P, 4 * P}[r.IntN(3)])))
			if r.IntN(10) == 0 { // minutes to hours
				P = time.Duration(60_000+r.IntN(20*3600_000)) * time.Millisecond
				R = P + time.Duration(1+r.Int64N(int64(P)))
			}
			if r.IntN(4) == 0 {
				R = P + time.Duration(2+r.IntN(20))*time.Millisecond
			}
			o.PingEvery, o.ReadWait = P, R
		}
		o.WriteWait = time.Duration(50+r.IntN(5000)) * time.Millisecond
		d := time.Duration(0)
		if x := R - P - time.Millisecond; x > 0 {
			switch r.IntN(4) {
			case 0:
			case 1:
				d = time.Duration(r.Int64N(int64(x)))
			case 2:
				d = x - time.Duration(r.Int64N(int64(min(x, time.Millisecond))))
			default:
				d = time.Duration(r.Int64N(int64(min(x, P))))
			}
		}
		if d > 0 && d%P == 0 {
			d--
		}
		vary := d > 0 && r.IntN(2) == 0 // each answer takes its own time, up to d
		chat := r.IntN(3) == 0          // the client also sends messages
		mid := !chat && r.IntN(3) == 0  // the client is in the middle of a message all along
		manual := r.IntN(4) == 0        // the application pings too
		ending := []string{"silent", "silent-partial", "stalled", "mismatch", "none"}[r.IntN(5)]
		intervals := 3 + r.IntN(12)
		if s.Long(500) {
			intervals = 150 + r.IntN(300)
		}
		stopAfter := intervals
		s.Sig(P, R, d, vary, mid, chat, manual, ending, intervals)
		s.Count("ending: "+ending, 1)
		s.Bubble(t, func() {
			c := NewMemConn()
			cl := NewClient(c)
			var pings, pongsSent []time.Time
			outstanding, maxOut := 0, 0
			stopped := false
			var lastSent time.Time = time.Now()
			var badPong bool
			fr := s.Rng("client")
			cl.OnFrame = func(f Frame) {
				if f.Op != opPing {
					return
				}
				pings = append(pings, time.Now())
				outstanding++
				maxOut = max(maxOut, outstanding)
				if stopped && ending == "mismatch" && !badPong {
					badPong = true
					p := rbytes(fr, 1+fr.IntN(125))
					if bytes.Equal(p, f.Payload) {
						p[0] ^= 1
					}
					if fr.IntN(3) == 0 && len(f.Payload) > 0 {
						p = f.Payload[:len(f.Payload)-1]
					}
					time.AfterFunc(d, func() { c.Feed(cf(opPong, p, nil).Bytes()) })
					return
				}
				if stopped {
					return
				}
				pong := cf(opPong, f.Payload, nil).Bytes()
				send := func() {
					cl.mu.Lock()
					if stopped && ending != "mismatch" {
						cl.mu.Unlock()
						return
					}
					outstanding--
					pongsSent = append(pongsSent, time.Now())
					lastSent = time.Now()
					cl.mu.Unlock()
					c.Feed(pong)
				}
				dd := d
				if vary {
					dd = time.Duration(fr.Int64N(int64(d) + 1))
					if dd > 0 && dd%P == 0 {
						dd--
					}
				}
				if dd == 0 {
					outstanding--
					pongsSent = append(pongsSent, time.Now())
					lastSent = time.Now()
					c.Feed(pong)
				} else {
					time.AfterFunc(dd, send)
				}
			}
			u := snapws.NewUpgrader(o)
			ws := s.dial(u, c)
			if ws == nil {
				return
			}
			rdr := s.Reader(ws)
			chatters := 0
			if mid {
				f := cf(opBin, rbytes(s.Rng("mid"), r.IntN(40)), nil)
				f.Fin = false
				c.Feed(f.Bytes())
			}
			if chat {
				cr := s.Rng("chat")
				go func() {
					for !c.Closed() {
						time.Sleep(time.Duration(1 + cr.Int64N(int64(2*P))))
						cl.mu.Lock()
						if !stopped {
							lastSent = time.Now()
							chatters++
							c.Feed(cf(opBin, []byte("hello"), nil).Bytes())
						}
						cl.mu.Unlock()
					}
				}()
			}
			if manual {
				go func() {
					for !c.Closed() {
						time.Sleep(time.Duration(1 + int64(float64(P)*0.7)))
						ws.Ping()
					}
				}()
			}
			// a live peer
			time.Sleep(time.Duration(stopAfter)*P + P/3)
			s.Settle()
			ctx := fmt.Sprintf("ping every %v, read timeout %v, answers after %v (varying %v), client messages %v, in the middle of a message %v, manual pings %v", P, R, d, vary, chat, mid, manual)
			if c.Closed() || rdr.End() != nil {
				w := DecodeWire(c.Out(), true)
				s.Violate("dropped", "a live peer was dropped at +%v (code %d, read error %v) after %d pings and %d answers; %s", c.ClosedAt().Sub(cl.T0), w.CloseCode(), rdr.End(), len(pings), len(pongsSent), ctx)
				return
			}
			cl.mu.Lock()
			np, mo := len(pings), maxOut
			pp := append([]time.Time(nil), pings...)
			cl.mu.Unlock()
			if mo > 1 {
				s.Violate("outstanding", "%d pings were unanswered at once; %s", mo, ctx)
			}
			if !manual && d < P {
				if np != stopAfter {
					s.Violate("interval", "%d pings in %d intervals; %s", np, stopAfter, ctx)
				}
				for i, x := range pp {
					if off := x.Sub(cl.T0) - time.Duration(i+1)*P; off < 0 || off > P/2 {
						s.Violate("interval", "ping %d came at +%v; %s", i, x.Sub(cl.T0), ctx)
						break
					}
				}
			} else if !manual {
				// a ping is due at the first tick after the previous answer
				for i := 1; i < len(pp); i++ {
					if gap := pp[i].Sub(pp[i-1]); gap < P || gap > d+P {
						s.Violate("interval", "%v between two pings; %s", gap, ctx)
						break
					}
				}
				if np == 0 {
					s.Violate("interval", "no ping in %d intervals; %s", stopAfter, ctx)
				}
			}
			s.Count("pings_observed", np)
			if ending == "none" {
				s.NonTrivial()
				if mid {
					c.Feed(cf(opCont, []byte("end"), nil).Bytes())
					s.Settle()
					if n, end := len(rdr.Msgs()), rdr.End(); n != 1 || end != nil {
						s.Violate("message", "%d messages were read (%v) after the peer completed its message; %s", n, end, ctx)
					}
				}
				ws.Close()
				rdr.op.Within(time.Minute)
				return
			}
			// the peer stops
			cl.mu.Lock()
			stopped = true
			if ending == "silent-partial" {
				op := byte(opBin)
				if mid {
					op = opCont
				}
				b := cf(op, make([]byte, 100), nil).Bytes()
				c.Feed(b[:1+fr.IntN(len(b)-1)])
				lastSent = time.Now()
			}
			last := lastSent
			cl.mu.Unlock()
			slack := time.Millisecond
			if ending == "stalled" {
				c.Stall()
				slack += 3 * o.WriteWait
			}
			if ending == "mismatch" {
				// the mismatching answer goes to the next ping; the outstanding one is still answered
				if !rdr.op.Within(4*P + 2*d + time.Second) {
					s.Violate("mismatch", "the connection is still open although an outstanding ping got a different answer (%v); %s", badPong, ctx)
				} else {
					w := DecodeWire(c.Out(), true)
					if w.CloseCode() != 1002 || !c.Closed() {
						s.Violate("mismatch", "a mismatched answer closed with %d (transport closed %v); %s", w.CloseCode(), c.Closed(), ctx)
					}
				}
				s.NonTrivial()
			} else {
				limit := last.Add(R + slack)
				if !rdr.op.Within(time.Until(limit)) {
					s.Violate("kept", "the pending read has not failed %v after the peer's last byte (ending %s); %s", time.Since(last), ending, ctx)
				} else {
					time.Sleep(3 * o.WriteWait)
					if !c.Closed() {
						s.Violate("kept", "a dead peer's transport is still open (ending %s); %s", ending, ctx)
					}
				}
				s.NonTrivial()
			}
			s.Sample(map[string]any{"ping_every": P.String(), "read_wait": R.String(), "delay": d.String(), "pings": np, "ending": ending, "closed_after": c.ClosedAt().Sub(last).String()})
			ws.Close()
			rdr.op.Within(10 * R)
		})
	}})
