package h

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- self-describing payloads

// pay is message seq of sender g with n filler letters; every byte is determined by the header.
func pay(g, seq, n int) []byte {
	b := fmt.Appendf(nil, "<%d.%d.%d>", g, seq, n)
	x := uint32(g*7919+seq*104729+n)*2654435761 + 1
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		b = append(b, 'a'+byte(x>>24)%26)
	}
	return b
}

type pid struct{ g, seq int }

func parsePay(b []byte) (p pid, ok bool) {
	if len(b) > 40 && bytes.IndexByte(b[:40], '>') < 0 {
		return p, false
	}
	var n int
	if k, err := fmt.Sscanf(string(b[:min(len(b), 40)]), "<%d.%d.%d>", &p.g, &p.seq, &n); err != nil || k != 3 || n < 0 || n > 1<<24 {
		return p, false
	}
	return p, bytes.Equal(pay(p.g, p.seq, n), b)
}

// ---------------------------------------------------------------- C09

type sendRec struct {
	id      pid
	err     error
	kind    string
	done    bool
	flushed []byte // what a successful Flush had sent of it
}

var _ = register("C09", &Prop{Quick: 10000, Thorough: 250000,
	Rule: "2 to 10 goroutines on one connection: whole messages, JSON, streams with flushes and pauses, broadcasts, batches, pings and answers to client pings, over a transport that writes in pieces with pauses and stalls, with some contexts that expire, and connections that are closed or fail meanwhile; non-trivial: at least two goroutines' messages were decoded and matched",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = time.Minute
		o.BroadcastChannelsSize = 1 + r.IntN(12)
		ctxs := r.IntN(4) == 0
		G := 2 + r.IntN(9)
		if s.Idx%10 == 0 {
			G = 8 + r.IntN(20)
		}
		maxN := 12
		ending := "none" // of the connection, while it is used
		if r.IntN(4) == 0 {
			ending = []string{"close", "client-close", "write-error", "deadline-error"}[r.IntN(4)]
		}
		s.Count("ending: "+ending, 1)
		if s.Long(103) {
			G, maxN = 2+r.IntN(4), 300
		}
		noise := s.Noise()
		s.Sig(s.Idx, G, o.WriteBufferSize, noise)
		s.Bubble(t, func() {
			c := NewMemConn()
			cl := NewClient(c)
			u := snapws.NewUpgrader(o)
			u.EnableJSONBatching(bg, time.Duration(2+r.IntN(10))*time.Millisecond)
			m := snapws.NewManager[int](u)
			rm := snapws.NewRoomManager[int](u)
			mc, err := s.mconnect(m, 1, NewRW(c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "a valid request was refused: %v", err)
				return
			}
			ws := mc.Conn
			room := rm.Add(7)
			room.Add(ws)
			cl.AutoPong(0)
			d := s.Reader(ws)
			if r.IntN(3) != 0 {
				slow(s, c, time.Duration(50+r.IntN(2000))*time.Microsecond)
			}
			var mu Mutex
			var recs []sendRec
			add := func(x sendRec) { mu.Lock(); recs = append(recs, x); mu.Unlock() }
			var ops []*Op
			npings, pinged := 0, 0
			switch after := time.Duration(r.IntN(40_000)) * time.Microsecond; ending {
			case "close":
				go func() { time.Sleep(after); ws.CloseWithCode(4000, "bye") }()
			case "client-close":
				go func() { time.Sleep(after); c.Feed(cf(opClose, []byte{3, 232}, nil).Bytes()) }()
			case "deadline-error":
				c.mu.Lock()
				c.FailSetWD = c.nSetWD + 1 + r.IntN(40)
				c.mu.Unlock()
			case "write-error":
				c.mu.Lock()
				c.FailAt = len(c.out) + r.IntN([]int{300, 3000, 30000}[r.IntN(3)])
				c.mu.Unlock()
			}
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				kind := []string{"send", "send", "json", "stream", "stream", "broadcast", "room", "batch", "ping", "mix"}[gr.IntN(10)]
				n := 1 + gr.IntN(maxN)
				ops = append(ops, s.Go(kind, func() {
					for k := range n {
						kd := kind
						if kd == "mix" {
							kd = []string{"send", "json", "stream"}[gr.IntN(3)]
						}
						ctx, cancel := context.Context(bg), func() {}
						if ctxs && gr.IntN(2) == 0 && kd != "batch" {
							ctx, cancel = context.WithTimeout(bg, time.Duration(gr.IntN(4000))*time.Microsecond)
						}
						id := pid{g, k}
						size := gr.IntN(100)
						if maxN <= 12 && gr.IntN(4) == 0 {
							size = rsize(gr, 9000)
						}
						if maxN <= 12 && gr.IntN(50) == 0 {
							size = 9000 + gr.IntN(70000)
						}
						p := pay(g, k, frugal(o, size))
						flushed, written := 0, 0
						var err error
						switch kd {
						case "send":
							if gr.IntN(2) == 0 {
								err = ws.SendBytes(ctx, p)
							} else {
								err = ws.SendString(ctx, p)
							}
						case "json":
							err = ws.SendJSON(ctx, string(p))
						case "stream":
							var w *snapws.ConnWriter
							if w, err = ws.NextWriter(ctx, byte(1+gr.IntN(2))); err == nil {
								for _, part := range fragment(gr, p, 1+gr.IntN(5)) {
									if _, err = w.Write(part); err != nil {
										break
									}
									written += len(part)
									if gr.IntN(3) == 0 {
										if err = w.Flush(); err != nil {
											break
										}
										flushed = written
									}
									if gr.IntN(3) == 0 {
										time.Sleep(time.Duration(gr.IntN(1500)) * time.Microsecond)
									}
								}
								if e := w.Close(); e != nil || err != nil {
									if e == nil {
										// a retried flush inside Close may have worked; Write had failed so
										// the message cannot be complete
										s.Violate("truncated", "Close of a writer succeeded although a Write or Flush before it had failed with %v", err)
									}
									err = e
								}
							}
						case "broadcast", "room":
							var nq int
							if kd == "room" {
								nq, err = room.BroadcastBytes(ctx, p)
							} else {
								nq, err = m.BroadcastString(ctx, p)
							}
							if err == nil && nq != 1 {
								err = errors.New("queue full")
							} else if err == nil && ctx != bg {
								// may be given up when its context ends
								err = errors.New("may be dropped")
							}
						case "batch":
							j, _ := json.Marshal(string(p))
							err = ws.Batch(j)
						case "ping":
							if gr.IntN(2) == 0 {
								if ws.Ping() == nil {
									mu.Lock()
									pinged++
									mu.Unlock()
								}
							} else {
								mu.Lock()
								npings++
								c.Feed(cf(opPing, fmt.Appendf(nil, "p%d.%d", g, k), gr).Bytes())
								mu.Unlock()
							}
						}
						cancel()
						if kd != "ping" {
							add(sendRec{id, err, kd, true, p[:flushed]})
						}
						if err != nil && snapws.IsFatalErr(err) {
							return
						}
						if gr.IntN(3) == 0 {
							time.Sleep(time.Duration(gr.IntN(2000)) * time.Microsecond)
						}
					}
				}))
			}
			if r.IntN(3) == 0 { // the peer stops reading for a while
				go func() {
					time.Sleep(time.Duration(r.IntN(5000)) * time.Microsecond)
					c.Stall()
					time.Sleep(time.Duration(1+r.IntN(2000)) * time.Millisecond)
					c.Unstall()
				}()
			}
			for _, op := range ops {
				if !s.MustEnd(op, 20*time.Minute, "stuck") {
					return
				}
			}
			slow(s, c, 0)
			time.Sleep(3 * time.Second)
			s.Settle()
			w := DecodeWire(c.Out(), true)
			info := fmt.Sprintf("%d goroutines, write buffer %d, contexts %v, connection ended by %s, noise %s", G, o.WriteBufferSize, ctxs, ending, noise)
			closed := c.Closed()
			fatal := false
			want := map[pid]sendRec{}
			for _, x := range recs {
				want[x.id] = x
				fatal = fatal || x.err != nil && snapws.IsFatalErr(x.err)
			}
			if w.Err != "" {
				s.Violate("wire", "invalid stream: %s; %s", w.Err, info)
				return
			}
			if closed && !(ctxs && fatal) && ending == "none" {
				s.Violate("closed", "the connection was closed (code %d, reader error %v) on a healthy transport; %s", w.CloseCode(), d.End(), info)
				return
			}
			if !closed && (w.Partial != nil || len(w.Rest) > 0) {
				s.Violate("wire", "the stream ends inside a message (%v) although every call returned; %s", w.Partial != nil, info)
			}
			seen := map[pid]int{}
			var order []pid
			take := func(b []byte, what string) {
				id, ok := parsePay(b)
				if !ok {
					s.Violate("corrupt", "a received %s is not any sent message: %s; %s", what, clip(b), info)
					return
				}
				seen[id]++
				order = append(order, id)
			}
			for _, m := range w.Msgs {
				switch {
				case len(m.Data) > 0 && m.Data[0] == '[':
					var items []string
					if err := json.Unmarshal(m.Data, &items); err != nil {
						s.Violate("corrupt", "a batch does not parse (%v): %s; %s", err, clip(m.Data), info)
						continue
					}
					for _, x := range items {
						take([]byte(x), "batched message")
					}
				case len(m.Data) > 0 && m.Data[0] == '"':
					var x string
					if err := json.Unmarshal(m.Data, &x); err != nil {
						s.Violate("corrupt", "a JSON message does not parse (%v): %s; %s", err, clip(m.Data), info)
						continue
					}
					take([]byte(x), "JSON message")
				default:
					take(m.Data, "message")
				}
				if s.Failed() {
					return
				}
			}
			for id, n := range seen {
				x, ok := want[id]
				switch {
				case !ok && !closed:
					s.Violate("ghost", "message %v was received and its send never returned; %s", id, info)
				case n > 1:
					s.Violate("duplicate", "message %v (%s) was received %d times; %s", id, x.kind, n, info)
				}
			}
			for _, x := range recs {
				if x.err == nil && seen[x.id] == 0 {
					if closed && (x.kind == "broadcast" || x.kind == "room" || x.kind == "batch") {
						continue
					}
					s.Violate("lost", "message %v (%s) was sent without an error and never received; %s", x.id, x.kind, info)
				}
				if len(x.flushed) > 0 && seen[x.id] == 0 && (w.Partial == nil || !bytes.HasPrefix(w.Partial.Data, x.flushed)) {
					s.Violate("lost", "%d bytes of message %v were flushed without an error and never received; %s", len(x.flushed), x.id, info)
				}
			}
			last := map[int]int{}
			for _, id := range order {
				if p, ok := last[id.g]; ok && id.seq < p {
					s.Violate("order", "goroutine %d (%s): message %d arrived after message %d; %s", id.g, want[id].kind, id.seq, p, info)
				}
				last[id.g] = id.seq
			}
			pongs, pings := 0, 0
			for _, f := range w.Ctrl {
				pongs += b2i(f.Op == opPong)
				pings += b2i(f.Op == opPing)
			}
			if pings < pinged {
				s.Violate("lost", "%d pings were sent without an error and %d received; %s", pinged, pings, info)
			}
			if !closed && pongs != npings {
				s.Violate("pong", "%d pings were sent and %d pongs received; %s", npings, pongs, info)
			}
			s.Count("messages_matched", len(order))
			s.Count("frames_decoded", len(w.Frames))
			s.Count("control_frames", len(w.Ctrl))
			if closed {
				s.Count("closed_meanwhile", 1)
			}
			if len(last) > 1 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"goroutines": G, "write_buffer": o.WriteBufferSize, "noise": noise, "messages": len(order), "frames": len(w.Frames), "closed": closed})
			u.Flusher.Close()
			ws.Close()
			d.op.Within(time.Minute)
		})
	}})

// ---------------------------------------------------------------- C10

func rvalue(r *rand.Rand, depth int) any {
	switch r.IntN(7) {
	case 0:
		return string(rtext(r, rsize(r, 3000)))
	case 1:
		return r.IntN(1 << 40)
	case 2:
		return []any{nil, true, "<&>\u2028", 1.5}
	case 3:
		if depth > 2 {
			return nil
		}
		m := map[string]any{}
		for i := 0; i < r.IntN(5); i++ {
			m[fmt.Sprint("k", i)] = rvalue(r, depth+1)
		}
		return m
	case 4:
		if depth > 2 {
			return "x"
		}
		var l []any
		for i := 0; i < r.IntN(5); i++ {
			l = append(l, rvalue(r, depth+1))
		}
		return l
	case 5:
		return json.RawMessage(`{"raw": [1,2 , 3]}`)
	default:
		return struct {
			A string `json:"a"`
			B []byte
		}{"x", rbytes(r, r.IntN(100))}
	}
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

var _ = register("C10", &Prop{Quick: 60000, Thorough: 1500000,
	Rule: "one to three connections sharing an upgrader, write buffers of every kind (tiny, header-sized, at the length-encoding limits, pooled, taken from the HTTP server), messages of boundary sizes sent whole, as JSON, streamed in random chunks with random flushes and control frames in between, and broadcast; non-trivial: at least one message was decoded and compared",
	Run: func(t *testing.T, s *S) {
		if s.Idx%1201 == 5 {
			realNet(s, "C10")
			return
		}
		r := s.R
		o := outOpts(r)
		maxSize := 5000
		if r.IntN(8) == 0 {
			maxSize = 140000
		}
		if o.WriteBufferSize > 0 && o.WriteBufferSize < 64 {
			maxSize = min(maxSize, 3000)
		}
		huge := s.Long(1501)
		if huge { // messages of megabytes, in frames of as much or much less
			o.WriteBufferSize = []int{0, 4096, 70000, 1 << 20, 1<<24 + 1<<21, 1<<24 + 1<<21}[r.IntN(6)]
			if s.Idx/1501%4 == 3 {
				o.WriteBufferSize = 15 + r.IntN(3)
			}
			maxSize = 140000
		}
		bw := []int{4096, 4096, 100, 1, 130, 256, 8192}[r.IntN(7)]
		if !huge && o.WriteBufferSize > 14 && r.IntN(2) == 0 {
			bw = o.WriteBufferSize
		}
		s.Bubble(t, func() {
			u := snapws.NewUpgrader(o)
			m := snapws.NewManager[int](u)
			nc := 1 + r.IntN(3)
			type one struct {
				c    *MemConn
				ws   *snapws.Conn
				want []WMsg
				d    *rd
				json []bool
				how  []string
			}
			var cs []*one
			open := func(i int) *one {
				c := NewMemConn()
				cl := NewClient(c)
				cl.AutoPong(0)
				if r.IntN(4) == 0 {
					slow(s, c, time.Millisecond)
				}
				mc, err := s.mconnect(m, i, NewRW(c, 4096, bw, nil), Request())
				if err != nil {
					s.Violate("upgrade", "a valid request was refused: %v", err)
					return nil
				}
				return &one{c: c, ws: mc.Conn, d: s.Reader(mc.Conn)}
			}
			next := 0
			var all []*one
			for range nc {
				x := open(next)
				if x == nil {
					return
				}
				next++
				cs = append(cs, x)
				all = append(all, x)
			}
			info := func(x *one, i int) string {
				h := ""
				if i < len(x.how) {
					h = x.how[i]
				}
				return fmt.Sprintf("sent by %s; write buffer %d, HTTP buffer %d, pooling %v", h, o.WriteBufferSize, bw, !o.DisableWriteBuffersPooling)
			}
			steps := 1 + r.IntN(10)
			if s.Long(151) {
				steps, maxSize = 100+r.IntN(300), 100
			}
			if maxSize > 10000 {
				steps = 1 + r.IntN(3)
			}
			for range steps {
				ci := r.IntN(len(cs))
				x := cs[ci]
				op := byte(1 + r.IntN(2))
				p := rbytes(r, rsize(r, min(maxSize, 6000)))
				if r.IntN(3) == 0 && o.WriteBufferSize > 14 { // sizes around the buffer
					p = rbytes(r, max(0, min(maxSize, (o.WriteBufferSize-14)*(1+r.IntN(3))+r.IntN(5)-2)))
				}
				if maxSize > 10000 && r.IntN(2) == 0 {
					p = rbytes(r, []int{65535, 65536, 65537, 65522, 70000, 131072, 140000}[r.IntN(7)])
				}
				if huge && o.WriteBufferSize > 0 && o.WriteBufferSize < 20 { // or of tens of thousands of frames
					if r.IntN(4) > 0 {
						p = hugeBytes(r, (o.WriteBufferSize-14)*(65000+r.IntN(5000)))
						s.Count("messages of 65000 frames or more", 1)
					}
				} else if huge && r.IntN(2) == 0 {
					p = hugeBytes(r, hugeSize(r))
					if o.WriteBufferSize > 1<<24 && r.IntN(2) == 0 {
						p = hugeBytes(r, 1<<24+r.IntN(1<<20))
					}
				}
				if r.IntN(8) == 0 {
					p = nil
				}
				orig := append([]byte(nil), p...)
				isJSON := false
				how := ""
				var err error
				switch r.IntN(7) {
				case 0:
					how = "SendMessage"
					err = x.ws.SendMessage(bg, op, p)
				case 1:
					if op == opText {
						how = "SendString"
						err = x.ws.SendString(nil, p)
					} else {
						how = "SendBytes"
						err = x.ws.SendBytes(bg, p)
					}
				case 2:
					v := rvalue(r, 0)
					orig, _ = json.Marshal(v)
					isJSON = true
					how = "SendJSON"
					op = opText
					err = x.ws.SendJSON(bg, v)
				case 3:
					how = "broadcast"
					var ex []int
					for i := range next {
						ex = append(ex, i)
					}
					for i, y := range cs { // everyone but x
						if y == x {
							_ = i
						}
					}
					key := -1
					for i := range next {
						if g := m.Get(i); g != nil && g.Conn == x.ws {
							key = i
						}
					}
					ex = nil
					for i := range next {
						if i != key {
							ex = append(ex, i)
						}
					}
					var n int
					if op == opText {
						n, err = m.BroadcastString(bg, p, ex...)
					} else {
						n, err = m.BroadcastBytes(bg, p, ex...)
					}
					if err == nil && n != 1 {
						err = fmt.Errorf("queued for %d connections", n)
					}
					time.Sleep(time.Minute)
					s.Settle()
				default:
					how = "NextWriter"
					var w *snapws.ConnWriter
					w, err = x.ws.NextWriter(bg, op)
					if err != nil {
						break
					}
					var chunks [][]byte
					switch r.IntN(4) {
					case 0:
						chunks = fragment(r, p, 1+r.IntN(8))
					case 1: // byte by byte at the start
						k := min(len(p), 40)
						for i := range k {
							chunks = append(chunks, p[i:i+1])
						}
						chunks = append(chunks, p[k:])
					case 2:
						n := 1 + r.IntN(300)
						if len(p) > 1<<18 {
							n = 1<<16 + r.IntN(1<<20)
						}
						for i := 0; i < len(p); i += n {
							chunks = append(chunks, p[i:min(len(p), i+n)])
						}
					default:
						if _, err = io.Copy(w, onlyReader{bytes.NewReader(p)}); err != nil {
							break
						}
						how += "+io.Copy"
					}
					fl := r.Float64() * 0.6
					for _, ch := range chunks {
						for r.Float64() < fl {
							if err = w.Flush(); err != nil {
								break
							}
							how += "F"
							if r.IntN(4) == 0 {
								x.ws.Ping()
							}
							if r.IntN(6) == 0 {
								x.c.Feed(cf(opPing, rbytes(r, r.IntN(126)), r).Bytes())
								time.Sleep(time.Millisecond)
							}
						}
						var n int
						if n, err = w.Write(ch); err == nil && n != len(ch) {
							err = fmt.Errorf("Write returned %d of %d", n, len(ch))
						}
						how += fmt.Sprint(" ", len(ch))
						if err != nil {
							break
						}
						for i := range ch { // the writer must have copied it
							ch[i] ^= 0xff
						}
					}
					for err == nil && r.Float64() < fl {
						err = w.Flush()
						how += "F"
					}
					if e := w.Close(); err == nil {
						err = e
					}
					if len(how) > 200 {
						how = how[:200]
					}
				}
				if err != nil {
					s.Violate("send", "%s of %d bytes failed: %v; write buffer %d", how, len(orig), err, o.WriteBufferSize)
					return
				}
				x.want = append(x.want, WMsg{Op: op, Data: orig})
				x.json = append(x.json, isJSON)
				x.how = append(x.how, how)
				s.Sig(how, len(orig), op)
				if r.IntN(10) == 0 && len(all) < 6 { // replace a connection by a new one
					x.ws.Close()
					y := open(next)
					next++
					if y == nil {
						return
					}
					cs[ci] = y
					all = append(all, y)
				}
			}
			for _, x := range all {
				slow(s, x.c, 0)
			}
			time.Sleep(time.Minute)
			s.Settle()
			for ci, x := range all {
				w := DecodeWire(x.c.Out(), true)
				if w.Err != "" || w.Partial != nil || len(w.Rest) > 0 {
					s.Violate("wire", "connection %d: invalid stream: %s (%d bytes of an incomplete frame, message open: %v); %s", ci, w.Err, len(w.Rest), w.Partial != nil, info(x, len(w.Msgs)))
					return
				}
				for i := range max(len(w.Msgs), len(x.want)) {
					if i >= len(w.Msgs) || i >= len(x.want) {
						s.Violate("count", "connection %d: %d messages sent, %d received; %s", ci, len(x.want), len(w.Msgs), info(x, i))
						return
					}
					got, want := w.Msgs[i], x.want[i]
					if got.Op != want.Op {
						s.Violate("type", "message %d has type %d instead of %d; %s", i, got.Op, want.Op, info(x, i))
						return
					}
					if x.json[i] {
						var a, b bytes.Buffer
						if json.Compact(&a, got.Data) != nil || json.Compact(&b, want.Data) != nil || !bytes.Equal(a.Bytes(), b.Bytes()) {
							s.Violate("payload", "JSON message %d differs: %s; %s", i, diffAt(got.Data, want.Data), info(x, i))
							return
						}
					} else if !bytes.Equal(got.Data, want.Data) {
						s.Violate("payload", "message %d differs: %s; %s", i, diffAt(got.Data, want.Data), info(x, i))
						return
					}
					s.Count("messages_compared", 1)
					s.Count("bytes_compared", len(got.Data))
					s.Count("frames_decoded", got.Frames)
					s.NonTrivial()
				}
			}
			s.Sig(o.WriteBufferSize, bw)
			if len(cs[0].how) > 0 {
				s.Sample(map[string]any{"write_buffer": o.WriteBufferSize, "http_buffer": bw, "first_connection": strings.Join(cs[0].how, " | ")})
			}
			for _, x := range all {
				x.ws.Close()
				x.d.op.Within(time.Minute)
			}
		})
	}})

// ---------------------------------------------------------------- C11

type badJSON struct{ partial bool }

func (b badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be encoded") }

var _ = register("C11", &Prop{Quick: 24000, Thorough: 600000,
	Rule: "random sequences of calls that fail without being fatal (contexts cancelled before, while waiting for the writer, while the transport is stuck, between flushes; unencodable JSON; bad types; finished writers; double pings; mismatched and invalid inbound messages; rate limiting) mixed with successful ones, each followed by normal use; non-trivial: at least one non-fatal error was provoked and the connection used afterwards",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = time.Duration(1+r.IntN(10)) * time.Second
		o.MaxMessageSize = -1
		limited := r.IntN(5) == 0
		noise := s.Noise()
		s.Bubble(t, func() {
			c := NewMemConn()
			NewClient(c)
			u := snapws.NewUpgrader(o)
			if limited {
				u.Limiter = snapws.NewRateLimiter(1, 1+r.IntN(3))
			}
			m := snapws.NewManager[int](u)
			mc, err := s.mconnect(m, 1, NewRW(c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "a valid request was refused: %v", err)
				return
			}
			ws := mc.Conn
			var want []pid             // messages the peer must receive, in order
			optional := map[pid]bool{} // may be received
			seq := 0
			var log []string
			over := false // a fatal error was returned
			nonfatal := 0
			newPay := func() (pid, []byte) {
				seq++
				n := r.IntN(60)
				if r.IntN(3) == 0 {
					n = rsize(r, 9000)
				}
				return pid{1, seq}, pay(1, seq, n)
			}
			// judge the outcome of sending message id: ok, failed without effect, or fatal
			judge := func(what string, id pid, err error, mayWork, mayFail bool) {
				log = append(log, fmt.Sprintf("%s=%v", what, err))
				switch {
				case err == nil:
					if !mayWork {
						s.Violate("accepted", "%s returned no error; %v", what, log)
					}
					if id.seq > 0 {
						want = append(want, id)
					}
				case snapws.IsFatalErr(err):
					over = true
					time.Sleep(3 * o.WriteWait)
					if !c.Closed() {
						s.Violate("fatal-open", "%s returned the fatal error %v and the connection is open; %v", what, err, log)
					}
				default:
					nonfatal++
					if !mayFail {
						s.Violate("failed", "%s failed with %v; %v", what, err, log)
					}
				}
			}
			send := func(ctx context.Context, p []byte) error {
				switch r.IntN(3) {
				case 0:
					return ws.SendBytes(ctx, p)
				case 1:
					return ws.SendJSON(ctx, string(p))
				default:
					w, err := ws.NextWriter(ctx, byte(1+r.IntN(2)))
					if err != nil {
						return err
					}
					var werr error
					for _, part := range fragment(r, p, 1+r.IntN(4)) {
						if _, werr = w.Write(part); werr != nil {
							break
						}
						if r.IntN(3) == 0 {
							if werr = w.Flush(); werr != nil {
								break
							}
						}
					}
					err = w.Close()
					if werr != nil && err == nil {
						s.Violate("truncated", "Close succeeded after a failed Write or Flush (%v); %v", werr, log)
					}
					if err == nil && r.IntN(4) == 0 {
						if e := w.Close(); snapws.IsFatalErr(e) {
							s.Violate("reclose", "closing a finished writer again returned %v", e)
						}
					}
					return err
				}
			}
			probe := func() {
				if over || s.Failed() {
					return
				}
				id, p := newPay()
				op := s.Go("probe send", func() { err = send(bg, p) })
				if !s.MustEnd(op, time.Minute, "unusable") {
					return
				}
				judge("probe", id, err, true, false)
				if over {
					s.Violate("unusable", "a normal send failed with the fatal error %v; %v", err, log)
					return
				}
				// inbound
				if limited {
					time.Sleep(10 * time.Second)
				}
				q := rbytes(r, r.IntN(300))
				c.FeedSegs(segment(r, cf(opBin, q, r).Bytes()))
				var got []byte
				op = s.Go("probe read", func() { got, err = ws.ReadBinary() })
				if !s.MustEnd(op, time.Minute, "unusable") {
					return
				}
				if err != nil || !bytes.Equal(got, q) {
					s.Violate("unusable", "a normal read returned %v, %s; %v", err, diffAt(got, q), log)
				}
			}
			readErr := func(what string, isWant func(error) bool, f func() error) {
				var err error
				op := s.Go(what, func() { err = f() })
				if !s.MustEnd(op, time.Minute, "unusable") {
					return
				}
				log = append(log, fmt.Sprintf("%s=%v", what, err))
				if err == nil || snapws.IsFatalErr(err) || !isWant(err) {
					s.Violate("read-error", "%s returned %v; %v", what, err, log)
				}
				nonfatal++
			}
			any_ := func(error) bool { return true }
			is := func(x error) func(error) bool { return func(e error) bool { return errors.Is(e, x) } }
			probe()
			steps := 2 + r.IntN(8)
			if s.Long(101) {
				steps = 40 + r.IntN(80)
			}
			again := -1
			if s.Long(211) { // the same failure over and over
				steps, again = 80+r.IntN(220), r.IntN(16)
			}
			for k := 0; k < steps && !over && !s.Failed(); k++ {
				kind := r.IntN(16)
				if again >= 0 && r.IntN(10) > 0 {
					kind = again
				}
				s.Sig(kind)
				switch kind {
				case 0: // cancelled before
					ctx, cancel := context.WithCancel(bg)
					cancel()
					id, p := newPay()
					judge("send with a cancelled context", id, send(ctx, p), true, true)
				case 1: // waiting for the writer
					w, e := ws.NextWriter(bg, opText)
					if e != nil {
						s.Violate("unusable", "NextWriter failed: %v; %v", e, log)
						return
					}
					id, p := newPay()
					w.Write(p[:len(p)/2])
					if r.IntN(2) == 0 {
						w.Flush()
					}
					n := 1 + r.IntN(3)
					var ops []*Op
					errs := make([]error, n)
					for i := range n {
						_, p2 := newPay()
						ctx, cancel := context.WithTimeout(bg, time.Duration(r.IntN(50))*time.Millisecond)
						defer cancel()
						ops = append(ops, s.Go("send", func() { errs[i] = ws.SendMessage(ctx, opBin, p2) }))
					}
					time.Sleep(100 * time.Millisecond)
					for i, op := range ops {
						if !op.Done() {
							s.Violate("stuck", "a send whose context expired while another message was open has not returned; %v", log)
							return
						}
						judge("send while the writer is taken", pid{}, errs[i], false, true)
						if over {
							s.Violate("fatal", "a context that expired while waiting for the writer gave a fatal error %v", errs[i])
						}
					}
					w.Write(p[len(p)/2:])
					judge("the message that was open", id, w.Close(), true, false)
				case 2: // transport stuck under a ping, send gives up
					c.Stall()
					po := s.Go("ping", func() { ws.Ping() })
					s.Settle()
					id, p := newPay()
					ctx, cancel := context.WithTimeout(bg, time.Duration(1+r.IntN(100))*time.Millisecond)
					var e error
					op := s.Go("send", func() { e = send(ctx, p) })
					if !s.MustEnd(op, 500*time.Millisecond, "stuck") {
						cancel()
						return
					}
					cancel()
					c.Unstall()
					if !s.MustEnd(po, time.Minute, "stuck") {
						return
					}
					judge("send while the transport was stuck", id, e, true, true)
					// the ping is answered together with a message
					if !over {
						pongAndRead(s, c, ws, r, limited)
					}
				case 3: // context ends between flushes
					ctx, cancel := context.WithCancel(bg)
					id, p := newPay()
					w, e := ws.NextWriter(ctx, opBin)
					if e != nil {
						s.Violate("unusable", "NextWriter failed: %v; %v", e, log)
						cancel()
						return
					}
					n := r.IntN(len(p) + 1)
					_, werr := w.Write(p[:n])
					if werr == nil && r.IntN(2) == 0 {
						werr = w.Flush()
					}
					cancel()
					if werr == nil {
						_, werr = w.Write(p[n:])
					}
					if werr == nil && r.IntN(2) == 0 {
						werr = w.Flush()
					}
					e = w.Close()
					if e == nil && werr != nil {
						s.Violate("truncated", "Close succeeded after a Write or Flush failed with %v; %v", werr, log)
					}
					judge("stream whose context was cancelled", id, e, true, true)
				case 4: // stuck transport, streaming writer, retry of the flush
					ctx := context.Context(bg)
					cancel := context.CancelFunc(func() {})
					if r.IntN(2) == 0 {
						ctx, cancel = context.WithTimeout(bg, time.Duration(1+r.IntN(20))*time.Millisecond)
					}
					id, p := newPay()
					w, e := ws.NextWriter(ctx, opText)
					if e != nil && ctx.Err() != nil && !snapws.IsFatalErr(e) { // paused until its context ended
						cancel()
						break
					}
					if e != nil {
						s.Violate("unusable", "NextWriter failed: %v; %v", e, log)
						cancel()
						return
					}
					first := r.IntN(2) == 0
					k := 0
					if first && len(p) > 4 {
						k = 1 + r.IntN(3)
						if _, e := w.Write(p[:k]); e != nil || w.Flush() != nil {
							k = 0
							w.Close()
							cancel()
							over = true
							break
						}
					}
					c.Stall()
					po := s.Go("ping", func() { ws.Ping() })
					time.Sleep(time.Millisecond)
					var werr, cerr error
					op := s.Go("stream", func() {
						_, werr = w.Write(p[k:])
						if werr == nil {
							werr = w.Flush()
						}
						cerr = w.Close()
					})
					time.Sleep(time.Duration(r.IntN(40)) * time.Millisecond)
					c.Unstall()
					if !s.MustEnd(op, time.Minute, "stuck") || !s.MustEnd(po, time.Minute, "stuck") {
						cancel()
						return
					}
					cancel()
					if cerr == nil && werr != nil {
						s.Violate("truncated", "Close succeeded after a Write or Flush failed with %v; %v", werr, log)
					}
					judge("stream over a stuck transport", id, cerr, true, ctx != bg)
					if !over {
						pongAndRead(s, c, ws, r, limited)
					}
				case 5: // unencodable
					v := []any{make(chan int), func() {}, badJSON{}, map[string]any{"a": strings.Repeat("x", 9000), "z": badJSON{}}, []any{1, 2, complex(1, 2)}, []any{strings.Repeat("y", 20000), make(chan int)}}[r.IntN(6)]
					judge("SendJSON of an unencodable value", pid{}, ws.SendJSON(bg, v), false, true)
					if over {
						s.Violate("fatal", "an unencodable value gave a fatal error; %v", log)
					}
				case 6: // bad type
					op := []byte{0, 3, 7, 8, 9, 10, 15, 255}[r.IntN(8)]
					var e error
					if r.IntN(2) == 0 {
						e = ws.SendMessage(bg, op, []byte("x"))
					} else {
						_, e = ws.NextWriter(bg, op)
					}
					judge(fmt.Sprintf("message type %d", op), pid{}, e, false, true)
					if over {
						s.Violate("fatal", "a bad message type gave a fatal error; %v", log)
					}
				case 7: // finished writer
					id1, p1 := newPay()
					w1, e := ws.NextWriter(bg, opText)
					if e != nil {
						s.Violate("unusable", "NextWriter failed: %v; %v", e, log)
						return
					}
					w1.Write(p1)
					judge("first writer", id1, w1.Close(), true, false)
					if over {
						break
					}
					id2, p2 := newPay()
					w2, e := ws.NextWriter(bg, opBin)
					if e != nil {
						s.Violate("unusable", "NextWriter failed: %v; %v", e, log)
						return
					}
					cut := r.IntN(len(p2) + 1)
					w2.Write(p2[:cut])
					if r.IntN(2) == 0 {
						w2.Flush()
					}
					for range 1 + r.IntN(3) {
						var e error
						call := ""
						switch r.IntN(3) {
						case 0:
							call = "Write"
							_, e = w1.Write([]byte("stale"))
						case 1:
							call = "Flush"
							e = w1.Flush()
						default:
							call = "Close"
							e = w1.Close()
						}
						log = append(log, fmt.Sprintf("finished writer %s=%v", call, e))
						if snapws.IsFatalErr(e) || (e == nil && call != "Close") {
							s.Violate("stale", "%s on a finished writer returned %v; %v", call, e, log)
						}
						nonfatal++
					}
					// nobody else may get the writer in between
					_, p3 := newPay()
					ctx, cancel := context.WithTimeout(bg, time.Millisecond)
					e = ws.SendBytes(ctx, p3)
					cancel()
					if e == nil {
						s.Violate("stale", "a second message could be sent while one is open, after a finished writer was used; %v", log)
					}
					w2.Write(p2[cut:])
					judge("second writer", id2, w2.Close(), true, false)
				case 8: // ping twice
					e1 := ws.Ping()
					e2 := ws.Ping()
					log = append(log, fmt.Sprintf("ping=%v ping=%v", e1, e2))
					if e1 != nil {
						s.Violate("ping", "Ping failed: %v; %v", e1, log)
					}
					if !errors.Is(e2, snapws.ErrPingAlreadySent) || snapws.IsFatalErr(e2) {
						s.Violate("ping", "a second Ping returned %v; %v", e2, log)
					}
					nonfatal++
					pongAndRead(s, c, ws, r, limited)
					if e := ws.Ping(); e != nil {
						s.Violate("ping", "Ping after the answer returned %v; %v", e, log)
					}
					pongAndRead(s, c, ws, r, limited)
				case 9: // type mismatch
					if limited {
						time.Sleep(10 * time.Second)
					}
					p := rtext(r, rsize(r, 5000))
					b := p
					switch r.IntN(3) {
					case 0:
						c.FeedSegs(segment(r, cf(opBin, b, r).Bytes()))
						readErr("ReadString of binary", is(snapws.ErrMessageTypeMismatch), func() error { _, e := ws.ReadString(); return e })
					case 1:
						c.FeedSegs(segment(r, cf(opText, b, r).Bytes()))
						readErr("ReadBinary of text", is(snapws.ErrMessageTypeMismatch), func() error { _, e := ws.ReadBinary(); return e })
					default:
						c.FeedSegs(segment(r, stream([]*CFrame{{Op: opBin, Payload: b[:len(b)/2], Key: rkey(r)}, {Fin: true, Op: 0, Payload: b[len(b)/2:], Key: rkey(r)}})))
						readErr("ReadJSON of binary", is(snapws.ErrMessageTypeMismatch), func() error { var v any; return ws.ReadJSON(&v) })
					}
				case 10: // invalid JSON
					if limited {
						time.Sleep(10 * time.Second)
					}
					p := [][]byte{[]byte(""), []byte("{"), []byte("{]"), []byte(`{"a":1`), []byte(`nul`), append([]byte(`{"a" 1}`), rtext(r, 6000)...), []byte("\x00\x01")}[r.IntN(7)]
					fs := []*CFrame{}
					parts := fragment(r, p, 1+r.IntN(4))
					for i, x := range parts {
						op := byte(0)
						if i == 0 {
							op = opText
						}
						fs = append(fs, &CFrame{Fin: i == len(parts)-1, Op: op, Payload: x, Key: rkey(r)})
					}
					c.FeedSegs(segment(r, stream(fs)))
					readErr("ReadJSON of invalid JSON", any_, func() error { var v any; return ws.ReadJSON(&v) })
				case 11: // wrong Go type
					if limited {
						time.Sleep(10 * time.Second)
					}
					c.FeedSegs(segment(r, cf(opText, []byte(`{"a":"text"}`), r).Bytes()))
					readErr("ReadJSON into the wrong type", any_, func() error { var v struct{ A int }; return ws.ReadJSON(&v) })
				case 12: // broadcast with a dead context, or unencodable
					if r.IntN(2) == 0 {
						ctx, cancel := context.WithCancel(bg)
						cancel()
						id, p := newPay()
						n, e := m.BroadcastBytes(ctx, p)
						log = append(log, fmt.Sprintf("broadcast=%d,%v", n, e))
						if snapws.IsFatalErr(e) {
							s.Violate("fatal", "a broadcast with a cancelled context returned %v; %v", e, log)
						}
						if n > 0 {
							optional[id] = true
						}
						nonfatal++
						s.Settle()
					} else {
						_, e := m.BroadcastJSON(bg, make(chan int))
						if e == nil || snapws.IsFatalErr(e) {
							s.Violate("fatal", "BroadcastJSON of a channel returned %v", e)
						}
						nonfatal++
					}
				case 13: // batching that is not enabled
					e := ws.Batch([]byte("x"))
					if e == nil || snapws.IsFatalErr(e) {
						s.Violate("batch", "Batch without batching returned %v", e)
					}
					if e := ws.BatchJSON(make(chan int)); e == nil || snapws.IsFatalErr(e) {
						s.Violate("batch", "BatchJSON without batching returned %v", e)
					}
					nonfatal++
				case 14: // rate limiting
					if !limited {
						break
					}
					time.Sleep(10 * time.Second)
					n := 5
					for range n {
						c.FeedSegs(segment(r, cf(opText, rtext(r, r.IntN(3000)), r).Bytes()))
					}
					for range n {
						var e error
						op := s.Go("read", func() { _, e = ws.ReadString() })
						if !s.MustEnd(op, time.Minute, "unusable") {
							return
						}
						if snapws.IsFatalErr(e) {
							s.Violate("fatal", "a rate-limited message gave the fatal error %v; %v", e, log)
							return
						}
						if e != nil {
							nonfatal++
						}
					}
				default: // several senders with short contexts
					n := 2 + r.IntN(4)
					slow(s, c, time.Duration(r.IntN(3000))*time.Microsecond)
					var ops []*Op
					errs := make([]error, n)
					ids := make([]pid, n)
					for i := range n {
						id, p := newPay()
						ids[i] = id
						ctx, cancel := context.WithTimeout(bg, time.Duration(r.IntN(6000))*time.Microsecond)
						defer cancel()
						ops = append(ops, s.Go("send", func() { errs[i] = ws.SendMessage(ctx, opBin, p) }))
					}
					anyFatal := false
					for i, op := range ops {
						if !s.MustEnd(op, 10*time.Minute, "stuck") {
							return
						}
						anyFatal = anyFatal || snapws.IsFatalErr(errs[i])
					}
					slow(s, c, 0)
					log = append(log, fmt.Sprintf("concurrent sends=%v", errs))
					// order is decided by the wire
					got := map[pid]int{}
					var order []pid
					w := DecodeWire(c.Out(), true)
					for _, mm := range w.Msgs {
						if id, ok := parsePay(unq(mm.Data)); ok {
							got[id]++
							order = append(order, id)
						}
					}
					for i, id := range ids {
						if errs[i] == nil && got[id] != 1 {
							s.Violate("lost", "message %v was sent without an error and received %d times; %v", id, got[id], log)
						}
						if errs[i] != nil && !snapws.IsFatalErr(errs[i]) && got[id] != 0 {
							s.Violate("failed-sent", "message %v failed with %v and was received; %v", id, errs[i], log)
						}
					}
					sort.Slice(ids, func(a, b int) bool { return idx(order, ids[a]) < idx(order, ids[b]) })
					for _, id := range ids {
						if got[id] > 0 {
							want = append(want, id)
						}
					}
					if anyFatal {
						over = true
						time.Sleep(3 * o.WriteWait)
						if !c.Closed() {
							s.Violate("fatal-open", "a fatal error was returned and the connection is open; %v", log)
						}
					}
				}
				if !over && !s.Failed() && c.Closed() {
					w := DecodeWire(c.Out(), true)
					s.Violate("closed", "the connection was closed (code %d) without a fatal error; %v", w.CloseCode(), log)
				}
				if r.IntN(2) == 0 {
					probe()
				}
			}
			probe()
			s.Settle()
			time.Sleep(time.Second)
			w := DecodeWire(c.Out(), true)
			if w.Err != "" {
				s.Violate("wire", "invalid stream: %s; %v", w.Err, log)
				return
			}
			if !over && (w.Partial != nil || len(w.Rest) > 0) {
				s.Violate("wire", "the stream ends inside a message; %v", log)
			}
			var got []pid
			for i, mm := range w.Msgs {
				id, ok := parsePay(unq(mm.Data))
				if !ok {
					s.Violate("truncated", "message %d on the wire is no complete sent message: %s; %v", i, clip(mm.Data), log)
					return
				}
				if !optional[id] {
					got = append(got, id)
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				s.Violate("messages", "the peer received %v, expected %v; %v", got, want, log)
			}
			s.Count("nonfatal_errors", nonfatal)
			s.Count("messages_checked", len(got))
			if over {
				s.Count("ended_by_fatal_error", 1)
			}
			s.Sig(s.Idx)
			if nonfatal > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"log": log, "noise": noise, "messages": len(got), "fatal": over})
			ws.Close()
		})
	}})

func idx(l []pid, x pid) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return 1 << 30
}

// unq undoes SendJSON of a string.
func unq(b []byte) []byte {
	if len(b) > 0 && b[0] == '"' {
		var x string
		if json.Unmarshal(b, &x) == nil {
			return []byte(x)
		}
	}
	return b
}

// pongAndRead answers an outstanding ping and reads one message so that the answer is processed.
func pongAndRead(s *S, c *MemConn, ws *snapws.Conn, r *rand.Rand, limited bool) {
	if limited {
		time.Sleep(10 * time.Second)
	}
	w := DecodeWire(c.Out(), true)
	var p []byte
	for _, f := range w.Ctrl {
		if f.Op == opPing {
			p = f.Payload
		}
	}
	c.FeedSegs(segment(r, append(cf(opPong, p, r).Bytes(), cf(opBin, []byte("after"), r).Bytes()...)))
	var b []byte
	var err error
	op := s.Go("read", func() { b, err = ws.ReadBinary() })
	if s.MustEnd(op, time.Minute, "unusable") && (err != nil || string(b) != "after") {
		s.Violate("unusable", "reading after a pong returned %v, %s", err, clip(b))
	}
}
