package h

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"slices"
	"sync"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- C29

// lent is memory of the application that the library may look at and not change: the slice it gave
// lies inside a larger array, of which nothing may change.
type lent struct {
	arr, want []byte
	p         []byte
	what      string
}

// lender checks all lent memory at every write to a transport and when it is given back.
type lender struct {
	s    *S
	mu   sync.Mutex
	out  map[*lent]bool
	bad  bool
	seen int // checks of lent memory while a call was in progress
}

func (l *lender) lend(r *rand.Rand, p []byte, what string) *lent {
	pre, post := r.IntN(20), []int{0, 1, 13, 14, 40, 300}[r.IntN(6)]
	x := &lent{arr: make([]byte, pre+len(p)+post), what: what}
	for i := range x.arr {
		x.arr[i] = byte(r.Uint32())
	}
	copy(x.arr[pre:], p)
	x.want = dup(x.arr)
	x.p = x.arr[pre : pre+len(p)]
	l.mu.Lock()
	l.out[x] = true
	l.mu.Unlock()
	return x
}

func (l *lender) check(x *lent, when string) {
	if !l.bad && !bytes.Equal(x.arr, x.want) {
		l.bad = true
		l.s.Violate("modified", "the library changed memory of the application, %s, %s: %s", x.what, when, diffAt(x.arr, x.want))
	}
}

// back ends the loan; the owner overwrites what it had lent.
func (l *lender) back(x *lent, scribble bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.check(x, "by the time the call returned")
	delete(l.out, x)
	if scribble {
		for i := range x.arr {
			x.arr[i] = 0xee
		}
	}
}

func (l *lender) all(when string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for x := range l.out {
		l.check(x, when)
		l.seen++
	}
}

// item decodes one message or batch element of this workload.
func ownItem(b []byte) (pid, bool) {
	b = bytes.TrimSpace(b)
	if len(b) > 0 && b[0] == '[' {
		var x []string
		if json.Unmarshal(b, &x) != nil || len(x) != 1 {
			return pid{}, false
		}
		return parsePay([]byte(x[0]))
	}
	if len(b) > 0 && b[0] == '"' {
		var x string
		if json.Unmarshal(b, &x) != nil {
			return pid{}, false
		}
		return parsePay([]byte(x))
	}
	return parsePay(b)
}

var _ = register("C29", &Prop{Quick: 12000, Thorough: 240000,
	Rule: "1 to 3 connections of a manager and a room; 1 to 4 goroutines that send, stream, broadcast, batch (bytes and JSON values) from slices inside larger arrays, over slow transports, and overwrite each slice as soon as the call that got it returned (except bytes given to batching, which are only watched); one reader per connection that overwrites or keeps what it was given; listings that are overwritten; lent memory is compared at every write to a transport and when calls return, kept reads at the end, every wire with what was sent; non-trivial: at least 5 slices were lent and one message read",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = 10 * time.Minute
		o.ReadBufferSize = []int{0, 0, 200, 125, 4096, 20000}[r.IntN(6)]
		o.BroadcastChannelsSize = 64
		o.MaxBatchSize = []int{0, 100, 1000}[r.IntN(3)]
		K, G := 1+r.IntN(3), 1+r.IntN(4)
		kind := r.IntN(3)
		noise := s.Noise()
		info := fmt.Sprintf("%d connections, %d senders, %s batching, write buffer %d, noise %s", K, G, bName[kind], o.WriteBufferSize, noise)
		s.Sig(s.Idx, K, G, kind)
		s.Bubble(t, func() {
			l := &lender{s: s, out: map[*lent]bool{}}
			u := snapws.NewUpgrader(o)
			m := snapws.NewManager[int](u)
			rm := snapws.NewRoomManager[int](u)
			room := rm.Add(1)
			every := time.Duration(1+r.IntN(5)) * time.Millisecond
			var mu Mutex
			got := make([]map[pid]int, K) // what the custom sender was given
			var wss []*snapws.Conn
			switch kind {
			case bJSON:
				u.EnableJSONBatching(bg, every)
			case bPrefix:
				u.EnablePrefixBatching(bg, every)
			default:
				u.EnableBatching(bg, every, func(_ context.Context, ws *snapws.Conn, msgs [][]byte) error {
					mu.Lock()
					defer mu.Unlock()
					for i, x := range msgs {
						p, ok := ownItem(x)
						if !ok {
							s.Violate("batch", "the custom sender was given %s, which nobody batched; %s", clip(x), info)
						}
						got[slices.Index(wss, ws)][p]++
						msgs[i] = nil
					}
					return nil
				})
			}
			if kind != bCustom && r.IntN(2) == 0 {
				pre, suf := l.lend(r, []byte(`"pre"`), "the prefix of batches"), l.lend(r, []byte(`"suf"`), "the suffix of batches")
				u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return pre.p }
				u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return suf.p }
			}
			strangers := [2]*snapws.Conn{new(snapws.Conn), new(snapws.Conn)} // in no room
			var cs []*MemConn
			var readers []*Op
			nread := 0
			for i := range K {
				c := NewMemConn()
				NewClient(c).AutoPong(0)
				inner := c.OnWrite
				c.OnWrite = func(b []byte) { l.all("while it was being written"); inner(b) }
				if gr := s.Rng(fmt.Sprint("slow", i)); gr.IntN(3) != 0 {
					c.SlowR, c.SlowMax, c.SlowAll = gr, time.Duration(1+gr.IntN(1000))*time.Microsecond, 200*time.Millisecond
				}
				mc, err := s.mconnect(m, i, NewRW(c, 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return
				}
				got[i] = map[pid]int{}
				mu.Lock()
				wss = append(wss, mc.Conn)
				mu.Unlock()
				cs = append(cs, c)
				room.Add(mc.Conn)
				nread += s.ownReads(l, mc.Conn, c, i, &readers, info)
			}
			sent := make([]map[pid]bool, K) // certainly arrives
			asked := map[pid]bool{}
			for i := range K {
				sent[i] = map[pid]bool{}
			}
			var ops []*Op
			nlent := 0
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				N := 1 + gr.IntN(8)
				ops = append(ops, s.Go("sender", func() {
					for k := range N {
						id := pid{g, k}
						n := gr.IntN(80)
						switch gr.IntN(12) {
						case 0:
							n = rsize(gr, 9000)
						case 1:
							n = 9000 + gr.IntN(60000)
						}
						p := pay(g, k, frugal(o, n))
						i := gr.IntN(K)
						ws := wss[i]
						mu.Lock()
						asked[id] = true
						nlent++
						mu.Unlock()
						what := []string{"SendBytes", "SendString", "SendMessage", "SendJSON(raw)", "SendJSON", "stream", "BroadcastBytes", "BroadcastString", "room broadcast", "BroadcastJSON", "Batch", "BatchJSON", "BatchBroadcast", "BatchBroadcastJSON"}[gr.IntN(14)]
						if kind == bJSON && (what == "Batch" || what == "BatchBroadcast") || what == "SendJSON(raw)" {
							p, _ = json.Marshal(string(p))
						}
						x := l.lend(gr, p, "the data given to "+what)
						val := []string{string(p)}
						one, scribble := true, true
						var err error
						nq := -1
						exW := []int{1000, 2000, -5}
						exCW := []*snapws.Conn{strangers[1], strangers[0], strangers[1]}
						if gr.IntN(3) == 0 {
							exCW, exW = nil, nil
						}
						ex := append(make([]int, 0, 8), exW...)
						exC := append(make([]*snapws.Conn, 0, 5), exCW...)
						switch what {
						case "SendBytes":
							err = ws.SendBytes(bg, x.p)
						case "SendString":
							err = ws.SendString(nil, x.p)
						case "SendMessage":
							err = ws.SendMessage(bg, byte(1+gr.IntN(2)), x.p)
						case "SendJSON(raw)":
							err = ws.SendJSON(bg, json.RawMessage(x.p))
						case "SendJSON":
							err = ws.SendJSON(bg, val)
						case "stream":
							var w *snapws.ConnWriter
							if w, err = ws.NextWriter(bg, opBin); err == nil {
								for _, part := range fragment(gr, p, 1+gr.IntN(5)) {
									y := l.lend(gr, part, "a part given to Write")
									if _, err = w.Write(y.p); err == nil && gr.IntN(4) == 0 {
										err = w.Flush()
									}
									l.back(y, true)
									if err != nil {
										break
									}
								}
								if e := w.Close(); err == nil {
									err = e
								}
							}
						case "BroadcastBytes":
							one = false
							nq, err = m.BroadcastBytes(bg, x.p, ex...)
						case "BroadcastString":
							one = false
							nq, err = m.BroadcastString(bg, x.p, ex...)
						case "room broadcast":
							one = false
							nq, err = room.BroadcastBytes(bg, x.p, exC...)
						case "BroadcastJSON":
							one = false
							if gr.IntN(2) == 0 {
								nq, err = m.BroadcastJSON(bg, val, ex...)
							} else {
								nq, err = room.BroadcastJSON(bg, val, exC...)
							}
						case "Batch":
							scribble = false
							err = ws.Batch(x.p)
						case "BatchJSON":
							err = ws.BatchJSON(val)
						case "BatchBroadcast":
							one, scribble = false, false
							if gr.IntN(2) == 0 {
								nq, err = m.BatchBroadcast(bg, x.p, ex...)
							} else {
								nq, err = room.BatchBroadcast(bg, x.p, exC...)
							}
						default:
							one = false
							if gr.IntN(2) == 0 {
								nq, err = m.BatchBroadcastJSON(bg, val, ex...)
							} else {
								nq, err = room.BatchBroadcastJSON(bg, val, exC...)
							}
						}
						if !slices.Equal(ex, exW) || !slices.Equal(ex[:8][len(exW):], make([]int, 8-len(exW))) {
							s.Violate("modified", "%s changed the list of excluded keys it was given to %v; %s", what, ex[:8], info)
						}
						if !slices.Equal(exC, exCW) || exC[:5][len(exCW)] != nil || exC[:5][4] != nil {
							s.Violate("modified", "%s changed the list of excluded connections it was given; %s", what, info)
						}
						if scribble {
							l.back(x, true)
							val[0] = "<overwritten>"
							for i := range ex[:8] {
								ex[:8][i] = i
							}
							for i := range exC[:5] {
								exC[:5][i] = wss[0]
							}
						}
						if err != nil || nq >= 0 && nq != K {
							s.Violate("error", "%s returned %d, %v on open connections with room in their queues; %s", what, nq, err, info)
							return
						}
						mu.Lock()
						for j := range K {
							if j == i || !one {
								sent[j][id] = true
							}
						}
						mu.Unlock()
						if gr.IntN(3) == 0 {
							s.ownList(gr, m, room, rm, wss, info)
						}
						if gr.IntN(4) == 0 {
							time.Sleep(time.Duration(gr.IntN(3000)) * time.Microsecond)
						}
					}
				}))
			}
			for _, op := range append(ops, readers...) {
				if !s.MustEnd(op, time.Hour, "hang") {
					return
				}
			}
			for _, c := range cs {
				slow(s, c, 0)
			}
			time.Sleep(every*2 + time.Second)
			s.Settle()
			l.all("some time after the calls had returned")
			for i, c := range cs {
				w := DecodeWire(c.Out(), true)
				if w.Err != "" || w.Close != nil || c.Closed() {
					s.Violate("wire", "connection %d: invalid stream (%s) or closed; %s", i, w.Err, info)
					return
				}
				mu.Lock()
				have := map[pid]int{}
				for p, n := range got[i] {
					have[p] += n
				}
				mu.Unlock()
				item := func(b []byte) {
					if string(b) == `"pre"` || string(b) == `"suf"` {
						return
					}
					p, ok := ownItem(b)
					if !ok || !asked[p] {
						s.Violate("content", "connection %d received %s, which nobody sent: the data was not what it had been when the call was made; %s", i, clip(b), info)
						return
					}
					have[p]++
				}
				for _, x := range w.Msgs {
					switch {
					case x.Op == opBin && len(x.Data) > 0 && x.Data[0] == 0:
						for d := x.Data; len(d) >= 4; {
							n := int(binary.BigEndian.Uint32(d))
							if n > len(d)-4 {
								s.Violate("content", "connection %d received a broken batch %s; %s", i, clip(x.Data), info)
								break
							}
							item(d[4 : 4+n])
							d = d[4+n:]
						}
					case x.Op == opBin && len(x.Data) > 0 && x.Data[0] == '[':
						var items []json.RawMessage
						if err := json.Unmarshal(x.Data, &items); err != nil {
							s.Violate("content", "connection %d received a broken batch %s; %s", i, clip(x.Data), info)
							break
						}
						for _, it := range items {
							item(it)
						}
					default:
						item(x.Data)
					}
				}
				for p := range sent[i] {
					if have[p] != 1 {
						s.Violate("content", "connection %d received message %v %d times; %s", i, p, have[p], info)
					}
				}
			}
			s.Count("slices lent", nlent)
			s.Count("messages read", nread)
			s.Count("checks of lent memory during a write", l.seen)
			s.Sample(info)
			if nlent >= 5 && nread > 0 {
				s.NonTrivial()
			}
			m.Shutdown()
			u.Flusher.Close()
		})
	}})

// ownReads lets a reader read messages; it overwrites or keeps what it is given.
func (s *S) ownReads(l *lender, ws *snapws.Conn, c *MemConn, i int, readers *[]*Op, info string) int {
	gr := s.Rng(fmt.Sprint("reader", i))
	var fs []*CFrame
	var msgs []RMsg
	for range 1 + gr.IntN(8) {
		m := RMsg{Op: byte(1 + gr.IntN(2))}
		n := gr.IntN(100)
		if gr.IntN(3) == 0 {
			n = rsize(gr, 9000)
		}
		if m.Op == opText {
			m.Data = rtext(gr, n)
		} else {
			m.Data = rbytes(gr, n)
		}
		if gr.IntN(4) == 0 {
			m.Op, m.Data = opText, rjson(gr, n)
		}
		msgs = append(msgs, m)
		parts := fragment(gr, m.Data, 1+gr.IntN(4))
		for k, part := range parts {
			f := &CFrame{Fin: k == len(parts)-1, Op: m.Op, Payload: part, Key: rkey(gr)}
			if k > 0 {
				f.Op = opCont
			}
			fs = append(fs, f)
			if gr.IntN(6) == 0 {
				fs = append(fs, cf(opPing, rbytes(gr, gr.IntN(126)), gr))
			}
		}
	}
	type kept struct {
		b, want []byte
		what    string
	}
	*readers = append(*readers, s.Go("reader", func() {
		var keep []kept
		take := func(b []byte, what string) {
			if gr.IntN(2) == 0 {
				b = b[:cap(b)]
				for j := range b {
					b[j] = 0xee
				}
				return
			}
			keep = append(keep, kept{b, dup(b), what})
		}
		for n, m := range msgs {
			mode := []string{"message", "string", "binary", "json", "chunks"}[gr.IntN(5)]
			if mode != "chunks" {
				rec := ReadOne(ws, mode, gr)
				if w := checkRec(rec, m, true); w != "" {
					s.Violate("read", "message %d of connection %d: %s; %s", n, i, w, info)
					return
				}
				take(rec.Data, mode)
				take(rec.JSON, mode)
				continue
			}
			rd, op, err := ws.NextReader()
			if err != nil || op != m.Op {
				s.Violate("read", "message %d of connection %d: NextReader returned %d, %v; %s", n, i, op, err, info)
				return
			}
			rest := m.Data
			for err == nil {
				size := 1 + gr.IntN([]int{4, 100, 5000}[gr.IntN(3)])
				pre, post := gr.IntN(10), gr.IntN(200)
				arr := bytes.Repeat([]byte{0xdd}, pre+size+post)
				var k int
				k, err = rd.Read(arr[pre : pre+size])
				if err != nil && err != io.EOF || k > len(rest) || k > size || k < 0 || !bytes.Equal(arr[pre:pre+k], rest[:k]) {
					s.Violate("read", "message %d of connection %d: Read returned %d, %v, %s; %s", n, i, k, err, diffAt(arr[pre:pre+min(k, size)], rest), info)
					return
				}
				if len(bytes.Trim(arr[:pre], "\xdd"))+len(bytes.Trim(arr[pre+size:], "\xdd")) > 0 {
					s.Violate("modified", "Read of %d bytes wrote outside the buffer it was given; %s", size, info)
					return
				}
				rest = rest[k:]
				take(arr[pre:pre+k:pre+k], mode)
			}
			if len(rest) > 0 {
				s.Violate("read", "message %d of connection %d ended %d bytes early; %s", n, i, len(rest), info)
				return
			}
		}
		time.Sleep(time.Second)
		for _, k := range keep {
			if !bytes.Equal(k.b, k.want) {
				s.Violate("changed", "data the application had been given by a read (%s) changed afterwards: %s; %s", k.what, diffAt(k.b, k.want), info)
				return
			}
		}
	}))
	feedTimed(s, c, s.Rng(fmt.Sprint("feed", i)), stream(fs), time.Duration(gr.IntN(20))*time.Millisecond)
	return len(msgs)
}

// ownList lists members and keys and overwrites the lists.
func (s *S) ownList(r *rand.Rand, m *snapws.Manager[int], room *snapws.Room[int], rm *snapws.RoomManager[int], wss []*snapws.Conn, info string) {
	K := len(wss)
	n := 0
	switch r.IntN(4) {
	case 0:
		x := m.GetAllConns()
		n = len(x)
		scramble(r, x)
	case 1:
		x := m.GetAllConnsAsConn()
		n = len(x)
		_ = append(x, wss...)
		scramble(r, x)
	case 2:
		x := room.GetAllConns()
		n = len(x)
		scramble(r, x)
	default:
		x := rm.GetRoomKeys()
		if len(x) != 1 || x[0] != 1 {
			s.Violate("listing", "the keys of the rooms are %v; %s", x, info)
		}
		clear(x[:cap(x)])
		return
	}
	if n != K {
		s.Violate("listing", "a listing has %d of %d connections; %s", n, K, info)
	}
}

// scramble overwrites a list with nothing, or with what might be right.
func scramble[T any](r *rand.Rand, x []T) {
	x = x[:cap(x)]
	if r.IntN(2) == 0 || len(x) == 0 {
		clear(x)
		return
	}
	for i := range x {
		x[i] = x[0]
	}
}
