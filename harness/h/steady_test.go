package h

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"
	"unsafe"
	"weak"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- C32

// steady is a server whose first connection stays while things come and go around it.
type steady struct {
	s    *S
	u    *snapws.Upgrader
	m    *snapws.Manager[string]
	rm   *snapws.RoomManager[string]
	ws   *snapws.Conn
	c    *MemConn
	room *snapws.Room[string] // it stays in this one
	mu   Mutex
	refs map[string][]func() bool // what must not stay, by kind
	err  string
	life context.Context
}

func track[T any](d *steady, kind string, p *T) {
	w := weak.Make(p)
	d.mu.Lock()
	d.refs[kind] = append(d.refs[kind], func() bool { return w.Value() != nil })
	d.mu.Unlock()
}

func (d *steady) fail(f string, a ...any) {
	d.mu.Lock()
	if d.err == "" {
		d.err = fmt.Sprintf(f, a...)
	}
	d.mu.Unlock()
}

func (d *steady) bytes(r *rand.Rand, kind string) []byte {
	b := make([]byte, 64+r.IntN(400))
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	track(d, kind, &b[0])
	return b
}

func (d *steady) key(kind string) string {
	k := strings.Repeat("k", 80) + fmt.Sprint(d.s.R.Int64())
	k = strings.Clone(k)
	track(d, kind, unsafe.StringData(k))
	return k
}

type blob struct {
	X [100]byte
	P *int
}

// want reports a call that did not go the way it should.
func (d *steady) want(what string, err error) {
	if err != nil {
		d.fail("%s returned %v", what, err)
	}
}

type trackedCtx struct {
	context.Context
	pad [64]byte
}

func (d *steady) ctx(r *rand.Rand, end bool) (context.Context, func()) {
	switch r.IntN(5) {
	case 0:
		return nil, func() {}
	case 1:
		c, cancel := context.WithTimeout(bg, time.Hour)
		x := &trackedCtx{Context: c}
		track(d, "context", x)
		return x, cancel
	case 2:
		c, cancel := context.WithCancel(bg)
		x := &trackedCtx{Context: c}
		track(d, "context", x)
		return x, cancel
	}
	if r.IntN(2) == 0 {
		return d.life, func() {} // as long as the server runs
	}
	x := &trackedCtx{Context: d.life}
	track(d, "context", x)
	return x, func() {}
}

// other opens a connection that does not stay.
func (d *steady) other(key string, room string) (*snapws.Conn, *MemConn) {
	c := NewMemConn()
	NewClient(c).AutoPong(0)
	var ws *snapws.Conn
	var err error
	req := Request()
	track(d, "request", req)
	switch {
	case room != "":
		ws, _, err = d.rm.Connect(NewRW(c, 4096, 4096, nil), req, room)
	case key != "":
		var mc *snapws.ManagedConn[string]
		if mc, err = d.m.Connect(key, NewRW(c, 4096, 4096, nil), req); err == nil {
			ws = mc.Conn
			track(d, "managed connection", mc)
		}
	default:
		ws, err = d.u.Upgrade(NewRW(c, 4096, 4096, nil), req)
	}
	if err != nil {
		d.fail("a valid request was refused: %v", err)
		return nil, nil
	}
	track(d, "connection", ws)
	track(d, "transport", c)
	d.s.Go("drain", func() {
		for {
			if _, _, err := ws.ReadMessage(); err != nil {
				return
			}
		}
	})
	return ws, c
}

var steadyOps = []struct {
	name string
	f    func(d *steady, r *rand.Rand)
}{
	{"messages", func(d *steady, r *rand.Rand) {
		ctx, cancel := d.ctx(r, false)
		defer cancel()
		switch r.IntN(4) {
		case 0:
			d.want("SendBytes", d.ws.SendBytes(ctx, d.bytes(r, "payload")))
		case 1:
			d.want("SendString", d.ws.SendString(ctx, d.bytes(r, "payload")))
		case 2:
			v := &blob{}
			track(d, "value", v)
			d.want("SendJSON", d.ws.SendJSON(ctx, v))
		default:
			w, err := d.ws.NextWriter(ctx, opBin)
			d.want("NextWriter", err)
			if err != nil {
				return
			}
			track(d, "writer", w)
			w.Write(d.bytes(r, "payload"))
			if r.IntN(2) == 0 {
				w.Flush()
			}
			d.want("Close", w.Close())
		}
	}},
	{"failed messages", func(d *steady, r *rand.Rand) {
		c, cancel := context.WithCancel(bg)
		cancel()
		x := &trackedCtx{Context: c}
		track(d, "context", x)
		w, err := d.ws.NextWriter(nil, opText)
		if err != nil {
			d.fail("NextWriter returned %v", err)
			return
		}
		track(d, "writer", w)
		d.ws.SendBytes(x, d.bytes(r, "payload"))
		d.ws.SendJSON(x, &blob{})
		w.Write([]byte("x"))
		d.want("Close", w.Close())
		d.ws.SendJSON(nil, func() {})
		d.ws.SendMessage(nil, 9, d.bytes(r, "payload"))
		v := &blob{}
		track(d, "value", v)
		d.room.BroadcastJSON(nil, map[string]any{"v": v, "f": func() {}})
	}},
	{"inbound", func(d *steady, r *rand.Rand) {
		n := 64 + r.IntN(3000)
		d.c.Feed(cfr(opBin, make([]byte, n)))
		d.c.Feed(cfr(opPing, []byte("p")))
		d.c.Feed(cfr(opPong, []byte("unasked")))
		time.Sleep(15 * time.Millisecond) // no ping must be under way when its read
	}},
	{"pings", func(d *steady, r *rand.Rand) {
		d.ws.Ping()
		time.Sleep(3 * time.Millisecond)
	}},
	{"broadcasts", func(d *steady, r *rand.Rand) {
		ctx, cancel := d.ctx(r, false)
		switch r.IntN(4) {
		case 0:
			d.m.BroadcastString(ctx, d.bytes(r, "payload"))
		case 1:
			v := &blob{}
			track(d, "value", v)
			d.room.BroadcastJSON(ctx, v)
		case 2:
			k := d.key("key")
			d.m.BroadcastBytes(ctx, d.bytes(r, "payload"), k)
		default:
			ex := make([]*snapws.Conn, 0, 16)
			ex = append(ex, nil)
			track(d, "exclusions", &ex[:1][0])
			d.room.BroadcastBytes(ctx, d.bytes(r, "payload"), ex...)
		}
		time.Sleep(3 * time.Millisecond)
		cancel()
	}},
	{"batches", func(d *steady, r *rand.Rand) {
		switch r.IntN(4) {
		case 0:
			d.ws.Batch(append([]byte(`"`), append(d.bytes(r, "payload"), '"')...))
		case 1:
			v := &blob{}
			track(d, "value", v)
			d.ws.BatchJSON(v)
		case 2:
			d.ws.BatchJSON(string(d.bytes(r, "payload")))
			d.ws.BatchJSON(func() {})
		default:
			b := d.bytes(r, "batched")
			b[0], b[len(b)-1] = '"', '"'
			d.room.BatchBroadcast(nil, b)
		}
		time.Sleep(25 * time.Millisecond)
	}},
	{"rooms", func(d *steady, r *rand.Rand) {
		k := d.key("room key")
		var room *snapws.Room[string]
		own := r.IntN(2) == 0
		rm := d.rm
		if own {
			rm = snapws.NewRoomManager[string](d.u)
			track(d, "room manager", rm)
		}
		arg := &blob{}
		track(d, "argument", arg)
		if r.IntN(2) == 0 {
			rm.DefaultOnLeave = func(*snapws.Room[string], *snapws.Conn, ...any) { _ = arg.P }
		} else {
			rm.DefaultOnLeave = nil
		}
		room = rm.Add(k)
		track(d, "room", room)
		room.Add(d.ws, arg, 5)
		if r.IntN(2) == 0 {
			room.BroadcastString(nil, d.bytes(r, "payload"))
		}
		how := r.IntN(5)
		if !own && how != 4 && how != 0 {
			defer room.Close()
		}
		switch how {
		case 0:
			room.Close()
		case 1:
			room.Remove(d.ws, arg)
		case 2:
			room.RemoveAll()
		case 3:
			room.Move(d.ws, "nowhere")
		default:
			k2 := d.key("room key")
			nr := rm.Add(k2)
			track(d, "room", nr)
			room.Move(d.ws, k2)
			nr.RemoveAll()
			nr.Close()
			room.Close()
		}
		if r.IntN(2) == 0 {
			rm.GetRoomKeys()
			room.GetAllConns()
		}
		d.rm.DefaultOnLeave = nil
	}},
	{"rejoining", func(d *steady, r *rand.Rand) {
		arg := &blob{}
		track(d, "argument", arg)
		d.room.Remove(d.ws, arg)
		arg2 := &blob{}
		d.room.Add(d.ws, arg2)
		track(d, "argument", arg2)
		d.room.Add(d.ws, &blob{})
	}},
	{"connections", func(d *steady, r *rand.Rand) {
		key, room := "", ""
		switch r.IntN(4) {
		case 0:
			key = d.key("key")
		case 1:
			key = "replaced"
		case 2:
			room = d.room.Key
		}
		ws, c := d.other(key, room)
		if ws == nil {
			return
		}
		ws.SendBytes(nil, d.bytes(r, "payload"))
		if r.IntN(2) == 0 {
			d.room.Add(ws)
			d.room.BroadcastBytes(nil, d.bytes(r, "payload"))
		}
		if d.u.Flusher != nil && r.IntN(2) == 0 {
			ws.Batch([]byte("1"))
		}
		ws.MetaData.Store("x", d.bytes(r, "metadata"))
		switch {
		case key == "replaced":
		case r.IntN(3) == 0:
			c.Feed(cfr(opClose, []byte{3, 232}))
		case r.IntN(2) == 0:
			c.FeedEOF()
		default:
			ws.Close()
		}
		time.Sleep(3 * time.Millisecond)
	}},
	{"refused handshakes", func(d *steady, r *rand.Rand) {
		req := Request()
		track(d, "request", req)
		if r.IntN(2) == 0 {
			req.Header.Set("X-Refuse", "1")
		} else {
			req.Header.Set("Sec-WebSocket-Version", "12")
		}
		c := NewMemConn()
		track(d, "transport", c)
		rw := NewRW(c, 4096, 4096, nil)
		var err error
		switch r.IntN(3) {
		case 0:
			_, err = d.m.Connect(d.key("key"), rw, req)
		case 1:
			_, _, err = d.rm.Connect(rw, req, d.key("room key"))
		default:
			_, err = d.u.Upgrade(rw, req)
		}
		if err == nil {
			d.fail("a handshake that must be refused succeeded")
		}
	}},
	{"lookups", func(d *steady, r *rand.Rand) {
		d.m.Get(d.key("key"))
		d.rm.Get(d.key("room key"))
		l := d.m.GetAllConns(d.key("key"))
		if len(l) > 0 {
			track(d, "listing", &l[0])
		}
		l2 := d.m.GetAllConnsAsConn()
		if len(l2) > 0 {
			track(d, "listing", &l2[0])
		}
		l3 := d.room.GetAllConns()
		if len(l3) > 0 {
			track(d, "listing", &l3[0])
		}
		l4 := d.rm.GetRoomKeys()
		if len(l4) > 0 {
			track(d, "listing", &l4[0])
		}
	}},
	{"flushers", func(d *steady, r *rand.Rand) {
		if d.u.Flusher == nil {
			return
		}
		x := &blob{}
		track(d, "flusher hook", x)
		d.u.EnableBatching(nil, 0, func(context.Context, *snapws.Conn, [][]byte) error { _ = x.P; return nil })
		d.u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { _ = x.P; return nil }
		track(d, "flusher", d.u.Flusher)
		ws, _ := d.other("", "")
		if ws != nil {
			ws.Batch([]byte("2"))
			ws.Close()
		}
	}},
}

var _ = register("C32", &Prop{Quick: 5000, Thorough: 120000,
	Rule: "one connection stays open while 12 to 30 rounds of 1 to 4 kinds of activity go on around it: messages and failed messages, inbound traffic, pings, broadcasts, batches, rooms made, joined and left in every way, rejoining, connections that come and go or are replaced, refused handshakes, lookups, replaced flushers; at the end the library's goroutines are counted and what the rounds allocated and gave up (payloads, values, contexts, writers, rooms, managers, hook arguments, keys, connections, requests, listings) is looked for after garbage collection; non-trivial: at least 12 objects were followed",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := outOpts(r)
		o.WriteWait = time.Second
		o.BroadcastChannelsSize = 1 + r.IntN(8)
		o.Middlwares = snapws.Middlwares{func(_ http.ResponseWriter, r *http.Request) error {
			if r.Header.Get("X-Refuse") != "" {
				return snapws.NewMiddlewareErr(403, "no")
			}
			return nil
		}}
		rounds := 12 + r.IntN(19)
		if s.Long(101) {
			rounds = 200
		}
		var ops []int
		for range 1 + r.IntN(4) {
			ops = append(ops, r.IntN(len(steadyOps)))
		}
		batching := r.IntN(3)
		limiter := r.IntN(3) == 0
		noise := s.Noise()
		s.Sig(s.Idx, ops, rounds, batching, limiter)
		s.Bubble(t, func() {
			d := &steady{s: s, u: snapws.NewUpgrader(o), refs: map[string][]func() bool{}}
			if limiter {
				d.u.Limiter = snapws.NewRateLimiter(1000, 10000)
			}
			switch batching {
			case 1:
				d.u.EnableJSONBatching(nil, 10*time.Millisecond)
			case 2:
				d.u.EnablePrefixBatching(bg, 10*time.Millisecond)
			}
			d.m = snapws.NewManager[string](d.u)
			d.rm = snapws.NewRoomManager[string](d.u)
			d.c = NewMemConn()
			NewClient(d.c).AutoPong(0)
			mc, err := d.m.Connect("stays", NewRW(d.c, 4096, 4096, nil), Request())
			if err != nil {
				s.Violate("upgrade", "refused: %v", err)
				return
			}
			d.ws = mc.Conn
			d.room = d.rm.Add("stays")
			d.room.Add(d.ws)
			d.s.Go("reader", func() {
				for {
					_, b, err := d.ws.ReadMessage()
					if err != nil {
						return
					}
					if len(b) >= 64 {
						track(d, "message read", &b[0])
					}
				}
			})
			var cancel func()
			if d.life, cancel = context.WithCancel(bg); r.IntN(2) == 0 {
				d.life, cancel = context.WithTimeout(bg, 1000*time.Hour)
			}
			defer cancel()
			last := r.IntN(2) == 0
			if last {
				d.other("replaced", "")
			}
			time.Sleep(20 * time.Millisecond)
			s.Settle()
			baseline := len(libGoroutines())
			var names []string
			for _, k := range ops {
				names = append(names, steadyOps[k].name)
			}
			slices.Sort(names)
			info := fmt.Sprintf("%d rounds of %v, batching %d, limiter %v, noise %s", rounds, names, batching, limiter, noise)
			for range rounds {
				for _, k := range ops {
					op := s.Go(steadyOps[k].name, func() { steadyOps[k].f(d, r) })
					if !op.Within(time.Minute) {
						s.MustEnd(op, time.Second, "hang")
						return
					}
				}
			}
			// the last of the replaced ones
			if x := d.m.Get("replaced"); x != nil && !last {
				x.Close()
			}
			time.Sleep(5 * time.Second)
			s.Settle()
			if d.err != "" {
				s.Violate("error", "%s; %s", d.err, info)
				return
			}
			if n := len(libGoroutines()); n > baseline {
				s.Violate("leak-goroutine", "%d goroutines of the library serve one connection after %s, %d before\n%s", n, info, baseline, bubbleStacks(10))
			}
			total := 0
			for try := 0; ; try++ {
				runtime.GC()
				var bad []string
				total = 0
				for _, kind := range sortedKeys(d.refs) {
					left := 0
					for _, f := range d.refs[kind] {
						if f() {
							left++
						}
					}
					total += len(d.refs[kind])
					if left > 4 {
						bad = append(bad, fmt.Sprintf("%d of %d: %s", left, len(d.refs[kind]), kind))
					}
				}
				if len(bad) == 0 {
					break
				}
				if try >= 4 {
					s.Violate("leak-memory", "after %s a live connection still holds what is over: %s", info, strings.Join(bad, "; "))
					break
				}
				time.Sleep(time.Second)
				s.Settle()
			}
			for kind, l := range d.refs {
				s.Count("followed: "+kind, len(l))
			}
			if total >= 12 {
				s.NonTrivial()
			}
			// it is still alive, and so is everything that keeps it
			n := d.c.OutLen()
			op := s.Timed0(func() error { return d.ws.SendBytes(nil, []byte("end")) })
			if !op.op.Within(time.Second) || op.err != nil || d.c.OutLen() <= n {
				s.Violate("error", "the connection no longer works after %s: %v", info, op.err)
			}
			s.Sample(info)
			runtime.KeepAlive(d)
			if d.u.Flusher != nil {
				d.u.Flusher.Close()
			}
			d.m.Shutdown()
		})
	}})
