package h

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- C31

// configured is an upgrader with what its options, as documented, amount to.
type configured struct {
	s    *S
	name string
	how  int // 0: Upgrader, 1: Manager, 2: RoomManager
	u    *snapws.Upgrader
	m    *snapws.Manager[int]
	rm   *snapws.RoomManager[int]

	R, P, W     time.Duration
	L, F, Q, M  int
	strat       snapws.BackpressureStrategy
	skipUTF8    bool
	protos      []string
	reject      bool
	mws         int
	hooks       bool
	Fl          time.Duration // flush interval, 0: no batching
	bkind       int
	enabled     time.Time
	customCalls map[*snapws.Conn][]bbatch

	mu    sync.Mutex
	key   int
	conns []*snapws.Conn
	mwRan []string
	on    map[*snapws.Conn]int
	off   map[*snapws.Conn]int
	slack time.Duration
}

func rdur(r *rand.Rand, lo, hi time.Duration) time.Duration {
	// spread over the orders of magnitude
	x := lo
	for x < hi/2 && r.IntN(3) > 0 {
		x *= 2
	}
	return (min(hi, x+time.Duration(r.Int64N(int64(x)))) / time.Millisecond) * time.Millisecond
}

func configure(s *S, idx int) *configured {
	r := s.R
	cf := &configured{s: s, how: r.IntN(3), R: time.Minute, P: 50 * time.Second, W: 5 * time.Second, L: 1 << 20, Q: 8, M: 1 << 20,
		on: map[*snapws.Conn]int{}, off: map[*snapws.Conn]int{}, customCalls: map[*snapws.Conn][]bbatch{}}
	o := &snapws.Options{}
	hours := s.Idx%24 == 5 // waits of hours, no short ones of the library beside them
	var set []string
	isNil := r.IntN(6) == 0
	if !isNil {
		p := []int{1, 2, 4, 12}[r.IntN(4)] // how many are left alone
		is := func(n string) bool {
			if r.IntN(p) == 0 {
				set = append(set, n)
				return true
			}
			return false
		}
		if is("ReadWait") {
			o.ReadWait = rdur(r, time.Second, 10*time.Minute)
			if hours {
				o.ReadWait = rdur(r, 10*time.Minute, 72*time.Hour)
			}
			cf.R = o.ReadWait
		}
		if is("PingEvery") || cf.P >= cf.R*9/10 || cf.P < cf.R/30 {
			o.PingEvery = cf.R/30 + rdur(r, 100*time.Millisecond, cf.R*8/10)
			o.PingEvery = min(o.PingEvery, cf.R*9/10).Truncate(time.Millisecond)
			cf.P = o.PingEvery
		}
		if is("WriteWait") {
			o.WriteWait = rdur(r, 100*time.Millisecond, time.Minute)
			if hours {
				o.WriteWait = rdur(r, time.Minute, 4*time.Hour)
			}
			cf.W = o.WriteWait
		}
		if is("MaxMessageSize") {
			switch r.IntN(6) {
			case 0:
				o.MaxMessageSize = -1
			case 1:
				o.MaxMessageSize = []int{1, 2, 125, 126, 127, 4095, 4096, 65535, 65536}[r.IntN(9)]
			case 2:
				o.MaxMessageSize = 1<<20 + 1 + r.IntN(1<<19)
				if r.IntN(10) == 0 {
					o.MaxMessageSize = hugeSize(r)
				}
			default:
				o.MaxMessageSize = 1 + rsize(r, 20000)
			}
			cf.L = o.MaxMessageSize
		}
		if is("ReaderMaxFragments") {
			o.ReaderMaxFragments = 1 + rsize(r, 60)
			cf.F = o.ReaderMaxFragments
		}
		if is("ReadBufferSize") {
			o.ReadBufferSize = 1 + rsize(r, 20000)
		}
		if is("WriteBufferSize") {
			o.WriteBufferSize = 100 + rsize(r, 20000)
		}
		o.DisableWriteBuffersPooling = is("DisableWriteBuffersPooling")
		if is("SubProtocols") {
			cf.protos = [][]string{{"v1"}, {"v1", "v2"}, {"v2", "chat", "v1"}, {"chat"}, {}}[r.IntN(5)]
			o.SubProtocols = slices.Clone(cf.protos)
			if len(cf.protos) > 0 && r.IntN(2) == 0 {
				cf.reject = true
				o.RejectRaw = true
			}
		}
		if is("BroadcastChannelsSize") {
			o.BroadcastChannelsSize = 1 + rsize(r, 30)
			if r.IntN(12) == 0 {
				o.BroadcastChannelsSize = 1 + r.IntN(600)
			}
			cf.Q = o.BroadcastChannelsSize
		}
		if is("BroadcastBackpressure") {
			o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[r.IntN(3)]
			cf.strat = o.BroadcastBackpressure
		}
		if is("SkipUTF8Validation") {
			o.SkipUTF8Validation = true
			cf.skipUTF8 = true
		}
		if is("MaxBatchSize") {
			o.MaxBatchSize = 20 + rsize(r, 9000)
			cf.M = o.MaxBatchSize
		}
		if is("Middlwares") {
			cf.mws = 1 + r.IntN(3)
			for k := range cf.mws {
				o.Middlwares = append(o.Middlwares, cf.middleware(fmt.Sprintf("mw%d", k)))
			}
		}
		if is("OnConnect") {
			cf.hooks = true
			o.OnConnect = func(ws *snapws.Conn) { cf.mu.Lock(); cf.on[ws]++; cf.mu.Unlock() }
			o.OnDisconnect = func(ws *snapws.Conn) { cf.mu.Lock(); cf.off[ws]++; cf.mu.Unlock() }
		}
	} else {
		o = nil
	}
	switch {
	case cf.how == 1 && o == nil:
		cf.m = snapws.NewManager[int](nil)
		cf.u = cf.m.Upgrader
	case cf.how == 2 && o == nil:
		cf.rm = snapws.NewRoomManager[int](nil)
		cf.u = cf.rm.Upgrader
	default:
		cf.u = snapws.NewUpgrader(o)
	}
	if cf.m == nil {
		cf.m = snapws.NewManager[int](cf.u)
	}
	if cf.rm == nil {
		cf.rm = snapws.NewRoomManager[int](cf.u)
	}
	if r.IntN(3) == 0 { // a middleware added later
		cf.u.Use(cf.middleware(fmt.Sprintf("mw%d", cf.mws)))
		cf.mws++
	}
	if r.IntN(3) == 0 && !hours {
		cf.Fl = rdur(r, 60*time.Millisecond, 20*time.Second)
		arg := cf.Fl
		if r.IntN(3) == 0 {
			cf.Fl, arg = 50*time.Millisecond, 0
		}
		cf.bkind = r.IntN(3)
		cf.enabled = time.Now()
		switch cf.bkind {
		case bJSON:
			cf.u.EnableJSONBatching(nil, arg)
		case bPrefix:
			cf.u.EnablePrefixBatching(nil, arg)
		default:
			cf.u.EnableBatching(nil, arg, func(_ context.Context, ws *snapws.Conn, msgs [][]byte) error {
				x := bbatch{t: time.Now()}
				for _, m := range msgs {
					x.items = append(x.items, dup(m))
				}
				cf.mu.Lock()
				cf.customCalls[ws] = append(cf.customCalls[ws], x)
				cf.mu.Unlock()
				return nil
			})
		}
	}
	what := "default options"
	if o != nil {
		what = fmt.Sprintf("ReadWait %v, PingEvery %v, WriteWait %v, MaxMessageSize %d, ReaderMaxFragments %d, ReadBufferSize %d, WriteBufferSize %d, DisableWriteBuffersPooling %v, SubProtocols %v, RejectRaw %v, BroadcastChannelsSize %d, BroadcastBackpressure %d, SkipUTF8Validation %v, MaxBatchSize %d set: %s",
			cf.R, cf.P, cf.W, cf.L, cf.F, o.ReadBufferSize, o.WriteBufferSize, o.DisableWriteBuffersPooling, cf.protos, cf.reject, cf.Q, cf.strat, cf.skipUTF8, cf.M, strings.Join(set, " "))
	}
	cf.name = fmt.Sprintf("upgrader %d (%s, batching %v)", idx, what, cf.Fl)
	s.Sig(what, cf.Fl, cf.bkind)
	return cf
}

func (cf *configured) middleware(name string) snapws.Middlware {
	return func(w http.ResponseWriter, r *http.Request) error {
		cf.mu.Lock()
		cf.mwRan = append(cf.mwRan, r.Header.Get("X-Id")+":"+name)
		cf.mu.Unlock()
		if r.Header.Get("X-Refuse") == name {
			return &snapws.MiddlewareErr{Code: 418, Message: "no"}
		}
		return nil
	}
}

func (cf *configured) bad(kind, f string, a ...any) {
	cf.s.Violate(kind, "%s; %s", fmt.Sprintf(f, a...), cf.name)
}

// open connects a client.
func (cf *configured) open(c *MemConn) (*snapws.Conn, *snapws.Room[int]) {
	cf.mu.Lock()
	cf.key++
	k := cf.key
	cf.mu.Unlock()
	req := Request()
	req.Header.Del("Sec-WebSocket-Protocol")
	req.Header.Set("X-Id", fmt.Sprint(k))
	if len(cf.protos) > 0 && (cf.reject || k%2 == 0) {
		req.Header.Set("Sec-WebSocket-Protocol", cf.protos[k%len(cf.protos)])
	}
	rw := NewRW(c, 4096, 4096, nil)
	var ws *snapws.Conn
	var room *snapws.Room[int]
	var err error
	switch cf.how {
	case 1:
		var mc *snapws.ManagedConn[int]
		if mc, err = cf.m.Connect(k, rw, req); err == nil {
			ws = mc.Conn
		}
	case 2:
		ws, room, err = cf.rm.Connect(rw, req, k)
	default:
		ws, err = cf.u.Upgrade(rw, req)
	}
	if err != nil {
		cf.bad("upgrade", "a valid request was refused: %v", err)
		return nil, nil
	}
	cf.mu.Lock()
	cf.conns = append(cf.conns, ws)
	cf.mu.Unlock()
	if want := req.Header.Get("Sec-WebSocket-Protocol"); ws.SubProtocol != want {
		cf.bad("subprotocol", "the client offered %q, the connection's is %q", want, ws.SubProtocol)
	}
	return ws, room
}

func near2(got, want, slack time.Duration) bool {
	return got >= want-time.Microsecond && got <= want+slack
}

// silence: a read ends ReadWait after it began, after the last message or after the last pong.
func (cf *configured) probeRead(r *rand.Rand) {
	c := NewMemConn()
	cl := NewClient(c)
	left := 0
	var lastPong time.Time
	var pm Mutex
	if r.IntN(2) == 0 {
		left = 1 + r.IntN(4)
	}
	pongs := left
	cl.OnFrame = func(f Frame) {
		pm.Lock()
		defer pm.Unlock()
		if f.Op == opPing && left > 0 {
			left--
			lastPong = time.Now()
			c.Feed(cfr(opPong, f.Payload))
		}
	}
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	time.Sleep(time.Duration(r.Int64N(int64(50 * time.Millisecond))))
	began := time.Now()
	var end time.Time
	var err error
	n := 0
	op := cf.s.Go("read", func() {
		for {
			if _, _, err = ws.ReadMessage(); err != nil {
				end = time.Now()
				return
			}
			n++
			began = time.Now()
		}
	})
	msgs := r.IntN(4)
	ahead := 0 // bytes of the next message that came with the one before
	early := pongs == 0 && r.IntN(2) == 0
	for range msgs {
		x := 0.1 + 0.85*r.Float64()
		if r.IntN(3) == 0 {
			x /= []float64{3, 10, 100}[r.IntN(3)]
		}
		time.Sleep(time.Duration(float64(cf.R) * x))
		b := cfr(opBin, []byte{1})[ahead:]
		ahead = 0
		if early && r.IntN(2) == 0 {
			next := cfr(opBin, []byte{1})
			ahead = 1 + r.IntN(len(next)-1)
			b = append(b, next[:ahead]...)
		}
		c.Feed(b)
	}
	if !op.Within(time.Duration(pongs+2)*(cf.R+cf.P) + cf.slack) {
		cf.bad("ReadWait", "a read from a peer that said nothing for %v had not returned", time.Duration(pongs+2)*cf.R)
		ws.Close()
		return
	}
	pm.Lock()
	last := began
	if lastPong.After(last) {
		last = lastPong
	}
	pm.Unlock()
	switch got := end.Sub(last); {
	case n != msgs:
		cf.bad("ReadWait", "%d of %d messages were read before the read failed with %v, %v after the last message or pong", n, msgs, err, got)
	case !snapws.IsFatalErr(err):
		cf.bad("ReadWait", "the read failed with %v, which is not fatal", err)
	case !near2(got, cf.R, cf.slack):
		cf.bad("ReadWait", "a silent peer was dropped after %v instead of %v (%d messages, %d pongs before)", got, cf.R, msgs, pongs)
	case !c.Closed():
		cf.bad("ReadWait", "the transport was not closed after ReadWait")
	}
	cf.s.Count("ReadWait measured", 1)
}

func cfr(op byte, p []byte) []byte { return cf(op, p, nil).Bytes() }

// pings: the library's own pings are PingEvery apart and keep the connection alive.
func (cf *configured) probePing(r *rand.Rand) {
	c := NewMemConn()
	cl := NewClient(c)
	var pm Mutex
	var pings []time.Time
	delay := time.Duration(0)
	if r.IntN(2) == 0 {
		delay = time.Duration(r.Int64N(int64(min(cf.P, cf.R-cf.P) * 3 / 4)))
	}
	cl.OnFrame = func(f Frame) {
		if f.Op == opPing {
			pm.Lock()
			pings = append(pings, time.Now())
			pm.Unlock()
			b := cfr(opPong, f.Payload)
			if delay == 0 {
				c.Feed(b)
			} else {
				time.AfterFunc(delay, func() { c.Feed(b) })
			}
		}
	}
	t0 := time.Now()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	t1 := time.Now()
	rd := cf.s.Reader(ws)
	n := 2 + r.IntN(4)
	time.Sleep(time.Duration(n)*cf.P + cf.P/2)
	pm.Lock()
	got := slices.Clone(pings)
	pm.Unlock()
	if rd.op.Done() || c.Closed() {
		cf.bad("PingEvery", "a connection whose peer answers pings after %v ended (%v) at %v", delay, rd.End(), time.Since(t0))
		return
	}
	if len(got) != n {
		cf.bad("PingEvery", "%d pings within %v, expected one every %v", len(got), time.Since(t0), cf.P)
	}
	for i, x := range got {
		if want := time.Duration(i+1) * cf.P; x.Sub(t0) < want-time.Microsecond || x.Sub(t1) > want+cf.slack {
			cf.bad("PingEvery", "ping %d was sent at +%v instead of +%v", i+1, x.Sub(t0), want)
		}
	}
	cf.s.Count("PingEvery measured", 1)
	ws.Close()
}

// a write whose turn comes late may wait for the peer as long as any other.
func (cf *configured) probeTurn(r *rand.Rand) {
	if cf.P < 2*cf.W+time.Second {
		return // pings of the server would wait too
	}
	c := NewMemConn()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	defer ws.Close()
	n := c.OutLen()
	c.SetWindow(n)
	first := cf.s.Timed0(ws.Ping)
	time.Sleep(10 * time.Millisecond) // it may be paused on its way
	var op *timed
	kind := r.IntN(3)
	switch kind {
	case 0:
		op = cf.s.Timed0(func() error { return ws.SendBytes(nil, pay(0, 1, 20)) })
	case 1:
		op = cf.s.Timed0(func() error { return ws.SendJSON(context.Background(), 1) })
	default:
		room := cf.rm.Add(-1 - r.IntN(1<<40))
		room.Add(ws)
		op = cf.s.Timed0(func() error { // on the wire before it counts as done
			_, err := room.BroadcastBytes(nil, pay(0, 1, 20))
			return err
		})
	}
	a := time.Duration(50+r.IntN(30)) * cf.W / 100
	time.Sleep(a)
	c.SetWindow(n + 2) // the ping
	b := time.Duration(50+r.IntN(30)) * cf.W / 100
	time.Sleep(b)
	c.Unstall()
	what := fmt.Sprintf("a write (%d) that waited %v for its turn and then %v for the peer", kind, a, b)
	if !first.op.Within(cf.slack) || !op.op.Within(cf.slack) {
		cf.bad("WriteWait", "%s has not returned", what)
		return
	}
	if first.err != nil || op.err != nil || c.Closed() {
		cf.bad("WriteWait", "%s returned %v (the ping before it %v, closed %v)", what, op.err, first.err, c.Closed())
		return
	}
	cf.s.Count("turn measured", 1)
}

// a peer that takes nothing: a write may wait WriteWait for it, and not longer.
func (cf *configured) probeWrite(r *rand.Rand) {
	if r.IntN(2) == 0 {
		cf.probeTurn(r)
	}
	c := NewMemConn()
	ws, room := cf.open(c)
	if ws == nil {
		return
	}
	t0 := time.Now()
	kinds := []string{"SendBytes", "SendJSON", "writer", "broadcast", "ping", "close"}
	send := func(kind string) func() error {
		switch kind {
		case "SendBytes":
			return func() error { return ws.SendBytes(nil, pay(0, 1, 20)) }
		case "SendJSON":
			return func() error { return ws.SendJSON(context.Background(), 1) }
		case "writer":
			return func() error {
				w, err := ws.NextWriter(nil, opText)
				if err != nil {
					return err
				}
				if err := w.Flush(); err != nil {
					return err
				}
				return w.Close()
			}
		case "ping":
			return ws.Ping
		case "close":
			return func() error { ws.Close(); return nil }
		}
		return func() error {
			if room == nil {
				room = cf.rm.Add(-r.IntN(1 << 40))
				room.Add(ws)
			}
			n, err := room.BroadcastBytes(nil, pay(0, 1, 20))
			if n != 1 {
				return fmt.Errorf("broadcast to %d connections: %w", n, err)
			}
			return err
		}
	}
	prime := func() {
		// other writes before it, and how long before
		for range r.IntN(4) {
			if err := send(kinds[r.IntN(4)])(); err != nil {
				cf.bad("WriteWait", "a write to a peer that takes everything returned %v", err)
			}
			time.Sleep(time.Duration(r.Int64N(int64(cf.W) / []int64{2, 8, 40}[r.IntN(3)])))
		}
		if r.IntN(3) == 0 { // a message that takes longer than WriteWait altogether
			w, err := ws.NextWriter(nil, opBin)
			for i := 0; err == nil && i < 2+r.IntN(3); i++ {
				time.Sleep(time.Duration(r.Int64N(int64(cf.W))))
				if _, err = w.Write(pay(0, i, 20)); err == nil {
					err = w.Flush()
				}
			}
			if err == nil {
				err = w.Close()
			}
			if err != nil {
				cf.bad("WriteWait", "streaming to a peer that takes everything at once returned %v", err)
			}
		}
		time.Sleep(time.Millisecond)
	}
	if r.IntN(2) == 0 {
		prime()
		c.Stall()
		n := c.OutLen()
		kind := kinds[r.IntN(4)]
		op := cf.s.Timed0(send(kind))
		time.Sleep(cf.W * time.Duration(30+r.IntN(65)) / 100)
		c.Unstall()
		if !op.op.Within(cf.slack) || op.err != nil {
			cf.bad("WriteWait", "a write (%s) the peer took after %v, before WriteWait was over: returned %v, error %v", kind, time.Since(op.op.Start), op.op.Done(), op.err)
			ws.Close()
			return
		}
		time.Sleep(cf.slack)
		if c.Closed() || c.OutLen() == n {
			cf.bad("WriteWait", "a write (%s) the peer took before WriteWait was over was not finished (closed %v)", kind, c.Closed())
			return
		}
	}
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.Int64N(int64(cf.P))))
	}
	prime()
	c.Stall()
	kind := kinds[r.IntN(6)]
	if kind == "ping" && time.Since(t0) > cf.P-20*time.Millisecond {
		kind = "close" // a ping may be outstanding
	}
	start := time.Now()
	op := cf.s.Timed0(send(kind))
	if !op.op.Within(4*cf.W + time.Second) {
		cf.bad("WriteWait", "a write (%s) to a peer that takes nothing had not returned after %v", kind, time.Since(start))
		return
	}
	if kind == "broadcast" { // its the connection that waits
		time.Sleep(time.Until(start.Add(4*cf.W + time.Second)))
	}
	if !c.Closed() {
		cf.bad("WriteWait", "the connection was not closed %v after a write (%s) to a peer that takes nothing", time.Since(start), kind)
		ws.Close()
		return
	}
	took := c.ClosedAt().Sub(start)
	limit := cf.W + cf.slack
	k := (start.Sub(t0) - 20*time.Millisecond) / cf.P // a ping at the same time may prolong it
	if (k+1)*cf.P <= start.Sub(t0)+cf.W+20*time.Millisecond {
		limit = 3*cf.W + cf.slack
	}
	if kind != "broadcast" && kind != "close" && !snapws.IsFatalErr(op.err) {
		cf.bad("WriteWait", "a write (%s) to a peer that takes nothing returned %v", kind, op.err)
	}
	if took < cf.W-time.Microsecond || took > limit {
		cf.bad("WriteWait", "a write (%s) to a peer that takes nothing ended the connection after %v", kind, took)
	}
	cf.s.Count("WriteWait measured", 1)
}

type timed struct {
	op  *Op
	err error
}

func (s *S) Timed0(f func() error) *timed {
	x := &timed{}
	x.op = s.Go("call", func() { x.err = f() })
	return x
}

// messages up to the limits are delivered, one byte or frame more closes the connection.
func (cf *configured) probeSize(r *rand.Rand, frags bool) {
	c := NewMemConn()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	rd := cf.s.Reader(ws)
	typ := byte(opBin)
	feed := func(n, k int) {
		p := bytes.Repeat([]byte{'x'}, n)
		for i := range k {
			q := p
			if i < k-1 {
				q = p[:r.IntN(len(p)+1)]
				if r.IntN(4) == 0 {
					q = nil
				}
			}
			p = p[len(q):]
			f := cf0(typ, q)
			f.Fin = i == k-1
			if i > 0 {
				f.Op = 0
			}
			c.Feed(f.Bytes())
			if i%7 == 3 {
				c.Feed(cfr(opPing, nil))
			}
		}
		time.Sleep(15 * time.Millisecond)
	}
	if r.IntN(2) == 0 {
		typ = opText
	}
	maxF := cf.F
	if maxF == 0 {
		maxF = 40
	}
	var lens []int
	over, code := 0, 1009
	if frags {
		code = 1008
		n := min(100, cf.L)
		if cf.L < 0 {
			n = 100
		}
		for _, k := range []int{1, maxF, 1 + r.IntN(maxF), maxF} {
			feed(n, k)
			lens = append(lens, n)
		}
		if cf.F == 0 {
			feed(n, 300+r.IntN(400))
			lens = append(lens, n)
		} else {
			over = 1
			feed(n, maxF+1+r.IntN(2)*r.IntN(10))
		}
	} else {
		L := cf.L
		if L < 0 {
			L = 5000
			if r.IntN(8) == 0 {
				L = 1<<20 + 1 + r.IntN(1<<20)
				if r.IntN(6) == 0 {
					L = hugeSize(r)
				}
			}
		}
		one := func(n int) { feed(n, 1+r.IntN(min(maxF, 6))) }
		for _, n := range []int{0, r.IntN(L + 1), L, L} {
			if n > 100000 && len(lens) > 3 {
				continue
			}
			one(n)
			lens = append(lens, n)
		}
		if cf.L > 0 {
			over = 1
			n := L + 1
			if r.IntN(3) == 0 {
				n += r.IntN(70000)
			}
			one(n)
		}
	}
	time.Sleep(30 * time.Millisecond)
	got := rd.Msgs()
	what := fmt.Sprintf("messages of %v bytes (with up to %d fragments) within the limits, %d beyond", lens, maxF, over)
	if len(got) != len(lens) {
		cf.bad("limits", "%d messages were delivered, error %v; %s", len(got), rd.End(), what)
		ws.Close()
		return
	}
	for i, n := range lens {
		if len(got[i].Data) != n || got[i].Op != typ {
			cf.bad("limits", "message %d has %d bytes; %s", i, len(got[i].Data), what)
		}
	}
	if over == 0 {
		if rd.op.Done() || c.Closed() {
			cf.bad("limits", "the connection ended (%v) although no limit is set; %s", rd.End(), what)
		}
		ws.Close()
	} else {
		if !rd.op.Done() || !c.Closed() {
			cf.bad("limits", "a message beyond the limit was not refused; %s", what)
			ws.Close()
		} else if got := closedBy(c); got != code {
			cf.bad("limits", "a message beyond the limit closed the connection with %d instead of %d; %s", got, code, what)
		}
	}
	cf.s.Count("message limits measured", 1)
}

func cf0(op byte, p []byte) *CFrame { return cf(op, p, nil) }

// a connection that does not get on takes Q broadcasts (and the one it is at).
func (cf *configured) probeQueue(r *rand.Rand) {
	c := NewMemConn()
	ws, room := cf.open(c)
	if ws == nil {
		return
	}
	if room == nil {
		room = cf.rm.Add(-r.IntN(1 << 40))
		room.Add(ws)
	}
	w, err := ws.NextWriter(nil, opText)
	if err != nil {
		cf.bad("queue", "NextWriter returned %v", err)
		return
	}
	w.Write([]byte("first"))
	queued := 0
	for {
		var n int
		var err error
		op := cf.s.Go("broadcast", func() { n, err = room.BroadcastBytes(nil, pay(0, queued, 10)) })
		if !op.Within(20 * time.Millisecond) {
			// it waits
			if cf.strat != snapws.BackpressureWait {
				cf.bad("queue", "the broadcast after %d queued ones blocks", queued)
			}
			w.Close()
			if !op.Within(cf.slack) || n != 1 || err != nil {
				cf.bad("queue", "a broadcast that waited for the queue: returned %v: %d, %v", op.Done(), n, err)
			}
			queued++
			break
		}
		if n == 0 && err == nil {
			if cf.strat == snapws.BackpressureWait {
				cf.bad("queue", "the broadcast after %d queued ones was dropped", queued)
			}
			break
		}
		if n != 1 || err != nil {
			cf.bad("queue", "broadcast %d returned %d, %v", queued, n, err)
			break
		}
		queued++
		if queued > cf.Q+40 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	full := queued - b2i(cf.strat == snapws.BackpressureWait)
	if full != cf.Q && full != cf.Q+1 {
		cf.bad("queue", "a connection that does not get on took %d broadcasts, its queue has %d places", full, cf.Q)
	}
	time.Sleep(30 * time.Millisecond)
	if cf.strat == snapws.BackpressureClose {
		if !c.Closed() || closedBy(c) != 1008 {
			cf.bad("queue", "a connection whose queue was full: closed %v, code %d, expected 1008", c.Closed(), closedBy(c))
		}
		w.Close()
	} else {
		w.Close()
		time.Sleep(60 * time.Millisecond)
		wi := DecodeWire(c.Out(), true)
		if c.Closed() || len(wi.Msgs) != queued+1 {
			cf.bad("queue", "%d broadcasts were queued behind a message, %d messages arrived, closed %v", queued, len(wi.Msgs), c.Closed())
		}
		ws.Close()
	}
	cf.s.Count("broadcast queues measured", 1)
}

// batches leave every flush interval and are no larger than MaxBatchSize.
func (cf *configured) probeBatch(r *rand.Rand) {
	c := NewMemConn()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	if cf.Fl == 0 {
		if err := ws.Batch([]byte("1")); err == nil {
			cf.bad("batch", "batching is not enabled, Batch succeeded")
		}
		ws.Close()
		return
	}
	msg := func(n int) []byte { return append(append([]byte{'"'}, bytes.Repeat([]byte{'m'}, max(n, 2)-2)...), '"') }
	// shortly after a flush
	begin := func() (next time.Time) {
		k := time.Since(cf.enabled)/cf.Fl + 1
		time.Sleep(time.Until(cf.enabled.Add(k*cf.Fl + cf.Fl/3)))
		return cf.enabled.Add((k + 1) * cf.Fl)
	}
	batches := func() (out []bbatch) {
		b := &batcher{s: cf.s, u: cf.u, kind: cf.bkind, custom: map[*snapws.Conn][]bbatch{}}
		cf.mu.Lock()
		b.custom[ws] = append(b.custom[ws], cf.customCalls[ws]...)
		cf.mu.Unlock()
		return b.batches(ws, c, cf.name)
	}
	total := func(items [][]byte) (n int) {
		for _, x := range items {
			n += len(x)
		}
		return
	}
	M := cf.M
	if M > 100000 && r.IntN(4) > 0 {
		M = 3000 // within the limit, at least
	}
	for round := range 1 + r.IntN(2) {
		before := len(batches())
		next := begin()
		// exactly the limit, in up to 5 messages
		var sizes []int
		rest := M
		for range r.IntN(5) {
			if n := 2 + r.IntN(max(rest/2, 1)); rest-n >= 2 {
				sizes = append(sizes, n)
				rest -= n
			}
		}
		sizes = append(sizes, rest)
		for _, n := range sizes {
			if err := ws.Batch(msg(n)); err != nil {
				cf.bad("batch", "Batch returned %v", err)
				return
			}
		}
		over := r.IntN(2) == 0 && M == cf.M
		if over {
			if err := ws.Batch(msg(2)); err != nil {
				cf.bad("batch", "Batch returned %v", err)
				return
			}
		}
		time.Sleep(time.Until(next.Add(cf.slack)))
		got := batches()[before:]
		want := 1 + b2i(over)
		if len(got) != want {
			var l []string
			for _, g := range got {
				l = append(l, fmt.Sprintf("%d bytes at flush%v", total(g.items), g.t.Sub(next)))
			}
			cf.bad("batch", "messages of %v bytes together (the limit is %d, one more of 2 bytes: %v) at %v before the next flush gave %d batches: %v (round %d)", sizes, cf.M, over, cf.Fl*2/3, len(got), l, round)
			return
		}
		for i, g := range got {
			if total(g.items) > cf.M {
				cf.bad("batch", "a batch of %d messages has %d bytes, the limit is %d", len(g.items), total(g.items), cf.M)
			}
			if i == want-1 && g.t.Before(next.Add(-time.Microsecond)) {
				cf.bad("batch", "a batch was flushed %v early, the interval is %v", next.Sub(g.t), cf.Fl)
			}
		}
	}
	cf.s.Count("batches measured", 1)
	ws.Close()
}

func (cf *configured) probeUTF8(r *rand.Rand) {
	c := NewMemConn()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	n := 1 + r.IntN(30)
	if cf.L > 0 {
		n = min(n, cf.L)
	}
	p := bytes.Repeat([]byte{'a'}, n)
	p[r.IntN(n)] = 0xff
	c.Feed(cfr(opText, p))
	var got []byte
	var err error
	op := cf.s.Go("read", func() {
		if r.IntN(2) == 0 {
			_, got, err = ws.ReadMessage()
		} else {
			got, err = ws.ReadString()
		}
	})
	if !op.Within(cf.slack) {
		cf.bad("utf8", "a read of a complete message did not return")
		return
	}
	if cf.skipUTF8 {
		if err != nil || !bytes.Equal(got, p) || c.Closed() {
			cf.bad("utf8", "SkipUTF8Validation is set: a text message %q was read as %q, %v, closed %v", p, got, err, c.Closed())
		}
		ws.Close()
	} else if !snapws.IsFatalErr(err) || closedBy(c) != 1007 {
		cf.bad("utf8", "an invalid text message was read as %q, %v, close code %d", got, err, closedBy(c))
		ws.Close()
	}
	cf.s.Count("UTF-8 handling seen", 1)
}

// handshakes with other offers, refused by a middleware.
func (cf *configured) probeShake(r *rand.Rand) {
	for k := range 3 {
		c := NewMemConn()
		req := Request()
		req.Header.Del("Sec-WebSocket-Protocol")
		id := fmt.Sprintf("s%d", r.Int64())
		req.Header.Set("X-Id", id)
		var offer []string
		for range r.IntN(4) {
			offer = append(offer, []string{"v1", "v2", "v3", "chat", "V1", "v"}[r.IntN(6)])
		}
		if len(offer) > 0 {
			req.Header.Set("Sec-WebSocket-Protocol", strings.Join(offer, ", "))
		}
		want := ""
		for _, x := range offer {
			if slices.Contains(cf.protos, x) {
				want = x
				break
			}
		}
		ran := cf.mws
		refused := 0
		if cf.reject && want == "" {
			ran, refused = 0, 400
		} else if cf.mws > 0 && r.IntN(3) == 0 {
			i := r.IntN(cf.mws)
			req.Header.Set("X-Refuse", fmt.Sprintf("mw%d", i))
			ran, refused = i+1, 418
		}
		rw := NewRW(c, 4096, 4096, nil)
		ws, err := cf.u.Upgrade(rw, req)
		what := fmt.Sprintf("a handshake offering %v, refused by middleware %q of %d", offer, req.Header.Get("X-Refuse"), cf.mws)
		cf.mu.Lock()
		if err == nil {
			cf.conns = append(cf.conns, ws)
		}
		var seen []string
		for _, x := range cf.mwRan {
			if a, b, _ := strings.Cut(x, ":"); a == id {
				seen = append(seen, b)
			}
		}
		cf.mu.Unlock()
		for i, x := range seen {
			if x != fmt.Sprintf("mw%d", i) {
				cf.bad("middleware", "%s: the middlewares ran in the order %v", what, seen)
			}
		}
		switch {
		case len(seen) != ran:
			cf.bad("middleware", "%s: %v ran, expected %d", what, seen, ran)
		case (err != nil) != (refused != 0):
			cf.bad("handshake", "%s returned %v, expected status %d", what, err, refused)
		case refused != 0 && rw.Code != refused:
			cf.bad("handshake", "%s: status %d, expected %d", what, rw.Code, refused)
		case refused == 0 && ws.SubProtocol != want:
			cf.bad("handshake", "%s (round %d): subprotocol %q, expected %q", what, k, ws.SubProtocol, want)
		}
		if ws != nil {
			ws.Close()
		}
	}
	cf.s.Count("handshakes compared", 3)
}

// messages of all sizes pass whatever the buffers are.
func (cf *configured) probeEcho(r *rand.Rand) {
	c := NewMemConn()
	ws, _ := cf.open(c)
	if ws == nil {
		return
	}
	rd := cf.s.Reader(ws)
	var want [][]byte
	for k := range 4 {
		n := rsize(r, 9000)
		p := pay(1, k, n)
		if cf.L > 0 && len(p) > cf.L {
			p = p[:cf.L]
		}
		want = append(want, p)
		c.Feed(cfr(opBin, p))
		if err := ws.SendBytes(nil, p); err != nil {
			cf.bad("echo", "SendBytes returned %v", err)
		}
	}
	time.Sleep(20 * time.Millisecond)
	got := rd.Msgs()
	w := DecodeWire(c.Out(), true)
	if len(got) != len(want) || len(w.Msgs) != len(want) {
		cf.bad("echo", "%d messages each way, %d were read (%v), %d were sent (%s)", len(want), len(got), rd.End(), len(w.Msgs), w.Err)
	} else {
		for i, p := range want {
			if !bytes.Equal(got[i].Data, p) || !bytes.Equal(w.Msgs[i].Data, p) {
				cf.bad("echo", "message %d of %d bytes was read as %s, sent as %s", i, len(p), clip(got[i].Data), clip(w.Msgs[i].Data))
			}
		}
	}
	ws.Close()
}

var _ = register("C31", &Prop{Quick: 12000, Thorough: 300000,
	Rule: "two or three upgraders alive at once, each with a random subset of the options set (or none, or made by NewManager(nil) and the like), and two to five probes on connections of each at the same time, which measure what each option governs at its boundary: when a silent peer is dropped, when pings leave, how long a write waits, the largest message, most fragments, fullest queue and largest batch, UTF-8 handling, subprotocols, middlewares, hooks; non-trivial: at least two effects of options were measured",
	Run: func(t *testing.T, s *S) {
		r := s.R
		noise := s.Noise()
		s.Bubble(t, func() {
			var cs []*configured
			var ops []*Op
			for i := range 2 + r.IntN(2) {
				x := configure(s, i)
				x.slack = 2*time.Millisecond + s.vslack
				x.name += "; noise " + noise
				cs = append(cs, x)
			}
			var names []string
			for i, x := range cs {
				for k := range 2 + r.IntN(4) {
					pr := s.Rng(fmt.Sprint("probe", i, k))
					kind := r.IntN(11)
					if (kind == 3 || kind == 4) && x.L >= 1<<20 && kind == 3 && r.IntN(4) > 0 {
						kind = 4
					}
					f := []func(){
						func() { x.probeRead(pr) }, func() { x.probePing(pr) }, func() { x.probeWrite(pr) },
						func() { x.probeSize(pr, false) }, func() { x.probeSize(pr, true) }, func() { x.probeQueue(pr) },
						func() { x.probeBatch(pr) }, func() { x.probeUTF8(pr) }, func() { x.probeShake(pr) }, func() { x.probeEcho(pr) },
						func() { x.probeBatch(pr) },
					}[kind]
					s.Sig(kind)
					names = append(names, fmt.Sprint(i, ":", kind))
					ops = append(ops, s.Go("probe", f))
				}
			}
			for _, o := range ops {
				if !o.Within(90 * 24 * time.Hour) {
					s.Violate("hang", "a probe had not ended after 90 days\n%s", bubbleStacks(8))
					return
				}
			}
			for _, x := range cs {
				if x.Fl != 0 {
					x.u.Flusher.Close()
				}
				for _, ws := range x.conns {
					ws.Close()
				}
			}
			for _, x := range cs {
				time.Sleep(3*time.Minute + x.W)
			}
			for _, x := range cs {
				x.mu.Lock()
				for _, ws := range x.conns {
					if want := b2i(x.hooks); x.on[ws] != want || x.off[ws] != want {
						x.bad("hooks", "OnConnect ran %d times, OnDisconnect %d times for a connection, expected %d", x.on[ws], x.off[ws], want)
					}
					delete(x.on, ws)
					delete(x.off, ws)
				}
				if len(x.on)+len(x.off) > 0 {
					x.bad("hooks", "the hooks ran for %d connections of other upgraders", len(x.on)+len(x.off))
				}
				x.mu.Unlock()
			}
			s.Sample(strings.Join(names, " "))
			s.mu.Lock()
			n := int64(0)
			for _, k := range s.counters {
				n += k
			}
			s.mu.Unlock()
			if n >= 2 {
				s.NonTrivial()
			}
		})
	}})
