package h

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"sync"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// The workloads of C26 run in real time on several processors under the race detector. The harness
// must not order the library's goroutines: the transport keeps its state in plain variables hidden
// from the detector, hooks touch nothing shared, and workers get at connections through the
// library's own registries or from inside its hooks.

// raceConn is a transport whose two directions share nothing the race detector can see.
type raceConn struct {
	in     chan []byte
	cur    []byte
	closed chan struct{}
	once   sync.Once
	rdl    int64
	wdl    int64
	n      int64
	stuck  int64 // bytes after which writes are not taken any more, <0: never
	failAt int64
	pong   bool
	slow   bool
}

//go:norace
func (c *raceConn) add(n int64) int64 { c.n += n; return c.n }

//go:norace
func (c *raceConn) get(p *int64) int64 { return *p }

//go:norace
func (c *raceConn) set(p *int64, v int64) { *p = v }

func newRaceConn() *raceConn {
	return &raceConn{in: make(chan []byte, 256), closed: make(chan struct{}), stuck: -1, failAt: -1}
}

func (c *raceConn) timer(p *int64) (<-chan time.Time, func() bool) {
	if d := c.get(p); d != 0 {
		t := time.NewTimer(time.Until(time.Unix(0, d)))
		return t.C, t.Stop
	}
	return nil, func() bool { return true }
}

func (c *raceConn) Read(p []byte) (int, error) {
	if len(c.cur) == 0 {
		tc, stop := c.timer(&c.rdl)
		defer stop()
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.cur = b
		case <-c.closed:
			return 0, net.ErrClosed
		case <-tc:
			return 0, os.ErrDeadlineExceeded
		}
	}
	n := copy(p, c.cur)
	c.cur = c.cur[n:]
	return n, nil
}

func (c *raceConn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, net.ErrClosed
	default:
	}
	t := c.add(int64(len(p)))
	if c.stuck >= 0 && t > c.stuck {
		tc, stop := c.timer(&c.wdl)
		defer stop()
		select {
		case <-c.closed:
			return 0, net.ErrClosed
		case <-tc:
			return 0, os.ErrDeadlineExceeded
		}
	}
	if c.failAt >= 0 && t > c.failAt {
		return 0, errPipe
	}
	if c.slow && t%5 == 0 {
		time.Sleep(time.Duration(t%7) * 10 * time.Microsecond)
	}
	if c.pong && len(p) == 2 && p[0] == 0x89 {
		select {
		case c.in <- cf(opPong, nil, nil).Bytes():
		default:
		}
	}
	return len(p), nil
}

func (c *raceConn) Close() error {
	err := net.ErrClosed
	c.once.Do(func() { close(c.closed); err = nil })
	return err
}
func (c *raceConn) LocalAddr() net.Addr  { return addr("server") }
func (c *raceConn) RemoteAddr() net.Addr { return addr("client") }
func (c *raceConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *raceConn) SetReadDeadline(t time.Time) error  { return c.setDL(&c.rdl, t) }
func (c *raceConn) SetWriteDeadline(t time.Time) error { return c.setDL(&c.wdl, t) }
func (c *raceConn) setDL(p *int64, t time.Time) error {
	select {
	case <-c.closed:
		return net.ErrClosed
	default:
	}
	if t.IsZero() {
		c.set(p, 0)
	} else {
		c.set(p, t.UnixNano())
	}
	return nil
}

// raceRW is a response writer over any net.Conn.
type raceRW struct {
	hdr http.Header
	c   net.Conn
	br  *bufio.Reader
	bw  *bufio.Writer
}

func (w *raceRW) Header() http.Header         { return w.hdr }
func (w *raceRW) WriteHeader(int)             {}
func (w *raceRW) Write(b []byte) (int, error) { return len(b), nil }
func (w *raceRW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.c, bufio.NewReadWriter(w.br, w.bw), nil
}

// oplog is the order in which calls ended, kept without ordering anything.
type oplog struct {
	n int
	b [4096]byte
}

//go:norace
func (l *oplog) add(g, op int) {
	if l.n < len(l.b) {
		l.b[l.n] = byte(g<<4 | op&15)
		l.n++
	}
}

//go:norace
func (l *oplog) sum() (int, uint64) { n := min(l.n, len(l.b)); return n, hash64(string(l.b[:n])) }

var sharedText = []byte(`{"shared":"by every sender and every broadcast, never to be written to","n":[1,2,3]}`)
var sharedBig = func() []byte { return pay(9, 9, 9000) }()

// rworld is one upgrader with registries under stress.
type rworld struct {
	s      *S
	id     int
	u      *snapws.Upgrader
	m      *snapws.Manager[int]
	rm     *snapws.RoomManager[int]
	log    *oplog
	cancel context.CancelFunc
	ln     net.Listener
	srv    *http.Server
	left   int32
	trs    [64]net.Conn // transports, to be closed at the end
	ntrs   int
}

// spawn starts a goroutine that ends by itself once the transports are closed.
func (w *rworld) spawn(f func()) { go f() }

//go:norace
func (w *rworld) keep(c net.Conn) {
	if w.ntrs < len(w.trs) {
		w.trs[w.ntrs] = c
		w.ntrs++
	}
}

//go:norace
func (w *rworld) closeAll() {
	for _, c := range w.trs {
		if c != nil {
			c.Close()
		}
	}
}

//go:norace
func (w *rworld) budget() bool { w.left--; return w.left >= 0 }

func (w *rworld) rng(tag string) *rand.Rand { return w.s.Rng(fmt.Sprint(tag, w.id)) }

// use is what an application goroutine does with a connection.
func (w *rworld) use(ws *snapws.Conn, r *rand.Rand, g int) {
	op := r.IntN(16)
	var ctx context.Context
	switch r.IntN(5) {
	case 0:
	case 1:
		c, cancel := context.WithTimeout(bg, time.Duration(r.IntN(2000))*time.Microsecond)
		defer cancel()
		ctx = c
	case 2:
		c, cancel := context.WithCancel(bg)
		defer cancel()
		ctx = c
	default:
		ctx = bg
	}
	p := sharedText
	if r.IntN(4) == 0 {
		p = sharedBig
	}
	switch op {
	case 0, 1:
		ws.SendString(ctx, p)
	case 2:
		ws.SendBytes(ctx, p)
	case 3:
		ws.SendJSON(ctx, map[string]any{"a": 1, "b": "x"})
	case 4, 5:
		cw, err := ws.NextWriter(ctx, byte(1+r.IntN(2)))
		if err == nil {
			for range r.IntN(4) {
				if _, err := cw.Write(p[:r.IntN(len(p))]); err != nil {
					break
				}
				if r.IntN(2) == 0 && cw.Flush() != nil {
					break
				}
			}
			cw.Close()
			if r.IntN(3) == 0 {
				cw.Close()
				cw.Write(p)
			}
		}
	case 6, 7:
		ws.Ping()
	case 8, 9:
		ws.Batch(sharedText)
	case 10:
		ws.BatchJSON([]int{1, 2})
	case 11:
		ws.MetaData.Store(r.IntN(4), g)
		ws.MetaData.Load(r.IntN(4))
		_ = publicFields(ws)
	case 12:
		if r.IntN(4) == 0 {
			ws.Close()
		}
	case 13:
		if r.IntN(4) == 0 {
			ws.CloseWithCode(4000, "enough")
		}
	case 14:
		ws.NetConn().RemoteAddr()
	case 15:
		if r.IntN(8) == 0 {
			ws.NetConn().Close()
		}
	}
	w.log.add(g, op)
}

// publicFields reads what the library publishes: a race with it is the library's.
//
//go:noinline
func publicFields(ws *snapws.Conn) int { return len(ws.SubProtocol) }

func (w *rworld) read(ws *snapws.Conn, r *rand.Rand) {
	buf := make([]byte, 64)
	for range 500 {
		var err error
		switch r.IntN(5) {
		case 0:
			_, err = ws.ReadString()
		case 1:
			_, err = ws.ReadBinary()
		case 2:
			var v any
			err = ws.ReadJSON(&v)
		case 3:
			var rd io.Reader
			if rd, _, err = ws.NextReader(); err == nil {
				for range r.IntN(5) {
					if _, e := rd.Read(buf[:r.IntN(len(buf))]); e != nil {
						if snapws.IsFatalErr(e) {
							err = e
						}
						break
					}
				}
			}
		default:
			_, _, err = ws.ReadMessage()
		}
		if snapws.IsFatalErr(err) {
			return
		}
	}
}

// dial makes one connection and the client behind it.
func (w *rworld) dial(r *rand.Rand, g int) {
	if !w.budget() {
		return
	}
	var script [][]byte
	for range r.IntN(12) {
		switch r.IntN(6) {
		case 0:
			script = append(script, cf(opPing, rbytes(r, r.IntN(126)), r).Bytes())
		case 1:
			f := cf(opText, []byte("frag"), r)
			f.Fin = false
			script = append(script, f.Bytes(), cf(opPing, nil, r).Bytes(), cf(opCont, []byte("mented"), r).Bytes())
		case 2:
			script = append(script, cf(opBin, rbytes(r, r.IntN(3000)), r).Bytes())
		default:
			script = append(script, cf(opText, sharedText, r).Bytes())
		}
	}
	switch r.IntN(8) {
	case 0:
		script = append(script, cf(opClose, []byte{3, 232}, r).Bytes())
	case 1:
		script = append(script, []byte{0xff, 0xff})
	}
	eof := r.IntN(3) == 0
	if w.ln != nil && r.IntN(2) == 0 {
		c, err := net.Dial("tcp", w.ln.Addr().String())
		if err != nil {
			return
		}
		w.keep(c)
		w.spawn(func() {
			defer c.Close()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			io.WriteString(c, "GET /ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
			w.spawn(func() {
				for _, b := range script {
					c.Write(b)
				}
				if eof {
					c.(*net.TCPConn).CloseWrite()
				}
			})
			io.Copy(io.Discard, c)
		})
		return
	}
	c := newRaceConn()
	w.keep(c)
	c.pong = r.IntN(2) == 0
	c.slow = r.IntN(3) == 0
	switch r.IntN(10) {
	case 0:
		c.stuck = 400 + int64(r.IntN(3000))
	case 1:
		c.failAt = int64(r.IntN(3000)) * int64(r.IntN(2))
	}
	early := r.IntN(3) == 0
	rw := &raceRW{hdr: http.Header{}, c: c, br: bufio.NewReader(c), bw: bufio.NewWriter(c)}
	if early && len(script) > 0 {
		c.in <- script[0]
		script = script[1:]
		rw.br.Peek(1)
	}
	w.spawn(func() {
		for _, b := range script {
			select {
			case c.in <- b:
			case <-c.closed:
				return
			}
		}
		if eof {
			select {
			case c.in <- []byte{0x88, 0x80, 1, 2, 3, 4}:
			case <-c.closed:
			}
		}
	})
	w.serve(rw, Request(), r, g)
}

func (w *rworld) serve(rw http.ResponseWriter, req *http.Request, r *rand.Rand, g int) {
	var ws *snapws.Conn
	switch r.IntN(4) {
	case 0:
		c, room, err := w.rm.Connect(rw, req, r.IntN(3), "arg")
		if err != nil {
			return
		}
		_ = room
		ws = c
	default:
		mc, err := w.m.Connect(r.IntN(6), rw, req)
		if err != nil {
			return
		}
		ws = mc.Conn
		w.rm.Add(r.IntN(3)).Add(ws)
	}
	w.log.add(g, 14)
	if v, _ := ws.MetaData.Load("reader"); v == nil {
		k := r.Uint64()
		w.spawn(func() { w.read(ws, rand.New(rand.NewPCG(k, 2))) })
	}
}

// registry makes one call on the registries.
func (w *rworld) registry(r *rand.Rand, g int) {
	op := r.IntN(20)
	var ctx context.Context = bg
	if r.IntN(3) == 0 {
		c, cancel := context.WithTimeout(bg, time.Duration(r.IntN(1000))*time.Microsecond)
		defer cancel()
		ctx = c
	}
	room := w.rm.Get(r.IntN(3))
	if room == nil {
		room = w.rm.Add(r.IntN(3))
	}
	var some *snapws.Conn
	if l := w.m.GetAllConnsAsConn(r.IntN(8)); len(l) > 0 {
		some = l[r.IntN(len(l))]
	}
	switch op {
	case 0, 1:
		w.dial(r, g)
	case 2:
		if mc := w.m.Get(r.IntN(6)); mc != nil {
			w.use(mc.Conn, r, g)
		}
	case 3:
		for _, mc := range w.m.GetAllConns() {
			_ = mc.Key
		}
	case 4, 5:
		w.m.BroadcastString(ctx, sharedText)
	case 6:
		w.m.BroadcastBytes(ctx, sharedBig, r.IntN(6))
	case 7:
		w.m.BatchBroadcast(ctx, sharedText)
	case 8:
		room.BatchBroadcastJSON(ctx, 1)
	case 9:
		room.BroadcastBytes(ctx, sharedText)
	case 10:
		room.BroadcastJSON(ctx, "x")
	case 11:
		if some != nil {
			room.Add(some, 1)
		}
	case 12:
		if some != nil {
			room.Remove(some)
		}
	case 13:
		if some != nil {
			room.Move(some, r.IntN(3))
		}
	case 14:
		for _, ws := range room.GetAllConns() {
			w.use(ws, r, g)
		}
	case 15:
		w.rm.GetRoomKeys()
	case 16:
		if r.IntN(4) == 0 {
			room.Close()
		}
	case 17:
		if r.IntN(4) == 0 {
			room.RemoveAll()
		}
	case 18:
		switch r.IntN(12) {
		case 0:
			w.m.Shutdown()
		case 1:
			w.rm.Shutdown()
		case 2:
			if w.u.Flusher != nil {
				w.u.Flusher.Close()
			}
		case 3:
			w.cancel()
		}
	default:
		if some != nil {
			w.use(some, r, g)
		}
	}
	w.log.add(g, op)
}

func newRaceWorld(s *S, id int) *rworld {
	w := &rworld{s: s, id: id, log: &oplog{}, left: 12}
	r := w.rng("world")
	o := outOpts(r)
	if o.WriteBufferSize != 0 && o.WriteBufferSize < 256 {
		o.WriteBufferSize += 256
	}
	o.WriteWait = time.Duration(5+r.IntN(30)) * time.Millisecond
	o.ReadWait = 3 * time.Second
	o.PingEvery = time.Duration(1+r.IntN(8)) * time.Millisecond
	o.BroadcastChannelsSize = 1 + r.IntN(4)
	o.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[r.IntN(3)]
	o.MaxBatchSize = 1 + r.IntN(2000)
	if r.IntN(3) == 0 {
		o.ReaderMaxFragments = 2
	}
	inHook := r.IntN(2) == 0
	o.OnConnect = func(ws *snapws.Conn) {
		if !inHook {
			return
		}
		hr := rand.New(rand.NewPCG(s.Seed, hash64(fmt.Sprintf("%p", ws))))
		if hr.IntN(3) == 0 {
			ws.MetaData.Store("reader", true)
			k := hr.Uint64()
			w.spawn(func() { w.read(ws, rand.New(rand.NewPCG(k, 2))) })
			return
		}
		for range hr.IntN(3) {
			k := hr.Uint64()
			w.spawn(func() {
				gr := rand.New(rand.NewPCG(k, k))
				for range 3 {
					w.use(ws, gr, 15)
				}
			})
		}
	}
	o.OnDisconnect = func(ws *snapws.Conn) { ws.MetaData.Load(1) }
	w.u = snapws.NewUpgrader(o)
	ctx, cancel := context.WithCancel(bg)
	w.cancel = cancel
	every := time.Duration(100+r.IntN(4000)) * time.Microsecond
	switch r.IntN(4) {
	case 0:
		w.u.EnableJSONBatching(ctx, every)
	case 1:
		w.u.EnablePrefixBatching(ctx, every)
		w.u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return sharedText }
		w.u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return sharedText }
	case 2:
		w.u.EnableBatching(ctx, every, func(ctx context.Context, ws *snapws.Conn, ms [][]byte) error {
			for _, m := range ms {
				if err := ws.SendBytes(ctx, m); err != nil {
					return err
				}
			}
			return nil
		})
	}
	if r.IntN(3) == 0 {
		w.u.Limiter = snapws.NewRateLimiter(50, 3)
		if r.IntN(2) == 0 {
			w.u.Limiter.OnRateLimitHit = func(ws *snapws.Conn) error {
				ws.SendString(nil, sharedText)
				return nil
			}
		} else {
			w.u.Limiter.OnRateLimitHit = func(ws *snapws.Conn) error { return errors.New("too fast") }
		}
	}
	w.m = snapws.NewManager[int](w.u)
	w.m.OnRegister = func(mc *snapws.ManagedConn[int]) { _ = mc.Key }
	w.m.OnUnregister = func(mc *snapws.ManagedConn[int]) { _ = mc.Key }
	w.rm = snapws.NewRoomManager[int](w.u)
	w.rm.DefaultOnJoin = func(rm *snapws.Room[int], ws *snapws.Conn, a ...any) { ws.MetaData.Store("room", rm.Key) }
	w.rm.DefaultOnLeave = func(rm *snapws.Room[int], ws *snapws.Conn, a ...any) { ws.MetaData.Load("room") }
	if r.IntN(4) == 0 {
		if ln, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
			w.ln = ln
			sr := w.rng("serve")
			seeds := make(chan uint64, 64)
			for range cap(seeds) {
				seeds <- sr.Uint64()
			}
			w.srv = &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
				k := <-seeds
				w.serve(rw, req, rand.New(rand.NewPCG(k, 1)), 14)
			})}
			go w.srv.Serve(ln)
		}
	}
	return w
}

func (s *S) raceRun() {
	r := s.R
	nw := 1 + r.IntN(2)
	noise := s.Noise()
	ops, calls := 0, 0
	var ws []*rworld
	var wg sync.WaitGroup
	for i := range nw {
		w := newRaceWorld(s, i)
		ws = append(ws, w)
		G := 3 + r.IntN(8)
		N := 6 + r.IntN(20)
		calls += G * N
		for range 2 {
			w.dial(w.rng("first"), 0)
		}
		for g := range G {
			gr := w.rng(fmt.Sprint("g", g))
			wg.Go(func() {
				for range N {
					w.registry(gr, g)
					if gr.IntN(4) == 0 {
						time.Sleep(time.Duration(gr.IntN(300)) * time.Microsecond)
					}
				}
			})
		}
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		for _, w := range ws {
			if w.ln != nil {
				w.ln.Close()
			}
			if w.u.Flusher != nil {
				w.u.Flusher.Close()
			}
			w.m.Shutdown()
			w.rm.Shutdown()
			if w.srv != nil {
				w.srv.Close()
			}
			w.cancel()
			w.closeAll()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(12 * time.Second):
		var b []byte
		for _, g := range goroutines() {
			b = fmt.Appendf(b, "%s\n%s\n", g.hdr, shortStack(g.body))
		}
		s.Inconclusive("the calls of the scenario did not end (whether they must is decided by C12 and C13)\n" + string(b))
	}
	h := uint64(0)
	for _, w := range ws {
		n, x := w.log.sum()
		ops += n
		h = h*31 + x
	}
	s.Sig(h)
	s.Count("calls_observed", ops)
	s.Count("worlds", nw)
	if ops > 10 {
		s.NonTrivial()
	}
	s.Sample(map[string]any{"worlds": nw, "calls": ops, "noise": noise})
}

// the bubble workloads of other properties that run the library concurrently, for the detector only
var raceReuse = []string{"C09", "C12", "C13", "C14", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28"}

var _ = register("C26", &Prop{Quick: 4500, Thorough: 40000,
	Rule: "two of three scenarios: 1 or 2 upgraders with a manager, rooms, batching, rate limiting, pings and up to 12 connections each (in-memory transports whose directions share no synchronisation, and real TCP through net/http), used in real time by 3 to 10 goroutines, goroutines started inside the connect hook and one reader per connection, payload slices shared by all senders, up to shutdown; the third scenario: a concurrent workload of another property; all under the race detector; distinct: different orders of call completions",
	Run: func(t *testing.T, s *S) {
		if s.Idx%3 != 2 {
			s.raceRun()
			return
		}
		id := raceReuse[(s.Idx/3)%len(raceReuse)]
		s.Count("workload of "+id, 1)
		props[id].Run(t, s)
		// what that workload judges is decided by its own check
		s.mu.Lock()
		if len(s.vios) > 0 {
			s.counters["verdicts of other properties ignored"]++
			s.vios = nil
		}
		s.inconcl = ""
		s.mu.Unlock()
	}})
