package h

import (
	"bufio"
	"errors"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// MemConn is the server side of an in-memory transport. It records what the server writes,
// delivers scripted input in scripted segments, honours deadlines, and can block, slow down or
// fail at chosen points, the way a TCP connection does.
type MemConn struct {
	mu   sync.Mutex
	cond *sync.Cond
	wsem chan struct{} // serialises Write calls, like the fd lock of a real connection

	in       [][]byte // segments
	inEOF    bool
	inErr    error
	reads    int
	rdl      time.Time
	rdTimer  *time.Timer
	readOffs int

	out     []byte
	marks   []wmark // one per Write call
	wdl     time.Time
	wdTimer *time.Timer

	closed  bool
	closedT time.Time
	wclosed bool
	nClose  int

	// behaviour
	Window    int   // bytes accepted before writes block; <0: unlimited
	FailAt    int   // fail the write that reaches this offset; <0: never
	FailErr   error // error for FailAt
	FailOnce  bool  // later writes succeed again
	failed    bool
	faults    int           // faults that took effect
	faultT    time.Time     // when the first one did
	SlowR     *rand.Rand    // when set, writes are copied in random pieces with pauses
	SlowMax   time.Duration // longest virtual pause
	SlowAll   time.Duration // when positive, what all pauses together may take
	SetWDErr  error         // error of SetWriteDeadline
	SetRDErr  error
	FailSetWD int // fail the n-th SetWriteDeadline (1-based)
	nSetWD    int
	OnWrite   func(total []byte) // after each Write, outside the lock
	OnWritten func()             // called with every partial progress, outside the lock
}

type wmark struct {
	Off, Len int
	T        time.Time
	Err      error
}

func NewMemConn() *MemConn {
	m := &MemConn{Window: -1, FailAt: -1, FailErr: errPipe, wsem: make(chan struct{}, 1)}
	m.cond = sync.NewCond(&m.mu)
	return m
}

var errEOF = io.EOF
var errReset = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}

// Feed appends one segment (each Read returns bytes of at most one segment).
func (m *MemConn) Feed(b []byte) {
	if len(b) == 0 {
		return
	}
	m.mu.Lock()
	m.in = append(m.in, append([]byte(nil), b...))
	m.mu.Unlock()
	m.cond.Broadcast()
}

func (m *MemConn) FeedSegs(segs [][]byte) {
	for _, x := range segs {
		m.Feed(x)
	}
}

func (m *MemConn) FeedEOF() { m.FeedErr(io.EOF) }
func (m *MemConn) FeedErr(err error) {
	m.mu.Lock()
	m.inErr = err
	m.inEOF = true
	m.mu.Unlock()
	m.cond.Broadcast()
}

func (m *MemConn) SetWindow(n int) {
	m.mu.Lock()
	m.Window = n
	m.mu.Unlock()
	m.cond.Broadcast()
}

// Stall makes writes block from the current offset on; Unstall lets them go.
func (m *MemConn) Stall()   { m.mu.Lock(); m.Window = len(m.out); m.mu.Unlock() }
func (m *MemConn) Unstall() { m.SetWindow(-1) }

func (m *MemConn) Out() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte(nil), m.out...)
}

// Stuck says whether the peer has stopped taking data.
func (m *MemConn) Stuck() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.Window >= 0 && len(m.out) >= m.Window && !m.closed
}
func (m *MemConn) OutLen() int { m.mu.Lock(); defer m.mu.Unlock(); return len(m.out) }
func (m *MemConn) Closed() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.closed
}
func (m *MemConn) ClosedAt() time.Time { m.mu.Lock(); defer m.mu.Unlock(); return m.closedT }
func (m *MemConn) fault() {
	if m.faults == 0 {
		m.faultT = time.Now()
	}
	m.faults++
}
func (m *MemConn) FaultAt() time.Time { m.mu.Lock(); defer m.mu.Unlock(); return m.faultT }
func (m *MemConn) Faults() int        { m.mu.Lock(); defer m.mu.Unlock(); return m.faults }
func (m *MemConn) Marks() []wmark {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]wmark(nil), m.marks...)
}

// PendingIn is the number of bytes fed and not yet read.
func (m *MemConn) PendingIn() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := 0
	for _, x := range m.in {
		n += len(x)
	}
	return n
}

func (m *MemConn) Read(p []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads++
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if m.closed {
			return 0, net.ErrClosed
		}
		if !m.rdl.IsZero() && !time.Now().Before(m.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(m.in) > 0 {
			n := copy(p, m.in[0])
			m.in[0] = m.in[0][n:]
			m.readOffs += n
			if len(m.in[0]) == 0 {
				m.in = m.in[1:]
			}
			return n, nil
		}
		if m.inEOF {
			return 0, m.inErr
		}
		m.cond.Wait()
	}
}

const runaway = 256 << 20
const maxWrites = 400_000

var runawayHit atomic.Bool // a connection was written to without end
var progress atomic.Int64  // transport calls, for the watchdog

func (m *MemConn) Write(p []byte) (n int, err error) {
	m.wsem <- struct{}{}
	m.mu.Lock()
	off := len(m.out)
	defer func() {
		m.mu.Lock()
		m.marks = append(m.marks, wmark{off, n, time.Now(), err})
		f := m.OnWrite
		if len(m.marks) > maxWrites {
			m.closed = true
			runawayHit.Store(true)
		}
		m.mu.Unlock()
		progress.Add(1)
		if f != nil && n > 0 {
			f(p[:n])
		}
		<-m.wsem
	}()
	for {
		if m.closed || m.wclosed {
			m.mu.Unlock()
			return n, net.ErrClosed
		}
		if m.failed {
			m.mu.Unlock()
			return n, m.FailErr
		}
		if n == len(p) {
			m.mu.Unlock()
			return n, nil
		}
		if !m.wdl.IsZero() && !time.Now().Before(m.wdl) {
			m.fault()
			m.mu.Unlock()
			return n, os.ErrDeadlineExceeded
		}
		k := len(p) - n
		if m.Window >= 0 && k > m.Window-len(m.out) {
			k = m.Window - len(m.out)
		}
		if m.FailAt >= 0 && len(m.out)+k > m.FailAt {
			k = m.FailAt - len(m.out)
			if k <= 0 {
				if m.FailOnce {
					m.FailAt = -1
				} else {
					m.failed = true
				}
				m.fault()
				m.mu.Unlock()
				return n, m.FailErr
			}
		}
		if k <= 0 {
			m.cond.Wait()
			continue
		}
		var pause time.Duration
		if m.SlowR != nil && m.SlowMax > 0 {
			if k > 1 {
				k = 1 + m.SlowR.IntN(k)
			}
			if m.SlowR.IntN(3) == 0 {
				pause = time.Duration(m.SlowR.Int64N(int64(m.SlowMax) + 1))
				if m.SlowAll > 0 {
					if m.SlowAll -= pause; m.SlowAll <= 0 {
						m.SlowMax = 0
					}
				}
			}
		}
		m.out = append(m.out, p[n:n+k]...)
		n += k
		if len(m.out) > runaway {
			m.closed = true
			runawayHit.Store(true)
		}
		m.mu.Unlock()
		if pause > 0 {
			time.Sleep(pause)
		}
		m.mu.Lock()
	}
}

func (m *MemConn) Close() error {
	m.mu.Lock()
	m.nClose++
	was := m.closed
	m.closed = true
	if !was {
		m.closedT = time.Now()
	}
	if m.rdTimer != nil {
		m.rdTimer.Stop()
	}
	if m.wdTimer != nil {
		m.wdTimer.Stop()
	}
	m.mu.Unlock()
	m.cond.Broadcast()
	if was {
		return net.ErrClosed
	}
	return nil
}

// CloseWrite ends the outgoing direction only, as on TCP.
func (m *MemConn) CloseWrite() error {
	m.mu.Lock()
	if m.closed {
		m.mu.Unlock()
		return net.ErrClosed
	}
	m.wclosed = true
	m.mu.Unlock()
	m.cond.Broadcast()
	return nil
}

type addr string

func (addr) Network() string  { return "mem" }
func (a addr) String() string { return string(a) }

func (m *MemConn) LocalAddr() net.Addr  { return addr("server") }
func (m *MemConn) RemoteAddr() net.Addr { return addr("client") }
func (m *MemConn) SetDeadline(t time.Time) error {
	if err := m.SetReadDeadline(t); err != nil {
		return err
	}
	return m.SetWriteDeadline(t)
}

func (m *MemConn) SetReadDeadline(t time.Time) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return net.ErrClosed
	}
	if m.SetRDErr != nil {
		m.fault()
		return m.SetRDErr
	}
	m.rdl = t
	if m.rdTimer != nil {
		m.rdTimer.Stop()
	}
	if !t.IsZero() {
		m.rdTimer = time.AfterFunc(time.Until(t), m.wake())
	}
	m.cond.Broadcast()
	return nil
}

func (m *MemConn) SetWriteDeadline(t time.Time) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return net.ErrClosed
	}
	m.nSetWD++
	if m.SetWDErr != nil {
		m.fault()
		return m.SetWDErr
	}
	if m.FailSetWD > 0 && m.nSetWD == m.FailSetWD {
		m.fault()
		return errors.New("injected SetWriteDeadline failure")
	}
	m.wdl = t
	if m.wdTimer != nil {
		m.wdTimer.Stop()
	}
	if !t.IsZero() {
		m.wdTimer = time.AfterFunc(time.Until(t), m.wake())
	}
	m.cond.Broadcast()
	return nil
}

// wake is what a deadline's timer does. A stopped timer may stay in the runtime's heap for long.
func (m *MemConn) wake() func() {
	w := weak.Make(m)
	return func() {
		if m := w.Value(); m != nil {
			m.cond.Broadcast()
		}
	}
}

// ---------------------------------------------------------------- handshake glue

// RW is the response writer given to Upgrade.
type RW struct {
	hdr       http.Header
	Code      int
	Body      []byte
	Hijacked  bool
	HijackErr error
	conn      *MemConn
	br        *bufio.Reader
	bw        *bufio.Writer
	NoHijack  bool
}

func (w *RW) Header() http.Header { return w.hdr }
func (w *RW) WriteHeader(c int) {
	if w.Code == 0 {
		w.Code = c
	}
}
func (w *RW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.Body = append(w.Body, b...)
	return len(b), nil
}
func (w *RW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.HijackErr != nil {
		return nil, nil, w.HijackErr
	}
	w.Hijacked = true
	return w.conn, bufio.NewReadWriter(w.br, w.bw), nil
}

// NewRW prepares a response writer over conn; early bytes are already in the HTTP read buffer.
func NewRW(conn *MemConn, brSize, bwSize int, early []byte) *RW {
	w := &RW{hdr: http.Header{}, conn: conn, br: bufio.NewReaderSize(conn, brSize), bw: bufio.NewWriterSize(conn, bwSize)}
	if len(early) > 0 {
		conn.Feed(early)
		w.br.Peek(min(len(early), brSize))
	}
	return w
}

func Request() *http.Request {
	r, _ := http.NewRequest("GET", "http://server/ws", nil)
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	r.Header.Set("Sec-WebSocket-Protocol", "chat")
	return r
}

// Peer is one connection seen from the outside.
type Peer struct {
	C  *MemConn
	WS *snapws.Conn
}

func Dial(u *snapws.Upgrader) (*Peer, error) {
	c := NewMemConn()
	return DialOn(u, c, nil)
}

func DialOn(u *snapws.Upgrader, c *MemConn, early []byte) (*Peer, error) {
	ws, err := u.Upgrade(NewRW(c, 4096, 4096, early), Request())
	return &Peer{c, ws}, err
}

// Wire decodes what the peer has received so far.
func (p *Peer) Wire() *Wire { return DecodeWire(p.C.Out(), true) }
