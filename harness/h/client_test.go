package h

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// Client is the remote peer: it decodes what the server writes as it is written and can react.
type Client struct {
	C    *MemConn
	mu   Mutex
	buf  []byte
	head bool // HTTP response seen
	dead bool // stopped decoding

	// reactions, called from inside the server's write
	OnFrame func(f Frame)
	T0      time.Time
}

// NewClient attaches a client to a transport before the handshake.
func NewClient(c *MemConn) *Client {
	cl := &Client{C: c, T0: time.Now()}
	c.mu.Lock()
	c.OnWrite = cl.onWrite
	c.mu.Unlock()
	return cl
}

func (cl *Client) onWrite(b []byte) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.dead {
		return
	}
	cl.buf = append(cl.buf, b...)
	if !cl.head {
		i := indexCRLF2(cl.buf)
		if i < 0 {
			return
		}
		cl.buf = cl.buf[i:]
		cl.head = true
	}
	for {
		f, n := parseFrame(cl.buf)
		if n == 0 {
			return
		}
		if n < 0 {
			cl.dead = true
			return
		}
		f.Payload = append([]byte(nil), f.Payload...)
		cl.buf = cl.buf[n:]
		if cl.OnFrame != nil {
			cl.OnFrame(f)
		}
	}
}

func indexCRLF2(b []byte) int {
	for i := 0; i+4 <= len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' && b[i+2] == '\r' && b[i+3] == '\n' {
			return i + 4
		}
	}
	return -1
}

// parseFrame decodes one unmasked frame: n=0 incomplete, n<0 not decodable.
func parseFrame(b []byte) (f Frame, n int) {
	if len(b) < 2 {
		return f, 0
	}
	l, h := uint64(b[1]&0x7f), 2
	if b[1]&0x80 != 0 {
		return f, -1
	}
	switch l {
	case 126:
		if len(b) < 4 {
			return f, 0
		}
		l, h = uint64(binary.BigEndian.Uint16(b[2:])), 4
	case 127:
		if len(b) < 10 {
			return f, 0
		}
		l, h = binary.BigEndian.Uint64(b[2:]), 10
		if l > 1<<40 {
			return f, -1
		}
	}
	if uint64(len(b)-h) < l {
		return f, 0
	}
	return Frame{Fin: b[0]&0x80 != 0, Op: b[0] & 0x0f, Payload: b[h : h+int(l)]}, h + int(l)
}

func cf(op byte, p []byte, r *rand.Rand) *CFrame {
	f := &CFrame{Fin: true, Op: op, Payload: p}
	if r != nil {
		f.Key = rkey(r)
	} else {
		f.Key = [4]byte{0x12, 0x34, 0x56, 0x78}
	}
	return f
}

// AutoPong answers every ping after the given delay.
func (cl *Client) AutoPong(delay time.Duration) {
	cl.OnFrame = func(f Frame) {
		if f.Op != opPing {
			return
		}
		pong := cf(opPong, f.Payload, nil).Bytes()
		if delay <= 0 {
			cl.C.Feed(pong)
			return
		}
		time.AfterFunc(delay, func() { cl.C.Feed(pong) })
	}
}

// feedFrames feeds whole frames (so that pongs can be put in between), spread over virtual time.
func feedFrames(c *MemConn, r *rand.Rand, fs []*CFrame, spread time.Duration) *sync.WaitGroup {
	var wg sync.WaitGroup
	if spread <= 0 || len(fs) == 0 {
		for _, f := range fs {
			c.Feed(f.Bytes())
		}
		return &wg
	}
	gap := int64(spread) / int64(len(fs))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, f := range fs {
			time.Sleep(time.Duration(r.Int64N(gap + 1)))
			c.Feed(f.Bytes())
		}
	}()
	return &wg
}

// rd is a reader goroutine of the application: it reads whole messages until a fatal error.
type rd struct {
	op   *Op
	mu   Mutex
	msgs []RMsg
	errs []error
	end  error
	endT time.Time
}

func (s *S) Reader(ws *snapws.Conn) *rd {
	d := &rd{}
	d.op = s.Go("reader", func() {
		soft := 0
		for {
			op, b, err := ws.ReadMessage()
			d.mu.Lock()
			if err == nil {
				d.msgs = append(d.msgs, RMsg{Op: op, Data: b})
				d.mu.Unlock()
				continue
			}
			d.errs = append(d.errs, err)
			if snapws.IsFatalErr(err) {
				d.end = err
				d.endT = time.Now()
				d.mu.Unlock()
				return
			}
			d.mu.Unlock()
			if soft++; soft > 100000 {
				return
			}
		}
	})
	return d
}

func (d *rd) Msgs() []RMsg { d.mu.Lock(); defer d.mu.Unlock(); return append([]RMsg(nil), d.msgs...) }
func (d *rd) End() error   { d.mu.Lock(); defer d.mu.Unlock(); return d.end }

// quiet options: nothing happens by itself for a very long time.
func quietOpts() *snapws.Options {
	return &snapws.Options{ReadWait: 1000 * time.Hour, PingEvery: 900 * time.Hour}
}

var bufSizes = []int{0, 1, 2, 14, 15, 16, 17, 20, 64, 128, 139, 140, 141, 500, 4096, 8192, 65536 + 14, 70000}

func outOpts(r *rand.Rand) *snapws.Options {
	o := quietOpts()
	switch r.IntN(4) {
	case 0:
		o.WriteBufferSize = bufSizes[r.IntN(len(bufSizes))]
	case 1:
		o.WriteBufferSize = 1 + r.IntN(300)
	case 2:
		o.WriteBufferSize = 1 + r.IntN(8000)
	}
	o.DisableWriteBuffersPooling = r.IntN(3) == 0
	if r.IntN(4) == 0 {
		o.SubProtocols = []string{"chat"}
	}
	return o
}

// slow makes the transport take its time.
func slow(s *S, c *MemConn, max time.Duration) {
	c.mu.Lock()
	c.SlowR, c.SlowMax = s.Rng("slow"), max
	c.mu.Unlock()
}

// dial opens a connection or reports a violation.
func (s *S) dial(u *snapws.Upgrader, c *MemConn) *snapws.Conn {
	br, bw := 4096, 4096
	if s.Idx%5 == 1 { // a server with small HTTP buffers
		br = []int{16, 17, 64, 100, 123, 124, 125, 126, 127, 131, 256}[s.Idx/5%11]
	}
	p, err := dialBW(u, c, br, bw)
	if err != nil {
		s.Violate("upgrade", "a valid request was refused: %v", err)
		return nil
	}
	return p
}

func dialBW(u *snapws.Upgrader, c *MemConn, br, bw int) (*snapws.Conn, error) {
	return u.Upgrade(NewRW(c, br, bw, nil), Request())
}

func isNonFatal(err error) bool { return err != nil && !snapws.IsFatalErr(err) }

var errHook = errors.New("hook error")

func plural(n int, w string) string { return fmt.Sprintf("%d %s", n, w) }

// frugal keeps a message from taking more than a few hundred frames.
func frugal(o *snapws.Options, n int) int {
	wb := o.WriteBufferSize
	if wb <= 0 {
		return n
	}
	if wb > 14 {
		wb -= 14
	}
	return min(n, 300*wb)
}

// mconnect connects a client under a key, in one step or in two.
func (s *S) mconnect(m *snapws.Manager[int], key int, rw http.ResponseWriter, req *http.Request) (*snapws.ManagedConn[int], error) {
	if (s.Idx+key)%7 != 3 {
		return m.Connect(key, rw, req)
	}
	ws, err := m.Upgrader.Upgrade(rw, req)
	if err != nil {
		return nil, err
	}
	mc := &snapws.ManagedConn[int]{Conn: ws, Key: key, Manager: m}
	m.Register(key, mc)
	return mc, nil
}
