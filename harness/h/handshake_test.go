package h

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

func acceptOf(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// hs is a generated request.
type hs struct {
	Method string
	Lines  [][2]string // header lines in order
	Valid  bool
	Key    string
	Why    string
	Offers []string // sub-protocols in the client's order
}

func recase(r *rand.Rand, x string) string {
	b := []byte(x)
	m := r.IntN(4)
	for i := range b {
		if m == 1 || m == 2 && r.IntN(2) == 0 {
			b[i] = bytes.ToUpper(b[i : i+1])[0]
		} else if m == 3 {
			b[i] = bytes.ToLower(b[i : i+1])[0]
		}
	}
	return string(b)
}

// list spreads tokens over header lines with legal white space and empty elements.
func list(r *rand.Rand, name string, toks []string) (out [][2]string) {
	ws := func() string { return []string{"", "", " ", "  ", "\t", " \t "}[r.IntN(6)] }
	for i := 0; i < len(toks); {
		n := 1 + r.IntN(len(toks)-i)
		var parts []string
		for _, x := range toks[i : i+n] {
			if r.IntN(8) == 0 {
				parts = append(parts, ws())
			}
			parts = append(parts, ws()+x+ws())
		}
		if r.IntN(10) == 0 {
			parts = append(parts, ws())
		}
		v := strings.Trim(strings.Join(parts, ","), " \t")
		out = append(out, [2]string{name, v})
		i += n
	}
	return
}

func shuffleIn(r *rand.Rand, toks []string, x string) []string {
	i := r.IntN(len(toks) + 1)
	out := append([]string(nil), toks[:i]...)
	out = append(out, x)
	return append(out, toks[i:]...)
}

var fillers = []string{"keep-alive", "h2c", "foo", "close", "TE", "websockets", "upgraded", "x-websocket", "up grade", "HTTP/2.0", "web", "socket"}

// near returns a token that is almost the given one.
func near(r *rand.Rand, x string) string {
	switch r.IntN(6) {
	case 0:
		return recase(r, x) + []string{"/2", "/13", ";q=1", "=1", ";", "s", "-", ".", "0", "2.0", "\"", " x"}[r.IntN(12)]
	case 1:
		return []string{"x", "not-", "x ", "\"", "*/", "1", "no", ".", "h2-", "="}[r.IntN(10)] + recase(r, x)
	case 2:
		i := r.IntN(len(x))
		return x[:i] + x[i+1:]
	case 3:
		b := []byte(x)
		i := r.IntN(len(b))
		b[i] = "abcdefghijlmnopqrtuvwxyz0123456789-_ "[r.IntN(37)]
		if strings.EqualFold(string(b), x) {
			return x + x
		}
		return strings.TrimSpace(string(b)) + "-"
	case 4:
		i := 1 + r.IntN(len(x)-1)
		return x[:i] + []string{" ", "-", "x", "\"", ";", "\t"}[r.IntN(6)] + x[i:]
	default:
		return "\"" + x + "\""
	}
}

func genHS(r *rand.Rand, protos []string) hs {
	h := hs{Method: "GET", Valid: true}
	bad := func(w string) { h.Valid = false; h.Why += w + " " }
	br := -1
	if r.IntN(2) == 0 {
		br = r.IntN(5)
	}
	if br == 0 {
		h.Method = []string{"POST", "HEAD", "PUT", "get", "Get", "CONNECT", "OPTIONS", "PATCH"}[r.IntN(8)]
		bad("method " + h.Method)
	}
	crowd := func(n int) int { // now and then a long list
		if r.IntN(60) == 0 {
			n *= 15
		}
		return r.IntN(n)
	}
	fill := func() (o []string) {
		for range crowd(4) {
			o = append(o, fillers[r.IntN(len(fillers))])
		}
		return
	}
	fillNear := func(tok string) (o []string) {
		for _, x := range fill() {
			if r.IntN(3) == 0 {
				x = near(r, tok)
			}
			o = append(o, x)
		}
		return
	}
	up := fillNear("websocket")
	if br == 1 {
		bad("upgrade")
		if r.IntN(3) == 0 {
			up = nil
		}
	} else {
		up = shuffleIn(r, up, recase(r, "websocket"))
	}
	co := fillNear("upgrade")
	if br == 2 {
		bad("connection")
		if r.IntN(3) == 0 {
			co = nil
		}
	} else {
		co = shuffleIn(r, co, recase(r, "upgrade"))
	}
	ver := "13"
	if br == 3 {
		ver = []string{"", "8", "12", "14", "130", "13.0", "1 3", "0", "013", "13, 8", "-13", "x13", "13;", "13 13", "8, 13x", "\"13\"", "1", "3", "0x0d", "13e0", "٣"}[r.IntN(21)]
		bad("version " + ver)
	}
	raw := rbytes(r, 16)
	h.Key = base64.StdEncoding.EncodeToString(raw)
	if br == 4 {
		switch r.IntN(8) {
		case 0:
			h.Key = ""
		case 1:
			h.Key = base64.StdEncoding.EncodeToString(rbytes(r, []int{0, 1, 15, 17, 18, 24, 32}[r.IntN(7)]))
		case 2:
			h.Key = h.Key[:22]
		case 3:
			h.Key = h.Key + "="
		case 4:
			b := []byte(h.Key)
			b[r.IntN(22)] = "!-_*.:"[r.IntN(6)]
			h.Key = string(b)
		case 5:
			h.Key = h.Key[:23]
		case 6:
			h.Key += h.Key
		default:
			h.Key = "0123456789abcdef"
		}
		bad("key " + h.Key)
	}
	var ls [][2]string
	ls = append(ls, list(r, recase(r, "Upgrade"), up)...)
	ls = append(ls, list(r, recase(r, "Connection"), co)...)
	if ver != "" || r.IntN(2) == 0 {
		ls = append(ls, [2]string{recase(r, "Sec-WebSocket-Version"), ver})
	}
	if h.Key != "" || r.IntN(2) == 0 {
		ls = append(ls, [2]string{recase(r, "Sec-WebSocket-Key"), h.Key})
	}
	if len(protos) > 0 {
		for range crowd(5) {
			h.Offers = append(h.Offers, protos[r.IntN(len(protos))])
		}
		ls = append(ls, list(r, recase(r, "Sec-WebSocket-Protocol"), h.Offers)...)
	}
	for i := range crowd(3) {
		ls = append(ls, [2]string{fmt.Sprint("X-Other-", i), "upgrade, websocket, 13"})
	}
	// shuffle, keeping the order of lines with the same name
	for k := 0; k < len(ls); k++ {
		i := r.IntN(len(ls))
		j := r.IntN(len(ls))
		if i > j {
			i, j = j, i
		}
		ok := true
		for x := i; x < j; x++ {
			if strings.EqualFold(ls[x][0], ls[j][0]) || strings.EqualFold(ls[x][0], ls[i][0]) && x != i {
				ok = false
			}
		}
		if ok && !strings.EqualFold(ls[i][0], ls[j][0]) {
			ls[i], ls[j] = ls[j], ls[i]
		}
	}
	h.Lines = ls
	return h
}

func (h hs) request() *http.Request {
	r, _ := http.NewRequest("GET", "http://server/ws", nil)
	r.Method = h.Method
	for _, l := range h.Lines {
		r.Header.Add(l[0], l[1])
	}
	return r
}

func (h hs) String() string {
	return fmt.Sprintf("%s %q", h.Method, h.Lines)
}

// judge101 checks the response to an accepted request.
func judge101(c *MemConn, rw *RW, h hs) string {
	w := DecodeWire(c.Out(), true)
	if rw.Code != 0 || len(rw.Body) > 0 {
		return fmt.Sprintf("a response was also written through the HTTP server (status %d)", rw.Code)
	}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(w.HTTP)), nil)
	if err != nil {
		return fmt.Sprintf("the response does not parse (%v): %s", err, clip(w.HTTP))
	}
	if resp.StatusCode != 101 {
		return fmt.Sprintf("status %d", resp.StatusCode)
	}
	if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.EqualFold(resp.Header.Get("Connection"), "upgrade") {
		return fmt.Sprintf("response headers %v", resp.Header)
	}
	if a := resp.Header.Values("Sec-Websocket-Accept"); len(a) != 1 || a[0] != acceptOf(h.Key) {
		return fmt.Sprintf("accept value %q, expected %q", a, acceptOf(h.Key))
	}
	if w.Err != "" {
		return "after the response: " + w.Err
	}
	return ""
}

var _ = register("C16", &Prop{Quick: 80000, Thorough: 2000000,
	Rule: "1 to 4 concurrent requests that are valid or break exactly one requirement, with tokens in lists and repeated lines, any case and white space, bytes of the first message sent along, slow transports, frames sent at once by the connect hook and by short ping intervals; every 40th scenario runs over TCP through net/http; non-trivial: at least one request was judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		if s.Idx%40 == 7 {
			tcpHandshakes(s)
			return
		}
		o := quietOpts()
		if r.IntN(3) == 0 {
			o.PingEvery = time.Duration(1+r.IntN(2000)) * time.Microsecond
			o.ReadWait = time.Hour
		}
		o.WriteBufferSize = []int{0, 1, 100, 4096}[r.IntN(4)]
		noise := s.Noise()
		n := 1 + r.IntN(4)
		if s.Long(500) {
			n = 40 + r.IntN(80)
		}
		var hss []hs
		for range n {
			hss = append(hss, genHS(r, nil))
		}
		hookSends := r.IntN(2) == 0
		s.Sig(fmt.Sprint(hss))
		s.Bubble(t, func() {
			if hookSends {
				o.OnConnect = func(ws *snapws.Conn) {
					if err := ws.SendString(bg, []byte("hello")); err != nil {
						s.Violate("hook-send", "sending from the connect hook failed: %v", err)
					}
				}
			}
			u := snapws.NewUpgrader(o)
			var ops []*Op
			for i, h := range hss {
				gr := s.Rng(fmt.Sprint("req", i))
				ops = append(ops, s.Go("handshake", func() {
					c := NewMemConn()
					NewClient(c)
					if gr.IntN(2) == 0 {
						c.mu.Lock()
						c.SlowR, c.SlowMax = gr, 500*time.Microsecond
						c.mu.Unlock()
					}
					var early []byte
					if gr.IntN(3) == 0 {
						early = cf(opText, []byte("early"), gr).Bytes()
					}
					rw := NewRW(c, 4096, []int{4096, 1, 64, 200}[gr.IntN(4)], early)
					ws, err := u.Upgrade(rw, h.request())
					if !h.Valid {
						switch {
						case err == nil || ws != nil:
							s.Violate("accepted", "accepted a request with an invalid %s; %s", h.Why, h)
						case rw.Code < 400 || rw.Code > 599:
							s.Violate("status", "refused with status %d; %s", rw.Code, h)
						case c.OutLen() > 0 || rw.Hijacked:
							s.Violate("status", "the refused connection was taken over (%d bytes written to it); %s", c.OutLen(), h)
						}
						s.Count("refused", 1)
						return
					}
					if err != nil || ws == nil {
						s.Violate("refused", "refused a valid request: %v; %s", err, h)
						return
					}
					time.Sleep(5 * time.Millisecond)
					if early != nil {
						b, err := ws.ReadString()
						if err != nil || string(b) != "early" {
							s.Violate("early", "a message sent with the handshake was read as %s, %v; %s", clip(b), err, h)
						}
					}
					c.mu.Lock()
					c.SlowR = nil
					c.mu.Unlock()
					time.Sleep(50 * time.Millisecond)
					if bad := judge101(c, rw, h); bad != "" {
						s.Violate("response", "%s; %s", bad, h)
					}
					if w := DecodeWire(c.Out(), true); hookSends && (len(w.Msgs) != 1 || string(w.Msgs[0].Data) != "hello") {
						s.Violate("response", "the message sent by the connect hook is not on the wire; %s", h)
					}
					s.Count("accepted", 1)
					ws.Close()
				}))
			}
			for _, op := range ops {
				s.MustEnd(op, 5*time.Minute, "stuck")
			}
			time.Sleep(time.Second)
			s.Settle()
		})
		s.NonTrivial()
		s.Sample(map[string]any{"request": hss[0].String(), "valid": hss[0].Valid, "why": hss[0].Why, "noise": noise})
	}})

// tcpHandshakes runs real requests through net/http on the loopback interface.
func tcpHandshakes(s *S) {
	r := s.R
	setNoise(0, 0, [4]int32{}, 0, 0)
	u := snapws.NewUpgrader(&snapws.Options{})
	var mu Mutex
	errs := map[string]error{}
	var conns []*snapws.Conn
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		ws, err := u.Upgrade(w, q)
		mu.Lock()
		errs[q.Header.Get("X-Id")] = err
		if ws != nil {
			conns = append(conns, ws)
		}
		mu.Unlock()
		if err != nil {
			return
		}
		for {
			op, b, err := ws.ReadMessage()
			if err != nil {
				return
			}
			ws.SendMessage(q.Context(), op, b)
		}
	}))
	defer srv.Close()
	defer func() {
		mu.Lock()
		defer mu.Unlock()
		for _, ws := range conns {
			ws.NetConn().Close()
		}
	}()
	for i := range 4 {
		h := genHS(r, nil)
		if h.Method == "CONNECT" {
			continue
		}
		s.Sig(h.String())
		nc, err := net.Dial("tcp", srv.Listener.Addr().String())
		if err != nil {
			s.Inconclusive("dial: " + err.Error())
			return
		}
		nc.SetDeadline(time.Now().Add(20 * time.Second))
		req := h.Method + " /ws HTTP/1.1\r\nHost: x\r\n" + fmt.Sprintf("X-Id: %d\r\n", i)
		for _, l := range h.Lines {
			req += l[0] + ":" + []string{"", " ", "  "}[r.IntN(3)] + l[1] + "\r\n"
		}
		req += "\r\n"
		body := rbytes(r, r.IntN(9000))
		msg := cf(opBin, body, r).Bytes()
		if r.IntN(2) == 0 && h.Valid { // together
			nc.Write(append([]byte(req), msg...))
		} else {
			nc.Write([]byte(req))
			if h.Valid {
				nc.Write(msg)
			}
		}
		br := bufio.NewReader(nc)
		resp, err := http.ReadResponse(br, &http.Request{Method: h.Method})
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				s.Inconclusive("no response in 20 s")
			} else {
				s.Violate("response", "the response does not parse over TCP: %v; %s", err, h)
			}
			nc.Close()
			return
		}
		if h.Valid {
			if resp.StatusCode != 101 || resp.Header.Get("Sec-Websocket-Accept") != acceptOf(h.Key) {
				s.Violate("refused", "a valid request over TCP got status %d, accept %q; %s", resp.StatusCode, resp.Header.Get("Sec-Websocket-Accept"), h)
			} else {
				var got []byte
				hdr := make([]byte, 2)
				for {
					if _, err = io.ReadFull(br, hdr); err != nil {
						break
					}
					n := int(hdr[1])
					if n == 126 {
						x := make([]byte, 2)
						io.ReadFull(br, x)
						n = int(x[0])<<8 | int(x[1])
					}
					p := make([]byte, n)
					if _, err = io.ReadFull(br, p); err != nil {
						break
					}
					got = append(got, p...)
					if hdr[0]&0x80 != 0 {
						break
					}
				}
				if !bytes.Equal(got, body) {
					s.Violate("echo", "over TCP the echo of %d bytes came back as %d bytes (%v); %s", len(body), len(got), err, h)
				}
			}
			s.Count("accepted_over_tcp", 1)
		} else {
			if resp.StatusCode < 400 {
				s.Violate("accepted", "an invalid request (%s) over TCP got status %d; %s", h.Why, resp.StatusCode, h)
			}
			s.Count("refused_over_tcp", 1)
		}
		nc.Close()
	}
	s.NonTrivial()
}

// ---------------------------------------------------------------- C17

var _ = register("C17", &Prop{Quick: 100000, Thorough: 2500000,
	Rule: "1 to 5 concurrent requests (some invalid) against random sub-protocol lists, raw-connection policy, 0 to 5 middlewares some of which refuse with a status and message or a plain error, connect hooks that send, connections made directly, through a manager or a room manager, and responses that cannot be written; non-trivial: at least one request was judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		names := []string{"chat", "Chat", "chat.v2", "superchat", "json", "graphql-ws", "c", "cha"}
		o := quietOpts()
		long := s.Long(500)
		np := r.IntN(4)
		if long && r.IntN(2) == 0 {
			np = 20 + r.IntN(40)
			for i := range 40 {
				names = append(names, fmt.Sprint("proto-", i))
			}
		}
		for range np {
			o.SubProtocols = append(o.SubProtocols, names[r.IntN(len(names))])
		}
		o.RejectRaw = r.IntN(3) == 0
		noise := s.Noise()
		type mwSpec struct {
			fail string // "" , "mw", "plain"
			code int
			msg  string
		}
		var specs []mwSpec
		nspec := r.IntN(6)
		if long && r.IntN(2) == 0 {
			nspec = 10 + r.IntN(60)
		}
		for range nspec {
			specs = append(specs, mwSpec{code: 400 + r.IntN(200), msg: "denied-" + fmt.Sprint(r.IntN(1000))})
		}
		n := 1 + r.IntN(5)
		if long {
			n = 10 + r.IntN(50)
		}
		var hss []hs
		// per request: which middleware refuses and how
		fails := make([]map[int]string, n)
		for i := range n {
			h := genHS(r, names)
			if r.IntN(3) != 0 && !h.Valid {
				for !h.Valid {
					h = genHS(r, names)
				}
			}
			hss = append(hss, h)
			fails[i] = map[int]string{}
			for k := range specs {
				if r.IntN(max(6, nspec)) == 0 {
					fails[i][k] = []string{"mw", "plain"}[r.IntN(2)]
				}
			}
		}
		writeFault := make([]int, n)
		for i := range writeFault {
			writeFault[i] = -1
			if r.IntN(8) == 0 {
				writeFault[i] = r.IntN(120)
			}
		}
		s.Sig(fmt.Sprint(hss), o.SubProtocols, o.RejectRaw, fails, writeFault)
		s.Bubble(t, func() {
			var mu Mutex
			runs := make([][]int, n)
			hooks := make([]int, n)
			early := make([]string, n)
			cs := make([]*MemConn, n)
			byConn := map[net.Conn]int{}
			idOf := func(q *http.Request) int { var i int; fmt.Sscan(q.Header.Get("X-Req"), &i); return i }
			mws := make([]snapws.Middlware, len(specs))
			for k, sp := range specs {
				mws[k] = func(_ http.ResponseWriter, q *http.Request) error {
					i := idOf(q)
					mu.Lock()
					runs[i] = append(runs[i], k)
					if cs[i].OutLen() > 0 {
						early[i] = "the response had been written when a middleware ran"
					}
					mu.Unlock()
					switch fails[i][k] {
					case "mw":
						return snapws.NewMiddlewareErr(sp.code, sp.msg)
					case "plain":
						return errors.New("plain error")
					}
					return nil
				}
			}
			split := 0
			if len(mws) > 0 {
				split = r.IntN(len(mws) + 1)
			}
			o.Middlwares = append(snapws.Middlwares(nil), mws[:split]...)
			o.OnConnect = func(ws *snapws.Conn) {
				mu.Lock()
				i, ok := byConn[ws.NetConn()]
				if !ok {
					s.Violate("hook", "the connect hook got an unknown connection")
					mu.Unlock()
					return
				}
				hooks[i]++
				if !bytes.Contains(cs[i].Out(), []byte("\r\n\r\n")) {
					early[i] = "the connect hook ran before the response was written"
				}
				mu.Unlock()
				ws.SendString(bg, []byte("welcome"))
			}
			u := snapws.NewUpgrader(o)
			for _, m := range mws[split:] {
				u.Use(m)
			}
			m := snapws.NewManager[int](u)
			rm := snapws.NewRoomManager[int](u)
			var ops []*Op
			for i, h := range hss {
				via := r.IntN(3)
				c := NewMemConn()
				mu.Lock()
				cs[i] = c
				byConn[c] = i
				mu.Unlock()
				NewClient(c)
				c.FailAt = writeFault[i]
				if r.IntN(3) == 0 {
					c.SlowR, c.SlowMax = s.Rng(fmt.Sprint("slow", i)), 300*time.Microsecond
				}
				ops = append(ops, s.Go("handshake", func() {
					rw := NewRW(c, 4096, 4096, nil)
					q := h.request()
					q.Header.Set("X-Req", fmt.Sprint(i))
					var ws *snapws.Conn
					var err error
					switch via {
					case 0:
						ws, err = u.Upgrade(rw, q)
					case 1:
						var mc *snapws.ManagedConn[int]
						if mc, err = m.Connect(i, rw, q); mc != nil {
							ws = mc.Conn
						}
					default:
						ws, _, err = rm.Connect(rw, q, 1)
					}
					time.Sleep(20 * time.Millisecond)
					info := fmt.Sprintf("%s; server protocols %q, reject raw %v, middlewares failing %v, via %d", h, o.SubProtocols, o.RejectRaw, fails[i], via)
					mu.Lock()
					ran, hk, ea := runs[i], hooks[i], early[i]
					mu.Unlock()
					refused := func(what string, code int, msg string) {
						if err == nil || ws != nil {
							s.Violate("accepted", "accepted although %s; %s", what, info)
						} else if code > 0 && rw.Code != code || code == 0 && (rw.Code < 400 || rw.Code > 599) {
							s.Violate("status", "refused with status %d although %s, expected %d; %s", rw.Code, what, code, info)
						} else if !strings.Contains(string(rw.Body), msg) {
							s.Violate("status", "refused with %s although %s; %s", clip(rw.Body), what, info)
						} else if rw.Hijacked || c.OutLen() > 0 {
							s.Violate("status", "the refused connection was taken over; %s", info)
						}
						if hk != 0 {
							s.Violate("hook", "the connect hook ran for a refused request (%s); %s", what, info)
						}
						s.Count("refused", 1)
					}
					if !h.Valid {
						refused("the request is invalid: "+h.Why, 0, "")
						if len(ran) > 0 {
							s.Violate("middleware", "middlewares %v ran for an invalid request (%s); %s", ran, h.Why, info)
						}
						return
					}
					want := ""
					for _, x := range h.Offers {
						if contains2(o.SubProtocols, x) {
							want = x
							break
						}
					}
					if want == "" && o.RejectRaw {
						refused("no sub-protocol matches", 0, "")
						return
					}
					stop := -1
					for k := range specs {
						if fails[i][k] != "" {
							stop = k
							break
						}
					}
					exp := len(specs)
					if stop >= 0 {
						exp = stop + 1
					}
					okRun := len(ran) == exp
					for k, x := range ran {
						okRun = okRun && x == k
					}
					if !okRun {
						s.Violate("middleware", "middlewares %v ran, expected the first %d in order; %s", ran, exp, info)
					}
					if ea != "" {
						s.Violate("order", "%s; %s", ea, info)
					}
					if stop >= 0 {
						if fails[i][stop] == "mw" {
							refused("a middleware refused it", specs[stop].code, specs[stop].msg)
						} else {
							refused("a middleware failed", 400, "")
						}
						return
					}
					c.mu.Lock()
					hit := c.faults > 0
					c.mu.Unlock()
					if hit && err != nil {
						// the response could not be written
						if ws != nil || hk != 0 {
							s.Violate("hook", "the response could not be written and the connect hook ran %d times; %s", hk, info)
						}
						return
					}
					if err != nil || ws == nil {
						s.Violate("refused", "refused: %v; %s", err, info)
						return
					}
					if hk != 1 {
						s.Violate("hook", "the connect hook ran %d times; %s", hk, info)
					}
					if hit { // a later write failed
						return
					}
					if ws.SubProtocol != want {
						s.Violate("protocol", "the connection has sub-protocol %q, expected %q; %s", ws.SubProtocol, want, info)
					}
					if bad := judge101(c, rw, h); bad != "" {
						s.Violate("response", "%s; %s", bad, info)
						return
					}
					w := DecodeWire(c.Out(), true)
					resp, _ := http.ReadResponse(bufio.NewReader(bytes.NewReader(w.HTTP)), nil)
					if got := resp.Header.Values("Sec-Websocket-Protocol"); strings.Join(got, ",") != want {
						s.Violate("protocol", "announced sub-protocol %q, expected %q; %s", got, want, info)
					}
					if len(w.Msgs) != 1 || string(w.Msgs[0].Data) != "welcome" {
						s.Violate("hook", "the message sent by the connect hook did not follow the response; %s", info)
					}
					s.Count("accepted", 1)
					if want != "" {
						s.Count("with_a_sub_protocol", 1)
					}
				}))
			}
			for _, op := range ops {
				s.MustEnd(op, 5*time.Minute, "stuck")
			}
			m.Shutdown()
			rm.Shutdown()
			for _, c := range cs {
				c.Close()
			}
			s.Settle()
		})
		s.NonTrivial()
		s.Sample(map[string]any{"request": hss[0].String(), "valid": hss[0].Valid, "server_protocols": o.SubProtocols, "reject_raw": o.RejectRaw, "middlewares": len(specs), "refusals": fails[0], "noise": noise})
	}})

func contains2(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}
