package h

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// realPeer is a client on a real socket and the server side of its connection.
type realPeer struct {
	nc   net.Conn
	mc   *snapws.ManagedConn[int]
	mu   sync.Mutex
	out  []byte // what the client received
	eof  bool
	want []WMsg
}

func (p *realPeer) wire() (*Wire, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return DecodeWire(append([]byte(nil), p.out...), true), p.eof
}

// realNet runs connections over TCP or TLS and net/http on the loopback interface, in real time, and
// judges what belongs to the given property. Anything that takes suspiciously long is inconclusive, unless
// the peers have long been idle.
func realNet(s *S, area string) {
	r := s.R
	setNoise(0, 0, [4]int32{}, 0, 0)
	const patience = 30 * time.Second
	rep := func(in, kind, f string, a ...any) {
		if in == area {
			s.Violate(kind, "over a real socket: "+f, a...)
		} else {
			s.Count("real_sockets: other property: "+kind, 1)
		}
	}
	o := &snapws.Options{MaxMessageSize: -1, BroadcastChannelsSize: 1000, WriteWait: patience, ReadWait: time.Minute}
	o.WriteBufferSize = []int{0, 100, 4096, 70000, 300000}[r.IntN(5)]
	o.ReadBufferSize = []int{0, 0, 200, 70000}[r.IntN(4)]
	o.DisableWriteBuffersPooling = r.IntN(2) == 0
	u := snapws.NewUpgrader(o)
	m := snapws.NewManager[int](u)
	rm := snapws.NewRoomManager[int](u)
	room := rm.Add(1)
	K := 1 + r.IntN(3)
	secure := r.IntN(2) == 0
	got := make(chan *snapws.ManagedConn[int], K)
	gone := make(chan struct{})
	defer close(gone)
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var key int
		fmt.Sscan(q.Header.Get("X-Id"), &key)
		mc, err := m.Connect(key, w, q)
		if err == nil {
			room.Add(mc.Conn)
		}
		got <- mc
		<-gone
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	if secure {
		srv.StartTLS()
	} else {
		srv.Start()
	}
	var peers []*realPeer
	defer func() {
		for _, p := range peers {
			p.nc.Close()
			if p.mc != nil {
				p.mc.NetConn().Close()
			}
		}
		srv.Listener.Close()
	}()
	info := fmt.Sprintf("%d connections, TLS %v, write buffer %d, read buffer %d", K, secure, o.WriteBufferSize, o.ReadBufferSize)
	for k := range K {
		p := &realPeer{}
		var err error
		if secure {
			p.nc, err = tls.Dial("tcp", srv.Listener.Addr().String(), &tls.Config{InsecureSkipVerify: true})
		} else {
			p.nc, err = net.Dial("tcp", srv.Listener.Addr().String())
		}
		if err != nil {
			s.Inconclusive("dial: " + err.Error())
			return
		}
		peers = append(peers, p)
		p.nc.SetDeadline(time.Now().Add(3 * patience))
		if _, err := fmt.Fprintf(p.nc, "GET / HTTP/1.1\r\nHost: x\r\nX-Id: %d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", k); err != nil {
			s.Inconclusive("request: " + err.Error())
			return
		}
		select {
		case p.mc = <-got:
		case <-time.After(patience):
			s.Inconclusive("no connection")
			return
		}
		if p.mc == nil {
			rep("C16", "upgrade", "a valid request was refused; %s", info)
			return
		}
		lazy := time.Duration(r.IntN(3)*r.IntN(2000)) * time.Microsecond
		go func() { // the client takes what it gets
			buf := make([]byte, 65536)
			turns := 0
			for {
				n, err := p.nc.Read(buf)
				p.mu.Lock()
				p.out = append(p.out, buf[:n]...)
				p.eof = p.eof || err != nil
				p.mu.Unlock()
				if err != nil {
					return
				}
				if turns++; turns < 30 {
					time.Sleep(lazy)
				}
			}
		}()
	}
	var ops []*Op
	pings := make([][][]byte, K)
	refs := make([]*Ref, K)
	for k, p := range peers {
		gr := s.Rng(fmt.Sprint("in", k))
		big := 3000
		if gr.IntN(3) == 0 {
			big = 300000
		}
		fs := genFrames(gr, genCfg{msgs: 1 + gr.IntN(12), maxSize: big, maxFrames: 1 + gr.IntN(5), ctl: gr.Float64() * 0.3, pongs: true, text: 0.5, json: 0.3})
		refs[k] = Reference(fs, RefCfg{Max: -1})
		for _, f := range fs {
			if f.Op == opPing {
				pings[k] = append(pings[k], f.Payload)
			}
		}
		raw := stream(fs)
		ops = append(ops, s.Go("client", func() {
			for _, part := range segment(gr, raw) {
				if _, err := p.nc.Write(part); err != nil {
					rep("C01", "delivery", "the server stopped taking a conforming stream: %v; %s", err, info)
					return
				}
				if gr.IntN(20) == 0 {
					time.Sleep(time.Duration(gr.IntN(2000)) * time.Microsecond)
				}
			}
		}))
		rr := s.Rng(fmt.Sprint("read", k))
		ops = append(ops, s.Go("reader", func() {
			for i := range refs[k].Msgs {
				rec := ReadOne(p.mc.Conn, allModes[rr.IntN(len(allModes))], rr)
				if why := checkRec(rec, refs[k].Msgs[i], true); why != "" {
					rep("C01", "delivery", "message %d of %d (opcode %d, %d bytes, read with %q): %s; %s; frames%s", i, len(refs[k].Msgs), refs[k].Msgs[i].Op, len(refs[k].Msgs[i].Data), rec.Mode, why, info, frameLine(fs))
					return
				}
				s.Count("real_sockets: messages_read", 1)
			}
		}))
	}
	var mu sync.Mutex
	nb := 0
	size := func(gr *rand.Rand) int {
		if o.WriteBufferSize == 100 {
			return gr.IntN(10000)
		}
		switch gr.IntN(6) {
		case 0:
			return []int{0, 100, 110, 65500, 65510, 65520, 65535, 65536, 131072}[gr.IntN(9)] + gr.IntN(30)
		case 1:
			return gr.IntN(400000)
		}
		return gr.IntN(5000)
	}
	// concurrent senders on each connection, and broadcasters
	for k, p := range peers {
		for g := range 1 + r.IntN(3) {
			gr := s.Rng(fmt.Sprint("send", k, g))
			ops = append(ops, s.Go("sender", func() {
				for i := range 1 + gr.IntN(8) {
					data := pay(k*10+g, i, size(gr))
					op := byte(1 + gr.IntN(2))
					var err error
					switch gr.IntN(4) {
					case 0, 1:
						err = p.mc.SendMessage(context.Background(), op, data)
					case 2:
						op = opText
						err = p.mc.SendJSON(context.Background(), string(data))
						data, _ = json.Marshal(string(data))
					default:
						var w *snapws.ConnWriter
						if w, err = p.mc.NextWriter(context.Background(), op); err == nil {
							for _, x := range fragment(gr, data, 1+gr.IntN(5)) {
								if _, err = w.Write(x); err != nil {
									break
								}
								if gr.IntN(3) == 0 {
									if err = w.Flush(); err != nil {
										break
									}
								}
							}
							if e := w.Close(); err == nil {
								err = e
							}
						}
					}
					if err != nil {
						rep("C10", "send", "sending %d bytes failed: %v; %s", len(data), err, info)
						return
					}
					mu.Lock()
					p.want = append(p.want, WMsg{Op: op, Data: bytes.TrimSpace(data)})
					mu.Unlock()
				}
			}))
		}
	}
	if r.IntN(2) == 0 {
		gr := s.Rng("broadcast")
		ops = append(ops, s.Go("broadcaster", func() {
			for i := range 1 + gr.IntN(8) {
				data := pay(900, i, size(gr))
				op := byte(opText)
				var n int
				var err error
				switch gr.IntN(3) {
				case 0:
					n, err = m.BroadcastString(context.Background(), data)
				case 1:
					n, err = room.BroadcastString(context.Background(), data)
				default:
					op = opBin
					n, err = room.BroadcastBytes(context.Background(), data)
				}
				if err != nil || n != K {
					rep("C21", "count", "a broadcast to %d connections returned %d, %v; %s", K, n, err, info)
					return
				}
				mu.Lock()
				nb++
				for _, p := range peers {
					p.want = append(p.want, WMsg{Op: op, Data: data})
				}
				mu.Unlock()
			}
		}))
	}
	end := time.Now().Add(patience)
	for _, op := range ops {
		if !op.Within(time.Until(end) + time.Second) {
			s.Inconclusive("slow: " + op.Name)
			return
		}
	}
	if s.Failed() {
		return
	}
	// until everything has arrived
	for _, p := range peers {
		for k := 0; ; k++ {
			w, _ := p.wire()
			if len(w.Msgs) >= len(p.want) || w.Err != "" || w.Close != nil || time.Now().After(end) {
				break
			}
			time.Sleep(time.Millisecond * time.Duration(min(1+k, 50)))
		}
	}
	// the end, by either side
	var closing []*Op
	codes := make([]int, K)
	cut := make([]bool, K) // nobody read to the end
	for k, p := range peers {
		codes[k] = []int{1000, 1001, 3000, 4999, 1008}[r.IntN(5)]
		kind := r.IntN(3)
		if kind == 0 {
			cut[k] = true
			closing = append(closing, s.Go("close", func() { p.mc.CloseWithCode(uint16(codes[k]), "bye") }))
			continue
		}
		payload := []byte{byte(codes[k] >> 8), byte(codes[k])}
		if kind == 2 {
			payload = append(payload, "see you"...)
		}
		p.nc.Write(cf(opClose, payload, r).Bytes())
		closing = append(closing, s.Go("last read", func() {
			if _, _, err := p.mc.ReadMessage(); !snapws.IsFatalErr(err) {
				rep("C07", "read", "a read after the client's close returned %v; %s", err, info)
			}
		}))
	}
	end = time.Now().Add(patience)
	for _, op := range closing {
		if !op.Within(time.Until(end) + time.Second) {
			s.Inconclusive("slow: " + op.Name)
			return
		}
	}
	for k, p := range peers {
		for i := 0; ; i++ {
			if _, eof := p.wire(); eof {
				break
			}
			if time.Now().After(end) {
				rep("C07", "open", "the client has not seen the end of the connection %v after its close; %s", patience, info)
				return
			}
			time.Sleep(time.Millisecond * time.Duration(min(1+i, 50)))
		}
		w, _ := p.wire()
		if w.Err != "" || w.Partial != nil || len(w.Rest) > 0 {
			rep("C10", "wire", "the client received an invalid stream: %s (partial %v, %d bytes left); %s", w.Err, w.Partial != nil, len(w.Rest), info)
			return
		}
		if w.CloseCode() != codes[k] {
			rep("C07", "code", "the connection ended with code %d, expected %d; %s", w.CloseCode(), codes[k], info)
		}
		// pongs, in order
		var pongs [][]byte
		for _, f := range w.Ctrl {
			if f.Op == opPong {
				pongs = append(pongs, f.Payload)
			}
		}
		if len(pongs) != len(pings[k]) && !(cut[k] && len(pongs) < len(pings[k])) {
			rep("C06", "pongs", "%d pings got %d pongs; %s", len(pings[k]), len(pongs), info)
		} else {
			for i := range pongs {
				if !bytes.Equal(pongs[i], pings[k][i]) {
					rep("C06", "pongs", "ping %d (%s) was answered with %s; %s", i, clip(pings[k][i]), clip(pongs[i]), info)
					break
				}
			}
		}
		// every message once
		left := map[string]int{}
		bc := func(d []byte) bool { id, ok := parsePay(d); return ok && id.g == 900 }
		for _, x := range p.want {
			left[string(x.Op)+string(x.Data)]++
		}
		seq := -1
		for _, x := range w.Msgs {
			d := bytes.TrimSpace(x.Data)
			key := string(x.Op) + string(d)
			if bc(x.Data) {
				key = string(x.Op) + string(x.Data)
			}
			if left[key] == 0 {
				in := "C10"
				if bc(x.Data) {
					in = "C21"
				}
				rep(in, "content", "the client received a message nobody sent, or once more: opcode %d, %s; %s", x.Op, clip(x.Data), info)
				return
			}
			left[key]--
			if id, ok := parsePay(x.Data); ok && id.g == 900 {
				if id.seq < seq {
					rep("C21", "order", "broadcast %d arrived after number %d; %s", id.seq, seq, info)
				}
				seq = id.seq
				if x.Frames != 1 {
					rep("C21", "fragmented", "a broadcast arrived in %d frames; %s", x.Frames, info)
				}
			}
		}
		for key, n := range left {
			if n > 0 {
				in := "C10"
				if bc([]byte(key[1:])) {
					in = "C21"
				}
				rep(in, "lost", "a message of %d bytes has not arrived; %s", len(key)-1, info)
				return
			}
		}
		s.Count("real_sockets: messages_received", len(w.Msgs))
	}
	s.Count(fmt.Sprintf("real_sockets: connections (TLS %v)", secure), K)
	s.Sig("real", s.Idx, K, secure)
	s.NonTrivial()
	s.Sample(info)
}
