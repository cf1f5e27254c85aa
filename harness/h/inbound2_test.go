package h

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"testing"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// playInbound feeds a client stream and lets the application read until a fatal error (or until
// nothing more can come), then judges everything it got against the reference.
type play struct {
	s      *S
	frames []*CFrame
	raw    []byte // what is really sent (a prefix of the stream when cut)
	ref    *Ref
	o      *snapws.Options
	modes  []string
	cutErr error // how the transport ends after raw, nil: it stays open
	what   string
	setup  func(u *snapws.Upgrader)
	lazyOK bool // skipped messages make the limits of those messages unobservable
}

func (p *play) run(t *testing.T) {
	s, r := p.s, p.s.Rng("play")
	s.Bubble(t, func() {
		c := NewMemConn()
		u := snapws.NewUpgrader(p.o)
		if p.setup != nil {
			p.setup(u)
		}
		eb, rest := early(r, p.raw)
		ws, err := u.Upgrade(NewRW(c, 4096, 4096, eb), Request())
		if err != nil {
			s.Violate("upgrade", "a valid request was refused: %v", err)
			return
		}
		spread := time.Duration(0)
		if r.IntN(4) == 0 {
			spread = time.Duration(r.Int64N(int64(20 * time.Second)))
		}
		if p.cutErr != nil && spread == 0 {
			c.FeedSegs(segment(r, rest))
			c.FeedErr(p.cutErr)
		} else if p.cutErr != nil {
			segs := segment(r, rest)
			go func() {
				for _, x := range segs {
					time.Sleep(time.Duration(r.Int64N(int64(spread)/int64(len(segs)) + 1)))
					c.Feed(x)
				}
				c.FeedErr(p.cutErr)
			}()
		} else {
			feedTimed(s, c, r, rest, spread)
		}
		rr := s.Rng("read")
		var recs []Rec
		op := s.Go("reader", func() {
			for len(recs) < len(p.ref.Msgs)+3 {
				rec := ReadOne(ws, p.modes[rr.IntN(len(p.modes))], rr)
				recs = append(recs, rec)
				if rec.Err != nil && snapws.IsFatalErr(rec.Err) {
					return
				}
			}
		})
		ended := op.Within(spread + 25*time.Second)
		s.Settle()
		ctx := func() string {
			return fmt.Sprintf("%s; expected: %d messages, then %q codes %v; frames%s; sent %d of %d bytes; max %d/%d frames, read buffer %d", p.what, len(p.ref.Msgs), p.ref.Why, keys(p.ref.Codes), frameLine(p.frames), len(p.raw), len(stream(p.frames)), p.o.MaxMessageSize, p.o.ReaderMaxFragments, p.o.ReadBufferSize)
		}
		broken := p.ref.Broken || p.cutErr != nil
		w := DecodeWire(c.Out(), true)
		// what was delivered
		for i, rec := range recs {
			last := i == len(recs)-1
			if i < len(p.ref.Msgs) {
				if rec.Err != nil && snapws.IsFatalErr(rec.Err) && last && p.limitAnnounced(i) {
					s.Count("limit_noticed_early", 1)
					return
				}
				if why := checkRec(rec, p.ref.Msgs[i], !p.o.SkipUTF8Validation); why != "" {
					s.Violate("delivery", "message %d read with %q: %s; %s", i, rec.Mode, why, ctx())
					return
				}
				s.Count("messages_checked", 1)
				continue
			}
			// beyond the complete messages
			if rec.Err == nil && !rec.Early && rec.Done {
				s.Violate("ghost", "read %d (%q) reported a complete message (opcode %d, %s) that the client never completed; %s", i, rec.Mode, rec.Op, clip(rec.Data), ctx())
				return
			}
			if rec.Err != nil && !snapws.IsFatalErr(rec.Err) && rec.Mode != "json" && rec.Mode != "string" && rec.Mode != "binary" {
				s.Violate("nonfatal", "read %d (%q) failed with the non-fatal error %v; %s", i, rec.Mode, rec.Err, ctx())
				return
			}
			if rec.Err != nil && !snapws.IsFatalErr(rec.Err) && rec.Mode != "json" {
				s.Violate("nonfatal", "read %d (%q) of a message that never completed failed with the non-fatal error %v; %s", i, rec.Mode, rec.Err, ctx())
				return
			}
			if rec.Mode == "stream" || rec.Mode == "stop" {
				var part []byte
				if p.ref.Part != nil {
					part = p.ref.Part.Data
				}
				// bytes of the frame that was cut or that is over the limit may not be delivered
				// unless they really are payload of the unfinished message that arrived
				if i > len(p.ref.Msgs) && len(rec.Data) > 0 || !bytes.HasPrefix(p.partial(part), rec.Data) {
					s.Violate("ghost", "read %d (%q) delivered %s, which is no prefix of the unfinished message; %s", i, rec.Mode, clip(rec.Data), ctx())
					return
				}
				if p.o.MaxMessageSize > 0 && len(rec.Data) > p.o.MaxMessageSize {
					s.Violate("limit", "the application was handed %d bytes of a message; %s", len(rec.Data), ctx())
					return
				}
				s.Count("partial_bytes_checked", len(rec.Data))
			}
		}
		if broken || (p.ref.Codes[1008] && ended) {
			if !ended || len(recs) == 0 || recs[len(recs)-1].Err == nil || !snapws.IsFatalErr(recs[len(recs)-1].Err) {
				s.Violate("not-fatal", "no fatal error was reported (%d reads, reader ended: %v); %s", len(recs), ended, ctx())
				return
			}
			if len(recs) <= len(p.ref.Msgs) {
				s.Violate("delivery", "only %d of %d messages were delivered before the failure (%v); %s", len(recs)-1, len(p.ref.Msgs), recs[len(recs)-1].Err, ctx())
				return
			}
			// every later read fails as well
			for k := 0; k < 2; k++ {
				var rec Rec
				ro := s.Go("late read", func() { rec = ReadOne(ws, p.modes[rr.IntN(len(p.modes))], rr) })
				if !s.MustEnd(ro, 20*time.Second, "late-read") {
					return
				}
				if rec.Err == nil || !snapws.IsFatalErr(rec.Err) {
					s.Violate("late-read", "a read after the failure returned %v (opcode %d, %s); %s", rec.Err, rec.Op, clip(rec.Data), ctx())
					return
				}
			}
			if !c.Closed() {
				s.Violate("not-closed", "the transport is still open; %s", ctx())
				return
			}
			if p.ref.Broken && p.cutErr == nil || p.ref.Broken && len(p.raw) == len(stream(p.frames)) {
				if !p.ref.Codes[w.CloseCode()] {
					s.Violate("close-code", "the peer received close code %d, wire error %q; %s", w.CloseCode(), w.Err, ctx())
					return
				}
				s.Count(fmt.Sprint("close_", w.CloseCode()), 1)
			}
		} else {
			if ended {
				s.Violate("delivery", "the reader ended (%d records, last error %v) although the stream is still fine; %s", len(recs), recs[len(recs)-1].Err, ctx())
			}
			if len(recs) != len(p.ref.Msgs) {
				s.Violate("delivery", "%d of %d messages were delivered; %s", len(recs), len(p.ref.Msgs), ctx())
			}
			if c.Closed() || w.Close != nil {
				s.Violate("closed", "the connection was closed with %d; %s", w.CloseCode(), ctx())
			}
		}
		if w.Err != "" {
			s.Violate("wire", "the server sent an invalid stream: %s; %s", w.Err, ctx())
		}
		s.NonTrivial()
		s.Sample(map[string]any{"frames": frameLine(p.frames), "why": p.ref.Why, "codes": keys(p.ref.Codes), "sent": len(p.raw), "reads": len(recs), "close": w.CloseCode(), "what": p.what})
		ws.Close()
		op.Within(time.Minute)
	})
}

// limitAnnounced: message i+1 onwards cannot be affected; a message that is complete in the
// reference never has too many frames, so nothing may fail early.
func (p *play) limitAnnounced(i int) bool { return false }

// partial is the payload of the unfinished message that may be delivered.
func (p *play) partial(part []byte) []byte {
	// the reference collects whole frames; when the stream is cut inside a frame, the bytes of
	// that frame which arrived count too
	if len(p.raw) == len(stream(p.frames)) {
		return part
	}
	off := 0
	var cur []byte
	open := false
	for _, f := range p.frames {
		b := f.Bytes()
		hdr := len(b) - len(f.Payload)
		if f.Op < 8 {
			if f.Op != opCont {
				cur, open = nil, true
			}
			n := len(p.raw) - off - hdr
			if n > 0 {
				cur = append(cur, f.Payload[:min(n, len(f.Payload))]...)
			}
			if f.Fin && off+len(b) <= len(p.raw) {
				open = false
			}
		}
		off += len(b)
		if off > len(p.raw) {
			break
		}
	}
	if !open {
		return nil
	}
	return cur
}

func keys(m map[int]bool) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	return o
}

// mutate turns one frame of a conforming stream into an offending one.
func mutate(r *rand.Rand, fs []*CFrame) ([]*CFrame, string) {
	inside := func(i int) bool { // is a message open before frame i?
		open := false
		for _, f := range fs[:i] {
			if f.Op < 8 {
				open = !f.Fin
			}
		}
		return open
	}
	i := r.IntN(len(fs) + 1)
	ins := func(f *CFrame) []*CFrame {
		o := append([]*CFrame(nil), fs[:i]...)
		o = append(o, f)
		return append(o, fs[i:]...)
	}
	pay := rbytes(r, []int{0, 1, 4, 60, 125, 126, 300}[r.IntN(7)])
	small := rbytes(r, []int{0, 1, 2, 60, 125}[r.IntN(5)])
	// a frame of the conforming stream itself, with one thing changed
	if len(fs) > 0 && r.IntN(3) == 0 {
		j := r.IntN(len(fs))
		f := *fs[j]
		what := ""
		switch k := r.IntN(4); {
		case k == 0:
			f.Rsv, what = []byte{0x10, 0x20, 0x40, 0x70, 0x50}[r.IntN(5)], "reserved bits"
		case k == 1:
			f.NoMask, what = true, "unmasked frame"
		case k == 2 && f.Op >= 8:
			f.Fin, what = false, "fragmented control frame"
		case k == 3 && f.Op != opCont:
			f.Op, what = f.Op|[]byte{3, 4, 5, 6, 7}[r.IntN(5)], "undefined opcode"
			if f.Op >= 8 {
				f.Op = 11 + byte(r.IntN(5))
			}
		default:
			f.NoMask, what = true, "unmasked frame"
		}
		o := append([]*CFrame(nil), fs...)
		o[j] = &f
		return o, what
	}
	switch r.IntN(9) {
	case 0:
		return ins(&CFrame{Fin: r.IntN(2) == 0, Op: []byte{opCont, opText, opBin, opPing, opPong, opClose}[r.IntN(6)], Rsv: []byte{0x10, 0x20, 0x40, 0x70, 0x50}[r.IntN(5)], Payload: small, Key: rkey(r)}), "reserved bits"
	case 1:
		return ins(&CFrame{Fin: r.IntN(4) != 0, Op: []byte{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[r.IntN(10)], Payload: pay, Key: rkey(r)}), "undefined opcode"
	case 2:
		op := []byte{opText, opBin, opPing, opPong, opClose}[r.IntN(5)]
		if inside(i) && op < 8 {
			op = opCont
		}
		p := small
		if op == opClose && len(p) < 2 {
			p = []byte{3, 0xe8}
		} else if op == opClose {
			p[0], p[1] = 3, 0xe8
			p = p[:2]
		}
		return ins(&CFrame{Fin: op >= 8 || r.IntN(2) == 0, Op: op, NoMask: true, Payload: p}), "unmasked frame"
	case 3:
		return ins(&CFrame{Fin: false, Op: []byte{opPing, opPong, opClose}[r.IntN(3)], Payload: small, Key: rkey(r)}), "fragmented control frame"
	case 4:
		n := []int{126, 127, 128, 500, 65535, 65536}[r.IntN(6)]
		return ins(&CFrame{Fin: true, Op: []byte{opPing, opPong, opClose}[r.IntN(3)], Payload: rbytes(r, n), Key: rkey(r)}), "over-long control frame"
	case 5, 6:
		for k := 0; k < 20 && inside(i); k++ {
			i = r.IntN(len(fs) + 1)
		}
		return ins(&CFrame{Fin: r.IntN(2) == 0, Op: opCont, Payload: pay, Key: rkey(r)}), "stray continuation"
	case 7:
		for k := 0; k < 40 && !inside(i); k++ {
			i = r.IntN(len(fs) + 1)
		}
		if !inside(i) { // make an open message
			fs = append(append([]*CFrame(nil), fs[:i]...), append([]*CFrame{{Op: opBin, Payload: pay, Key: rkey(r)}}, fs[i:]...)...)
			i++
			return ins(&CFrame{Fin: true, Op: opText, Payload: []byte("new"), Key: rkey(r)}), "new message inside an unfinished one"
		}
		return ins(&CFrame{Fin: r.IntN(2) == 0, Op: byte(1 + r.IntN(2)), Payload: small, Key: rkey(r)}), "new message inside an unfinished one"
	default:
		f := &CFrame{Fin: true, Op: opBin, Payload: small, Key: rkey(r), LenEnc: 127, HasFake: true, FakeLen: int64(-1 - r.Int64N(1<<40))}
		if inside(i) {
			f.Op = opCont
		}
		o := append([]*CFrame(nil), fs[:i]...)
		return append(o, f), "length with the top bit set"
	}
}

var _ = register("C02", &Prop{Quick: 150000, Thorough: 3750000,
	Rule: "conforming client streams with one offending frame inserted at a random position (possibly inside a message, between control frames, followed by valid frames), read by random read calls; non-trivial: the offending frame was processed and everything delivered was compared",
	Run: func(t *testing.T, s *S) {
		r := s.R
		g := genCfg{msgs: r.IntN(5), maxSize: 3000, maxFrames: 1 + r.IntN(5), ctl: r.Float64() * 0.3, pongs: true, text: 0.5, json: 0.2}
		if s.Long(401) {
			g.msgs, g.maxSize = 200+r.IntN(500), 1+r.IntN(30)
		}
		fs, what := mutate(r, genFrames(r, g))
		o := inOpts(r)
		o.SkipUTF8Validation = r.IntN(2) == 0
		if r.IntN(2) == 0 {
			o.MaxMessageSize = 1 << 20
		}
		modes := allModes
		if r.IntN(3) == 0 {
			modes = []string{allModes[r.IntN(len(allModes))]}
		}
		s.Sig(frameLine(fs), what, o.ReadBufferSize)
		s.Count("offence: "+what, 1)
		p := &play{s: s, frames: fs, raw: stream(fs), o: o, modes: modes, what: what}
		p.ref = Reference(fs, RefCfg{Max: o.MaxMessageSize})
		p.run(t)
	}})

var _ = register("C03", &Prop{Quick: 60000, Thorough: 1500000,
	Rule: "client streams whose messages lie around the configured size and fragment limits (limit-1, limit, limit+1, far above, split at the limit, huge announced lengths, limits -1 and 0), with control frames in between; non-trivial: at least one message at or beyond a limit was judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := inOpts(r)
		max := []int{1, 2, 7, 64, 125, 126, 127, 500, 4096, 65535, 65536}[r.IntN(11)]
		if r.IntN(3) == 0 {
			max = 1 + r.IntN(2000)
		}
		o.MaxMessageSize = max
		if r.IntN(4) == 0 {
			o.MaxMessageSize = -1
		}
		if r.IntN(2) == 0 {
			o.ReaderMaxFragments = 1 + r.IntN(6)
			if r.IntN(100) == 0 {
				o.ReaderMaxFragments = []int{127, 128, 255, 256, 257, 300, 1000}[r.IntN(7)]
			}
		}
		if r.IntN(300) == 0 {
			max = []int{100000, 262144, 1 << 20, 1<<20 + 1}[r.IntN(4)]
			o.MaxMessageSize = max
		}
		huge := s.Long(1501)
		if huge {
			max = hugeSize(r)
			if o.MaxMessageSize = max; r.IntN(3) == 0 {
				o.MaxMessageSize = -1
			}
			o.ReaderMaxFragments = r.IntN(4)
		}
		maxFr := o.ReaderMaxFragments
		o.SkipUTF8Validation = true
		var fs []*CFrame
		n := 1 + r.IntN(4)
		if huge {
			n = 1 + r.IntN(2)
		}
		if max <= 500 && maxFr <= 6 && s.Long(101) {
			n = 100 + r.IntN(300)
		}
		// reads that would skip a message are left out: the limits of a message the application
		// skips are not promised to be noticed
		kind := []string{"", "", "", "string", "binary", "json"}[r.IntN(6)]
		what := kind
		for i := 0; i < n; i++ {
			size := max
			last := i == n-1
			switch r.IntN(6) {
			case 0:
				size = max - 1
			case 1:
				size = r.IntN(max + 1)
			case 2:
				size = 0
			}
			if last {
				switch r.IntN(5) {
				case 0:
					size = max + 1
				case 1:
					size = max + 1 + r.IntN(300)
				case 2:
					size = max*2 + r.IntN(5)
				}
			}
			nf := 1
			if maxFr > 0 {
				nf = 1 + r.IntN(maxFr)
				if r.IntN(2) == 0 {
					nf = maxFr
				}
				if last {
					nf += []int{0, 0, 1, 1, 2, 5, 260}[r.IntN(13)*7/13]
				}
			} else {
				nf = 1 + r.IntN(9)
				if r.IntN(300) == 0 {
					nf = 200 + r.IntN(200)
				}
			}
			op := byte(1 + r.IntN(2))
			what += fmt.Sprintf("[%d bytes in %d frames]", size, nf)
			pay := rbytes(r, min(size, 1<<18))
			if size > len(pay) {
				pay = hugeBytes(r, size)
			}
			switch kind {
			case "string":
				op = opText
			case "binary":
				op = opBin
			case "json":
				op = opText
				for j := range pay {
					pay[j] = "0123456789"[pay[j]%10]
				}
				if size > 1 {
					pay[0], pay[size-1] = '"', '"'
				} else if size == 1 {
					pay[0] = '7'
				}
			}
			for k, part := range fragment(r, pay, nf) {
				for r.IntN(5) == 0 {
					fs = append(fs, ctlFrame(r, true))
				}
				oc := byte(opCont)
				if k == 0 {
					oc = op
				}
				fs = append(fs, &CFrame{Fin: k == nf-1, Op: oc, Payload: part, Key: rkey(r)})
			}
			if last && o.MaxMessageSize > 0 && r.IntN(6) == 0 {
				// announce a huge frame and send some of it
				f := fs[len(fs)-1]
				f.HasFake, f.LenEnc = true, 127
				f.FakeLen = []int64{1 << 31, 1 << 32, 1<<62 + 5, 1<<63 - 1, int64(max) + 65536}[r.IntN(5)]
				what += "(huge)"
			}
		}
		modes := []string{"message", "stream", "stream"}
		if kind != "" {
			mode := kind
			if kind == "json" {
				mode = "rawjson" // a value of another type would skip the rest
			}
			modes = append(modes, mode, mode)
		} else if r.IntN(3) == 0 {
			modes = modes[1:3]
		}
		s.Sig(what, o.MaxMessageSize, maxFr, frameLine(fs))
		p := &play{s: s, frames: fs, raw: stream(fs), o: o, modes: modes, what: what}
		p.ref = Reference(fs, RefCfg{Max: o.MaxMessageSize, MaxFr: maxFr})
		for k := range p.ref.Codes {
			s.Count(fmt.Sprint("expected_", k), 1)
		}
		p.run(t)
	}})

var _ = register("C04", &Prop{Quick: 150000, Thorough: 3750000,
	Rule: "conforming client streams cut after a random byte (frame boundaries, header bytes, before the final empty frame, all favoured) by EOF, reset or an unexpected error; non-trivial: the cut took effect and every read was compared with what had arrived",
	Run: func(t *testing.T, s *S) {
		r := s.R
		g := genCfg{msgs: 1 + r.IntN(4), maxSize: 1500, maxFrames: 1 + r.IntN(5), ctl: r.Float64() * 0.3, pongs: true, text: 0.5, json: 0.3}
		if s.Long(401) {
			g.msgs, g.maxSize = 200+r.IntN(500), 1+r.IntN(30)
		}
		fs := genFrames(r, g)
		raw := stream(fs)
		cut := r.IntN(len(raw) + 1)
		if r.IntN(2) == 0 { // at or near a frame boundary
			off := 0
			k := r.IntN(len(fs) + 1)
			for _, f := range fs[:k] {
				off += len(f.Bytes())
			}
			cut = max(0, min(len(raw), off+[]int{-1, 0, 0, 1, 2, 4, 6}[r.IntN(7)]))
		}
		// frames wholly inside the cut
		var in []*CFrame
		off := 0
		for _, f := range fs {
			off += len(f.Bytes())
			if off > cut {
				break
			}
			in = append(in, f)
		}
		o := inOpts(r)
		o.SkipUTF8Validation = r.IntN(2) == 0
		cutErr := []error{fmt.Errorf("some transport error"), errReset, errEOF, errEOF}[r.IntN(4)]
		modes := allModes
		if r.IntN(2) == 0 {
			modes = []string{allModes[r.IntN(len(allModes))]}
		}
		s.Sig(frameLine(fs), cut, cutErr, modes)
		p := &play{s: s, frames: fs, raw: raw[:cut], o: o, modes: modes, cutErr: cutErr, what: fmt.Sprintf("cut after %d bytes by %v", cut, cutErr)}
		p.ref = Reference(in, RefCfg{Max: -1})
		p.run(t)
	}})

// edgeText is a text of some power of two of bytes, or a little more or less, with code points of
// several bytes, or the only defect, around that place or at the end.
func edgeText(r *rand.Rand) []byte {
	base := 1 << (5 + r.IntN(9))
	if r.IntN(3) == 0 {
		base *= 1 + r.IntN(3)
	}
	n := max(0, base+r.IntN(24)-12)
	p := bytes.Repeat([]byte{byte('a' + r.IntN(26))}, n)
	wide := []byte([]string{"é", "€", "𝄞", "\u07ff\uffff", "\ue000\U0010ffff"}[r.IntN(5)])
	at := max(0, min(n, base-r.IntN(6)))
	if r.IntN(3) == 0 {
		at = n
	}
	p = append(p[:at:at], append(bytes.Clone(wide), p[at:]...)...)
	if r.IntN(2) == 0 {
		i := at + r.IntN(len(p)-at)
		if r.IntN(3) == 0 {
			i = len(p) - 1 - r.IntN(min(len(p), 4))
		}
		switch r.IntN(3) {
		case 0:
			p[i] = []byte{0xff, 0x80, 0xc3, 0xe2, 0xf0, 0xc0}[r.IntN(6)]
		case 1:
			p = append(p[:i], p[i+1:]...)
		default:
			p = p[:i]
		}
	}
	return p
}

var _ = register("C05", &Prop{Quick: 120000, Thorough: 3000000,
	Rule: "text and binary messages, valid or with one subtle UTF-8 defect (overlong, surrogate, truncated, beyond U+10FFFF, stray continuation, at start, middle or end), fragmented inside code points, with validation on and off; non-trivial: at least one text message was judged",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := inOpts(r)
		o.SkipUTF8Validation = r.IntN(3) == 0
		var fs []*CFrame
		bad, texts := 0, 0
		nm := 1 + r.IntN(5)
		badP := 1.0 / 3
		if s.Long(211) {
			nm = 100 + r.IntN(400)
			badP = 1 / float64(nm)
		}
		huge := s.Long(3001)
		if huge {
			nm, badP = 1, 0.8
		}
		for i := 0; i < nm; i++ {
			var p []byte
			if huge {
				p = bytes.Repeat(rtext(r, 65537), 1+hugeSize(r)/65537)
				if r.Float64() < badP {
					p = badUTF8(r, p)
				}
			} else if nm <= 5 && r.IntN(8) == 0 {
				p = edgeText(r)
			} else {
				n := rsize(r, 600)
				if nm > 5 {
					n = r.IntN(30)
				}
				p = rtext(r, n)
				if nm <= 5 && r.IntN(150) == 0 { // long
					p = bytes.Repeat(p, 1+(60000+r.IntN(90000))/max(1, len(p)))
				}
				if r.Float64() < badP {
					p = badUTF8(r, p)
				}
			}
			op := byte(opText)
			if r.IntN(4) == 0 {
				op = opBin
			} else {
				texts++
				if !utf8.Valid(p) {
					bad++
				}
			}
			nf := 1 + r.IntN(5)
			for k, part := range fragment(r, p, nf) {
				oc := byte(opCont)
				if k == 0 {
					oc = op
				}
				if r.IntN(6) == 0 {
					fs = append(fs, ctlFrame(r, true))
				}
				fs = append(fs, &CFrame{Fin: k == nf-1, Op: oc, Payload: part, Key: rkey(r)})
			}
		}
		s.Sig(stream(fs), o.SkipUTF8Validation, o.ReadBufferSize)
		s.Count("text_messages", texts)
		s.Count("invalid_text_messages", bad)
		modes := []string{"message", "string", "binary"}
		if r.IntN(2) == 0 {
			modes = []string{modes[r.IntN(3)]}
		}
		p := &play{s: s, frames: fs, raw: stream(fs), o: o, modes: modes, what: fmt.Sprintf("validation %v, %d text, %d invalid", !o.SkipUTF8Validation, texts, bad)}
		p.ref = Reference(fs, RefCfg{Max: -1, NoUTF8: o.SkipUTF8Validation, UTF8All: true})
		p.run(t)
	}})
