package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"reflect"
	"testing"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// ---------------------------------------------------------------- reference model of the inbound side

type RMsg struct {
	Op     byte
	Data   []byte
	End    int // stream offset after its last byte
	Frames int
}

// Ref is what a correct server does with a client stream.
type Ref struct {
	Msgs   []RMsg
	Pings  [][]byte // pings the server must have answered if it read everything before the terminal event
	Part   *RMsg    // message that is unfinished when the stream ends or breaks
	Broken bool
	Codes  map[int]bool // acceptable close codes when broken
	Why    string
	// BreakMin is the number of messages delivered before the break (len(Msgs)).
}

type RefCfg struct {
	Max     int // -1 unlimited
	MaxFr   int
	NoUTF8  bool // skip UTF-8 validation
	UTF8All bool // every text message is validated (the application uses whole-message reads only)
}

// Reference evaluates the frames the client sends.
func Reference(frames []*CFrame, c RefCfg) *Ref {
	r := &Ref{Codes: map[int]bool{}}
	off := 0
	var cur *RMsg
	total := uint64(0)
	brk := func(why string, codes ...int) {
		r.Broken = true
		r.Why += why + "; "
		for _, k := range codes {
			r.Codes[k] = true
		}
	}
	for _, f := range frames {
		off += len(f.Bytes())
		l := uint64(len(f.Payload))
		if f.HasFake {
			l = uint64(f.FakeLen)
		}
		isCtl := f.Op >= 8
		// what is wrong with this frame (several things may be: any of their codes will do)
		if f.Rsv != 0 {
			brk("reserved bits", 1002)
		}
		switch f.Op {
		case opCont, opText, opBin, opClose, opPing, opPong:
		default:
			brk("undefined opcode", 1002)
		}
		if f.NoMask {
			brk("unmasked", 1002)
		}
		if isCtl && !f.Fin {
			brk("fragmented control frame", 1002)
		}
		if isCtl && l > 125 {
			brk("long control frame", 1002)
		}
		if l > math.MaxInt64 {
			brk("length with the top bit set", 1002, 1009)
		}
		over := false
		if !isCtl {
			if f.Op == opCont && cur == nil {
				brk("continuation with nothing to continue", 1002)
			}
			if f.Op != opCont && cur != nil {
				brk("new message inside an unfinished one", 1002)
			}
			t := l
			if cur != nil {
				t += total
			}
			if c.Max >= 0 && t > uint64(c.Max) {
				over = true
				brk("message too big", 1009)
			}
			if c.MaxFr > 0 && cur != nil && cur.Frames >= c.MaxFr {
				over = true
				brk("too many frames", 1008)
			}
		} else if c.MaxFr > 0 && cur != nil && cur.Frames >= c.MaxFr && r.Broken {
			// the frame limit may be noticed before this control frame is looked at
			brk("too many frames", 1008)
		}
		_ = over
		if r.Broken {
			break
		}
		switch f.Op {
		case opPing:
			r.Pings = append(r.Pings, f.Payload)
		case opPong:
		case opClose:
			switch p := f.Payload; {
			case len(p) == 0:
				brk("client close", 1000)
			case len(p) == 1:
				brk("one-byte close payload", 1002)
			default:
				code := int(binary.BigEndian.Uint16(p))
				switch {
				case !closeCodeOK(code):
					brk("bad close code", 1002)
				case !utf8.Valid(p[2:]):
					brk("bad close reason", 1002)
				default:
					brk("client close", code)
				}
			}
			if c.MaxFr > 0 && cur != nil && cur.Frames >= c.MaxFr {
				brk("too many frames", 1008)
			}
		default:
			if cur == nil {
				cur = &RMsg{Op: f.Op}
				total = 0
			}
			cur.Data = append(cur.Data, f.Payload...)
			cur.Frames++
			total += l
			if f.Fin {
				cur.End = off
				if cur.Op == opText && !c.NoUTF8 && c.UTF8All && !utf8.Valid(cur.Data) {
					r.Part = cur
					brk("invalid UTF-8", 1007)
					break
				}
				r.Msgs = append(r.Msgs, *cur)
				cur = nil
			}
		}
		if r.Broken {
			break
		}
	}
	if r.Part == nil {
		r.Part = cur
	}
	// a message that already has the allowed number of frames and is not finished may be refused
	// before its next frame is seen
	if !r.Broken && c.MaxFr > 0 && cur != nil && cur.Frames >= c.MaxFr {
		r.Why += "too many frames already announced; "
		r.Codes[1008] = true
	}
	return r
}

func stream(frames []*CFrame) []byte {
	var b []byte
	for _, f := range frames {
		b = append(b, f.Bytes()...)
	}
	return b
}

func frameLine(fs []*CFrame) string {
	var b bytes.Buffer
	for i, f := range fs {
		if i > 24 {
			fmt.Fprintf(&b, " ...(%d frames)", len(fs))
			break
		}
		fin := ""
		if f.Fin {
			fin = "F"
		}
		fmt.Fprintf(&b, " %s%d:%d", fin, f.Op, len(f.Payload))
		if f.Rsv != 0 {
			fmt.Fprintf(&b, "r%x", f.Rsv)
		}
		if f.NoMask {
			b.WriteString("u")
		}
		if f.HasFake {
			fmt.Fprintf(&b, "(len %#x)", uint64(f.FakeLen))
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- client stream generator

type genCfg struct {
	msgs, maxSize, maxFrames int
	ctl                      float64 // probability of a control frame before each frame
	pongs                    bool
	text                     float64
	badUTF8                  float64
	json                     float64
}

func ctlFrame(r *rand.Rand, pongs bool) *CFrame {
	op := byte(opPing)
	if pongs && r.IntN(3) == 0 {
		op = opPong
	}
	n := []int{0, 1, 2, 8, 100, 124, 125}[r.IntN(7)]
	if r.IntN(3) == 0 {
		n = r.IntN(126)
	}
	return &CFrame{Fin: true, Op: op, Payload: rbytes(r, n), Key: rkey(r)}
}

func genMsg(r *rand.Rand, g genCfg) (byte, []byte) {
	n := rsize(r, g.maxSize)
	if r.Float64() < g.json {
		return opText, rjson(r, n)
	}
	if r.Float64() < g.text {
		p := rtext(r, n)
		if r.Float64() < g.badUTF8 {
			p = badUTF8(r, p)
		}
		return opText, p
	}
	return opBin, rbytes(r, n)
}

// badUTF8 makes the text invalid in a way that is easy to miss.
func badUTF8(r *rand.Rand, p []byte) []byte {
	bad := [][]byte{{0xff}, {0xc0, 0x80}, {0xe0, 0x80, 0x80}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0x80}, {0xf0, 0x9f, 0x98}, {0xe2, 0x82}, {0xc3}, {0xf8, 0x88, 0x80, 0x80, 0x80}}
	x := bad[r.IntN(len(bad))]
	switch r.IntN(3) {
	case 0: // at the end
		return append(append([]byte(nil), p...), x...)
	case 1: // at the start
		return append(append([]byte(nil), x...), p...)
	default: // between two code points
		i := 0
		if len(p) > 0 {
			i = r.IntN(len(p))
			for i > 0 && !utf8.RuneStart(p[i]) {
				i--
			}
		}
		o := append([]byte(nil), p[:i]...)
		o = append(o, x...)
		return append(o, p[i:]...)
	}
}

func rjson(r *rand.Rand, n int) []byte {
	m := map[string]any{}
	for i := 0; i < 1+r.IntN(4); i++ {
		switch r.IntN(3) {
		case 0:
			m[fmt.Sprint("k", i)] = string(rtext(r, n/4))
		case 1:
			m[fmt.Sprint("k", i)] = r.IntN(1 << 30)
		default:
			m[fmt.Sprint("k", i)] = []any{true, nil, "x"}
		}
	}
	b, _ := json.Marshal(m)
	switch r.IntN(8) {
	case 0:
		b = append(b, " \n\t "...)
	case 1:
		b = append(b, " {\"second\":1}"...) // trailing data
	case 2:
		b = append(b, "garbage"...)
	case 3:
		b = b[:len(b)-1] // truncated
	case 4:
		b = []byte(fmt.Sprint(r.IntN(100000)))
	}
	return b
}

func genFrames(r *rand.Rand, g genCfg) []*CFrame {
	var fs []*CFrame
	ctl := func() {
		for r.Float64() < g.ctl {
			fs = append(fs, ctlFrame(r, g.pongs))
		}
	}
	for i := 0; i < g.msgs; i++ {
		op, p := genMsg(r, g)
		n := 1
		if g.maxFrames > 1 && r.IntN(2) == 0 {
			n = 1 + r.IntN(g.maxFrames)
		}
		for k, part := range fragment(r, p, n) {
			ctl()
			o := byte(opCont)
			if k == 0 {
				o = op
			}
			fs = append(fs, &CFrame{Fin: k == n-1, Op: o, Payload: part, Key: rkey(r)})
		}
	}
	ctl()
	return fs
}

// ---------------------------------------------------------------- application side

// Rec is one read of the application.
type Rec struct {
	Mode  string
	Op    byte
	Data  []byte
	Done  bool // a complete message was reported
	Early bool // the application stopped reading by itself
	Err   error
	JSON  json.RawMessage
	Into  int // what the JSON value was decoded into
	Val   any
	At    time.Duration
}

// ReadOne performs one read with the given mode.
func ReadOne(ws *snapws.Conn, mode string, r *rand.Rand) (rec Rec) {
	rec.Mode = mode
	defer func() { rec.At = at() }()
	switch mode {
	case "message":
		rec.Op, rec.Data, rec.Err = ws.ReadMessage()
		rec.Done = rec.Err == nil
	case "string":
		rec.Data, rec.Err = ws.ReadString()
		rec.Op = opText
		rec.Done = rec.Err == nil
	case "binary":
		rec.Data, rec.Err = ws.ReadBinary()
		rec.Op = opBin
		rec.Done = rec.Err == nil
	case "json", "rawjson":
		rec.Mode, rec.Op = "json", opText
		if rec.Into = r.IntN(7); mode == "rawjson" {
			rec.Into = 0
		}
		if rec.Into == 0 {
			rec.Err = ws.ReadJSON(&rec.JSON)
		} else {
			rec.Val = jsonTarget(rec.Into)
			rec.Err = ws.ReadJSON(rec.Val)
		}
		rec.Done = rec.Err == nil
	default: // stream, stop
		rd, op, err := ws.NextReader()
		rec.Op = op
		if err != nil {
			rec.Err = err
			return
		}
		limit := -1
		if mode == "stop" {
			limit = r.IntN(200)
			if r.IntN(3) == 0 {
				limit = 0
			}
		}
		bufmax := []int{1, 3, 4, 7, 16, 100, 512, 4096, 70000}[r.IntN(9)]
		idle := 0
		for {
			if limit >= 0 && len(rec.Data) >= limit {
				rec.Early = true
				return
			}
			n := 1 + r.IntN(bufmax)
			if len(rec.Data) > 300000 {
				n = 1 + r.IntN(1<<20)
			}
			if r.IntN(20) == 0 {
				n = 0
			}
			buf := make([]byte, n)
			k, err := rd.Read(buf)
			if k < 0 || k > n {
				rec.Err = fmt.Errorf("Read returned n=%d for a buffer of %d", k, n)
				return
			}
			rec.Data = append(rec.Data, buf[:k]...)
			if err == io.EOF {
				rec.Done = true
				if r.IntN(4) == 0 {
					k, err = rd.Read(make([]byte, 1+r.IntN(9)))
					if k != 0 || err != io.EOF {
						rec.Err = fmt.Errorf("a read after the end of the message returned %d, %v", k, err)
					}
				}
				return
			}
			if err != nil {
				rec.Err = err
				return
			}
			if k == 0 && n > 0 {
				if idle++; idle > 100000 {
					rec.Err = errors.New("Read keeps returning 0, nil")
					return
				}
			}
		}
	}
	return
}

// jsonTarget is something a JSON value can be decoded into.
func jsonTarget(kind int) any {
	switch kind {
	case 1:
		return new(any)
	case 2:
		return new(map[string]any)
	case 3: // not all members
		return &struct {
			K0 any
			K2 any `json:"k2"`
		}{K2: "before"}
	case 4:
		return new(float64)
	case 5:
		return &map[string]json.Number{"k0": "7"}
	default:
		return new(map[string]json.RawMessage)
	}
}

var allModes = []string{"message", "string", "binary", "json", "stream", "stop"}

// checkRec compares one application read with the message that was due. It returns a complaint.
func checkRec(rec Rec, m RMsg, utf8On bool) string {
	bad := m.Op == opText && utf8On && !utf8.Valid(m.Data)
	whole := func() string {
		if bad {
			if rec.Err == nil {
				return "an invalid UTF-8 text message was delivered"
			}
			if !snapws.IsFatalErr(rec.Err) {
				return fmt.Sprintf("invalid UTF-8 reported by a non-fatal error: %v", rec.Err)
			}
			return ""
		}
		return "?"
	}
	switch rec.Mode {
	case "message":
		if w := whole(); w != "?" {
			return w
		}
		if rec.Err != nil {
			return fmt.Sprintf("ReadMessage failed: %v", rec.Err)
		}
		if rec.Op != m.Op {
			return fmt.Sprintf("type %d instead of %d", rec.Op, m.Op)
		}
	case "string", "binary":
		if w := whole(); w != "?" {
			return w
		}
		if rec.Op != m.Op {
			if !errors.Is(rec.Err, snapws.ErrMessageTypeMismatch) || snapws.IsFatalErr(rec.Err) {
				return fmt.Sprintf("a type mismatch was reported as %v", rec.Err)
			}
			return ""
		}
		if rec.Err != nil {
			return fmt.Sprintf("read (%s) failed: %v", rec.Mode, rec.Err)
		}
	case "json":
		if m.Op != opText {
			if !errors.Is(rec.Err, snapws.ErrMessageTypeMismatch) || snapws.IsFatalErr(rec.Err) {
				return fmt.Sprintf("a type mismatch was reported as %v", rec.Err)
			}
			return ""
		}
		// the message must be one JSON value
		var want json.RawMessage
		d := json.NewDecoder(bytes.NewReader(m.Data))
		clean := json.Valid(m.Data)
		if rec.Into > 0 {
			v := jsonTarget(rec.Into)
			werr := d.Decode(v)
			switch {
			case rec.Err != nil && snapws.IsFatalErr(rec.Err):
				if !bad {
					return fmt.Sprintf("ReadJSON of %s into a %T failed with a fatal error: %v", clip(m.Data), v, rec.Err)
				}
			case rec.Err != nil:
				if werr == nil && clean {
					return fmt.Sprintf("ReadJSON of valid JSON %s into a %T failed: %v", clip(m.Data), v, rec.Err)
				}
			case werr != nil || !clean:
				return fmt.Sprintf("ReadJSON of %s into a %T returned no error", clip(m.Data), v)
			case !reflect.DeepEqual(v, rec.Val):
				got, _ := json.Marshal(rec.Val)
				return fmt.Sprintf("ReadJSON of %s into a %T stored %s", clip(m.Data), v, clip(got))
			}
			return ""
		}
		werr := d.Decode(&want)
		if rec.Err != nil {
			if snapws.IsFatalErr(rec.Err) {
				if bad {
					return ""
				}
				return fmt.Sprintf("ReadJSON of %s failed with a fatal error: %v", clip(m.Data), rec.Err)
			}
			if clean {
				return fmt.Sprintf("ReadJSON of valid JSON %s failed: %v", clip(m.Data), rec.Err)
			}
			return ""
		}
		if werr != nil || !clean {
			return fmt.Sprintf("ReadJSON of invalid JSON %s returned %s without an error", clip(m.Data), clip(rec.JSON))
		}
		if !bytes.Equal(bytes.TrimSpace(want), bytes.TrimSpace(rec.JSON)) {
			return fmt.Sprintf("ReadJSON returned %s instead of %s", clip(rec.JSON), clip(want))
		}
		return ""
	case "stop":
		if rec.Err != nil {
			return fmt.Sprintf("streaming read failed: %v", rec.Err)
		}
		if rec.Op != m.Op {
			return fmt.Sprintf("type %d instead of %d", rec.Op, m.Op)
		}
		if rec.Done && len(rec.Data) != len(m.Data) {
			return fmt.Sprintf("end of message after %d of %d bytes", len(rec.Data), len(m.Data))
		}
		if !bytes.HasPrefix(m.Data, rec.Data) {
			return fmt.Sprintf("read %s which is no prefix of %s", clip(rec.Data), diffAt(rec.Data, m.Data))
		}
		return ""
	default:
		if rec.Err != nil {
			return fmt.Sprintf("streaming read failed after %d of %d bytes: %v", len(rec.Data), len(m.Data), rec.Err)
		}
		if rec.Op != m.Op {
			return fmt.Sprintf("type %d instead of %d", rec.Op, m.Op)
		}
	}
	if !rec.Done {
		return "the message was not reported complete"
	}
	if !bytes.Equal(rec.Data, m.Data) {
		return "payload differs: " + diffAt(rec.Data, m.Data)
	}
	return ""
}

func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, first difference at %d (got %s, want %s)", len(got), len(want), i, clip(got[min(i, len(got)):]), clip(want[min(i, len(want)):]))
}

// inOpts draws the configuration of the reading side.
func inOpts(r *rand.Rand) *snapws.Options {
	o := &snapws.Options{MaxMessageSize: -1}
	switch r.IntN(6) {
	case 0:
		o.ReadBufferSize = 0
	case 1:
		o.ReadBufferSize = 1 + r.IntN(16)
	case 2:
		o.ReadBufferSize = 16 + r.IntN(200)
	case 3:
		o.ReadBufferSize = []int{125, 126, 127, 128, 129, 139, 512, 4096, 4097, 65536}[r.IntN(10)]
	case 4:
		o.ReadBufferSize = 4096
	default:
		o.ReadBufferSize = 200 + r.IntN(5000)
	}
	if r.IntN(4) == 0 { // the subprotocol every request of ours offers
		o.SubProtocols = []string{"chat"}
	}
	return o
}

// early splits off what the client sends together with its handshake request.
func early(r *rand.Rand, b []byte) ([]byte, []byte) {
	if r.IntN(3) != 0 || len(b) == 0 {
		return nil, b
	}
	n := 1 + r.IntN(min(len(b), 4096))
	if r.IntN(3) == 0 {
		n = min(len(b), 1+r.IntN(20))
	}
	return b[:n], b[n:]
}

// feedTimed feeds segments, optionally spread over virtual time.
func feedTimed(s *S, c *MemConn, r *rand.Rand, b []byte, spread time.Duration) {
	segs := segment(r, b)
	if spread == 0 || len(segs) < 2 {
		c.FeedSegs(segs)
		return
	}
	gap := spread / time.Duration(len(segs))
	go func() {
		for i, x := range segs {
			if i > 0 && gap > 0 {
				time.Sleep(time.Duration(r.Int64N(int64(gap) + 1)))
			}
			c.Feed(x)
		}
	}()
}

// ---------------------------------------------------------------- C01

var _ = register("C01", &Prop{Quick: 40000, Thorough: 1000000,
	Rule: "random conforming client streams (sizes at header and buffer boundaries, random fragmentation, masks, control frames, segmentation, early bytes, read-buffer sizes) read by random sequences of read calls; non-trivial: at least two messages or fragments were delivered",
	Run: func(t *testing.T, s *S) {
		if s.Idx%999 == 5 {
			realNet(s, "C01")
			return
		}
		r := s.R
		g := genCfg{msgs: 1 + r.IntN(8), maxSize: 5000, maxFrames: 1 + r.IntN(6), ctl: r.Float64() * 0.4, pongs: true, text: 0.5, badUTF8: 0, json: r.Float64() * 0.4}
		if r.IntN(20) == 0 {
			g.maxSize = 70000
			g.msgs = 2
		}
		if s.Long(101) {
			g.msgs, g.maxSize = 200+r.IntN(900), 1+r.IntN(30)
		}
		fs := genFrames(r, g)
		if s.Long(3331) { // what a connection sees in days
			frs := genFrames(r, genCfg{msgs: 1, maxSize: 60})
			switch op := byte(opBin); r.IntN(3) {
			case 0: // messages
				for range 66000 + r.IntN(5000) {
					fs = append(fs, &CFrame{Fin: true, Op: op, Payload: rbytes(r, r.IntN(3)), Key: rkey(r)})
				}
			case 1: // fragments
				for range 66000 + r.IntN(5000) {
					fs = append(fs, &CFrame{Op: op, Payload: rbytes(r, r.IntN(3)), Key: rkey(r)})
					op = opCont
				}
				fs = append(fs, &CFrame{Fin: true, Op: op, Key: rkey(r)})
			default: // control frames in a row
				for range 5000 + r.IntN(5000) {
					fs = append(fs, &CFrame{Fin: true, Op: opPing, Payload: rbytes(r, r.IntN(3)), Key: rkey(r)})
				}
			}
			fs = append(fs, frs...)
		}
		huge := s.Long(1999)
		if huge {
			nf := 1 + r.IntN(3)
			for k, part := range fragment(r, hugeBytes(r, hugeSize(r)), nf) {
				op := byte(opCont)
				if k == 0 {
					op = opBin
				}
				fs = append(fs, &CFrame{Fin: k == nf-1, Op: op, Payload: part, Key: rkey(r)})
			}
			fs = append(fs, &CFrame{Fin: true, Op: opBin, Payload: rbytes(r, 40), Key: rkey(r)})
		}
		ref := Reference(fs, RefCfg{Max: -1})
		raw := stream(fs)
		o := inOpts(r)
		if huge {
			r.IntN(3)
		} else {
			switch r.IntN(3) {
			case 0:
				o.MaxMessageSize = 1 << 20
			case 1:
				o.MaxMessageSize = 0
			}
		}
		o.SkipUTF8Validation = r.IntN(3) == 0
		modes := allModes
		if r.IntN(3) == 0 { // a single way of reading
			modes = []string{allModes[r.IntN(len(allModes))]}
		}
		brs := []int{4096, 4096, 4096, 4096, 512, 16384, 16, 100, 124, 125, 126, 140}[r.IntN(12)]
		eb, rest := early(r, raw)
		eb, rest = eb[:min(len(eb), brs)], raw[min(len(eb), brs):]
		s.Sig(frameLine(fs), o.ReadBufferSize, len(eb), modes, len(raw))
		s.Bubble(t, func() {
			c := NewMemConn()
			u := snapws.NewUpgrader(o)
			ws, err := u.Upgrade(NewRW(c, brs, 4096, eb), Request())
			if err != nil {
				s.Violate("upgrade", "a valid request was refused: %v", err)
				return
			}
			spread := time.Duration(0)
			if r.IntN(3) == 0 {
				spread = time.Duration(r.Int64N(int64(30 * time.Second)))
			}
			feedTimed(s, c, s.Rng("feed"), rest, spread)
			rr := s.Rng("read")
			var recs []Rec
			op := s.Go("reader", func() {
				for i := range ref.Msgs {
					rec := ReadOne(ws, modes[rr.IntN(len(modes))], rr)
					recs = append(recs, rec)
					if why := checkRec(rec, ref.Msgs[i], !o.SkipUTF8Validation); why != "" {
						s.Violate("delivery", "message %d of %d (opcode %d, %d bytes, %d frames, read with %q, read buffer %d, early %d): %s; frames%s",
							i, len(ref.Msgs), ref.Msgs[i].Op, len(ref.Msgs[i].Data), ref.Msgs[i].Frames, rec.Mode, o.ReadBufferSize, len(eb), why, frameLine(fs))
						return
					}
					s.Count("messages_checked", 1)
					s.Count("read_"+rec.Mode, 1)
					s.Count("bytes_checked", len(rec.Data))
				}
				// the stream continues: nothing more may come out and the connection must be open
				ReadOne(ws, "message", rr)
			})
			op.Within(spread + 25*time.Second)
			s.Settle()
			if !s.Failed() {
				if len(recs) != len(ref.Msgs) {
					s.Violate("delivery", "only %d of %d messages were delivered; frames%s; read buffer %d", len(recs), len(ref.Msgs), frameLine(fs), o.ReadBufferSize)
				} else if op.Done() {
					s.Violate("delivery", "a read after the last message ended")
				}
				w := DecodeWire(c.Out(), true)
				if w.Close != nil || c.Closed() {
					s.Violate("closed", "the connection was closed (code %d) on a conforming stream; frames%s", w.CloseCode(), frameLine(fs))
				}
			}
			if len(ref.Msgs) > 1 || len(fs) > 1 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"frames": frameLine(fs), "read_buffer": o.ReadBufferSize, "early_bytes": len(eb), "messages": len(recs), "modes": modes})
			ws.Close()
			op.Within(time.Minute)
		})
	}})
