package h

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"unicode/utf8"
)

const (
	opCont, opText, opBin, opClose, opPing, opPong = 0, 1, 2, 8, 9, 10
)

// ---------------------------------------------------------------- server to client

type Frame struct {
	Fin     bool
	Op      byte
	Payload []byte
	Off     int // offset of the first byte on the wire, after the HTTP response
	End     int
}

type WMsg struct {
	Op     byte
	Data   []byte
	Frames int
	Off    int
	End    int
}

// Wire is the strict decoding of everything the server wrote.
type Wire struct {
	HTTP    []byte // HTTP response head
	Frames  []Frame
	Msgs    []WMsg  // complete messages
	Ctrl    []Frame // control frames
	Partial *WMsg   // unfinished message at the end
	Rest    []byte  // incomplete frame at the end
	Err     string  // first rule broken, "" if none
	Close   *Frame
	AfterCl bool // bytes follow the close frame
}

func (w *Wire) CloseCode() int {
	if w.Close == nil {
		return -1
	}
	if len(w.Close.Payload) < 2 {
		return 1005
	}
	return int(binary.BigEndian.Uint16(w.Close.Payload))
}

// DecodeWire is an independent RFC 6455 decoder for the server-to-client direction.
func DecodeWire(b []byte, withHTTP bool) *Wire {
	w := &Wire{}
	if withHTTP {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			w.HTTP = b
			return w
		}
		w.HTTP = b[:i+4]
		b = b[i+4:]
	}
	off := 0
	bad := func(f string, a ...any) {
		if w.Err == "" {
			w.Err = fmt.Sprintf("at wire offset %d: ", off) + fmt.Sprintf(f, a...)
		}
	}
	for off < len(b) {
		if w.Close != nil {
			w.AfterCl = true
			bad("%d bytes after the close frame", len(b)-off)
			return w
		}
		r := b[off:]
		if len(r) < 2 {
			w.Rest = r
			return w
		}
		fin, rsv, op := r[0]&0x80 != 0, r[0]&0x70, r[0]&0x0f
		masked, l := r[1]&0x80 != 0, uint64(r[1]&0x7f)
		h := 2
		if rsv != 0 {
			bad("reserved bits set (%#x)", r[0])
			return w
		}
		if masked {
			bad("server frame is masked")
			return w
		}
		switch l {
		case 126:
			if len(r) < 4 {
				w.Rest = r
				return w
			}
			l = uint64(binary.BigEndian.Uint16(r[2:]))
			h = 4
			if l < 126 {
				bad("length %d not minimally encoded", l)
			}
		case 127:
			if len(r) < 10 {
				w.Rest = r
				return w
			}
			l = binary.BigEndian.Uint64(r[2:])
			h = 10
			if l < 65536 {
				bad("length %d not minimally encoded", l)
			}
			if l > 1<<40 {
				bad("absurd length %d", l)
				return w
			}
		}
		switch op {
		case opCont, opText, opBin:
		case opClose, opPing, opPong:
			if !fin {
				bad("fragmented control frame")
			}
			if l > 125 {
				bad("control frame of %d bytes", l)
			}
		default:
			bad("undefined opcode %#x", op)
			return w
		}
		// sequencing is decided by the header alone
		switch op {
		case opText, opBin:
			if w.Partial != nil {
				bad("new message (opcode %d) inside the unfinished message %s", op, clip(w.Partial.Data))
				return w
			}
		case opCont:
			if w.Partial == nil {
				bad("continuation frame with nothing to continue")
				return w
			}
		}
		if uint64(len(r)-h) < l {
			w.Rest = r
			return w
		}
		f := Frame{Fin: fin, Op: op, Payload: r[h : h+int(l)], Off: off, End: off + h + int(l)}
		w.Frames = append(w.Frames, f)
		off = f.End
		switch op {
		case opText, opBin:
			w.Partial = &WMsg{Op: op, Off: f.Off}
			fallthrough
		case opCont:
			w.Partial.Data = append(w.Partial.Data, f.Payload...)
			w.Partial.Frames++
			w.Partial.End = f.End
			if fin {
				w.Msgs = append(w.Msgs, *w.Partial)
				w.Partial = nil
			}
		default:
			w.Ctrl = append(w.Ctrl, f)
			if op == opClose {
				c := f
				w.Close = &c
				if l == 1 {
					bad("close frame with a one-byte payload")
				} else if l >= 2 {
					code := int(binary.BigEndian.Uint16(f.Payload))
					if !closeCodeOK(code) {
						bad("close frame with code %d", code)
					}
					if !utf8.Valid(f.Payload[2:]) {
						bad("close frame with a reason that is not valid UTF-8")
					}
				}
			}
		}
	}
	return w
}

func closeCodeOK(c int) bool {
	return (c >= 1000 && c <= 1003) || (c >= 1007 && c <= 1011) || (c >= 3000 && c <= 4999)
}

func clip(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ---------------------------------------------------------------- client to server

// CFrame is a frame the client sends; the Raw* fields override what a conforming client does.
type CFrame struct {
	Fin     bool
	Op      byte
	Payload []byte
	Key     [4]byte
	Rsv     byte // bits 0x70
	NoMask  bool
	LenEnc  int // 0 minimal, 126 or 127 forced
	FakeLen int64
	HasFake bool
}

func (f *CFrame) Bytes() []byte {
	b := []byte{f.Op | f.Rsv, 0}
	if f.Fin {
		b[0] |= 0x80
	}
	if !f.NoMask {
		b[1] = 0x80
	}
	l := uint64(len(f.Payload))
	if f.HasFake {
		l = uint64(f.FakeLen)
	}
	enc := f.LenEnc
	if enc == 0 {
		switch {
		case l < 126:
		case l < 65536:
			enc = 126
		default:
			enc = 127
		}
	}
	switch enc {
	case 126:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(l))
	case 127:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, l)
	default:
		b[1] |= byte(l)
	}
	if !f.NoMask {
		b = append(b, f.Key[:]...)
		for i, x := range f.Payload {
			b = append(b, x^f.Key[i&3])
		}
	} else {
		b = append(b, f.Payload...)
	}
	return b
}

func rkey(r *rand.Rand) (k [4]byte) {
	switch r.IntN(8) {
	case 0: // zero key
	case 1:
		x := byte(r.Uint32())
		k = [4]byte{x, x, x, x}
	default:
		binary.LittleEndian.PutUint32(k[:], r.Uint32())
	}
	return
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i+8 <= n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	for i := n &^ 7; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

// hugeSize is a size of a quarter of a megabyte to 17 megabytes, at or just beside a power of two
// as often as not.
func hugeSize(r *rand.Rand) int {
	n := 1 << []int{18, 19, 20, 21, 22, 23, 24, 24, 24}[r.IntN(9)]
	switch r.IntN(3) {
	case 0:
		return n + r.IntN(17) - 8
	case 1:
		return n + 1 + r.IntN(1<<20)
	default:
		return 1<<18 + r.IntN(1<<24)
	}
}

// hugeBytes is that many bytes without a period that divides a power of two.
func hugeBytes(r *rand.Rand, n int) []byte {
	return bytes.Repeat(rbytes(r, 65537), n/65537+1)[:n]
}

// rtext is valid UTF-8 of about n bytes with multi-byte code points.
func rtext(r *rand.Rand, n int) []byte {
	var b []byte
	for len(b) < n {
		var c rune
		switch r.IntN(6) {
		case 0:
			c = rune(0x80 + r.IntN(0x700))
		case 1:
			c = rune(0x800 + r.IntN(0xd000-0x800))
		case 2:
			c = rune(0x10000 + r.IntN(0x100000))
		default:
			c = rune(0x20 + r.IntN(0x5f))
		}
		b = append(b, string(c)...)
	}
	return b
}

// rsize draws a size biased to the boundaries of frame headers and buffers.
func rsize(r *rand.Rand, max int) int {
	bounds := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 124, 125, 126, 127, 128, 129, 255, 256, 511, 512, 1000, 4081, 4082, 4083, 4095, 4096, 4097, 8191, 8192, 65534, 65535, 65536, 65537}
	for {
		var n int
		switch r.IntN(4) {
		case 0:
			n = bounds[r.IntN(len(bounds))]
			if r.IntN(2) == 0 { // around any power of two
				n = 1<<r.IntN(18) + r.IntN(17) - 8
			}
		case 1:
			n = r.IntN(200)
		case 2:
			n = r.IntN(20)
		default:
			n = r.IntN(6000)
		}
		if n >= 0 && n <= max {
			return n
		}
	}
}

// fragment splits a payload into n parts (some may be empty).
func fragment(r *rand.Rand, p []byte, n int) [][]byte {
	if n <= 1 {
		return [][]byte{p}
	}
	cuts := make([]int, 0, n+1)
	cuts = append(cuts, 0)
	for i := 1; i < n; i++ {
		if r.IntN(5) == 0 {
			cuts = append(cuts, cuts[len(cuts)-1])
		} else {
			cuts = append(cuts, r.IntN(len(p)+1))
		}
	}
	cuts = append(cuts, len(p))
	// sort
	for i := range cuts {
		for j := i + 1; j < len(cuts); j++ {
			if cuts[j] < cuts[i] {
				cuts[i], cuts[j] = cuts[j], cuts[i]
			}
		}
	}
	var out [][]byte
	for i := 0; i+1 < len(cuts); i++ {
		out = append(out, p[cuts[i]:cuts[i+1]])
	}
	return out
}

// segment splits a stream into transport segments.
func segment(r *rand.Rand, b []byte) [][]byte {
	if len(b) == 0 {
		return nil
	}
	mode := r.IntN(5)
	var out [][]byte
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0: // all at once
		case 1:
			if len(b) < 3000 {
				n = 1
			} else {
				n = 1 + r.IntN(64)
			}
		case 2:
			n = 1 + r.IntN(8)
			if len(b) > 20000 {
				n = 1 + r.IntN(2000)
			}
		case 3:
			n = 1 + r.IntN(200)
		default:
			n = 1 + r.IntN(6000)
		}
		if mode != 0 && len(b) > 1<<19 {
			n = 1 + r.IntN(1<<18)
		}
		n = min(n, len(b))
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}
