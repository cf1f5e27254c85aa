package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- scenarios

// S is one scenario: one workload run under the monitors of one property.
type S struct {
	Prop string
	Idx  int
	Seed uint64
	Tier string
	R    *rand.Rand // only for the main goroutine of the scenario

	mu         sync.Mutex
	vios       []Vio
	trace      []string
	counters   map[string]int64
	sig        []byte
	nontrivial bool
	sample     any
	inconcl    string
	vsleep     time.Duration // longest virtual pause of the noise
	vslack     time.Duration // how much the noise may delay anything
}

type Vio struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

func (s *S) Violate(kind, f string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.vios) < 8 {
		d := fmt.Sprintf(f, a...)
		if len(d) > 6000 {
			d = d[:6000] + "..."
		}
		s.vios = append(s.vios, Vio{kind, d})
		if len(s.vios) == 1 {
			// in case this scenario never ends
			emit(map[string]any{"t": "vio", "idx": s.Idx, "vios": s.vios, "trace": s.trace})
		}
	}
}

func (s *S) Failed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.vios) > 0
}

func (s *S) Trace(f string, a ...any) {
	s.mu.Lock()
	if len(s.trace) < 400 {
		s.trace = append(s.trace, fmt.Sprintf(f, a...))
	}
	s.mu.Unlock()
}

func (s *S) Count(name string, n int) {
	s.mu.Lock()
	s.counters[name] += int64(n)
	s.mu.Unlock()
}

// Sig adds to the scenario's signature: scenarios with equal signatures count as one.
func (s *S) Sig(a ...any) {
	s.mu.Lock()
	s.sig = fmt.Append(s.sig, a...)
	s.sig = append(s.sig, '|')
	if len(s.sig) > 1<<16 {
		h := fnv.New64a()
		h.Write(s.sig)
		s.sig = h.Sum(nil)
	}
	s.mu.Unlock()
}
func (s *S) NonTrivial()  { s.mu.Lock(); s.nontrivial = true; s.mu.Unlock() }
func (s *S) Sample(v any) { s.mu.Lock(); s.sample = v; s.mu.Unlock() }
func (s *S) Inconclusive(w string) {
	s.mu.Lock()
	s.inconcl = w
	s.mu.Unlock()
}

// Rng derives an independent generator (for goroutines of the scenario).
func (s *S) Rng(tag string) *rand.Rand {
	return rand.New(rand.NewPCG(s.Seed^hash64(s.Prop+tag), uint64(s.Idx)*0x9e3779b97f4a7c15+1))
}

// Long picks the scenarios with a long history (one in every).
func (s *S) Long(every int) bool {
	if s.Idx%every != 0 || s.Idx == 0 {
		return false
	}
	s.Count("long histories", 1)
	return true
}

func hash64(x string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(x))
	return h.Sum64()
}

// Prop is a registered property workload.
type Prop struct {
	Quick, Thorough int
	Rule            string
	Run             func(t *testing.T, s *S)
}

var props = map[string]*Prop{}

func register(id string, p *Prop) bool { props[id] = p; return true }

// ---------------------------------------------------------------- output

var outMu sync.Mutex
var outF *os.File

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]any{"t": "harness-error", "msg": err.Error()})
	}
	outMu.Lock()
	if outF != nil {
		outF.Write(append(b, '\n'))
	} else {
		fmt.Println(string(b))
	}
	outMu.Unlock()
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var curIdx atomic.Int64
var curStart atomic.Int64 // unix nanos of real start, 0 when idle
var curS atomic.Pointer[S]

func TestProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := props[id]
	if p == nil {
		t.Skip("no VERIF_PROP")
	}
	if f := os.Getenv("VERIF_OUT"); f != "" {
		var err error
		outF, err = os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			t.Fatal(err)
		}
	}
	debug.SetGCPercent(400)
	seed := uint64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	} else {
		tier = "quick"
	}
	total = envInt("VERIF_TOTAL", total)
	shard, n := envInt("VERIF_SHARD", 0), envInt("VERIF_NSHARDS", 1)
	start := envInt("VERIF_START", 0)
	only := envInt("VERIF_ONLY", -1)
	go watchdog()
	for i := 0; i < total; i++ {
		if i%n != shard || i < start || (only >= 0 && i != only) {
			continue
		}
		runOne(t, id, p, seed, tier, i)
	}
	emit(map[string]any{"t": "done", "shard": shard, "sites": siteHits(), "rule": p.Rule, "total": total})
}

func runOne(t *testing.T, id string, p *Prop, seed uint64, tier string, i int) {
	s := &S{Prop: id, Idx: i, Seed: seed, Tier: tier, counters: map[string]int64{}}
	s.R = s.Rng("main")
	emit(map[string]any{"t": "start", "idx": i})
	curIdx.Store(int64(i))
	curS.Store(s)
	curStart.Store(time.Now().UnixNano())
	p.Run(t, s)
	curStart.Store(0)
	if runawayHit.Swap(false) {
		s.Violate("runaway", "the library kept writing to a connection without end")
	}
	setNoise(0, 0, [4]int32{}, 0, 0)
	s.mu.Lock()
	defer s.mu.Unlock()
	h := fnv.New64a()
	h.Write(s.sig)
	r := map[string]any{"t": "end", "idx": i, "sig": fmt.Sprintf("%016x", h.Sum64()), "nt": s.nontrivial, "c": s.counters}
	if s.inconcl != "" {
		r["inconclusive"] = s.inconcl
	}
	if len(s.vios) > 0 {
		r["vios"] = s.vios
		r["trace"] = s.trace
	}
	if s.sample != nil && (i < 40 || len(s.vios) > 0) {
		r["sample"] = s.sample
	}
	emit(r)
}

// ---------------------------------------------------------------- bubbles

// Bubble runs f in a virtual-time bubble. Goroutines left blocked at the end are reported to
// the caller (they are a matter for C14 only).
func (s *S) Bubble(t *testing.T, f func()) (leak bool) {
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprint(r)
			if strings.Contains(m, "main bubble goroutine has exited") {
				leak = true
				s.Count("bubbles_ended_with_blocked_goroutines", 1)
				return
			}
			if strings.Contains(m, "all goroutines in bubble are blocked") {
				s.Inconclusive("bubble deadlock: " + m)
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
	return
}

// Op is a call running in its own goroutine.
type Op struct {
	Name  string
	done  chan struct{}
	Start time.Time
	End   time.Time
}

// Go runs f as an operation of the bubble.
func (s *S) Go(name string, f func()) *Op {
	o := &Op{Name: name, done: make(chan struct{}), Start: time.Now()}
	go func() {
		f()
		o.End = time.Now()
		close(o.done)
	}()
	return o
}

func (o *Op) Done() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

// Within waits up to d of virtual time.
func (o *Op) Within(d time.Duration) bool {
	select {
	case <-o.done:
		return true
	default:
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-o.done:
		return true
	case <-t.C:
		return o.Done()
	}
}

// MustEnd reports a violation when the operation has not ended within d of virtual time.
func (s *S) MustEnd(o *Op, d time.Duration, kind string) bool {
	if o.Within(d) {
		return true
	}
	s.Violate(kind, "%s had not returned %v of virtual time after it was called (it started at +%v)\n%s", o.Name, d, o.Start.Sub(epoch), bubbleStacks(12))
	return false
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// at is virtual time since the bubble's epoch.
func at() time.Duration { return time.Since(epoch) }

// ---------------------------------------------------------------- stacks

type gor struct {
	hdr, state, body string
	bubble           string
}

func goroutines() []gor {
	n := 1 << 20
	for {
		b := make([]byte, n)
		k := runtime.Stack(b, true)
		if k < n {
			var out []gor
			for _, blk := range strings.Split(string(b[:k]), "\n\n") {
				hdr, body, _ := strings.Cut(blk, "\n")
				g := gor{hdr: hdr, body: body}
				if i := strings.Index(hdr, "["); i >= 0 {
					st := strings.TrimSuffix(strings.TrimSuffix(hdr[i+1:], ":"), "]")
					parts := strings.Split(st, ", ")
					g.state = parts[0]
					for _, p := range parts[1:] {
						if strings.HasPrefix(p, "synctest bubble ") {
							g.bubble = strings.TrimPrefix(p, "synctest bubble ")
						}
					}
				}
				out = append(out, g)
			}
			return out
		}
		n *= 2
	}
}

const pkgFrame = "github.com/Atheer-Ganayem/SnapWS."

// myBubble is the bubble id of the calling goroutine.
func myBubble() string {
	b := make([]byte, 4096)
	k := runtime.Stack(b, false)
	hdr, _, _ := strings.Cut(string(b[:k]), "\n")
	if i := strings.Index(hdr, "synctest bubble "); i >= 0 {
		x := hdr[i+len("synctest bubble "):]
		return strings.TrimRight(strings.FieldsFunc(x, func(r rune) bool { return r == ']' || r == ',' })[0], "]:")
	}
	return ""
}

// libGoroutines returns the goroutines of the caller's bubble whose stack has library frames
// (created by the library or currently inside it), except the calling goroutine.
func libGoroutines() []gor {
	my := myBubble()
	var out []gor
	for _, g := range goroutines() {
		if g.bubble == my && g.state != "running" && strings.Contains(g.body, pkgFrame) {
			out = append(out, g)
		}
	}
	return out
}

func bubbleStacks(maxN int) string {
	var sb strings.Builder
	for i, g := range libGoroutines() {
		if i >= maxN {
			break
		}
		sb.WriteString(g.hdr + "\n" + shortStack(g.body) + "\n")
	}
	return sb.String()
}

func shortStack(b string) string {
	var o []string
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		o = append(o, "  "+l)
		if len(o) > 14 {
			break
		}
	}
	return strings.Join(o, "\n")
}

// ---------------------------------------------------------------- watchdog

// watchdog runs outside every bubble, on real time. A scenario that makes no progress for a long
// real time is classified by the states of its goroutines: a cycle of mutex waits or an endless
// loop inside the library is a violation; anything else is inconclusive.
func watchdog() {
	limit := time.Duration(envInt("VERIF_STALL_S", 40)) * time.Second
	for {
		time.Sleep(500 * time.Millisecond)
		st := curStart.Load()
		if st == 0 || time.Since(time.Unix(0, st)) < limit {
			continue
		}
		idx := curIdx.Load()
		class, detail := classifyStall(func() bool { return curIdx.Load() == idx && curStart.Load() == st })
		if class == "" {
			continue
		}
		s := curS.Load()
		emit(map[string]any{"t": "stall", "idx": idx, "class": class, "detail": detail, "trace": s.trace, "sites": siteHits()})
		os.Exit(7)
	}
}

func classifyStall(same func() bool) (string, string) {
	type obs struct {
		states map[string]string
		spin   map[string]bool
		prog   int64
	}
	var os_ []obs
	var last []gor
	for k := 0; k < 5; k++ {
		if k > 0 {
			time.Sleep(2 * time.Second)
		}
		if !same() {
			return "", ""
		}
		gs := goroutines()
		// the active bubble is the one with the highest id
		bub := -1
		for _, g := range gs {
			if n, err := strconv.Atoi(g.bubble); err == nil && n > bub {
				bub = n
			}
		}
		o := obs{map[string]string{}, map[string]bool{}, progress.Load()}
		last = nil
		for _, g := range gs {
			if g.bubble != strconv.Itoa(bub) {
				continue
			}
			last = append(last, g)
			id := strings.Fields(g.hdr)[1]
			o.states[id] = g.state + "\n" + g.body
			if (g.state == "running" || g.state == "runnable") && strings.Contains(g.body, pkgFrame) {
				o.spin[id] = true
			}
		}
		os_ = append(os_, o)
	}
	frozen := true
	for _, o := range os_[1:] {
		if len(o.states) != len(os_[0].states) {
			frozen = false
		}
		for id, st := range o.states {
			if os_[0].states[id] != st {
				frozen = false
			}
		}
	}
	var sb strings.Builder
	lockWait, timers := 0, 0
	for _, g := range last {
		isLib := strings.Contains(g.body, pkgFrame)
		if isLib || strings.Contains(g.body, "/h.") {
			fmt.Fprintf(&sb, "%s\n%s\n", g.hdr, shortStack(g.body))
		}
		switch {
		case strings.HasPrefix(g.state, "sync.Mutex"), strings.HasPrefix(g.state, "sync.RWMutex"), strings.HasPrefix(g.state, "semacquire"):
			if isLib {
				lockWait++
			}
		case strings.HasPrefix(g.state, "sleep"):
			if isLib {
				timers++
			}
		}
	}
	if frozen && lockWait > 0 {
		// only without the instrumentation: a goroutine waiting for a mutex keeps virtual time from
		// advancing, which says nothing about the library
		return "inconclusive", fmt.Sprintf("%d goroutines of the scenario are blocked on mutexes inside the library and nothing can run:\n%s", lockWait, sb.String())
	}
	for id := range os_[0].spin {
		all := true
		for _, o := range os_ {
			if !o.spin[id] || o.prog != os_[0].prog {
				all = false
			}
		}
		if all {
			return "spin", "goroutine " + id + " spins inside the library:\n" + sb.String()
		}
	}
	return "inconclusive", sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// virtualNoise is how much virtual time the noise may take in one scenario of a property.
var virtualNoise = map[string]time.Duration{}

func init() {
	for i := 1; i <= 60; i++ {
		virtualNoise[fmt.Sprintf("C%02d", i)] = 5 * time.Millisecond
	}
	delete(virtualNoise, "C26")
}

// Mutex is a lock a goroutine can wait for durably, in the sense of testing/synctest: its holder may
// be inside the library, where the noise may make it sleep.
type Mutex struct {
	m    sync.Mutex
	c    *sync.Cond
	held bool
}

func (x *Mutex) Lock() {
	x.m.Lock()
	defer x.m.Unlock()
	for x.held {
		if x.c == nil {
			x.c = sync.NewCond(&x.m)
		}
		x.c.Wait()
	}
	x.held = true
}

func (x *Mutex) Unlock() {
	x.m.Lock()
	defer x.m.Unlock()
	x.held = false
	if x.c != nil {
		x.c.Signal()
	}
}

func (x *Mutex) TryLock() bool {
	x.m.Lock()
	defer x.m.Unlock()
	if x.held {
		return false
	}
	x.held = true
	return true
}
