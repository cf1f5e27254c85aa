// vinstr instruments the Go files of one package directory for noise injection and statement
// coverage: it copies every non-test file with a call inserted before each statement (textually, on
// the same line, so that line numbers stay the same) and writes a build overlay that replaces the
// originals and adds one file with the called function.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	src, out := os.Args[1], os.Args[2]
	realSync := len(os.Args) > 3 && os.Args[3] == "realsync"
	ents, err := os.ReadDir(src)
	if err != nil {
		fail(err)
	}
	var sites []site
	replace := map[string]string{}
	mod := modulePath(filepath.Join(src, "go.mod"))
	usesSync := false
	pkg := ""
	for _, e := range ents {
		name := e.Name()
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		path := filepath.Join(src, name)
		b, err := os.ReadFile(path)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		if f.Name.Name == "main" {
			continue
		}
		pkg = f.Name.Name
		type ins struct{ off, id int }
		var inss []ins
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				for {
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					} else if ix, ok := t.(*ast.IndexExpr); ok {
						t = ix.X
					} else {
						break
					}
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + "." + fn
				}
			}
			hot := isPure(fd.Body)
			first := true
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				var list []ast.Stmt
				switch x := n.(type) {
				case *ast.BlockStmt:
					list = x.List
				case *ast.CaseClause:
					list = x.Body
				case *ast.CommClause:
					list = x.Body
				}
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					if cc, ok := s.(*ast.CaseClause); ok {
						_ = cc
						continue
					}
					if cc, ok := s.(*ast.CommClause); ok {
						_ = cc
						continue
					}
					if hot && !first {
						continue
					}
					first = false
					p := fset.PositionFor(s.Pos(), false)
					inss = append(inss, ins{p.Offset, len(sites)})
					sites = append(sites, site{name, p.Line, fn})
				}
				return true
			})
		}
		// "sync" is replaced by a package with the same interface whose locks wait in a way that
		// virtual time understands
		var o strings.Builder
		last := 0
		if mod != "" && !realSync {
			for _, im := range f.Imports {
				if im.Path.Value != `"sync"` || (im.Name != nil && (im.Name.Name == "." || im.Name.Name == "_")) {
					continue
				}
				off := fset.PositionFor(im.Path.Pos(), false).Offset
				o.Write(b[last:off])
				if im.Name == nil {
					o.WriteString("sync ")
				}
				fmt.Fprintf(&o, "%q", mod+"/verifsync__")
				last = off + len(im.Path.Value)
				usesSync = true
			}
		}
		sort.Slice(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
		for _, in := range inss {
			o.Write(b[last:in.off])
			fmt.Fprintf(&o, "verifYieldPoint__(%d); ", in.id)
			last = in.off
		}
		o.Write(b[last:])
		dst := filepath.Join(out, "instr_"+name)
		if err := os.WriteFile(dst, []byte(o.String()), 0o644); err != nil {
			fail(err)
		}
		replace[path] = dst
	}
	rt := strings.ReplaceAll(strings.ReplaceAll(runtimeSrc, "PKG", pkg), "NSITES", fmt.Sprint(max(1, len(sites))))
	dst := filepath.Join(out, "instr_zz_runtime.go")
	if err := os.WriteFile(dst, []byte(rt), 0o644); err != nil {
		fail(err)
	}
	replace[filepath.Join(src, "zz_verif_runtime__.go")] = dst
	if usesSync {
		dst := filepath.Join(out, "instr_zz_sync.go")
		if err := os.WriteFile(dst, []byte(syncSrc), 0o644); err != nil {
			fail(err)
		}
		replace[filepath.Join(src, "verifsync__", "sync.go")] = dst
	}
	wj(filepath.Join(out, "overlay.json"), map[string]any{"Replace": replace})
	wj(filepath.Join(out, "sites.json"), sites)
}

// isPure reports whether a body only computes (no calls except conversions/builtins and
// package-qualified functions of encoding/bits, no channels, no go statements); such hot
// functions (the masking loops) get a single point at their entry.
func isPure(b *ast.BlockStmt) bool {
	pure := true
	loops := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.DeferStmt, *ast.FuncLit:
			pure = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				pure = false
			}
		case *ast.ForStmt, *ast.RangeStmt:
			loops = true
		case *ast.CallExpr:
			s := x.Fun
			if sel, ok := s.(*ast.SelectorExpr); ok {
				n := sel.Sel.Name
				if !(strings.HasPrefix(n, "Uint") || strings.HasPrefix(n, "PutUint") || strings.HasPrefix(n, "RotateLeft")) {
					pure = false
				}
			}
		}
		return true
	})
	return pure && loops
}

func modulePath(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], "\"")
		}
	}
	return ""
}

func wj(p string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "vinstr:", err)
	os.Exit(1)
}

const runtimeSrc = `package PKG

import (
	"runtime"
	"syscall"
	"time"
)

// Generated by vinstr. All accesses are unsynchronised on purpose and hidden from the race
// detector, so that the instrumentation adds no happens-before edges.

const VerifSites__ = NSITES

var verifHits__ [NSITES]uint32
var verifMode__ uint32
var verifProb__ uint32
var verifTarget__ [4]int32
var verifSleep__ int64
var verifBudget__ int64
var verifSkip__ int
var verifState__ uint64 = 88172645463325252

//go:norace
func VerifHit__(i int) uint32 { return verifHits__[i] }

// VerifVirtual__ lets the goroutines of the package sleep now and then (in virtual time, in a bubble):
// a statement in 4096/prob, up to max each and budget in all, after the first skip statements.
//
//go:norace
func VerifVirtual__(prob uint32, max, budget int64, skip int, seed uint64) {
	verifMode__ = 0
	verifSkip__ = skip
	verifProb__ = prob
	verifSleep__ = max
	verifBudget__ = budget
	verifState__ = seed | 1
	verifMode__ = 4
}

//go:norace
func VerifPause__(p bool) {
	if p {
		verifMode__ &^= 4
	} else {
		verifMode__ |= 4
	}
}

//go:norace
func VerifNoise__(mode, prob uint32, t [4]int32, sleepNs int64, seed uint64) {
	verifMode__ = 0
	verifProb__ = prob
	verifTarget__ = t
	verifSleep__ = sleepNs
	verifState__ = seed | 1
	verifMode__ = mode
}

//go:norace
func verifYieldPoint__(i int) {
	verifHits__[i]++
	m := verifMode__
	if m == 0 {
		return
	}
	if m&4 != 0 && verifSkip__ > 0 {
		verifSkip__--
		return
	}
	x := verifState__
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	verifState__ = x
	if m&1 != 0 && uint32(x>>20)%1024 < verifProb__ {
		for k := uint32(x>>50) % 4; ; k-- {
			runtime.Gosched()
			if k == 0 {
				break
			}
		}
	}
	if m&4 != 0 && uint32(x>>13)%4096 < verifProb__ && verifBudget__ > 0 {
		d := 1 + int64((x>>29)%uint64(verifSleep__))
		verifBudget__ -= d
		time.Sleep(time.Duration(d))
	}
	if m&2 != 0 {
		for _, t := range verifTarget__ {
			if t == int32(i) && (x>>33)%4 != 0 {
				ts := syscall.Timespec{Nsec: verifSleep__ * int64(1+(x>>40)%4) / 2}
				syscall.Nanosleep(&ts, nil)
			}
		}
	}
}
`

// syncSrc is a stand-in for package sync: the same locks, except that a goroutine that has to wait
// waits on a condition variable (durably, in the sense of testing/synctest). Uncontended calls go
// to the real locks, so the race detector sees the same ordering as with package sync.
const syncSrc = `package sync

import (
	"sync"
	"sync/atomic"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                            { return sync.NewCond(l) }
func OnceFunc(f func()) func()                          { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T              { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

type waitq struct {
	mu sync.Mutex
	c  *sync.Cond
	n  atomic.Int32
}

func (q *waitq) wait(try func() bool) {
	q.mu.Lock()
	if q.c == nil {
		q.c = sync.NewCond(&q.mu)
	}
	q.n.Add(1)
	for !try() {
		q.c.Wait()
	}
	q.n.Add(-1)
	q.mu.Unlock()
}

func (q *waitq) wake() {
	if q.n.Load() > 0 {
		q.mu.Lock()
		q.c.Broadcast()
		q.mu.Unlock()
	}
}

type Mutex struct {
	m sync.Mutex
	q waitq
}

func (m *Mutex) Lock() {
	if !m.m.TryLock() {
		m.q.wait(m.m.TryLock)
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); m.q.wake() }

type RWMutex struct {
	m sync.RWMutex
	q waitq
	w atomic.Int32 // writers waiting: they keep new readers out
}

func (m *RWMutex) Lock() {
	if !m.m.TryLock() {
		m.w.Add(1)
		m.q.wait(m.m.TryLock)
		m.w.Add(-1)
	}
}
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) Unlock()       { m.m.Unlock(); m.q.wake() }
func (m *RWMutex) RLock() {
	if !m.TryRLock() {
		m.q.wait(m.TryRLock)
	}
}
func (m *RWMutex) TryRLock() bool  { return m.w.Load() == 0 && m.m.TryRLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); m.q.wake() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}
`
