package h

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// hist is a concurrent history, one per independent object.
type hist struct {
	mu  Mutex
	clk atomic.Int64
	ops map[string][]porcupine.Operation
}

func newHist() *hist        { return &hist{ops: map[string][]porcupine.Operation{}} }
func (h *hist) tick() int64 { return h.clk.Add(1) }
func (h *hist) add(obj string, client int, in, out any, call, ret int64) {
	h.mu.Lock()
	h.ops[obj] = append(h.ops[obj], porcupine.Operation{ClientId: client, Input: in, Output: out, Call: call, Return: ret})
	h.mu.Unlock()
}

// judge checks every object's history against the model.
func (h *hist) judge(s *S, m porcupine.Model, kind, info string) {
	overlaps := 0
	for _, obj := range sortedKeys(h.ops) {
		ops := h.ops[obj]
		for i := range ops {
			for j := range i {
				if ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
					overlaps++
				}
			}
		}
		s.Count("operations_checked", len(ops))
		switch porcupine.CheckOperationsTimeout(m, ops, 10*time.Second) {
		case porcupine.Illegal:
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			var b strings.Builder
			for _, o := range ops {
				fmt.Fprintf(&b, "\n  [%d,%d] goroutine %d: %s", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output))
			}
			s.Violate(kind, "the history of %s has no legal order; %s%s", obj, info, b.String())
		case porcupine.Unknown:
			s.Count("histories_not_decided", 1)
		}
	}
	s.Count("overlapping_pairs", overlaps)
}

// ---------------------------------------------------------------- C18

type mgrIn struct {
	op  string // register, close, get
	id  int
	key int
}
type mgrState struct {
	cur    int
	closed [16]uint64 // by id
}

var mgrModel = porcupine.Model{
	Init: func() any { return mgrState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(mgrState), in.(mgrIn)
		switch i.op {
		case "register":
			s.cur = i.id
			return true, s
		case "close":
			s.closed[i.id>>6] |= 1 << (i.id & 63)
			return true, s
		}
		want := s.cur
		if want != 0 && s.closed[want>>6]&(1<<(want&63)) != 0 {
			want = 0
		}
		return out.(int) == want, s
	},
	DescribeOperation: func(in, out any) string {
		i := in.(mgrIn)
		if i.op == "get" {
			return fmt.Sprintf("lookup of key %d returned connection %v", i.key, out)
		}
		return fmt.Sprintf("%s connection %d (key %d)", i.op, i.id, i.key)
	},
}

// mconn is a connection of a registry scenario.
type mconn struct {
	id, key   int
	c         *MemConn
	ws        *snapws.Conn
	mc        *snapws.ManagedConn[int]
	d         *rd
	reg, unrg int
	disc      int
	unregT    int64
	closeCall int64
	closeRet  int64
	closers   int
	cli       bool
	regWrong  string
}

var _ = register("C18", &Prop{Quick: 80000, Thorough: 2000000,
	Rule: "2 to 6 goroutines connecting, looking up, listing with exclusions, closing (by call, by the client, from the connect hook) connections under 1 to 3 keys, with schedule noise; every key's history is checked for linearizability, hooks and final state are compared with the set of open connections; every third scenario is sequential with exact expectations after each step; non-trivial: at least one key was registered twice or closed while used",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := quietOpts()
		o.WriteWait = time.Second
		K := 1 + r.IntN(3)
		G := 2 + r.IntN(5)
		N := 2 + r.IntN(7)
		roof, wide := 60, 0
		if s.Idx%3 == 0 {
			G, N = 1, 10+r.IntN(30)
			if s.Long(303) {
				N, roof = 200+r.IntN(300), 1000
				switch r.IntN(4) {
				case 0, 1:
					K = 100 // many connections open at once
				case 2: // hundreds
					K, wide = 2000, 100+r.IntN(400)
					N = wide + 50
				}
			}
		}
		noise := s.Noise()
		s.Sig(s.Idx, K, G, N)
		h := newHist()
		var all []*mconn
		info := fmt.Sprintf("%d keys, %d goroutines, noise %s", K, G, noise)
		s.Bubble(t, func() {
			var mu Mutex
			byWS := map[*snapws.Conn]*mconn{}
			byNC := map[any]*mconn{}
			o.OnConnect = func(ws *snapws.Conn) {
				mu.Lock()
				x := byNC[ws.NetConn()]
				x.ws = ws
				byWS[ws] = x
				mu.Unlock()
				if x.id%11 == 10 { // closed before it is registered
					call := h.tick()
					ws.Close()
					h.add(fmt.Sprint("key ", x.key), x.id, mgrIn{"close", x.id, x.key}, 0, call, h.tick())
					mu.Lock()
					x.closers = -1000
					mu.Unlock()
				}
			}
			o.OnDisconnect = func(ws *snapws.Conn) { mu.Lock(); byWS[ws].disc++; mu.Unlock() }
			u := snapws.NewUpgrader(o)
			m := snapws.NewManager[int](u)
			m.OnRegister = func(mc *snapws.ManagedConn[int]) {
				mu.Lock()
				x := byWS[mc.Conn]
				x.reg++
				if mc.Key != x.key {
					x.regWrong = fmt.Sprintf("registered with key %d instead of %d", mc.Key, x.key)
				}
				mu.Unlock()
			}
			m.OnUnregister = func(mc *snapws.ManagedConn[int]) {
				mu.Lock()
				x := byWS[mc.Conn]
				x.unrg++
				if mc.Key != x.key {
					x.regWrong = fmt.Sprintf("unregistered with key %d instead of %d", mc.Key, x.key)
				}
				x.unregT = h.tick()
				mu.Unlock()
			}
			nid := 0
			idOf := func(mc *snapws.ManagedConn[int]) int {
				if mc == nil {
					return 0
				}
				mu.Lock()
				defer mu.Unlock()
				if x := byWS[mc.Conn]; x != nil {
					return x.id
				}
				return -1
			}
			pick := func(f func(n int) int) *mconn {
				mu.Lock()
				defer mu.Unlock()
				if len(all) == 0 {
					return nil
				}
				x := all[f(len(all))]
				if x.mc == nil {
					return nil
				}
				return x
			}
			var ops []*Op
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				ops = append(ops, s.Go("registry user", func() {
					for i := range N {
						what := gr.IntN(8)
						if i < wide {
							what = 0
						}
						switch what {
						case 0, 1:
							mu.Lock()
							if nid >= roof {
								mu.Unlock()
								continue
							}
							nid++
							x := &mconn{id: nid, key: gr.IntN(K), c: NewMemConn()}
							NewClient(x.c)
							byNC[x.c] = x
							all = append(all, x)
							mu.Unlock()
							call := h.tick()
							var mc *snapws.ManagedConn[int]
							var err error
							if gr.IntN(4) == 0 { // in two steps
								var ws *snapws.Conn
								if ws, err = u.Upgrade(NewRW(x.c, 4096, 4096, nil), Request()); err == nil {
									if gr.IntN(5) == 0 && x.id%11 != 10 {
										call = h.tick()
										ws.Close()
										h.add(fmt.Sprint("key ", x.key), 200+x.id, mgrIn{"close", x.id, x.key}, 0, call, h.tick())
										mu.Lock()
										x.closers = -1000
										mu.Unlock()
									} else if gr.IntN(2) == 0 {
										time.Sleep(time.Duration(gr.IntN(300)) * time.Microsecond)
									}
									mc = &snapws.ManagedConn[int]{Conn: ws, Key: x.key, Manager: m}
									call = h.tick()
									m.Register(x.key, mc)
								}
							} else {
								mc, err = m.Connect(x.key, NewRW(x.c, 4096, 4096, nil), Request())
							}
							ret := h.tick()
							if err != nil {
								s.Violate("upgrade", "a valid request was refused: %v", err)
								return
							}
							h.add(fmt.Sprint("key ", x.key), g, mgrIn{"register", x.id, x.key}, 0, call, ret)
							mu.Lock()
							x.mc = mc
							mu.Unlock()
							x.d = s.Reader(mc.Conn)
						case 2, 3:
							k := gr.IntN(K)
							call := h.tick()
							mc := m.Get(k)
							ret := h.tick()
							h.add(fmt.Sprint("key ", k), g, mgrIn{"get", 0, k}, idOf(mc), call, ret)
							if mc != nil && mc.Key != k {
								s.Violate("lookup", "the lookup of key %d returned a connection of key %d; %s", k, mc.Key, info)
							}
						case 4, 5:
							var ex []int
							for range gr.IntN(3 + wide/4) {
								ex = append(ex, gr.IntN(K+1))
							}
							found := map[int]int{}
							call := h.tick()
							var ret int64
							if gr.IntN(2) == 0 {
								l := m.GetAllConns(ex...)
								ret = h.tick()
								for _, mc := range l {
									if mc == nil {
										s.Violate("listing", "the listing contains nil; %s", info)
										return
									}
									if found[mc.Key] != 0 {
										s.Violate("listing", "key %d is listed twice; %s", mc.Key, info)
									}
									found[mc.Key] = idOf(mc)
								}
							} else {
								l := m.GetAllConnsAsConn(ex...)
								ret = h.tick()
								for _, ws := range l {
									mu.Lock()
									x := byWS[ws]
									mu.Unlock()
									if x == nil || found[x.key] != 0 {
										s.Violate("listing", "the listing contains an unknown connection or a key twice; %s", info)
										return
									}
									found[x.key] = x.id
								}
							}
							for k := range K {
								exc := false
								for _, e := range ex {
									exc = exc || e == k
								}
								if exc {
									if found[k] != 0 {
										s.Violate("listing", "the excluded key %d is listed; %s", k, info)
									}
									continue
								}
								h.add(fmt.Sprint("key ", k), g, mgrIn{"get", 0, k}, found[k], call, ret)
							}
						default:
							x := pick(gr.IntN)
							if x == nil {
								continue
							}
							cli := gr.IntN(3) == 0
							mu.Lock()
							x.closers++
							if x.closeCall == 0 {
								x.closeCall = h.tick()
							}
							x.cli = x.cli || cli
							mu.Unlock()
							if cli {
								if gr.IntN(2) == 0 {
									x.c.FeedEOF()
								} else {
									x.c.Feed(cf(opClose, nil, nil).Bytes())
								}
							} else {
								x.mc.Close()
								mu.Lock()
								x.closeRet = max(x.closeRet, h.tick())
								mu.Unlock()
							}
						}
						if G == 1 {
							s.Settle()
							time.Sleep(time.Millisecond)
						} else if gr.IntN(4) == 0 {
							time.Sleep(time.Duration(gr.IntN(100)) * time.Microsecond)
						}
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, 5*time.Minute, "stuck") {
					return
				}
			}
			time.Sleep(5 * time.Second)
			s.Settle()
			// the end state
			mu.Lock()
			open := map[int]int{}
			for _, x := range all {
				if x.mc == nil {
					continue
				}
				if x.regWrong != "" {
					s.Violate("hook", "connection %d was %s; %s", x.id, x.regWrong, info)
				}
				if x.reg != 1 {
					s.Violate("hook", "the register hook ran %d times for connection %d; %s", x.reg, x.id, info)
				}
				if x.c.Closed() != (x.disc == 1) || x.disc > 1 {
					s.Violate("hook", "connection %d: transport closed %v, disconnect hook %d times; %s", x.id, x.c.Closed(), x.disc, info)
				}
				if !x.c.Closed() {
					if open[x.key] != 0 {
						s.Violate("replaced", "connections %d and %d of key %d are both open although registering the key again closes the previous one; %s", open[x.key], x.id, x.key, info)
					}
					open[x.key] = x.id
				}
				if x.unrg != b2i(x.c.Closed()) {
					s.Violate("hook", "the unregister hook ran %d times for connection %d (closed %v); %s", x.unrg, x.id, x.c.Closed(), info)
				}
			}
			end := h.tick()
			closes := 0
			for _, x := range all {
				if x.closers > 0 {
					closes++
					if x.unregT != 0 && x.unregT < x.closeCall {
						continue // it had been replaced already
					}
					ret := max(x.closeRet, x.unregT)
					if ret == 0 {
						ret = end
					}
					h.add(fmt.Sprint("key ", x.key), 100+x.id, mgrIn{"close", x.id, x.key}, 0, x.closeCall, ret)
				}
			}
			mu.Unlock()
			for k := range K {
				call := h.tick()
				h.add(fmt.Sprint("key ", k), 99, mgrIn{"get", 0, k}, idOf(m.Get(k)), call, h.tick())
			}
			if l := m.GetAllConns(); len(l) != len(open) {
				s.Violate("listing", "%d connections are listed and %d are open; %s", len(l), len(open), info)
			}
			s.Count("connections", len(all))
			s.Count("closes", closes)
			if len(all) > K || closes > 0 {
				s.NonTrivial()
			}
			for _, x := range all {
				if x.mc != nil {
					x.mc.Close()
					if x.d != nil {
						x.d.op.Within(time.Minute)
					}
				}
			}
			time.Sleep(time.Second)
			if l := m.GetAllConns(); len(l) != 0 {
				s.Violate("listing", "%d connections are listed after all have closed; %s", len(l), info)
			}
		})
		if !s.Failed() {
			h.judge(s, mgrModel, "not-atomic", info)
		}
		s.Sample(map[string]any{"keys": K, "goroutines": G, "connections": len(all), "noise": noise})
	}})

// ---------------------------------------------------------------- C20

type roomIn struct {
	op string // add, move-in, remove, empty, close, list
	id int
}
type roomState struct {
	member int // 0 no, -1 joined without an id
	closed bool
}

var roomModel = porcupine.Model{
	Init: func() any { return roomState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(roomState), in.(roomIn)
		switch i.op {
		case "add":
			can := s.member == 0 && !s.closed
			if out.(bool) != can {
				return false, s
			}
			if can {
				s.member = i.id
			}
		case "move-in":
			if s.member == 0 && !s.closed {
				s.member = -1
			}
		case "remove":
			if out.(bool) != (s.member != 0) {
				return false, s
			}
			s.member = 0
		case "empty":
			s.member = 0
		case "close":
			want := s.member
			if want < 0 {
				want = 0
			}
			if out.(int) != want {
				return false, s
			}
			s.member, s.closed = 0, true
		case "list":
			return out.(bool) == (s.member != 0), s
		}
		return true, s
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
}

// roomEv is one run of a room hook.
type roomEv struct {
	room, conn int
	join       bool
	args       string
}

var _ = register("C20", &Prop{Quick: 60000, Thorough: 1500000,
	Rule: "2 to 6 goroutines adding, removing, moving, emptying, listing and closing (by call or by the client) 1 to 4 connections in 1 to 3 rooms with schedule noise; each (room, connection) history, with the outcome of each add and remove taken from the hook arguments, is checked for linearizability, and joins minus leaves must equal final membership; every third scenario is sequential, including room closing and re-creation, with the exact hook log expected; non-trivial: at least one membership began",
	Run: func(t *testing.T, s *S) {
		if s.Idx%3 == 0 {
			roomsSequential(t, s)
			return
		}
		r := s.R
		o := quietOpts()
		o.WriteWait = time.Second
		NR, NC, G := 1+r.IntN(3), 1+r.IntN(4), 2+r.IntN(5)
		N := 3 + r.IntN(8)
		noise := s.Noise()
		s.Sig(s.Idx, NR, NC, G, N)
		info := fmt.Sprintf("%d rooms, %d connections, %d goroutines, noise %s", NR, NC, G, noise)
		h := newHist()
		s.Bubble(t, func() {
			var mu Mutex
			var log []roomEv
			u := snapws.NewUpgrader(o)
			rm := snapws.NewRoomManager[int](u)
			conns := make([]*snapws.Conn, NC)
			cs := make([]*MemConn, NC)
			ds := make([]*rd, NC)
			cid := map[*snapws.Conn]int{}
			hook := func(join bool) func(*snapws.Room[int], *snapws.Conn, ...any) {
				return func(room *snapws.Room[int], ws *snapws.Conn, args ...any) {
					mu.Lock()
					log = append(log, roomEv{room.Key, cid[ws], join, fmt.Sprint(args...)})
					mu.Unlock()
				}
			}
			rm.DefaultOnJoin, rm.DefaultOnLeave = hook(true), hook(false)
			rooms := make([]*snapws.Room[int], NR)
			for i := range rooms {
				rooms[i] = rm.Add(i)
			}
			for i := range conns {
				cs[i] = NewMemConn()
				NewClient(cs[i])
				conns[i] = s.dial(u, cs[i])
				if conns[i] == nil {
					return
				}
				cid[conns[i]] = i
				ds[i] = s.Reader(conns[i])
			}
			type pend struct {
				obj       string
				g         int
				in        roomIn
				call, ret int64
				r, c      int
			}
			var pends []pend
			closeCall, closeRet := make([]int64, NC), make([]int64, NC)
			obj := func(r, c int) string { return fmt.Sprintf("connection %d in room %d", c, r) }
			nid := 0
			var ops []*Op
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				ops = append(ops, s.Go("room user", func() {
					for range N {
						ri, ci := gr.IntN(NR), gr.IntN(NC)
						room, ws := rooms[ri], conns[ci]
						mu.Lock()
						nid++
						id := nid
						mu.Unlock()
						call := h.tick()
						switch gr.IntN(12) {
						case 0, 1, 2, 3:
							room.Add(ws, "j", id)
							ret := h.tick()
							mu.Lock()
							pends = append(pends, pend{obj(ri, ci), g, roomIn{"add", id}, call, ret, ri, ci})
							mu.Unlock()
						case 4, 5:
							room.Remove(ws, "r", id)
							ret := h.tick()
							mu.Lock()
							pends = append(pends, pend{obj(ri, ci), g, roomIn{"remove", id}, call, ret, ri, ci})
							mu.Unlock()
						case 6:
							to := gr.IntN(NR + 1) // possibly a room that does not exist
							room.Move(ws, to)
							ret := h.tick()
							h.add(obj(ri, ci), g, roomIn{"empty", id}, nil, call, ret)
							if to < NR {
								h.add(obj(to, ci), g+100, roomIn{"move-in", id}, nil, call, ret)
							}
						case 7:
							if gr.IntN(2) == 0 {
								continue
							}
							room.RemoveAll()
							ret := h.tick()
							for c := range NC {
								h.add(obj(ri, c), g, roomIn{"empty", id}, nil, call, ret)
							}
						case 8, 9, 10:
							var ex []*snapws.Conn
							if gr.IntN(3) == 0 {
								ex = append(ex, conns[gr.IntN(NC)])
							}
							l := room.GetAllConns(ex...)
							ret := h.tick()
							for c := range NC {
								n := 0
								for _, x := range l {
									if x == conns[c] {
										n++
									}
								}
								if len(ex) > 0 && ex[0] == conns[c] {
									if n > 0 {
										s.Violate("listing", "an excluded connection is listed; %s", info)
									}
									continue
								}
								if n > 1 {
									s.Violate("listing", "a connection is listed twice; %s", info)
								}
								h.add(obj(ri, c), g, roomIn{"list", id}, n > 0, call, ret)
							}
						default:
							if gr.IntN(2) == 0 {
								continue
							}
							mu.Lock()
							if closeCall[ci] == 0 {
								closeCall[ci] = call
							}
							mu.Unlock()
							if gr.IntN(4) == 0 {
								cs[ci].FeedEOF()
								mu.Lock()
								closeRet[ci] = 1 << 40
								mu.Unlock()
							} else {
								ws.Close()
								ret := h.tick()
								mu.Lock()
								closeRet[ci] = max(closeRet[ci], ret)
								mu.Unlock()
							}
						}
						if gr.IntN(4) == 0 {
							time.Sleep(time.Duration(gr.IntN(100)) * time.Microsecond)
						}
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, 5*time.Minute, "stuck") {
					return
				}
			}
			time.Sleep(3 * time.Second)
			s.Settle()
			mu.Lock()
			joins, leaves := map[string]int{}, map[string]int{}
			jo, le := map[[2]int]int{}, map[[2]int]int{}
			for _, e := range log {
				k := [2]int{e.room, e.conn}
				tag := obj(e.room, e.conn) + "/" + e.args
				if e.join {
					jo[k]++
					joins[tag]++
				} else {
					le[k]++
					leaves[tag]++
				}
			}
			closedLeave := map[string][]int{}
			for _, p := range pends {
				switch p.in.op {
				case "add":
					tag := p.obj + "/" + fmt.Sprint("j", p.in.id)
					if joins[tag] > 1 || leaves[tag] > 1 {
						s.Violate("hook", "the join hook ran %d times and the leave hook %d times for one add (%s); %s", joins[tag], leaves[tag], p.obj, info)
					}
					if leaves[tag] > 0 {
						closedLeave[p.obj] = append(closedLeave[p.obj], p.in.id)
						if joins[tag] == 0 {
							s.Violate("hook", "a leave hook got the arguments of an add that did not join (%s); %s", p.obj, info)
						}
					}
					h.add(p.obj, p.g, p.in, joins[tag] > 0, p.call, p.ret)
				case "remove":
					tag := p.obj + "/" + fmt.Sprint("r", p.in.id)
					h.add(p.obj, p.g, p.in, leaves[tag] > 0, p.call, p.ret)
				}
			}
			members := 0
			for ri := range NR {
				l := rooms[ri].GetAllConns()
				for ci := range NC {
					in := contains(l, conns[ci])
					if d := jo[[2]int{ri, ci}] - le[[2]int{ri, ci}]; d != b2i(in) {
						s.Violate("hook", "%s: the join hook ran %d times and the leave hook %d times, and it is a member: %v; %s", obj(ri, ci), jo[[2]int{ri, ci}], le[[2]int{ri, ci}], in, info)
					}
					members += jo[[2]int{ri, ci}]
					if in && cs[ci].Closed() {
						s.Violate("listing", "%s: a closed connection is listed; %s", obj(ri, ci), info)
					}
					h.add(obj(ri, ci), 99, roomIn{"list", 0}, in, 1<<40+1, 1<<40+2)
					if closeCall[ci] > 0 {
						out := 0
						if cl := closedLeave[obj(ri, ci)]; len(cl) > 1 {
							s.Violate("hook", "%s: %d memberships were ended by one close; %s", obj(ri, ci), len(cl), info)
						} else if len(cl) == 1 {
							out = cl[0]
						}
						h.add(obj(ri, ci), 98, roomIn{"close", 0}, out, closeCall[ci], closeRet[ci])
					} else if len(closedLeave[obj(ri, ci)]) > 0 {
						s.Violate("hook", "%s: a leave hook got the join's arguments although the connection was not closed; %s", obj(ri, ci), info)
					}
				}
			}
			mu.Unlock()
			s.Count("memberships", members)
			if members > 0 {
				s.NonTrivial()
			}
			for i, ws := range conns {
				ws.Close()
				ds[i].op.Within(time.Minute)
			}
			for ri := range NR {
				if l := rooms[ri].GetAllConns(); len(l) > 0 {
					s.Violate("listing", "%d connections are in a room after all have closed; %s", len(l), info)
				}
			}
		})
		if !s.Failed() {
			h.judge(s, roomModel, "not-atomic", info)
		}
		s.Sample(map[string]any{"rooms": NR, "connections": NC, "goroutines": G, "noise": noise})
	}})

// roomsSequential compares every step with an exact model, hook log included.
func roomsSequential(t *testing.T, s *S) {
	r := s.R
	o := quietOpts()
	noise := s.Noise()
	s.Bubble(t, func() {
		var mu Mutex
		var log []string
		u := snapws.NewUpgrader(o)
		rm := snapws.NewRoomManager[string](u)
		names := map[*snapws.Conn]string{}
		roomName := map[*snapws.Room[string]]string{}
		hk := func(what string) func(*snapws.Room[string], *snapws.Conn, ...any) {
			return func(room *snapws.Room[string], ws *snapws.Conn, args ...any) {
				mu.Lock()
				defer mu.Unlock()
				n := roomName[room]
				if n == "" {
					n = "new:" + room.Key
				}
				c := names[ws]
				if c == "" {
					c = "new"
				}
				log = append(log, fmt.Sprintf("%s %s %s %v", what, n, c, args))
			}
		}
		rm.DefaultOnJoin, rm.DefaultOnLeave = hk("join"), hk("leave")
		type member struct{ args string }
		type mroom struct {
			name        string
			r           *snapws.Room[string]
			in          map[string]member
			join, leave string // what its hooks log
		}
		keys := []string{"a", "b", "c"}
		cur := map[string]*mroom{}
		var rooms []*mroom
		type mc struct {
			name   string
			ws     *snapws.Conn
			c      *MemConn
			d      *rd
			closed bool
		}
		var conns []*mc
		nroom := 0
		roomOf := func(k string, room *snapws.Room[string]) *mroom {
			if x := cur[k]; x != nil {
				if x.r != room {
					s.Violate("room", "key %q gave another room object while its room was open", k)
				}
				return x
			}
			nroom++
			x := &mroom{name: fmt.Sprintf("%s%d", k, nroom), r: room, in: map[string]member{}, join: "join ", leave: "leave "}
			mu.Lock()
			if old := roomName[room]; old != "" {
				s.Violate("room", "the room object %s came back for key %q after it had been closed", old, k)
			}
			roomName[room] = x.name
			mu.Unlock()
			cur[k] = x
			rooms = append(rooms, x)
			return x
		}
		var steps []string
		members := 0
		argn := 0
		newArgs := func() ([]any, string) {
			argn++
			if r.IntN(20) == 0 { // many
				as := make([]any, 3+r.IntN(40))
				for i := range as {
					as[i] = argn + i
				}
				return as, fmt.Sprint(as)
			}
			switch r.IntN(6) {
			case 0:
				return nil, "[]"
			case 1:
				return []any{argn}, fmt.Sprintf("[%d]", argn)
			case 2:
				return []any{nil}, "[<nil>]"
			case 3:
				return []any{nil, argn, nil}, fmt.Sprintf("[<nil> %d <nil>]", argn)
			case 4:
				return []any{false, 0, "", argn, []int{argn, 1}}, fmt.Sprintf("[false 0  %d [%d 1]]", argn, argn)
			}
			return []any{argn, "x"}, fmt.Sprintf("[%d x]", argn)
		}
		total, crowd := 5+r.IntN(30), 6
		if s.Long(303) {
			total, crowd = 150+r.IntN(250), 60
		}
		var first []int // kinds of the first steps
		if s.Long(1203) {
			fill := func(n, a int) {
				for range n {
					first = append(first, a)
				}
			}
			switch r.IntN(3) {
			case 0: // rooms with hundreds of members
				crowd = 100 + r.IntN(150)
				fill(crowd, 0)
				fill(crowd, 3)
			case 1: // connections in many rooms
				crowd = 4
				for i := range 20 + r.IntN(80) {
					keys = append(keys, fmt.Sprint("k", i))
				}
				fill(4, 0)
				fill(2*len(keys), 2)
				fill(6*len(keys), 3)
			default: // hundreds of rooms
				for i := range 100 + r.IntN(300) {
					keys = append(keys, fmt.Sprint("k", i))
				}
				fill(2*len(keys), 2)
			}
			total = len(first) + 30
		}
		for i := range total {
			var want []string
			sortLog := false
			step := ""
			a := r.IntN(15)
			if i < len(first) {
				a = first[i]
			}
			switch {
			case a <= 1 && len(conns) < crowd:
				c := NewMemConn()
				NewClient(c)
				args, as := newArgs()
				x := &mc{name: fmt.Sprintf("c%d", len(conns)), c: c}
				if a == 0 {
					k := keys[r.IntN(len(keys))]
					step = "connect " + x.name + " to " + k + " " + as
					ws, room, err := rm.Connect(NewRW(c, 4096, 4096, nil), Request(), k, args...)
					if err != nil {
						s.Violate("upgrade", "refused: %v", err)
						return
					}
					fresh := cur[k] == nil
					m := roomOf(k, room)
					m.in[x.name] = member{as}
					members++
					n := m.name
					if fresh {
						n = "new:" + k
					}
					want = append(want, m.join+n+" new "+as)
					x.ws = ws
				} else {
					step = "open " + x.name
					x.ws = s.dial(u, c)
					if x.ws == nil {
						return
					}
				}
				mu.Lock()
				names[x.ws] = x.name
				mu.Unlock()
				x.d = s.Reader(x.ws)
				conns = append(conns, x)
			case a == 2:
				k := keys[r.IntN(len(keys))]
				step = "room " + k
				roomOf(k, rm.Add(k))
			case a <= 5 && len(conns) > 0 && len(rooms) > 0:
				m, c := rooms[r.IntN(len(rooms))], conns[r.IntN(len(conns))]
				if cur[m.r.Key] != m {
					continue
				}
				args, as := newArgs()
				step = fmt.Sprintf("add %s to %s %s", c.name, m.name, as)
				m.r.Add(c.ws, args...)
				if _, ok := m.in[c.name]; !ok && !c.closed {
					m.in[c.name] = member{as}
					members++
					want = append(want, m.join+m.name+" "+c.name+" "+as)
				}
			case a <= 7 && len(conns) > 0 && len(rooms) > 0:
				m, c := rooms[r.IntN(len(rooms))], conns[r.IntN(len(conns))]
				args, as := newArgs()
				step = fmt.Sprintf("remove %s from %s %s", c.name, m.name, as)
				m.r.Remove(c.ws, args...)
				if _, ok := m.in[c.name]; ok {
					delete(m.in, c.name)
					want = append(want, m.leave+m.name+" "+c.name+" "+as)
				}
			case a == 8 && len(conns) > 0 && len(rooms) > 0:
				m, c := rooms[r.IntN(len(rooms))], conns[r.IntN(len(conns))]
				k := keys[r.IntN(len(keys))]
				if _, ok := m.in[c.name]; !ok {
					continue // moving a non-member is left open
				}
				step = fmt.Sprintf("move %s from %s to %s", c.name, m.name, k)
				m.r.Move(c.ws, k)
				delete(m.in, c.name)
				want = append(want, m.leave+m.name+" "+c.name+" []")
				if to := cur[k]; to != nil {
					if _, ok := to.in[c.name]; !ok {
						to.in[c.name] = member{"[]"}
						members++
						want = append(want, to.join+to.name+" "+c.name+" []")
					}
				}
			case a == 9 && len(rooms) > 0:
				m := rooms[r.IntN(len(rooms))]
				step = "empty " + m.name
				m.r.RemoveAll()
				for c := range m.in {
					want = append(want, m.leave+m.name+" "+c+" []")
				}
				m.in = map[string]member{}
				sortLog = true
			case a == 10 && len(rooms) > 0:
				m := rooms[r.IntN(len(rooms))]
				step = "close room " + m.name
				m.r.Close()
				for c := range m.in {
					want = append(want, m.leave+m.name+" "+c+" []")
				}
				m.in = map[string]member{}
				if cur[m.r.Key] == m {
					delete(cur, m.r.Key)
				}
				sortLog = true
			case a == 13 && len(rooms) > 0: // hooks of its own
				m := rooms[r.IntN(len(rooms))]
				if r.IntN(2) == 0 {
					step = "join hook of " + m.name
					m.join = fmt.Sprintf("join%d ", i)
					m.r.OnJoin = hk(m.join[:len(m.join)-1])
				} else {
					step = "leave hook of " + m.name
					m.leave = fmt.Sprintf("leave%d ", i)
					m.r.OnLeave = hk(m.leave[:len(m.leave)-1])
				}
			case a == 14: // a request that is refused makes no room
				k := keys[r.IntN(len(keys))]
				step = "refused connect to " + k
				q := Request()
				q.Header.Set("Sec-WebSocket-Version", "12")
				ws, room, err := rm.Connect(NewRW(NewMemConn(), 4096, 4096, nil), q, k, argn)
				if err == nil || ws != nil || room != nil {
					s.Violate("upgrade", "an invalid request returned connection %v, room %v, error %v", ws != nil, room != nil, err)
					return
				}
			case (a == 11 || a == 12) && len(conns) > 0:
				c := conns[r.IntN(len(conns))]
				if r.IntN(2) == 0 {
					step = "close " + c.name
					c.ws.Close()
				} else {
					step = "client close " + c.name
					c.c.FeedEOF()
					c.d.op.Within(time.Minute)
					s.Settle()
				}
				if !c.closed {
					c.closed = true
					for _, m := range rooms {
						if x, ok := m.in[c.name]; ok {
							want = append(want, m.leave+m.name+" "+c.name+" "+x.args)
							delete(m.in, c.name)
						}
					}
				}
				sortLog = true
			default:
				continue
			}
			steps = append(steps, step)
			s.Settle()
			mu.Lock()
			got := append([]string(nil), log...)
			log = nil
			mu.Unlock()
			if sortLog {
				sort.Strings(got)
				sort.Strings(want)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				s.Violate("hooks", "after %q the hooks that ran were %q, expected %q; steps %q", step, got, want, steps)
				return
			}
			for _, m := range rooms {
				if i < len(first) && i%16 != 0 {
					break
				}
				var exc []*snapws.Conn
				var w []string
				for _, c := range conns {
					if r.IntN(20) == 0 {
						exc = append(exc, c.ws)
					} else if _, ok := m.in[c.name]; ok {
						w = append(w, c.name)
					}
				}
				sort.Strings(w)
				l := m.r.GetAllConns(exc...)
				var g []string
				for _, x := range l {
					g = append(g, names[x])
				}
				sort.Strings(g)
				if fmt.Sprint(g) != fmt.Sprint(w) {
					s.Violate("members", "after %q room %s lists %v, expected %v; steps %q", step, m.name, g, w, steps)
					return
				}
			}
			ks := rm.GetRoomKeys()
			sort.Strings(ks)
			if w := sortedKeys(cur); fmt.Sprint(ks) != fmt.Sprint(w) {
				s.Violate("keys", "after %q the room keys are %v, expected %v; steps %q", step, ks, w, steps)
				return
			}
			for _, k := range keys {
				var w *snapws.Room[string]
				if cur[k] != nil {
					w = cur[k].r
				}
				if rm.Get(k) != w {
					s.Violate("keys", "after %q the lookup of room %q does not return its room; steps %q", step, k, steps)
					return
				}
			}
			for _, c := range conns {
				if c.closed != c.c.Closed() {
					s.Violate("closed", "after %q connection %s: closed %v, expected %v; steps %q", step, c.name, c.c.Closed(), c.closed, steps)
					return
				}
			}
		}
		s.Sig(steps)
		s.Count("sequential_steps", len(steps))
		s.Count("memberships", members)
		if members > 0 {
			s.NonTrivial()
		}
		s.Sample(map[string]any{"steps": steps, "noise": noise})
		for _, c := range conns {
			c.ws.Close()
			c.d.op.Within(time.Minute)
		}
	})
}

// ---------------------------------------------------------------- C28

type keyIn struct {
	op string // add, get, list, close
	id int
}
type keyState struct {
	cur  int
	used uint64
}

var keyModel = porcupine.Model{
	Init: func() any { return keyState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(keyState), in.(keyIn)
		switch i.op {
		case "add":
			id := out.(int)
			if s.cur != 0 {
				return id == s.cur, s
			}
			if s.used&(1<<id) != 0 {
				return false, s
			}
			s.cur = id
			s.used |= 1 << id
			return true, s
		case "get":
			return out.(int) == s.cur, s
		case "list":
			return out.(bool) == (s.cur != 0), s
		case "close":
			if s.cur == i.id {
				s.cur = 0
			}
			return true, s
		}
		return false, s
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> room %v", in, out) },
}

var _ = register("C28", &Prop{Quick: 80000, Thorough: 2000000,
	Rule: "2 to 6 goroutines creating, connecting to, looking up, listing and closing (also already replaced) rooms under 1 to 3 keys with schedule noise; every key's history is checked for linearizability and the members of closed rooms must stay open; every third scenario is the sequential room model with exact expectations; non-trivial: at least one room was closed or created by two callers",
	Run: func(t *testing.T, s *S) {
		if s.Idx%3 == 0 {
			roomsSequential(t, s)
			return
		}
		r := s.R
		o := quietOpts()
		K, G := 1+r.IntN(3), 2+r.IntN(5)
		N := 3 + r.IntN(7)
		noise := s.Noise()
		s.Sig(s.Idx, K, G, N)
		info := fmt.Sprintf("%d keys, %d goroutines, noise %s", K, G, noise)
		h := newHist()
		s.Bubble(t, func() {
			var mu Mutex
			u := snapws.NewUpgrader(o)
			rm := snapws.NewRoomManager[int](u)
			ids := map[*snapws.Room[int]]int{}
			cnt := map[int]int{}
			var rooms []*snapws.Room[int]
			idOf := func(room *snapws.Room[int]) int {
				if room == nil {
					return 0
				}
				mu.Lock()
				defer mu.Unlock()
				if ids[room] == 0 {
					cnt[room.Key]++
					ids[room] = cnt[room.Key]
					rooms = append(rooms, room)
				}
				return ids[room]
			}
			var cs []*MemConn
			var wss []*snapws.Conn
			nclose, nconn := 0, 0
			var ops []*Op
			for g := range G {
				gr := s.Rng(fmt.Sprint("g", g))
				ops = append(ops, s.Go("room user", func() {
					for range N {
						k := gr.IntN(K)
						obj := fmt.Sprint("room key ", k)
						call := h.tick()
						switch gr.IntN(10) {
						case 0, 1, 2:
							room := rm.Add(k)
							ret := h.tick()
							if room == nil || room.Key != k {
								s.Violate("room", "creating room %d returned %v; %s", k, room != nil, info)
								return
							}
							h.add(obj, g, keyIn{"add", 0}, idOf(room), call, ret)
						case 3:
							c := NewMemConn()
							NewClient(c)
							ws, room, err := rm.Connect(NewRW(c, 4096, 4096, nil), Request(), k)
							ret := h.tick()
							if err != nil || room == nil {
								s.Violate("upgrade", "connecting to a room failed: %v; %s", err, info)
								return
							}
							h.add(obj, g, keyIn{"add", 0}, idOf(room), call, ret)
							mu.Lock()
							cs = append(cs, c)
							wss = append(wss, ws)
							nconn++
							mu.Unlock()
						case 4, 5:
							room := rm.Get(k)
							ret := h.tick()
							h.add(obj, g, keyIn{"get", 0}, idOf(room), call, ret)
						case 6:
							l := rm.GetRoomKeys()
							ret := h.tick()
							n := map[int]int{}
							for _, x := range l {
								n[x]++
							}
							for k := range K {
								if n[k] > 1 {
									s.Violate("listing", "key %d is listed %d times; %s", k, n[k], info)
								}
								h.add(fmt.Sprint("room key ", k), g, keyIn{"list", 0}, n[k] > 0, call, ret)
							}
						default:
							mu.Lock()
							var room *snapws.Room[int]
							id := 0
							if len(rooms) > 0 {
								room = rooms[gr.IntN(len(rooms))]
								id = ids[room]
								nclose++
							}
							mu.Unlock()
							if room == nil {
								continue
							}
							room.Close()
							h.add(fmt.Sprint("room key ", room.Key), g, keyIn{"close", id}, 0, call, h.tick())
						}
						if gr.IntN(4) == 0 {
							time.Sleep(time.Duration(gr.IntN(100)) * time.Microsecond)
						}
					}
				}))
			}
			for _, op := range ops {
				if !s.MustEnd(op, 5*time.Minute, "stuck") {
					return
				}
			}
			time.Sleep(time.Second)
			s.Settle()
			keys := rm.GetRoomKeys()
			for k := range K {
				call := h.tick()
				room := rm.Get(k)
				h.add(fmt.Sprint("room key ", k), 99, keyIn{"get", 0}, idOf(room), call, h.tick())
				n := 0
				for _, x := range keys {
					n += b2i(x == k)
				}
				if n != b2i(room != nil) {
					s.Violate("listing", "key %d is listed %d times and its lookup found a room: %v; %s", k, n, room != nil, info)
				}
			}
			for i, c := range cs {
				if c.Closed() {
					s.Violate("member-closed", "connection %d was closed although only rooms were closed; %s", i, info)
				}
			}
			s.Count("rooms", len(rooms))
			s.Count("room_closes", nclose)
			s.Count("connections", nconn)
			if nclose > 0 || len(rooms) > 0 {
				s.NonTrivial()
			}
			for _, ws := range wss {
				ws.Close()
			}
		})
		if !s.Failed() {
			h.judge(s, keyModel, "not-atomic", info)
		}
		s.Sample(map[string]any{"keys": K, "goroutines": G, "noise": noise})
	}})

// ---------------------------------------------------------------- C19

var _ = register("C19", &Prop{Quick: 50000, Thorough: 1250000,
	Rule: "shutdown of a manager, a room manager or both, once or by several callers, with 0 to 40 connections (some stuck, slow, half-closed, without a reader, in several rooms, replaced), hooks that look up, list, broadcast, remove, close, shut down again, and closes and broadcasts running at the same time; non-trivial: at least one connection was shut down",
	Run: func(t *testing.T, s *S) {
		r := s.R
		o := quietOpts()
		W := time.Duration(20+r.IntN(1000)) * time.Millisecond
		o.WriteWait = W
		N := []int{0, 1, 2, 3, 5, 8, 10, 11, 15, 25, 40}[r.IntN(11)]
		long := s.Long(500)
		if long {
			N = []int{60, 100, 127, 128, 129, 200, 300}[r.IntN(7)]
		}
		noise := s.Noise()
		which := []string{"manager", "manager", "rooms", "rooms", "both"}[r.IntN(5)]
		callers := 1 + r.IntN(3)*b2i(r.IntN(2) == 0)
		hookActs := r.IntN(2) == 0
		chaos := r.IntN(3)
		stuckP := []float64{0, 0.2, 1}[r.IntN(3)]
		lazy := r.IntN(3) == 0 // hooks that take their time
		s.Sig(s.Idx, N, which, callers)
		s.Count("shutdown: "+which, 1)
		s.Bubble(t, func() {
			w := newWorld(s, o)
			type peer struct {
				c     *MemConn
				ws    *snapws.Conn
				d     *rd
				stuck bool
				mem   int
				eof   bool
			}
			var ps []*peer
			rooms := []*snapws.Room[int]{w.room, w.rm.Add(1), w.rm.Add(2), w.rm.Add(3)}
			for i := range 60 * b2i(long && r.IntN(2) == 0) {
				rooms = append(rooms, w.rm.Add(10+i))
			}
			scatter := 0
			if long && r.IntN(2) == 0 { // many rooms of a few members
				scatter = 1 + r.IntN(3)
				for i := range 100 + r.IntN(200) {
					rooms = append(rooms, w.rm.Add(100+i))
				}
			}
			for i := range N {
				p := &peer{c: NewMemConn()}
				NewClient(p.c)
				mc, err := w.m.Connect(i, NewRW(p.c, 4096, 4096, nil), Request())
				if err != nil {
					s.Violate("upgrade", "refused: %v", err)
					return
				}
				p.ws = mc.Conn
				for _, room := range rooms {
					if which != "manager" && scatter == 0 && (room == w.room || r.IntN(3) == 0) {
						room.Add(p.ws, i)
						p.mem++
					}
				}
				for range scatter {
					if which != "manager" {
						rooms[r.IntN(len(rooms))].Add(p.ws, i)
						p.mem = 1
					}
				}
				if r.IntN(4) != 0 {
					p.d = s.Reader(p.ws)
				}
				if r.Float64() < stuckP {
					p.stuck = true
					p.c.SetWindow(p.c.OutLen() + r.IntN(3))
				} else if r.IntN(4) == 0 {
					p.c.SlowR, p.c.SlowMax = s.Rng(fmt.Sprint("slow", i)), time.Millisecond
				}
				ps = append(ps, p)
			}
			var reent atomic.Int64
			var hmu Mutex
			hr := s.Rng("hook")
			w.mu.Lock()
			w.inHook = func(hook string, ws *snapws.Conn) {
				if !hookActs {
					return
				}
				reent.Add(1)
				hmu.Lock()
				a := hr.IntN(9 + 6*b2i(lazy))
				nap := time.Duration(hr.IntN(3000)) * time.Microsecond
				hmu.Unlock()
				switch a {
				case 9, 10, 11, 12, 13, 14:
					time.Sleep(nap)
				case 0:
					w.m.Get(0)
				case 1:
					w.m.GetAllConns()
				case 2:
					w.m.BroadcastString(bg, []byte("bye"))
				case 3:
					w.room.GetAllConns()
					w.rm.GetRoomKeys()
				case 4:
					w.room.Remove(ws)
				case 5:
					ws.Close()
				case 6:
					w.room.BroadcastString(bg, []byte("bye"))
				case 7:
					w.rm.Get(1)
					w.room.Add(ws)
				}
			}
			w.mu.Unlock()
			info := fmt.Sprintf("%s by %d callers, %d connections, stuck %.1f, hooks act %v, chaos %d, write timeout %v, noise %s", which, callers, N, stuckP, hookActs, chaos, W, noise)
			var ops []*Op
			limit := time.Duration(N+2) * 5 * W
			for i := range callers {
				delay := time.Duration(r.IntN(2000)*b2i(i > 0)) * time.Microsecond
				ops = append(ops, s.Go("Shutdown", func() {
					time.Sleep(delay)
					if which != "rooms" {
						s.Burst()
						s.Timed("Manager.Shutdown", limit, func() error { w.m.Shutdown(); return nil })
						for k, p := range ps {
							if !p.c.Closed() {
								s.Violate("open", "connection %d was open when the shutdown of the manager returned; %s", k, info)
								break
							}
						}
						if l := w.m.GetAllConns(); len(l) != 0 {
							s.Violate("registry", "%d connections were in the manager when its shutdown returned; %s", len(l), info)
						}
					}
					if which != "manager" {
						s.Burst()
						s.Timed("RoomManager.Shutdown", limit, func() error { w.rm.Shutdown(); return nil })
						if l := w.rm.GetRoomKeys(); len(l) != 0 {
							s.Violate("registry", "rooms %v were listed when the shutdown returned; %s", l, info)
						}
					}
				}))
			}
			var extra []*Op
			closedByOthers := map[int]bool{}
			for i := range chaos * 3 {
				gr := s.Rng(fmt.Sprint("chaos", i))
				if N == 0 {
					break
				}
				k := gr.IntN(N)
				act := gr.IntN(4)
				if act <= 1 {
					closedByOthers[k] = true
				}
				extra = append(extra, s.Go("chaos", func() {
					time.Sleep(time.Duration(gr.IntN(2000)) * time.Microsecond)
					switch act {
					case 0:
						ps[k].ws.Close()
					case 1:
						ps[k].c.FeedEOF()
					case 2:
						w.m.BroadcastString(bg, []byte("chaos"))
					default:
						ps[k].ws.SendString(bg, []byte("chaos"))
					}
				}))
			}
			for _, op := range ops {
				if !op.Within(2*limit + time.Minute) {
					if !s.Failed() {
						s.MustEnd(op, time.Second, "hang")
					}
					return
				}
			}
			for k, p := range ps {
				if !p.c.Closed() {
					s.Violate("open", "connection %d is still open after the shutdown returned; %s", k, info)
					break
				}
			}
			for _, op := range extra {
				if !s.MustEnd(op, limit, "hang") {
					return
				}
			}
			for _, p := range ps {
				if p.d != nil && !s.MustEnd(p.d.op, 6*W, "hang") {
					return
				}
				slow(s, p.c, 0)
			}
			time.Sleep(6 * W)
			s.Settle()
			if l := w.m.GetAllConns(); len(l) != 0 {
				s.Violate("registry", "%d connections are in the manager after the shutdown; %s", len(l), info)
			}
			for i := range N {
				if w.m.Get(i) != nil {
					s.Violate("registry", "key %d is found after the shutdown; %s", i, info)
					break
				}
			}
			if which != "manager" {
				if l := w.rm.GetRoomKeys(); len(l) != 0 {
					s.Violate("registry", "rooms %v are listed after the shutdown; %s", l, info)
				}
				for i, room := range rooms {
					if l := room.GetAllConns(); len(l) != 0 {
						s.Violate("registry", "room %d has %d members after the shutdown; %s", i, len(l), info)
					}
				}
			}
			for k, p := range ps {
				if n := w.n(w.disc, p.ws); n != 1 {
					s.Violate("hook", "the disconnect hook of connection %d ran %d times; %s", k, n, info)
					break
				}
				if n := w.n(w.unreg, p.ws); n != 1 {
					s.Violate("hook", "the unregister hook of connection %d ran %d times; %s", k, n, info)
					break
				}
				if j, l := w.n(w.join, p.ws), w.n(w.leave, p.ws); j != l || j < p.mem {
					s.Violate("hook", "connection %d: the join hook ran %d times and the leave hook %d times; %s", k, j, l, info)
					break
				}
				wire := s.judgeWire(p.c, info)
				if !p.stuck && wire.Close == nil && !closedByOthers[k] {
					s.Violate("close-frame", "connection %d, whose peer reads, got no close frame; %s", k, info)
					break
				}
			}
			s.Count("connections_shut_down", N)
			s.Count("actions_in_hooks", int(reent.Load()))
			if N > 0 {
				s.NonTrivial()
			}
			s.Sample(map[string]any{"what": which, "callers": callers, "connections": N, "stuck": stuckP, "hook_actions": reent.Load(), "noise": noise})
		})
	}})
