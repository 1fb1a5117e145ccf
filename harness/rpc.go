// C24: remote functions. C25: malformed network traffic.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
	"pgregory.net/rapid"
)

// ---- servers of this process (they cannot be stopped)

type rpcWant struct {
	req   *T
	ans   *BN
	route string
	delay time.Duration // of the first answer

	mu   sync.Mutex
	n    int    // deliveries
	fail string // what was wrong with a delivery
}

var (
	rpcMu    sync.Mutex
	rpcAddrs = map[string]string{}
	rpcTable sync.Map // id -> *rpcWant
	rpcSeq   atomic.Int64
)

var rpcRoutes = []string{"alpha", "beta", "two words", "日本", "x\x00y", "alph", "gamma.x", "0", "Alpha", "alpha ", "the route of a function that has quite a long name, longer than any buffer that somebody would use for a name"}
var rpcNobody = []string{"nobody", "beta ", "ALPHA", "al", "gamma", "é"}

// rpcHandle is what all the handlers do: look up the answer.
func rpcHandle(route string, g *ogdl.Graph) *ogdl.Graph {
	stray := ogdl.FromString("stray request")
	if g == nil || len(g.Out) < 2 || g.Out[1] == nil || len(g.Out[1].Out) == 0 {
		return stray
	}
	x, ok := rpcTable.Load(g.Out[1].Out[0].ThisString())
	if !ok {
		return stray
	}
	w := x.(*rpcWant)
	w.mu.Lock()
	w.n++
	n := w.n
	if w.route != route {
		w.fail = fmt.Sprintf("the request for %q went to the handler of %q", w.route, route)
	} else if d := diff(w.req, g); d != "" {
		w.fail = "the handler received another graph: " + d
	}
	w.mu.Unlock()
	if n == 1 && w.delay > 0 {
		time.Sleep(w.delay)
	}
	return w.ans.graph()
}

// rpcServer gives the address of a server.
func rpcServer(proto, timeout int) string {
	rpcMu.Lock()
	defer rpcMu.Unlock()
	key := fmt.Sprint(proto, timeout)
	if a := rpcAddrs[key]; a != "" {
		return a
	}
	for try := 0; try < 50; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		srv := &ogdlrf.Server{Host: addr, Timeout: timeout, Protocol: proto}
		for _, r := range rpcRoutes {
			r := r
			srv.AddRoute(r, func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { return rpcHandle(r, g) })
		}
		ended := make(chan error, 1)
		go func() { ended <- srv.Serve() }()
		for i := 0; i < 500; i++ {
			select {
			case <-ended:
				i = 500 // the port is in use: try another
				continue
			default:
			}
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				select {
				case <-ended:
					i = 500
					continue
				case <-time.After(20 * time.Millisecond):
				}
				rpcAddrs[key] = addr
				return addr
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	panic("cannot start a server")
}

// ---- a proxy that cuts the traffic

type rpcProxy struct {
	l     net.Listener
	to    string
	cuts  []int
	mu    sync.Mutex
	conns []net.Conn
}

func newProxy(to string, cuts []int) *rpcProxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p := &rpcProxy{l: l, to: to, cuts: cuts}
	go func() {
		for {
			a, err := l.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", to)
			if err != nil {
				a.Close()
				continue
			}
			p.mu.Lock()
			p.conns = append(p.conns, a, b)
			p.mu.Unlock()
			go p.pump(a, b, 0)
			go p.pump(b, a, 1)
		}
	}()
	return p
}

func (p *rpcProxy) pump(from, to net.Conn, k int) {
	defer to.Close()
	defer from.Close()
	buf := make([]byte, 64<<10)
	n := 0
	for {
		m, err := from.Read(buf)
		b := buf[:m]
		for len(b) > 0 {
			c := len(b)
			if n < 400 && len(p.cuts) > 0 {
				c = min(c, p.cuts[(n+k)%len(p.cuts)])
				n++
			}
			if _, err := to.Write(b[:c]); err != nil {
				return
			}
			b = b[c:]
			if n < 30 && len(b) > 0 {
				time.Sleep(20 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
		if err != nil {
			return
		}
	}
}

func (p *rpcProxy) close() {
	p.l.Close()
	p.mu.Lock()
	for _, c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
}

// drop closes the connections.
func (p *rpcProxy) drop() {
	p.mu.Lock()
	for _, c := range p.conns {
		c.Close()
	}
	p.conns = nil
	p.mu.Unlock()
}

// ---- was this machine (this process) able to work?

var (
	beatOnce sync.Once
	beatLast atomic.Int64 // the last beat
	beatGap  atomic.Int64 // the end of the last pause between beats that was too long
)

const beatMax = 700 * time.Millisecond

// stalled tells if something kept this process from working normally since
// then: what takes long may be because of that.
func stalled(since time.Time) bool {
	now := time.Now()
	if now.Sub(time.Unix(0, beatLast.Load())) > beatMax {
		return true
	}
	return beatGap.Load() >= since.UnixNano()
}

// startBeat starts the beats: a byte that goes over a loopback connection and back.
func startBeat() {
	beatOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		go func() {
			c, err := l.Accept()
			if err == nil {
				io.Copy(c, c)
			}
		}()
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			panic(err)
		}
		beatLast.Store(time.Now().UnixNano())
		go func() {
			b := []byte{0}
			for {
				time.Sleep(30 * time.Millisecond)
				c.Write(b)
				io.ReadFull(c, b)
				n := time.Now().UnixNano()
				if n-beatLast.Load() > int64(beatMax) {
					beatGap.Store(n)
				}
				beatLast.Store(n)
			}
		}()
	})
}

// ---- C24

type rpcCall struct {
	Route S   `json:"route"`
	Req   *BN `json:"req"` // subnodes: those of the first node; and what follows the id
	More  *BN `json:"more"`
	Ans   *BN `json:"ans"`

	delivered int // of the last call
	want      *rpcWant
}

func newClient(host string, proto int) *ogdlrf.Client {
	return &ogdlrf.Client{Host: host, Timeout: rpcWait, Protocol: proto}
}

type rpcCase struct {
	Proto   int         `json:"proto"`
	Cuts    []int       `json:"cuts,omitempty"`
	Clients [][]rpcCall `json:"clients"`
	Direct  bool        `json:"direct,omitempty"` // every second client without the proxy
}

func genCall(t *rapid.T, proto int, big bool) rpcCall {
	c := rpcCall{Route: S(rpcRoutes[uni(t, len(rpcRoutes), "route")])}
	if chance(t, 6, "nobody") {
		c.Route = S(rpcNobody[uni(t, len(rpcNobody), "route")])
	}
	c.Req = genBN(t, 6, big)
	c.More = genBN(t, 3, false)
	c.Ans = genBN(t, 8, big)
	if len(c.Ans.K) == 0 {
		c.Ans.K = []*BN{{S: "ok"}}
	}
	if big && chance(t, 6, "huge") {
		x := &BN{S: S(pick(t, "fill", "x", "\x00", "ab\x01")), R: 100000 + uni(t, 800000, "size")}
		if rapid.Bool().Draw(t, "req") {
			c.Req.K = append(c.Req.K, x)
		} else {
			c.Ans.K = append(c.Ans.K, x)
		}
	}
	return c
}

func genRPC(t *rapid.T) rpcCase {
	c := rpcCase{Proto: 1 + uni(t, 2, "proto")}
	if !chance(t, 4, "whole") {
		for n := 1 + uni(t, 5, "ncuts"); n > 0; n-- {
			c.Cuts = append(c.Cuts, pick(t, "cut", 1, 2, 3, 4, 5, 7, 16, 100, 1460, 4096))
		}
		c.Direct = chance(t, 4, "direct")
	}
	big := chance(t, 5, "big")
	nc := 1
	if !chance(t, 3, "single") {
		nc = 1 + uni(t, 6, "clients")
	}
	for ; nc > 0; nc-- {
		var calls []rpcCall
		for n := 1 + uni(t, 6, "calls"); n > 0; n-- {
			calls = append(calls, genCall(t, c.Proto, big))
		}
		c.Clients = append(c.Clients, calls)
	}
	return c
}

// request builds the graph of a call and registers the wanted delivery and answer.
func (c *rpcCall) request(delay time.Duration) (*ogdl.Graph, *rpcWant, string) {
	req, w, id := c.requestBN(delay)
	return req.graph(), w, id
}

func (c *rpcCall) requestBN(delay time.Duration) (*BN, *rpcWant, string) {
	id := fmt.Sprintf("q%d", rpcSeq.Add(1))
	req := &BN{S: "_", K: append([]*BN{{S: c.Route, K: c.Req.K}, {S: "id", K: []*BN{{S: S(id)}}}}, c.More.K...)}
	w := &rpcWant{req: req.tree(), ans: c.Ans, route: string(c.Route), delay: delay}
	rpcTable.Store(id, w)
	return req, w, id
}

var notFoundT = &T{C: "_", K: []*T{{C: "error", K: []*T{{C: "notFound"}}}}}

func known(route S) bool {
	for _, r := range rpcRoutes {
		if string(route) == r {
			return true
		}
	}
	return false
}

// do makes the call. err is about wrong behaviour, cerr is the error of the call.
func (c *rpcCall) do(cl *ogdlrf.Client, delay time.Duration) (err, cerr error) {
	g, w, id := c.request(delay)
	defer rpcTable.Delete(id)
	before := dump(g)
	r, cerr := cl.Call(g)
	if cerr == nil && r == nil {
		return fmt.Errorf("call %s: no answer and no error", id), nil
	}
	if dump(g) != before {
		return fmt.Errorf("the call changed the request"), nil
	}
	w.mu.Lock()
	n, fail := w.n, w.fail
	w.mu.Unlock()
	c.delivered = n
	if fail != "" {
		return errors.New(fail), nil
	}
	if cerr != nil {
		return nil, cerr
	}
	want := c.Ans.tree()
	if !known(c.Route) {
		want = notFoundT
	} else if n == 0 {
		return fmt.Errorf("an answer, but the handler was not called: %s", clip(r.Text())), nil
	}
	if d := diff(want, r); d != "" {
		return fmt.Errorf("another answer than the handler gave: %s", d), nil
	}
	return nil, nil
}

// rpcWait is the time out of the clients, in s (that of protocol 1 cannot be set).
const rpcWait = 10

func checkRPC(c rpcCase, o *Obs) error {
	startBeat()
	addr := rpcServer(c.Proto, 20)
	via := addr
	if len(c.Cuts) > 0 {
		p := newProxy(addr, c.Cuts)
		defer p.close()
		via = p.l.Addr().String()
		o.Label("cut traffic")
	}
	o.NonTrivial(len(c.Clients) > 1 || len(c.Clients[0]) > 1)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	o.LabelIf(len(c.Clients) > 1, "several clients")
	errs := make(chan error, len(c.Clients))
	for i, calls := range c.Clients {
		go func(i int, calls []rpcCall) {
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Errorf("panic in client %d: %v", i, x)
				}
			}()
			cl := &ogdlrf.Client{Host: via, Timeout: rpcWait, Protocol: c.Proto}
			if c.Direct && i%2 == 1 {
				cl.Host = addr
			}
			defer cl.Close()
			for k := range calls {
				t0 := time.Now()
				err, cerr := calls[k].do(cl, 0)
				if d := time.Since(t0); err == nil && d >= rpcWait*9/10*time.Second && !stalled(t0) {
					err = fmt.Errorf("the handler answers at once, but the call took %v (error: %v)", d, cerr)
				}
				if err == nil && cerr != nil {
					// (not because of the load of this machine?)
					time.Sleep(200 * time.Millisecond)
					cl.Close()
					if err, cerr = calls[k].do(cl, 0); err == nil {
						err = cerr
					}
				}
				if err != nil {
					errs <- fmt.Errorf("client %d, call %d: %v", i, k, err)
					return
				}
			}
			errs <- nil
		}(i, calls)
	}
	var err error
	for range c.Clients {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	return err
}

// a handler that takes longer than the client waits
type lateCase struct {
	Calls []rpcCall `json:"calls"`
	Late  []int     `json:"late"` // which calls get their first answer too late
}

func genLate(t *rapid.T) lateCase {
	c := lateCase{}
	n := 3 + uni(t, 3, "calls")
	for i := 0; i < n; i++ {
		x := genCall(t, 2, false)
		x.Route = S(rpcRoutes[uni(t, len(rpcRoutes), "route")])
		c.Calls = append(c.Calls, x)
	}
	c.Late = []int{uni(t, n-1, "late")}
	return c
}

func checkLate(c lateCase, o *Obs) error {
	o.NonTrivial(true)
	cl := &ogdlrf.Client{Host: rpcServer(2, 20), Timeout: 1, Protocol: 2}
	defer cl.Close()
	for i := range c.Calls {
		var delay time.Duration
		for _, l := range c.Late {
			if l == i {
				delay = 1300 * time.Millisecond
			}
		}
		err, cerr := c.Calls[i].do(cl, delay)
		if err != nil {
			return fmt.Errorf("call %d: %v", i, err)
		}
		o.LabelIf(cerr != nil, "call failed")
		if delay > 0 {
			time.Sleep(400 * time.Millisecond) // the late answer is there
		}
	}
	return nil
}

// a handler that takes longer than the server waits for the next message
type slowCase struct {
	Proto int       `json:"proto"`
	Calls []rpcCall `json:"calls"`
	Slow  int       `json:"slow"` // which call
}

func genSlow(t *rapid.T) slowCase {
	c := slowCase{Proto: 1 + uni(t, 2, "proto")}
	n := 2 + uni(t, 3, "calls")
	for i := 0; i < n; i++ {
		x := genCall(t, c.Proto, false)
		x.Route = S(rpcRoutes[uni(t, len(rpcRoutes), "route")])
		c.Calls = append(c.Calls, x)
	}
	c.Slow = uni(t, n, "slow")
	return c
}

func checkSlow(c slowCase, o *Obs) error {
	startBeat()
	o.NonTrivial(true)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	cl := &ogdlrf.Client{Host: rpcServer(c.Proto, 1), Timeout: rpcWait, Protocol: c.Proto}
	defer cl.Close()
	for i := range c.Calls {
		for try := 0; ; try++ {
			t0 := time.Now()
			var delay time.Duration
			if i == c.Slow {
				delay = 1400 * time.Millisecond
			}
			err, cerr := c.Calls[i].do(cl, delay)
			if err == nil {
				err = cerr
			}
			if d := time.Since(t0); err == nil && d >= delay+rpcWait*9/10*time.Second && !stalled(t0) {
				err = fmt.Errorf("the handler takes %v, but the call took %v", delay, d)
			}
			if err == nil {
				if n := c.Calls[i].delivered; n != 1 && i == c.Slow && !stalled(t0) {
					err = fmt.Errorf("the request was delivered %d times", n)
				}
			}
			if err == nil {
				break
			}
			if try > 0 && !stalled(t0) || try > 5 {
				return fmt.Errorf("call %d: %v", i, err)
			}
			cl.Close()
		}
	}
	return nil
}

// a connection that is closed while no call is going on
type idleCase struct {
	Proto int       `json:"proto"`
	Calls []rpcCall `json:"calls"`
	Drop  []bool    `json:"drop"` // before call i+1: the network closes the connection
	Idle  int       `json:"idle"` // before call Idle+1: a pause longer than the time out of the server, if < len(Drop)
	Cl    bool      `json:"cl"`   // and the client is closed by its user
}

func genIdle(t *rapid.T) idleCase {
	c := idleCase{Proto: 1 + uni(t, 2, "proto"), Idle: -1, Cl: chance(t, 6, "close")}
	for n := 2 + uni(t, 5, "calls"); n > 0; n-- {
		c.Calls = append(c.Calls, genCall(t, c.Proto, false))
		if n > 1 {
			c.Drop = append(c.Drop, rapid.Bool().Draw(t, "drop"))
		}
	}
	if chance(t, 25, "pause") {
		c.Idle = uni(t, len(c.Drop), "idle")
	}
	return c
}

func checkIdle(c idleCase, o *Obs) error {
	o.NonTrivial(true)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	o.LabelIf(c.Idle >= 0, "idle for longer than the time out of the server")
	tmo := 20
	if c.Idle >= 0 {
		tmo = 1
	}
	addr := rpcServer(c.Proto, tmo)
	return wireTry(func() error {
		p := newProxy(addr, nil)
		defer p.close()
		cl := newClient(p.l.Addr().String(), c.Proto)
		defer cl.Close()
		for i := range c.Calls {
			if i > 0 && c.Drop[i-1] {
				p.drop()
			}
			if i > 0 && c.Idle == i-1 {
				time.Sleep(1400 * time.Millisecond)
			}
			if i > 0 && c.Cl {
				cl.Close()
			}
			call := c.Calls[i]
			err, cerr := call.do(cl, 0)
			if err == nil {
				err = cerr
			}
			if err == nil && known(call.Route) && call.delivered != 1 {
				err = fmt.Errorf("the request was delivered %d times", call.delivered)
			}
			if err != nil {
				return fmt.Errorf("call %d: %v", i, err)
			}
		}
		return nil
	})
}

// many clients connected at the same time, or many calls over one connection
type crowdCase struct {
	Proto   int       `json:"proto"`
	Clients int       `json:"clients"`
	Rounds  int       `json:"rounds"` // of calls: each client makes one per round
	Calls   []rpcCall `json:"calls"`  // client i makes call i+round
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{Proto: 1 + uni(t, 2, "proto")}
	if rapid.Bool().Draw(t, "crowd") {
		c.Clients = 20 + uni(t, 150, "clients")
		c.Rounds = 1 + uni(t, 4, "rounds")
	} else {
		c.Clients = 1 + uni(t, 2, "clients")
		c.Rounds = 60 + uni(t, 1500, "rounds")
	}
	for n := 1 + uni(t, 3, "calls"); n > 0; n-- {
		c.Calls = append(c.Calls, genCall(t, c.Proto, false))
	}
	return c
}

func checkCrowd(c crowdCase, o *Obs) error {
	startBeat()
	o.NonTrivial(true)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	o.LabelIf(c.Clients > 50, "more than 50 clients at once")
	o.LabelIf(c.Rounds > 500, "more than 500 calls over one connection")
	tmo := 20
	if c.Clients < 10 {
		tmo = 1
	}
	addr := rpcServer(c.Proto, tmo)
	var px *rpcProxy
	if c.Clients < 10 {
		px = newProxy(addr, nil) // (it counts the connections)
		defer px.close()
		addr = px.l.Addr().String()
	}
	var failed atomic.Bool
	begin := time.Now()
	cls := make([]*ogdlrf.Client, c.Clients)
	for i := range cls {
		cls[i] = newClient(addr, c.Proto)
		defer cls[i].Close()
	}
	for r := 0; r < c.Rounds; r++ {
		errs := make(chan error, len(cls))
		for i := range cls {
			go func(i int) {
				defer func() {
					if x := recover(); x != nil {
						errs <- fmt.Errorf("panic in client %d: %v", i, x)
					}
				}()
				for try := 0; ; try++ {
					t0 := time.Now()
					call := c.Calls[(i+r)%len(c.Calls)] // (a copy)
					err, cerr := call.do(cls[i], 0)
					if err == nil {
						err = cerr
					}
					if d := time.Since(t0); err == nil && d >= rpcWait*9/10*time.Second {
						err = fmt.Errorf("the handler answers at once, but the call took %v", d)
					}
					if err == nil && known(call.Route) && call.delivered != 1 {
						err = fmt.Errorf("the request was delivered %d times", call.delivered)
					}
					if err == nil || !stalled(t0.Add(-2*time.Second)) || try > 5 {
						if err != nil {
							err = fmt.Errorf("client %d of %d, call %d: %v", i, len(cls), r, err)
						}
						errs <- err
						return
					}
					failed.Store(true)
					time.Sleep(200 * time.Millisecond)
					cls[i].Close()
				}
			}(i)
		}
		var err error
		for range cls {
			if e := <-errs; e != nil && err == nil {
				err = e
			}
		}
		if err != nil {
			return err
		}
		if px != nil && !failed.Load() {
			px.mu.Lock()
			n := len(px.conns) / 2
			px.mu.Unlock()
			if n > c.Clients && !stalled(begin) {
				return fmt.Errorf("%d clients needed %d connections for %d calls each", c.Clients, n, r+1)
			}
		}
	}
	return nil
}

// ---- C25

type hostile struct {
	Bytes S     `json:"bytes"`
	Cuts  []int `json:"cuts,omitempty"`
	End   string
}

type attackCase struct {
	Proto int       `json:"proto"`
	Bad   []hostile `json:"bad"`
	Good  []rpcCall `json:"good"`
	Flood int       `json:"flood,omitempty"` // so many more connections with the same traffic
}

// genTraffic draws a malformed (or perhaps well formed) stream of messages.
func genTraffic(t *rapid.T, proto int) S {
	var b []byte
	for n := uni(t, 4, "msgs"); n >= 0; n-- {
		c := genCall(t, proto, chance(t, 10, "big"))
		m := (&BN{S: "_", K: append([]*BN{{S: c.Route, K: c.Req.K}, {S: "id", K: []*BN{{S: "q0"}}}}, c.More.K...)}).graph().Binary()
		if len(m) > 200000 {
			m = m[:200000]
		}
		l := uint32(len(m))
		switch uni(t, 10, "length") {
		case 0:
			l += uint32(1 + uni(t, 20, "more"))
		case 1:
			l = uint32(uni(t, int(l)+1, "less"))
		case 2:
			l = pick(t, "len", uint32(0), 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, 0xfffffffe)
		}
		switch uni(t, 8, "damage") {
		case 0:
			m = m[:uni(t, len(m)+1, "cut")]
		case 1:
			m[uni(t, len(m), "at")] = byte(uni(t, 256, "byte"))
		case 2:
			m = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "random")
		case 3:
			m = append(m[:3:3], pick(t, "lead", "\x00", "\x01\x00", "\x01\x01\x02ab\x00\x00", "\x05a\x00", "\x01\x01\xff\xff\xff\xff", "\x01\x01\x80", "\xe0\xff\xff\xffa\x00", "\xff", "\x00\x00", "\x7fa\x00\x00")...)
		case 4:
			i := uni(t, len(m), "at")
			m = append(append(append([]byte{}, m[:i]...), rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "ins")...), m[i:]...)
		}
		if proto == 2 && !chance(t, 8, "nolen") {
			var h [4]byte
			binary.BigEndian.PutUint32(h[:], l)
			b = append(b, h[:]...)
		}
		b = append(b, m...)
	}
	if chance(t, 5, "truncate") {
		b = b[:uni(t, len(b)+1, "end")]
	}
	return S(b)
}

func genHostile(t *rapid.T, proto int) hostile {
	h := hostile{Bytes: genTraffic(t, proto), End: pick(t, "end", "close", "reset", "half", "hold")}
	if chance(t, 3, "cuts") {
		h.Cuts = []int{1 + uni(t, 5, "c"), 1 + uni(t, 50, "c")}
	}
	return h
}

func genAttack(t *rapid.T) attackCase {
	c := attackCase{Proto: 1 + uni(t, 2, "proto")}
	for n := 1 + uni(t, 4, "bad"); n > 0; n-- {
		c.Bad = append(c.Bad, genHostile(t, c.Proto))
	}
	for n := 0; n < 3; n++ {
		c.Good = append(c.Good, genCall(t, c.Proto, false))
	}
	if chance(t, 25, "flood") {
		c.Flood = 20 + uni(t, 300, "flood")
	}
	return c
}

// send writes the bytes and ends as told. It gives the connection if held.
func (h *hostile) send(c net.Conn) net.Conn {
	b := []byte(h.Bytes)
	c.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
	for i := 0; len(b) > 0; i++ {
		k := len(b)
		if len(h.Cuts) > 0 && i < 100 {
			k = min(k, h.Cuts[i%len(h.Cuts)])
		}
		if _, err := c.Write(b[:k]); err != nil {
			break
		}
		b = b[k:]
	}
	switch h.End {
	case "reset":
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	case "half":
		c.(*net.TCPConn).CloseWrite()
		return c
	case "hold":
		return c
	default:
		c.Close()
	}
	return nil
}

const rpcAlloc = 400 << 20

func checkAttack(c attackCase, o *Obs) error {
	addr := rpcServer(c.Proto, 20)
	o.NonTrivial(len(c.Bad) > 1)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	a0 := allocated()
	sent := 0
	good := func(cl *ogdlrf.Client, i int, when string) error {
		err, cerr := c.Good[i].do(cl, 0)
		if err == nil && cerr != nil {
			time.Sleep(200 * time.Millisecond)
			cl.Close()
			if err, cerr = c.Good[i].do(cl, 0); err == nil {
				err = cerr
			}
		}
		if err != nil {
			return fmt.Errorf("a well behaved client %s: %v", when, err)
		}
		return nil
	}
	cl := &ogdlrf.Client{Host: addr, Timeout: 10, Protocol: c.Proto}
	defer cl.Close()
	if err := good(cl, 0, "before"); err != nil {
		return err
	}
	var held []net.Conn
	defer func() {
		for _, h := range held {
			h.(*net.TCPConn).SetLinger(0)
			h.Close()
		}
	}()
	o.LabelIf(c.Flood > 0, "flood")
	for j := 0; j < len(c.Bad)+c.Flood; j++ {
		i := j % len(c.Bad)
		x, err := net.Dial("tcp", addr)
		if err != nil {
			return fmt.Errorf("the server does not accept connections: %v", err)
		}
		sent += len(c.Bad[i].Bytes)
		o.Label(c.Bad[i].End)
		if h := c.Bad[i].send(x); h != nil {
			held = append(held, h)
		}
	}
	if err := good(cl, 1, "connected before the malformed traffic"); err != nil {
		return err
	}
	cl2 := &ogdlrf.Client{Host: addr, Timeout: 10, Protocol: c.Proto}
	defer cl2.Close()
	if err := good(cl2, 2, "connected after the malformed traffic"); err != nil {
		return err
	}
	// What the server answered, if anything, ends with the connection or the message.
	for _, h := range held {
		h.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		io.Copy(io.Discard, io.LimitReader(h, 1<<20))
	}
	if a := allocated() - a0; a > rpcAlloc+uint64(sent)*100 {
		return fmt.Errorf("%d MB allocated because of %d bytes received", a>>20, sent)
	}
	return nil
}

type replyCase struct {
	Proto int     `json:"proto"`
	Reply hostile `json:"reply"`
	Call  rpcCall `json:"call"`
	Read  int     `json:"read"` // bytes of the request that are read first
}

func genReply(t *rapid.T) replyCase {
	c := replyCase{Proto: 1 + uni(t, 2, "proto")}
	c.Reply = genHostile(t, c.Proto)
	if c.Reply.End == "hold" || c.Reply.End == "half" {
		c.Reply.End = "close"
	}
	if chance(t, 120, "hold") && c.Proto == 2 {
		c.Reply.End = "hold"
	}
	c.Call = genCall(t, c.Proto, false)
	c.Call.Route = "alpha"
	c.Read = pick(t, "read", 1<<20, 0, 1, 4, 10)
	return c
}

func checkReply(c replyCase, o *Obs) error {
	startBeat()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var held []net.Conn
	defer func() {
		l.Close()
		mu.Lock()
		for _, h := range held {
			h.Close()
		}
		held = nil
		mu.Unlock()
	}()
	go func() {
		for {
			x, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				if c.Read > 0 {
					x.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
					b := make([]byte, min(c.Read, 65536))
					if c.Read < 100 {
						io.ReadFull(x, b)
					} else {
						x.Read(b)
					}
				}
				if h := c.Reply.send(x); h != nil {
					mu.Lock()
					held = append(held, h)
					mu.Unlock()
				}
			}()
		}
	}()
	o.NonTrivial(len(c.Reply.Bytes) > 4)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	o.Label(c.Reply.End)
	a0 := allocated()
	cl := &ogdlrf.Client{Host: l.Addr().String(), Timeout: 1, Protocol: c.Proto}
	type result struct {
		g     *ogdl.Graph
		err   error
		panic string
	}
	done := make(chan result, 1)
	g, _, id := c.Call.request(0)
	defer rpcTable.Delete(id)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- result{panic: fmt.Sprint(x)}
			}
		}()
		r, err := cl.Call(g)
		done <- result{r, err, ""}
	}()
	// up to 3 attempts of 1 s (protocol 1: 10 s)
	limit, most := 12*time.Second, 60*time.Second
	if c.Proto == 1 {
		limit, most = 45*time.Second, 120*time.Second
	}
	var r result
	t0 := time.Now()
wait:
	for {
		select {
		case r = <-done:
			break wait
		case <-time.After(100 * time.Millisecond):
		}
		if d := time.Since(t0); d > most || d > limit && !stalled(t0) {
			return fmt.Errorf("the call did not return within %v", d)
		}
	}
	if r.panic != "" {
		return fmt.Errorf("the client panics: %s", r.panic)
	}
	if r.err == nil && r.g == nil {
		return fmt.Errorf("neither an error nor a graph")
	}
	o.LabelIf(r.err == nil, "a graph")
	if r.g != nil {
		_ = r.g.Text()
	}
	if a := allocated() - a0; a > rpcAlloc+uint64(len(c.Reply.Bytes))*300 {
		return fmt.Errorf("%d MB allocated because of %d bytes received", a>>20, len(c.Reply.Bytes))
	}
	// the client works with another server
	cl.Close()
	cl.Host = rpcServer(c.Proto, 20)
	cl.Timeout = 10
	defer cl.Close()
	if err, cerr := c.Call.do(cl, 0); err != nil {
		return fmt.Errorf("the next call: %v", err)
	} else if cerr != nil {
		time.Sleep(200 * time.Millisecond)
		if err, cerr = c.Call.do(cl, 0); err != nil || cerr != nil {
			return fmt.Errorf("the next call, to another server: %v %v", err, cerr)
		}
	}
	return nil
}

func init() {
	reg("C24", "calls",
		"random requests and answers (binary and text content, up to about 1 MB) by 1 to 6 concurrent clients, each reusing its connection for up to 6 calls, in both protocols, over loopback through a proxy that cuts the traffic at random places; handlers record what they receive; unregistered first nodes too. Non-trivial: several calls or clients.",
		3000, 60000, genRPC, checkRPC, nil)
	reg("C24", "concurrent",
		"the same with the race detector. Non-trivial: several calls or clients.",
		240, 6000, genRPC, checkRPC, nil, withRace())
	reg("C24", "late",
		"calls of which one is answered only after the client has given up waiting once: whatever a later call returns is the answer to that call. Non-trivial: all.",
		16, 800, genLate, checkLate, nil)
	reg("C24", "slow",
		"calls of which one is answered by a handler that takes longer than the server waits for a next message: each call returns its answer, and the slow one is delivered only once. Non-trivial: all.",
		16, 800, genSlow, checkSlow, nil)
	reg("C24", "idle",
		"2 to 6 calls of a client whose connection is closed between calls: by the network (a proxy), by the server because of a pause longer than its time out, or by the client's Close: each call returns its answer and is delivered once. Non-trivial: all.",
		480, 20000, genIdle, checkIdle, nil)
	reg("C24", "crowd",
		"20 to 170 clients connected at the same time that make 1 to 4 calls each, or 1 or 2 clients that make 60 to 1560 calls over their connection to a server with a time out of 1 s; small requests and answers, both protocols: each call returns its answer in time and is delivered once. Non-trivial: all.",
		48, 1200, genCrowd, checkCrowd, nil)
	reg("C25", "server",
		"1 to 4 peers that send random, damaged, truncated or wrongly sized messages to a running server, in pieces, and close, reset, half close or hold the connection; a client connected before and one connected after get their correct answers, and the memory used is in proportion. Non-trivial: several peers.",
		3000, 60000, genAttack, checkAttack, nil)
	reg("C25", "client",
		"a server that answers with random, damaged, truncated or wrongly sized messages and then closes, resets or holds the connection: the call returns an error or a graph in time, memory in proportion, and the client then works with another server. Non-trivial: more than 4 bytes of answer.",
		3000, 50000, genReply, checkReply, nil)
	_ = strings.Repeat
	_ = bytes.Equal
}
