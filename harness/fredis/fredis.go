// Package fredis is a small Redis-protocol (RESP2) server holding streams, with a complete log of what was
// stored and with fault injection. It is the storage the real om-core / redis replicator talks to under test.
package fredis

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Entry is one stream entry.
type Entry struct {
	MS, Seq   int64
	Fields    []string
	Conn      int       // connection that added it (0: injected)
	At        time.Time // when it was stored
	Trimmed   bool
	TrimmedAt time.Time
}

func (e *Entry) ID() string { return fmt.Sprintf("%d-%d", e.MS, e.Seq) }

// Cmd is one command as received.
type Cmd struct {
	Conn  int
	N     int // global command number
	Name  string
	Args  []string
	Batch int // number of commands seen on this connection before the last flush (pipelining)
}

// Action tells the server what to do with a command. The zero value means: execute normally.
type Action struct {
	Err        string        // reply with this error, do not execute
	DropBefore bool          // close the connection without executing
	DropAfter  bool          // execute, then close the connection without replying
	Delay      time.Duration // before executing
	DelayReply time.Duration // after executing, before replying
}

// Trim is one XTRIM seen.
type Trim struct {
	MinMS, MinSeq int64
	At            time.Time
	Removed       int
}

// Server is the fake Redis.
type Server struct {
	mu      sync.Mutex
	cond    *sync.Cond
	ln      net.Listener
	Log     []*Entry // every entry ever stored, in order
	live    int      // index of the first entry that may be live
	lastMS  int64
	lastSeq int64
	conns   map[int]net.Conn
	nconn   int
	maxConn int
	cmds    map[string]int
	ncmd    int
	down    bool
	hook    func(*Cmd) Action
	unknown []string
	trims   []Trim
	users   map[string]string
	closed  bool
	xreads  int
	clockFn func() int64
	batches []int // sizes (number of XADDs) of write batches, in order
	key     string
}

// New starts a server on a loopback port.
func New() (*Server, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{ln: ln, conns: map[int]net.Conn{}, cmds: map[string]int{}, users: map[string]string{}}
	s.cond = sync.NewCond(&s.mu)
	s.clockFn = func() int64 { return time.Now().UnixMilli() }
	go s.accept()
	return s, nil
}

// Port is the TCP port.
func (s *Server) Port() int { return s.ln.Addr().(*net.TCPAddr).Port }

// Close stops the server.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	for _, c := range s.conns {
		c.Close()
	}
	s.cond.Broadcast()
	s.mu.Unlock()
	s.ln.Close()
}

// SetHook installs the fault injector (called with the server unlocked).
func (s *Server) SetHook(f func(*Cmd) Action) { s.mu.Lock(); s.hook = f; s.mu.Unlock() }

// SetDown makes the server refuse (accept and close) connections and drops the open ones.
func (s *Server) SetDown(d bool) {
	s.mu.Lock()
	s.down = d
	if d {
		for _, c := range s.conns {
			c.Close()
		}
		s.cond.Broadcast()
	}
	s.mu.Unlock()
}

// DropAll closes all open connections.
func (s *Server) DropAll() {
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.cond.Broadcast()
	s.mu.Unlock()
}

// SetClock replaces the clock that makes ids.
func (s *Server) SetClock(f func() int64) { s.mu.Lock(); s.clockFn = f; s.mu.Unlock() }

// Stats returns currently open, maximum and total connections.
func (s *Server) Stats() (open, max, total int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns), s.maxConn, s.nconn
}

// ResetMax restarts the tracking of the maximum number of open connections.
func (s *Server) ResetMax() { s.mu.Lock(); s.maxConn = len(s.conns); s.mu.Unlock() }

// Counts returns command counts by name.
func (s *Server) Counts() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]int{}
	for k, v := range s.cmds {
		out[k] = v
	}
	return out
}

// Unknown lists commands this server does not implement.
func (s *Server) Unknown() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.unknown...)
}

// Users returns user -> password as authenticated.
func (s *Server) Users() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]string{}
	for k, v := range s.users {
		out[k] = v
	}
	return out
}

// Trims returns the XTRIMs executed so far.
func (s *Server) Trims() []Trim {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Trim(nil), s.trims...)
}

// Len is the number of entries ever stored.
func (s *Server) Len() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.Log) }

// Entries returns copies of entries [from:] (trimmed ones included).
func (s *Server) Entries(from int) []Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]Entry, 0, len(s.Log)-from)
	for _, e := range s.Log[from:] {
		out = append(out, *e)
	}
	return out
}

// Live returns the entries not trimmed.
func (s *Server) Live() []Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []Entry{}
	for _, e := range s.Log[s.live:] {
		if !e.Trimmed {
			out = append(out, *e)
		}
	}
	return out
}

func (s *Server) addLocked(conn int, ms, seq int64, fields []string) *Entry {
	e := &Entry{MS: ms, Seq: seq, Fields: fields, Conn: conn, At: time.Now()}
	s.Log = append(s.Log, e)
	s.lastMS, s.lastSeq = ms, seq
	return e
}

func (s *Server) nextLocked() (int64, int64) {
	ms := s.clockFn()
	if ms > s.lastMS {
		return ms, 0
	}
	return s.lastMS, s.lastSeq + 1
}

// Add injects an entry with a generated id.
func (s *Server) Add(fields ...string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	ms, seq := s.nextLocked()
	e := s.addLocked(0, ms, seq, fields)
	s.cond.Broadcast()
	return e.ID()
}

// AddMany injects entries atomically.
func (s *Server) AddMany(es [][]string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	ids := make([]string, len(es))
	for i, f := range es {
		ms, seq := s.nextLocked()
		ids[i] = s.addLocked(0, ms, seq, f).ID()
	}
	s.cond.Broadcast()
	return ids
}

// AddManyRef is AddMany where the field "@k" stands for the id that entry k of the call is going to have.
func (s *Server) AddManyRef(es [][]string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	ms, seq := s.nextLocked()
	ids := make([]string, len(es))
	for i := range es {
		ids[i] = fmt.Sprintf("%d-%d", ms, seq+int64(i))
	}
	for i, f := range es {
		g := append([]string(nil), f...)
		for k, x := range g {
			if strings.HasPrefix(x, "@") {
				if n, err := strconv.Atoi(x[1:]); err == nil && n < len(ids) {
					g[k] = ids[n]
				}
			}
		}
		s.addLocked(0, ms, seq+int64(i), g)
	}
	s.cond.Broadcast()
	return ids
}

// AddAt injects an entry with the given id; it must be larger than all before.
func (s *Server) AddAt(ms, seq int64, fields ...string) (string, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if ms < s.lastMS || (ms == s.lastMS && seq <= s.lastSeq && len(s.Log) > 0) {
		return "", errors.New("id too small")
	}
	e := s.addLocked(0, ms, seq, fields)
	s.cond.Broadcast()
	return e.ID(), nil
}

func (s *Server) accept() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed || s.down {
			s.mu.Unlock()
			c.Close()
			continue
		}
		s.nconn++
		id := s.nconn
		s.conns[id] = c
		if len(s.conns) > s.maxConn {
			s.maxConn = len(s.conns)
		}
		s.mu.Unlock()
		go s.serve(id, c)
	}
}

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1<<20 {
		return nil, errors.New("bad array")
	}
	out := make([]string, n)
	for i := range out {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		if h == "" || h[0] != '$' {
			return nil, errors.New("bad bulk")
		}
		l, err := strconv.Atoi(h[1:])
		if err != nil || l < 0 || l > 512<<20 {
			return nil, errors.New("bad bulk length")
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:l])
	}
	return out, nil
}

func parseID(s string, defSeq int64) (int64, int64, error) {
	a, b, ok := strings.Cut(s, "-")
	ms, err := strconv.ParseInt(a, 10, 64)
	if err != nil || ms < 0 {
		return 0, 0, errors.New("ERR Invalid stream ID specified as stream command argument")
	}
	if !ok {
		return ms, defSeq, nil
	}
	seq, err := strconv.ParseInt(b, 10, 64)
	if err != nil || seq < 0 {
		return 0, 0, errors.New("ERR Invalid stream ID specified as stream command argument")
	}
	return ms, seq, nil
}

func bulk(w *bufio.Writer, s string) {
	fmt.Fprintf(w, "$%d\r\n", len(s))
	w.WriteString(s)
	w.WriteString("\r\n")
}

func (s *Server) serve(id int, c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, id)
		s.mu.Unlock()
	}()
	r := bufio.NewReaderSize(c, 1<<16)
	w := bufio.NewWriterSize(c, 1<<16)
	batch := 0
	for {
		if r.Buffered() == 0 {
			if w.Flush() != nil {
				return
			}
			batch = 0
		}
		args, err := readCmd(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		name := strings.ToUpper(args[0])
		s.mu.Lock()
		s.ncmd++
		n := s.ncmd
		s.cmds[name]++
		hook := s.hook
		down := s.down || s.closed
		s.mu.Unlock()
		if down {
			return
		}
		batch++
		var a Action
		if hook != nil {
			a = hook(&Cmd{Conn: id, N: n, Name: name, Args: args[1:], Batch: batch})
		}
		if a.Delay > 0 {
			time.Sleep(a.Delay)
		}
		if a.DropBefore {
			return
		}
		if a.Err != "" {
			fmt.Fprintf(w, "-%s\r\n", a.Err)
			continue
		}
		if !s.exec(id, name, args[1:], w) {
			return
		}
		if a.DelayReply > 0 {
			time.Sleep(a.DelayReply)
		}
		if a.DropAfter {
			return
		}
	}
}

// exec runs one command and writes its reply; false: close the connection.
func (s *Server) exec(id int, name string, args []string, w *bufio.Writer) bool {
	fail := func(m string) bool { fmt.Fprintf(w, "-%s\r\n", m); return true }
	switch name {
	case "PING":
		w.WriteString("+PONG\r\n")
	case "SELECT", "CLIENT":
		w.WriteString("+OK\r\n")
	case "AUTH":
		s.mu.Lock()
		if len(args) == 2 {
			s.users[args[0]] = args[1]
		} else if len(args) == 1 {
			s.users["default"] = args[0]
		}
		s.mu.Unlock()
		w.WriteString("+OK\r\n")
	case "QUIT":
		w.WriteString("+OK\r\n")
		w.Flush()
		return false
	case "XLEN":
		fmt.Fprintf(w, ":%d\r\n", len(s.Live()))
	case "XADD":
		if len(args) < 1 {
			return fail("ERR wrong number of arguments for 'xadd' command")
		}
		i := 1
		var minms, minseq int64 = -1, 0
		maxlen := -1
		approx := false
		for i < len(args) && args[i] != "*" {
			switch strings.ToUpper(args[i]) {
			case "NOMKSTREAM":
				i++
				continue
			case "MAXLEN":
				i++
				if i < len(args) && (args[i] == "~" || args[i] == "=") {
					approx = args[i] == "~"
					i++
				}
				if i < len(args) {
					v, err := strconv.Atoi(args[i])
					if err != nil || v < 0 {
						return fail("ERR value is not an integer or out of range")
					}
					maxlen = v
				}
				i++
				continue
			case "MINID":
				i++
				if i < len(args) && (args[i] == "~" || args[i] == "=") {
					approx = args[i] == "~"
					i++
				}
				if i < len(args) {
					var err error
					if minms, minseq, err = parseID(args[i], 0); err != nil {
						return fail(err.Error())
					}
				}
				i++
				continue
			case "LIMIT":
				if i+1 >= len(args) {
					return fail("ERR syntax error")
				}
				i += 2
				continue
			}
			break
		}
		if i >= len(args) {
			return fail("ERR wrong number of arguments for 'xadd' command")
		}
		idArg := args[i]
		fields := args[i+1:]
		if len(fields) == 0 || len(fields)%2 != 0 {
			return fail("ERR wrong number of arguments for 'xadd' command")
		}
		s.mu.Lock()
		var ms, seq int64
		if idArg == "*" {
			ms, seq = s.nextLocked()
		} else {
			var err error
			if ms, seq, err = parseID(idArg, 0); err != nil {
				s.mu.Unlock()
				return fail(err.Error())
			}
			if ms < s.lastMS || (ms == s.lastMS && seq <= s.lastSeq) {
				s.mu.Unlock()
				return fail("ERR The ID specified in XADD is equal or smaller than the target stream top item")
			}
		}
		e := s.addLocked(id, ms, seq, append([]string(nil), fields...))
		if minms >= 0 {
			s.trimLocked(minms, minseq, approx)
		}
		if maxlen >= 0 {
			s.maxlenLocked(maxlen, approx)
		}
		s.cond.Broadcast()
		s.mu.Unlock()
		bulk(w, e.ID())
	case "XTRIM":
		if len(args) < 3 {
			return fail("ERR syntax error")
		}
		strategy := strings.ToUpper(args[1])
		if strategy != "MINID" && strategy != "MAXLEN" {
			return fail("ERR syntax error")
		}
		i := 2
		approx := false
		if args[i] == "~" || args[i] == "=" {
			approx = args[i] == "~"
			i++
		}
		if i >= len(args) {
			return fail("ERR syntax error")
		}
		if strategy == "MAXLEN" {
			max, err := strconv.Atoi(args[i])
			if err != nil || max < 0 {
				return fail("ERR value is not an integer or out of range")
			}
			s.mu.Lock()
			n := s.maxlenLocked(max, approx)
			s.mu.Unlock()
			fmt.Fprintf(w, ":%d\r\n", n)
			break
		}
		ms, seq, err := parseID(args[i], 0)
		if err != nil {
			return fail(err.Error())
		}
		s.mu.Lock()
		n := s.trimLocked(ms, seq, approx)
		s.mu.Unlock()
		fmt.Fprintf(w, ":%d\r\n", n)
	case "XREAD":
		return s.xread(id, args, w)
	case "XRANGE":
		s.mu.Lock()
		fmt.Fprintf(w, "*%d\r\n", 0)
		s.mu.Unlock()
	default:
		s.mu.Lock()
		s.unknown = append(s.unknown, name)
		s.mu.Unlock()
		return fail("ERR unknown command '" + name + "'")
	}
	return true
}

// Trim removes the entries below the given id, as XTRIM MINID does.
func (s *Server) Trim(ms, seq int64) { s.mu.Lock(); s.trimLocked(ms, seq, false); s.mu.Unlock() }

// maxlenLocked keeps only the newest max entries.
func (s *Server) maxlenLocked(max int, approx bool) int {
	return s.cutLocked(len(s.Log)-max, approx)
}

// cutLocked removes the entries below index to. An approximate trim removes whole nodes of 100 entries only, as Redis
// does with "~".
func (s *Server) cutLocked(to int, approx bool) int {
	if approx {
		to = to / 100 * 100
	}
	n := 0
	for ; s.live < to; s.live++ {
		e := s.Log[s.live]
		if !e.Trimmed {
			e.Trimmed, e.TrimmedAt = true, time.Now()
			n++
		}
	}
	return n
}

func (s *Server) trimLocked(ms, seq int64, approx bool) int {
	to := s.live
	for to < len(s.Log) && (s.Log[to].MS < ms || (s.Log[to].MS == ms && s.Log[to].Seq < seq)) {
		to++
	}
	n := s.cutLocked(to, approx)
	s.trims = append(s.trims, Trim{MinMS: ms, MinSeq: seq, At: time.Now(), Removed: n})
	return n
}

// after returns the index of the first entry with id > (ms, seq).
func (s *Server) afterLocked(ms, seq int64) int {
	lo, hi := s.live, len(s.Log)
	for lo < hi {
		m := (lo + hi) / 2
		e := s.Log[m]
		if e.MS > ms || (e.MS == ms && e.Seq > seq) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return lo
}

func (s *Server) xread(id int, args []string, w *bufio.Writer) bool {
	fail := func(m string) bool { fmt.Fprintf(w, "-%s\r\n", m); return true }
	count, block := -1, -1
	i := 0
	for ; i < len(args); i++ {
		switch strings.ToUpper(args[i]) {
		case "COUNT":
			i++
			if i >= len(args) {
				return fail("ERR syntax error")
			}
			v, err := strconv.Atoi(args[i])
			if err != nil {
				return fail("ERR value is not an integer or out of range")
			}
			count = v
			continue
		case "BLOCK":
			i++
			if i >= len(args) {
				return fail("ERR syntax error")
			}
			v, err := strconv.Atoi(args[i])
			if err != nil || v < 0 {
				return fail("ERR timeout is not an integer or out of range")
			}
			block = v
			continue
		case "STREAMS":
			i++
		}
		break
	}
	if len(args)-i != 2 {
		return fail("ERR Unbalanced XREAD list of streams: for each stream key an ID or '$' must be specified.")
	}
	key := args[i]
	s.mu.Lock()
	var ms, seq int64
	if args[i+1] == "$" {
		ms, seq = s.lastMS, s.lastSeq
	} else {
		var err error
		ms, seq, err = parseID(args[i+1], 0)
		if err != nil {
			s.mu.Unlock()
			return fail(err.Error())
		}
	}
	s.xreads++
	idx := s.afterLocked(ms, seq)
	if idx >= len(s.Log) && block >= 0 {
		var deadline time.Time
		if block > 0 {
			deadline = time.Now().Add(time.Duration(block) * time.Millisecond)
			t := time.AfterFunc(time.Duration(block)*time.Millisecond, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
			defer t.Stop()
		}
		for idx >= len(s.Log) && !s.closed && !s.down && (block == 0 || time.Now().Before(deadline)) {
			s.cond.Wait()
			idx = s.afterLocked(ms, seq)
		}
		if s.closed || s.down {
			s.mu.Unlock()
			return false
		}
	}
	es := s.Log[idx:]
	if count > 0 && len(es) > count {
		es = es[:count]
	}
	if len(es) == 0 {
		s.mu.Unlock()
		w.WriteString("*-1\r\n")
		return true
	}
	cp := make([]*Entry, len(es))
	copy(cp, es)
	s.mu.Unlock()
	fmt.Fprintf(w, "*1\r\n*2\r\n")
	bulk(w, key)
	fmt.Fprintf(w, "*%d\r\n", len(cp))
	for _, e := range cp {
		fmt.Fprintf(w, "*2\r\n")
		bulk(w, e.ID())
		fmt.Fprintf(w, "*%d\r\n", len(e.Fields))
		for _, f := range e.Fields {
			bulk(w, f)
		}
	}
	return true
}
