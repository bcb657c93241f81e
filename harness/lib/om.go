package lib

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
)

// OM is one running om-core process.
type OM struct {
	R       *Run
	Env     map[string]string
	Port    int
	Conn    *grpc.ClientConn
	C       pb.OpenMatchServiceClient
	LogPath string
	M       *MMF // matchmaking function used for queries
	mOnce   sync.Once

	cmd     *exec.Cmd
	exited  chan struct{}
	exitErr error
	stop    atomic.Bool
	qn      atomic.Int64
}

var omN atomic.Int64

// FreePort finds a free TCP port.
func FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// FastEnv is a configuration with short waits.
func FastEnv() map[string]string {
	return map[string]string{
		"OM_LOGGING_LEVEL":             "error",
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":  "20",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "5",
		"OM_STATE_STORAGE_TYPE":        "memory",
	}
}

// Merge combines environments.
func Merge(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

// RedisEnv points om-core to a storage port.
func RedisEnv(port int) map[string]string {
	p := fmt.Sprint(port)
	return map[string]string{"OM_STATE_STORAGE_TYPE": "redis", "OM_REDIS_WRITE_PORT": p, "OM_REDIS_READ_PORT": p,
		"OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_READ_HOST": "127.0.0.1"}
}

// Ports that om-core listens on whatever its configuration.
var fixedPorts = []string{":58081", ":2223"}

var startMu sync.Mutex

// StartOM starts om-core (bin: name in r.Bins) and waits until it serves. A server with VERIF_SECONDARY=1 is kept from
// taking the fixed ports, which belong to the (only) server without it, running now or later.
func (r *Run) StartOM(bin string, env map[string]string) *OM {
	startMu.Lock()
	defer startMu.Unlock()
	if env["VERIF_SECONDARY"] != "" {
		for _, port := range fixedPorts {
			if ln, err := net.Listen("tcp", port); err == nil {
				defer ln.Close()
			}
		}
	}
	for try := 0; ; try++ {
		o := r.startOM(bin, env)
		ok := o.waitReady()
		if ok {
			if env["VERIF_SECONDARY"] != "" {
				// It has tried to bind them (the second one is silent at some log levels).
				Await(3*time.Second, func() bool { return strings.Contains(o.Log(), fixedPorts[1]) })
				Await(400*time.Millisecond, func() bool { return strings.Contains(o.Log(), fixedPorts[0]) })
			}
			return o
		}
		log := o.Log()
		o.Kill()
		if strings.Contains(log, "address already in use") {
			if try < 20 {
				time.Sleep(2 * time.Second)
				continue
			}
			r.Inconclusive("ports busy: %s", tail(log, 800))
		}
		select {
		case <-o.exited:
			r.Violate("om-core does not start", map[string]any{"env": env, "log": tail(log, 4000)})
		default:
		}
		r.Inconclusive("om-core did not come up: %s", tail(log, 800))
	}
}

func (r *Run) startOM(bin string, env map[string]string) *OM {
	n := omN.Add(1)
	o := &OM{R: r, Env: env, Port: FreePort(), exited: make(chan struct{}), LogPath: filepath.Join(r.Dir, fmt.Sprintf("om-%d.log", n))}
	f, err := os.Create(o.LogPath)
	if err != nil {
		r.Inconclusive("%v", err)
	}
	path := r.Bins[bin]
	if path == "" {
		r.Inconclusive("no binary %s", bin)
	}
	o.cmd = exec.Command(path)
	o.cmd.Dir = r.Dir
	o.cmd.Stdout, o.cmd.Stderr = f, f
	e := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.Dir, "GOTRACEBACK=all"}
	if v := env["PORT"]; v != "" {
		fmt.Sscan(v, &o.Port)
	}
	e = append(e, fmt.Sprintf("PORT=%d", o.Port))
	for k, v := range env {
		if k != "PORT" {
			e = append(e, k+"="+v)
		}
	}
	o.cmd.Env = e
	o.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := startLocked(o.cmd); err != nil {
		r.Inconclusive("start om-core: %v", err)
	}
	f.Close()
	go func() {
		o.exitErr = o.cmd.Wait()
		close(o.exited)
		if !o.stop.Load() {
			time.Sleep(50 * time.Millisecond)
			o.crashed()
		}
	}()
	r.OnExit(func() { o.Kill() })
	return o
}

// startLocked starts the command on a thread that lives as long as the process (Pdeathsig is per thread).
var starter = make(chan func())
var starterOnce sync.Once

func startLocked(c *exec.Cmd) error {
	starterOnce.Do(func() {
		go func() {
			// never unlocked, never ends
			lockThread()
			for f := range starter {
				f()
			}
		}()
	})
	ch := make(chan error, 1)
	starter <- func() { ch <- c.Start() }
	return <-ch
}

func (o *OM) crashed() {
	log := o.Log()
	if strings.Contains(log, "address already in use") && !strings.Contains(log, "panic:") {
		return // StartOM retries
	}
	if o.stop.Load() {
		return
	}
	o.R.Violate("om-core process ended", map[string]any{"exit": fmt.Sprint(o.exitErr), "env": o.Env, "log": crashPart(log)})
}

func crashPart(log string) string {
	for _, m := range []string{"panic:", "fatal error:", "SIGSEGV", "WARNING: DATA RACE", `"level":"fatal"`} {
		if i := strings.Index(log, m); i >= 0 {
			if i > 200 {
				i -= 200
			} else {
				i = 0
			}
			log = log[i:]
			if len(log) > 5000 {
				log = log[:5000]
			}
			return log
		}
	}
	return tail(log, 4000)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (o *OM) waitReady() bool {
	conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", o.Port), grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithConnectParams(grpc.ConnectParams{MinConnectTimeout: 5 * time.Second, Backoff: fastBackoff}),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30)))
	if err != nil {
		return false
	}
	o.Conn, o.C = conn, pb.NewOpenMatchServiceClient(conn)
	deadline := time.Now().Add(60 * time.Second)
	for time.Now().Before(deadline) {
		conn.Connect()
		st := conn.GetState()
		if st == connectivity.Ready {
			break
		}
		select {
		case <-o.exited:
			return false
		case <-time.After(5 * time.Millisecond):
		}
	}
	if conn.GetState() != connectivity.Ready {
		return false
	}
	if o.Env["VERIF_SECONDARY"] == "" {
		// the REST gateway too
		for time.Now().Before(deadline) {
			c, err := net.DialTimeout("tcp", "127.0.0.1:58081", time.Second)
			if err == nil {
				c.Close()
				select {
				case <-o.exited:
					return false
				case <-time.After(20 * time.Millisecond):
				}
				return true
			}
			select {
			case <-o.exited:
				return false
			case <-time.After(5 * time.Millisecond):
			}
		}
		return false
	}
	return true
}

// Log is everything the process printed.
func (o *OM) Log() string {
	b, _ := os.ReadFile(o.LogPath)
	return string(b)
}

// Alive tells whether the process runs.
func (o *OM) Alive() bool {
	select {
	case <-o.exited:
		return false
	default:
		return true
	}
}

// Kill ends the process at once (SIGKILL).
func (o *OM) Kill() {
	o.stop.Store(true)
	if o.cmd.Process != nil {
		o.cmd.Process.Kill()
	}
	<-o.exited
	if o.Conn != nil {
		o.Conn.Close()
	}
}

// Stop ends the process with SIGTERM and judges its log: a crash or a data race report is a violation.
func (o *OM) Stop() {
	o.CheckLog()
	o.stop.Store(true)
	o.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-o.exited:
	case <-time.After(15 * time.Second):
		o.cmd.Process.Kill()
		<-o.exited
	}
	if o.Conn != nil {
		o.Conn.Close()
	}
	o.checkLogText(o.Log())
}

// CheckLog looks for panics and race reports.
func (o *OM) CheckLog() {
	if !o.Alive() {
		time.Sleep(100 * time.Millisecond)
		o.crashed()
	}
	o.checkLogText(o.Log())
}

func (o *OM) checkLogText(log string) {
	if strings.Contains(log, "WARNING: DATA RACE") {
		o.R.Violate("data race in om-core", map[string]any{"report": crashPart(log)})
	}
	if strings.Contains(log, "\npanic: ") || strings.HasPrefix(log, "panic: ") || strings.Contains(log, "\nfatal error: ") {
		o.R.Violate("panic in om-core", map[string]any{"report": crashPart(log)})
	}
}

// Ctx is a context with the standard generous deadline.
func Ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 90*time.Second)
}

// Goroutines asks the pprof endpoint for the goroutine stacks, grouped.
func Goroutines() (int, string, error) {
	c := http.Client{Timeout: 20 * time.Second}
	resp, err := c.Get("http://127.0.0.1:2224/debug/pprof/goroutine?debug=1")
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, "", err
	}
	var n int
	fmt.Sscanf(string(b), "goroutine profile: total %d", &n)
	return n, string(b), nil
}

// FDCount counts the open file descriptors of the process.
func (o *OM) FDCount() int {
	d, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", o.cmd.Process.Pid))
	return len(d)
}

// Pid of the process.
func (o *OM) Pid() int { return o.cmd.Process.Pid }

// HTTP does a REST call.
func HTTP(method, path string, body []byte) (int, []byte, http.Header, error) {
	c := http.Client{Timeout: 90 * time.Second}
	req, err := http.NewRequest(method, "http://127.0.0.1:58081"+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := c.Do(req)
	if err != nil {
		return 0, nil, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, resp.Header, err
}

// SortedKeys of a set-like map.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
