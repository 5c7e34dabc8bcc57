// Package lab holds the pieces shared by all drivers: a private Redis server,
// child processes of the code under test, and observation of the abstract
// state (cache + storage directory) as a sequence of events.
package lab

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verif/resp"
)

type Redis struct {
	Addr string
	cmd  *exec.Cmd
	dir  string
	C    *resp.Client
}

func freePort() (int, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

func StartRedis(dir string) (*Redis, error) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	var last error
	for try := 0; try < 10; try++ {
		port, err := freePort()
		if err != nil {
			return nil, err
		}
		cmd := exec.Command("redis-server", "--bind", "127.0.0.1", "--port", fmt.Sprint(port), "--save", "",
			"--appendonly", "no", "--maxmemory-policy", "noeviction", "--dir", dir, "--daemonize", "no",
			"--logfile", filepath.Join(dir, "redis.log"))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := startOnLastingThread(cmd); err != nil {
			return nil, err
		}
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		for i := 0; i < 200; i++ {
			c, err := resp.Dial(addr)
			if err == nil {
				if r, err := c.Do("PING"); err == nil && r.Str == "PONG" {
					return &Redis{Addr: addr, cmd: cmd, dir: dir, C: c}, nil
				}
				c.Close()
			}
			last = err
			time.Sleep(10 * time.Millisecond)
		}
		cmd.Process.Kill()
		cmd.Wait()
	}
	return nil, fmt.Errorf("redis-server did not start: %v", last)
}

// startOnLastingThread starts a process from a thread that never ends: Pdeathsig is about the thread, not the process.
func startOnLastingThread(cmd *exec.Cmd) error {
	c := make(chan error)
	go func() {
		runtime.LockOSThread()
		err := cmd.Start()
		c <- err
		if err == nil {
			select {}
		}
	}()
	return <-c
}

func (r *Redis) Stop() {
	r.C.Close()
	r.cmd.Process.Kill()
	r.cmd.Wait()
}

// Do panics on failure: the private server must work.
func (r *Redis) Do(args ...string) resp.Reply {
	rep, err := r.C.Do(args...)
	if err != nil {
		panic(fmt.Sprintf("redis: %v", err))
	}
	return rep
}

// State is the complete content of the server.
type State struct {
	Str  map[string]string
	Sets map[string]map[string]bool
	PTTL map[string]string
}

func (r *Redis) Dump() State {
	s := State{Str: map[string]string{}, Sets: map[string]map[string]bool{}, PTTL: map[string]string{}}
	for _, k := range r.Do("KEYS", "*").Arr {
		key := k.Str
		switch r.Do("TYPE", key).Str {
		case "string":
			v := r.Do("GET", key)
			if v.Nil {
				continue
			}
			s.Str[key] = v.Str
		case "set":
			m := map[string]bool{}
			for _, e := range r.Do("SMEMBERS", key).Arr {
				m[e.Str] = true
			}
			s.Sets[key] = m
		}
		s.PTTL[key] = r.Do("PEXPIRETIME", key).Str
	}
	return s
}

// Restore puts back a dumped state.
func (r *Redis) Restore(s State) {
	r.Do("FLUSHALL")
	for k, v := range s.Str {
		r.Do("SET", k, v)
	}
	for k, m := range s.Sets {
		for e := range m {
			r.Do("SADD", k, e)
		}
	}
	for k, t := range s.PTTL {
		if t != "" && t[0] != '-' {
			r.Do("PEXPIREAT", k, t)
		}
	}
}

var readOnlyCmds = map[string]bool{"GET": true, "SCAN": true, "SSCAN": true, "KEYS": true, "PING": true, "INFO": true,
	"EXISTS": true, "SMEMBERS": true, "SCARD": true, "TTL": true, "PTTL": true, "SISMEMBER": true, "CLIENT": true,
	"HELLO": true, "AUTH": true, "SELECT": true, "MGET": true, "TYPE": true, "COMMAND": true, "EXPIRETIME": true, "TIME": true,
	"CONFIG": true, "DBSIZE": true, "STRLEN": true, "OBJECT": true, "ECHO": true}

func IsRead(name string) bool { return readOnlyCmds[strings.ToUpper(name)] }

// Proc is a child process of the code under test.
type Proc struct {
	Cmd    *exec.Cmd
	Pgid   int
	done   chan struct{}
	Code   int
	Killed bool
	Out    string
	outf   *os.File
}

// StartProc starts a process in its own process group.
func StartProc(argv []string, env []string, dir, logf string) (*Proc, error) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = env
	cmd.Dir = dir
	f, err := os.Create(logf)
	if err != nil {
		return nil, err
	}
	cmd.Stdout = f
	cmd.Stderr = f
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		f.Close()
		return nil, err
	}
	p := &Proc{Cmd: cmd, Pgid: cmd.Process.Pid, done: make(chan struct{}), outf: f, Out: logf}
	go func() {
		err := cmd.Wait()
		p.Code = cmd.ProcessState.ExitCode()
		_ = err
		f.Close()
		close(p.done)
	}()
	return p, nil
}

func (p *Proc) Signal(s syscall.Signal) { syscall.Kill(-p.Pgid, s) }

func (p *Proc) Kill() {
	p.Killed = true
	syscall.Kill(-p.Pgid, syscall.SIGKILL)
}

// Wait returns false on timeout (after killing the process).
func (p *Proc) Wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		p.Kill()
		<-p.done
		return false
	}
}

func (p *Proc) Exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func Tail(path string, n int) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	var lines []string
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<24)
	for s.Scan() {
		lines = append(lines, s.Text())
		if len(lines) > n {
			lines = lines[1:]
		}
	}
	return strings.Join(lines, "\n")
}

// BaseEnv is the environment of every child.
func BaseEnv(tmp string, extra ...string) []string {
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + tmp, "TMPDIR=" + tmp, "USER=root"}
	return append(env, extra...)
}
