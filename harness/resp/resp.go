// Package resp is a man-in-the-middle for the Redis protocol: every command
// of every process under test passes through it, one at a time, so that the
// recorded order is the order in which the server executed them. A hook can
// delay a command, answer it with an error, or kill the sender around it.
package resp

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// Verdict of a hook for one command.
type Verdict struct {
	Err       string // non-empty: do not execute, answer with this error
	DropPre   bool   // close the connection without executing
	DropPost  bool   // execute, then close the connection without answering
	Discarded bool   // do not record the command (used with kills)
}

type Cmd struct {
	Actor string
	Args  []string
	K     int // 1-based number of this command among the actor's commands
}

func (c Cmd) Name() string { return strings.ToUpper(c.Args[0]) }

// Reply is a parsed RESP reply: Raw is forwarded verbatim.
type Reply struct {
	Raw  []byte
	Kind byte // + - : $ *
	Str  string
	Nil  bool
	Arr  []Reply
}

type Proxy struct {
	Upstream string
	mu       sync.Mutex // held while a command executes and is recorded
	// Pre runs before a command executes; it may block and may run other actors.
	Pre func(c Cmd) Verdict
	// Before runs just before execution, under the global lock.
	Before func(c Cmd)
	// Done runs right after execution, under the global lock.
	Done func(c Cmd, r Reply, v Verdict)
	// Post runs after Done, outside the global lock, before the reply is delivered.
	Post func(c Cmd, r Reply)

	amu    sync.Mutex
	actors map[string]*Actor
}

type Actor struct {
	p     *Proxy
	name  string
	ln    net.Listener
	seq   sync.Mutex // serialises the commands of one actor
	k     int
	cmu   sync.Mutex
	conns map[net.Conn]bool
	dead  bool
}

func New(upstream string) *Proxy { return &Proxy{Upstream: upstream, actors: map[string]*Actor{}} }

// Lock takes the global order lock (to record non-Redis observations in order).
func (p *Proxy) Lock()   { p.mu.Lock() }
func (p *Proxy) Unlock() { p.mu.Unlock() }

func (p *Proxy) NewActor(name string) (*Actor, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	a := &Actor{p: p, name: name, ln: ln, conns: map[net.Conn]bool{}}
	p.amu.Lock()
	p.actors[name] = a
	p.amu.Unlock()
	go a.accept()
	return a, nil
}

func (a *Actor) Addr() string { return a.ln.Addr().String() }
func (a *Actor) Count() int   { a.cmu.Lock(); defer a.cmu.Unlock(); return a.k }

// Close stops the actor's endpoint; commands still in flight are not executed.
func (a *Actor) Close() {
	a.cmu.Lock()
	a.dead = true
	for c := range a.conns {
		c.Close()
	}
	a.cmu.Unlock()
	a.ln.Close()
}

func (a *Actor) isDead() bool { a.cmu.Lock(); defer a.cmu.Unlock(); return a.dead }

func (a *Actor) accept() {
	for {
		c, err := a.ln.Accept()
		if err != nil {
			return
		}
		a.cmu.Lock()
		if a.dead {
			a.cmu.Unlock()
			c.Close()
			return
		}
		a.conns[c] = true
		a.cmu.Unlock()
		go a.serve(c)
	}
}

func (a *Actor) serve(c net.Conn) {
	defer func() {
		a.cmu.Lock()
		delete(a.conns, c)
		a.cmu.Unlock()
		c.Close()
	}()
	up, err := net.Dial("tcp", a.p.Upstream)
	if err != nil {
		return
	}
	defer up.Close()
	br := bufio.NewReaderSize(c, 1<<16)
	ur := bufio.NewReaderSize(up, 1<<16)
	bw := bufio.NewWriterSize(c, 1<<16)
	for {
		args, err := readCmd(br)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		if !a.one(args, up, ur, bw) {
			return
		}
		if br.Buffered() == 0 {
			if bw.Flush() != nil {
				return
			}
		}
	}
}

func (a *Actor) one(args []string, up net.Conn, ur *bufio.Reader, bw *bufio.Writer) bool {
	a.seq.Lock()
	defer a.seq.Unlock()
	a.cmu.Lock()
	if a.dead {
		a.cmu.Unlock()
		return false
	}
	a.k++
	cmd := Cmd{Actor: a.name, Args: args, K: a.k}
	a.cmu.Unlock()
	var v Verdict
	if a.p.Pre != nil {
		v = a.p.Pre(cmd)
	}
	if v.DropPre || a.isDead() {
		return false
	}
	if v.Err != "" {
		a.p.mu.Lock()
		if a.p.Done != nil {
			a.p.Done(cmd, Reply{Kind: '-', Str: v.Err}, v)
		}
		a.p.mu.Unlock()
		bw.WriteString("-" + v.Err + "\r\n")
		return true
	}
	a.p.mu.Lock()
	if a.isDead() {
		a.p.mu.Unlock()
		return false
	}
	if a.p.Before != nil {
		a.p.Before(cmd)
	}
	if _, err := up.Write(encode(args)); err != nil {
		a.p.mu.Unlock()
		return false
	}
	r, err := ReadReply(ur)
	if err != nil {
		a.p.mu.Unlock()
		return false
	}
	if a.p.Done != nil && !v.Discarded {
		a.p.Done(cmd, r, v)
	}
	a.p.mu.Unlock()
	if a.p.Post != nil {
		a.p.Post(cmd, r)
	}
	if v.DropPost || a.isDead() {
		return false
	}
	bw.Write(r.Raw)
	return true
}

func encode(args []string) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, s := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(s), s)
	}
	return []byte(b.String())
}

func readCmd(br *bufio.Reader) ([]string, error) {
	line, err := readLine(br)
	if err != nil {
		return nil, err
	}
	if len(line) == 0 {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	args := make([]string, 0, n)
	for i := 0; i < n; i++ {
		h, err := readLine(br)
		if err != nil {
			return nil, err
		}
		if len(h) == 0 || h[0] != '$' {
			return nil, errors.New("bad bulk header")
		}
		l, err := strconv.Atoi(h[1:])
		if err != nil {
			return nil, err
		}
		buf := make([]byte, l+2)
		if _, err := io.ReadFull(br, buf); err != nil {
			return nil, err
		}
		args = append(args, string(buf[:l]))
	}
	return args, nil
}

func readLine(br *bufio.Reader) (string, error) {
	s, err := br.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(s, "\r\n"), nil
}

func ReadReply(br *bufio.Reader) (Reply, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return Reply{}, err
	}
	r := Reply{Raw: []byte(line), Kind: line[0]}
	body := strings.TrimRight(line[1:], "\r\n")
	switch line[0] {
	case '+', '-', ':':
		r.Str = body
	case '$':
		n, err := strconv.Atoi(body)
		if err != nil {
			return r, err
		}
		if n < 0 {
			r.Nil = true
			return r, nil
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(br, buf); err != nil {
			return r, err
		}
		r.Raw = append(r.Raw, buf...)
		r.Str = string(buf[:n])
	case '*':
		n, err := strconv.Atoi(body)
		if err != nil {
			return r, err
		}
		if n < 0 {
			r.Nil = true
			return r, nil
		}
		for i := 0; i < n; i++ {
			e, err := ReadReply(br)
			if err != nil {
				return r, err
			}
			r.Raw = append(r.Raw, e.Raw...)
			r.Arr = append(r.Arr, e)
		}
	default:
		return r, fmt.Errorf("bad reply %q", line)
	}
	return r, nil
}

// Client is a minimal direct connection to the server (not through the proxy).
type Client struct {
	c  net.Conn
	br *bufio.Reader
	mu sync.Mutex
}

func Dial(addr string) (*Client, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return &Client{c: c, br: bufio.NewReaderSize(c, 1<<16)}, nil
}

func (c *Client) Do(args ...string) (Reply, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, err := c.c.Write(encode(args)); err != nil {
		return Reply{}, err
	}
	return ReadReply(c.br)
}

func (c *Client) Close() { c.c.Close() }
