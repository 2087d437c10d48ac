package vh

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// tailBuf keeps the first and last bytes written to it.
type tailBuf struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.head.Len() < 8192 {
		b.head.Write(p)
	} else {
		b.tail = append(b.tail, p...)
		if len(b.tail) > 32768 {
			b.tail = b.tail[len(b.tail)-16384:]
		}
	}
	return len(p), nil
}

func (b *tailBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.head.String() + string(b.tail)
}

// child is an idmd process serving on the loopback interface.
type child struct {
	cmd  *exec.Cmd
	addr string
	out  tailBuf
	done chan struct{}
	err  error
}

var (
	addrMu   sync.Mutex
	addrPort = 20000
)

// freeAddr returns a listen address no other process of the check uses: every
// process has its own loopback address and never uses a port twice.
func freeAddr() string {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>14&0x7f, pid>>7&0x7f, 1+pid&0x7f)
	addrMu.Lock()
	defer addrMu.Unlock()
	for try := 0; try < 20000; try++ {
		if addrPort++; addrPort > 60000 {
			addrPort = 20000
		}
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, addrPort))
		if err == nil {
			l.Close()
			return l.Addr().String()
		}
	}
	infra("no free address on %s", host)
	return ""
}

// startChild runs "idmd serve" with the given arguments; a free listen address
// is added. It returns once the server accepts connections, or an error when
// the process ended by itself.
func startChild(dir string, env []string, args ...string) (*child, error) {
	return startChildPrefix(dir, env, nil, args...)
}

// startChildPrefix does the same through a wrapper command.
func startChildPrefix(dir string, env, prefix []string, args ...string) (*child, error) {
	for try := 0; ; try++ {
		c := &child{addr: freeAddr(), done: make(chan struct{})}
		argv := append(append([]string(nil), prefix...), idmdPath(), "serve", "--ldap-listen", c.addr, "--log-timestamp=false")
		argv = append(argv, args...)
		c.cmd = exec.Command(argv[0], argv[1:]...)
		c.cmd.Dir = dir
		c.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}, env...)
		c.cmd.Stdout, c.cmd.Stderr = &c.out, &c.out
		if err := c.start(); err != nil {
			infra("starting idmd: %v", err)
		}
		end := time.Now().Add(2 * replyTimeout())
		for {
			conn, err := net.DialTimeout("tcp", c.addr, time.Second)
			if err == nil {
				conn.Close()
				return c, nil
			}
			if c.ended() {
				if strings.Contains(c.out.String(), "address already in use") && try < 20 {
					break
				}
				return nil, fmt.Errorf("idmd ended: %v\n%s", c.err, c.out.String())
			}
			if time.Now().After(end) {
				hung.Store(true)
				c.kill()
				return nil, fmt.Errorf("idmd runs but does not listen on %s:\n%s", c.addr, c.out.String())
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
}

func (c *child) start() error {
	c.cmd.WaitDelay = 5 * time.Second
	if err := c.cmd.Start(); err != nil {
		return err
	}
	go func() {
		c.err = c.cmd.Wait()
		close(c.done)
	}()
	return nil
}

func (c *child) ended() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

func (c *child) kill() {
	c.cmd.Process.Kill()
	<-c.done
}

func (c *child) dial() (*Client, error) {
	conn, err := net.DialTimeout("tcp", c.addr, replyTimeout())
	if err != nil {
		return nil, err
	}
	return newClient(conn), nil
}

// crashText tells how the process ended; it is "" while it runs.
func (c *child) crashText() string {
	if !c.ended() {
		return ""
	}
	if ws, ok := c.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		infra("idmd was killed from outside")
	}
	s := c.out.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate") {
		infra("idmd ran out of memory")
	}
	if len(s) > 2500 {
		s = s[:2500]
	}
	return fmt.Sprintf("the server process ended (%v):\n%s", c.cmd.ProcessState, s)
}
