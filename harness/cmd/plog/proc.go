package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type proc struct {
	name     string
	cmd      *exec.Cmd
	out      lockedBuf
	ended    chan struct{}
	code     int
	signaled bool
	hung     bool
}

func launch(name, dir string, args ...string) *proc {
	p := &proc{name: name, ended: make(chan struct{})}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=all")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	must(p.cmd.Start())
	go func() {
		err := p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				p.signaled = true
			}
		}
		close(p.ended)
	}()
	return p
}

func (p *proc) running() bool {
	select {
	case <-p.ended:
		return false
	default:
		return true
	}
}

// wait for the end of the program.
func (p *proc) wait() *proc {
	select {
	case <-p.ended:
	case <-time.After(120 * time.Second):
		p.hung = true
		p.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-p.ended:
		case <-time.After(10 * time.Second):
		}
		p.kill()
	}
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.ended
}

func (p *proc) text() string {
	o := p.out.String()
	if len(o) > 3000 {
		o = o[:1200] + "\n...\n" + o[len(o)-1800:]
	}
	return fmt.Sprintf("%s: exit %d signaled %v hung %v\n%s", p.name, p.code, p.signaled, p.hung, o)
}

func (p *proc) crash() bool {
	o := p.out.String()
	for _, s := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE", "unexpected fault address"} {
		if strings.Contains(o, s) {
			return true
		}
	}
	return false
}

var lastPort atomic.Int32

// ownPort is a port that no other case of this monitor gets.
func ownPort() int {
	for {
		p := 10500 + int(lastPort.Add(1))%20000
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

func listening(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}
