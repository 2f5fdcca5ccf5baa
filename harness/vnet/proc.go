package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// proc is a running program of the repository.
type proc struct {
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	code int
}

func (p *proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *proc) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.out.String()
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

func spawn(dir, name string, env []string, args ...string) *proc {
	p := &proc{cmd: exec.Command(program(name), args...), done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = append(progEnv(), env...)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// wait waits for the end.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// listening waits until something accepts connections at the address.
func (p *proc) listening(addr string) bool {
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && !p.ended(); {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			// another process could be listening there
			time.Sleep(5 * time.Millisecond)
			return !p.ended()
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

var portCount = os.Getpid() * 131

// freeAddrs are n addresses that nothing else uses: the ports are below those
// that the system hands out, and each shard has its own.
func freeAddrs(n int) []string {
	const per = 2700
	var shard int
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/", &shard)
	var out []string
	for tries := 0; len(out) < n; tries++ {
		if tries > 2*per {
			panic("no free port")
		}
		portCount++
		addr := fmt.Sprintf("127.0.0.1:%d", 10000+shard%8*per+portCount%per)
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		l.Close()
		out = append(out, addr)
	}
	return out
}

// daemons starts the server program n times; addresses that get taken by
// something else are replaced.
func daemons(n int, conf string, order []int, start func(i int) *proc) ([]*proc, []string, error) {
	var why string
	for try := 0; try < 4; try++ {
		addrs := freeAddrs(n)
		writeConf(conf, addrs, order)
		var ps []*proc
		ok := true
		for i := 0; i < n; i++ {
			ps = append(ps, start(i))
		}
		for i, p := range ps {
			if ok && !p.listening(addrs[i]) {
				ok = false
				why = fmt.Sprintf("server %d does not listen at its address: %s", i, p.output())
			}
		}
		if ok {
			return ps, addrs, nil
		}
		for _, p := range ps {
			p.kill()
		}
		if !strings.Contains(why, "in use") {
			break
		}
	}
	return nil, nil, fmt.Errorf("%s", why)
}
