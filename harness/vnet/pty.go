package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// tty is a program of the repository that runs on a terminal of its own.
type tty struct {
	cmd    *exec.Cmd
	master *os.File
	slave  *os.File
	mu     sync.Mutex
	raw    string // what has not been looked at
	asked  int    // for the position of the cursor
	all    string
	done   chan struct{}
}

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

func openTTY() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var lock, n int32
	if err = ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)); err == nil {
		err = ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	ws := [4]uint16{50, 200}
	ioctl(m, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	return m, s, nil
}

func spawnTTY(dir, name string, env []string) (*tty, error) {
	m, s, err := openTTY()
	if err != nil {
		return nil, err
	}
	t := &tty{cmd: exec.Command(program(name)), master: m, slave: s, done: make(chan struct{})}
	t.cmd.Dir = dir
	t.cmd.Env = append(append(progEnv(), "TERM=xterm"), env...)
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = s, s, s
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Pdeathsig: syscall.SIGKILL}
	must(t.cmd.Start())
	go func() {
		b := make([]byte, 1<<16)
		rest := ""
		for {
			n, err := m.Read(b)
			if n > 0 {
				t.mu.Lock()
				// a terminal tells where its cursor is
				text := rest + string(b[:n])
				rest = ""
				for _, cut := range []string{"\x1b", "\x1b[", "\x1b[6"} {
					if strings.HasSuffix(text, cut) {
						rest = cut
					}
				}
				text = text[:len(text)-len(rest)]
				for k, part := range strings.Split(text, "\x1b[6n") {
					if k > 0 {
						t.asked++
						if strings.Contains(t.raw[lastIndex(t.raw, 40):], "999") {
							m.WriteString("\x1b[50;200R")
						} else {
							m.WriteString("\x1b[5;30R")
						}
					}
					t.raw += part
					t.all += part
				}
				t.mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		t.cmd.Wait()
		// until everything shown has been read
		for end := time.Now().Add(time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
			var n int32
			if ioctl(m, syscall.TIOCINQ, unsafe.Pointer(&n)) != nil || n == 0 {
				break
			}
		}
		time.Sleep(2 * time.Millisecond)
		close(t.done)
	}()
	return t, nil
}

func lastIndex(s string, n int) int {
	if len(s) < n {
		return 0
	}
	return len(s) - n
}

var ansi = regexp.MustCompile("\x1b(\\[[0-9;?]*[A-Za-z]|[78])")

// shown is what was shown since the last call of mark.
func (t *tty) shown() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return strings.Replace(ansi.ReplaceAllString(t.raw, ""), "\r", "", -1)
}

func (t *tty) mark() {
	t.mu.Lock()
	t.raw, t.asked = "", 0
	t.mu.Unlock()
}

func (t *tty) ended() bool {
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

// until waits for one of the texts, or for the end.
func (t *tty) until(d time.Duration, texts ...string) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(time.Millisecond) {
		e := t.ended()
		s := t.shown()
		for _, x := range texts {
			if strings.Contains(s, x) {
				return true
			}
		}
		if e {
			return false
		}
	}
	return false
}

// send types something; the program shows at once that it got it. What is lost
// is typed again.
func (t *tty) send(s string) {
	for try := 0; try < 3 && s != ""; try++ {
		t.mark()
		t.master.WriteString(s)
		for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
			t.mu.Lock()
			got := t.raw != ""
			t.mu.Unlock()
			if got || t.ended() {
				return
			}
		}
	}
}

// typeIn types a text and waits until it is shown; what is lost is typed again.
func (t *tty) typeIn(s string) {
	for try := 0; try < 5 && s != "" && !t.ended(); try++ {
		t.mark()
		t.master.WriteString(s)
		for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
			if strings.HasSuffix(t.shown(), s) || t.ended() {
				return
			}
		}
		// some of it may be there
		t.master.WriteString(strings.Repeat("\x7f", len(s)))
		time.Sleep(50 * time.Millisecond)
	}
}

// ready waits until the program reads key by key and, if it asks where the
// cursor is, until it has got the answers: it drops what comes with them.
func (t *tty) ready(asks int) {
	for end := time.Now().Add(500 * time.Millisecond); time.Now().Before(end) && !t.ended(); time.Sleep(300 * time.Microsecond) {
		var mode syscall.Termios
		var n int32
		t.mu.Lock()
		asked := t.asked
		t.mu.Unlock()
		if asked < asks || ioctl(t.slave, syscall.TCGETS, unsafe.Pointer(&mode)) != nil || mode.Lflag&syscall.ICANON != 0 {
			continue
		}
		if asks > 0 {
			time.Sleep(time.Millisecond)
		}
		if ioctl(t.slave, syscall.TIOCINQ, unsafe.Pointer(&n)) == nil && n == 0 {
			return
		}
	}
}

func (t *tty) stop() {
	t.cmd.Process.Kill()
	t.slave.Close()
	<-t.done
	t.master.Close()
}
