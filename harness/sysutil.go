package main

// Private network for programs that listen on a fixed port, and pseudo
// terminals for programs that ask for passphrases.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

var portLock *os.File

// netSetup brings up the loopback device of a private network, or prepares
// the lock that serialises the use of the port.
func netSetup() {
	if os.Getenv("VH_NETNS") == "1" {
		s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
		if err == nil {
			defer syscall.Close(s)
			var ifr [40]byte
			copy(ifr[:], "lo")
			*(*uint16)(unsafe.Pointer(&ifr[16])) = syscall.IFF_UP | syscall.IFF_RUNNING
			_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr[0])))
			if e == 0 {
				return
			}
			fmt.Fprintln(os.Stderr, "cannot bring up lo:", e)
		}
	}
	portLock, _ = os.OpenFile("/tmp/vh-port-9022.lock", os.O_CREATE|os.O_RDWR|syscall.O_CLOEXEC, 0o600)
}

// takePort waits for exclusive use of the program's port.
func takePort() func() {
	if portLock == nil {
		return func() {}
	}
	_ = syscall.Flock(int(portLock.Fd()), syscall.LOCK_EX)
	return func() { _ = syscall.Flock(int(portLock.Fd()), syscall.LOCK_UN) }
}

// pty is a pseudo terminal whose slave becomes a program's standard input.
type pty struct {
	master, slave *os.File
	mu            sync.Mutex
	out           bytes.Buffer // everything the terminal showed
}

func openPTY() (*pty, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, inconclusive("no pseudo terminal: %v", err)
	}
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		m.Close()
		return nil, inconclusive("no pseudo terminal: %v", e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, inconclusive("no pseudo terminal: %v", e)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		m.Close()
		return nil, inconclusive("no pseudo terminal: %v", err)
	}
	p := &pty{master: m, slave: s}
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			p.mu.Lock()
			p.out.Write(b[:n])
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p, nil
}

func (p *pty) shown() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *pty) close() {
	p.slave.Close()
	p.master.Close()
}

// echo reports whether the terminal echoes what is typed.
func (p *pty) echo() bool {
	var t syscall.Termios
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, p.slave.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return e != 0 || t.Lflag&syscall.ECHO != 0
}

// lockedBuf collects a stream.
type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// prog is a program under test with a terminal as standard input.
type prog struct {
	cmd      *exec.Cmd
	tty      *pty
	out, err *lockedBuf
	done     chan struct{}
	answered int
	noEcho   bool // every prompt so far was answered with echo off
}

// startProg runs a command; with tty, standard input is a terminal,
// otherwise it is empty.
func startProg(tty bool, env []string, name string, args ...string) (*prog, error) {
	return startProgIn("", tty, env, name, args...)
}

func startProgIn(dir string, tty bool, env []string, name string, args ...string) (*prog, error) {
	g := &prog{cmd: exec.Command(name, args...), out: &lockedBuf{}, err: &lockedBuf{}, done: make(chan struct{}), noEcho: true}
	g.cmd.Dir = dir
	g.cmd.Stdout, g.cmd.Stderr = g.out, g.err
	g.cmd.Env = append(os.Environ(), env...)
	g.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	g.cmd.WaitDelay = 5 * time.Second
	if tty {
		p, err := openPTY()
		if err != nil {
			return nil, err
		}
		g.tty = p
		g.cmd.Stdin = p.slave
	}
	if err := g.cmd.Start(); err != nil {
		return nil, inconclusive("cannot start %s: %v", name, err)
	}
	go func() {
		_ = g.cmd.Wait()
		close(g.done)
	}()
	return g, nil
}

// stopSoftly ends the program and keeps the terminal.
func (g *prog) stopSoftly() {
	_ = syscall.Kill(-g.cmd.Process.Pid, syscall.SIGTERM)
	select {
	case <-g.done:
	case <-time.After(10 * time.Second):
		_ = syscall.Kill(-g.cmd.Process.Pid, syscall.SIGKILL)
		<-g.done
	}
}

func (g *prog) stop() {
	_ = syscall.Kill(-g.cmd.Process.Pid, syscall.SIGKILL)
	<-g.done
	if g.tty != nil {
		g.tty.close()
	}
}

func (g *prog) alive() bool {
	select {
	case <-g.done:
		return false
	default:
		return true
	}
}

func (g *prog) prompts() int { return strings.Count(g.out.String(), "Enter passphrase") }

// waitPrompt waits for the next prompt; false if the program ended, or until
// says so, first.
func (g *prog) waitPrompt(limit time.Duration, until func() bool) (bool, error) {
	end := time.Now().Add(limit)
	for {
		if g.prompts() > g.answered {
			return true, nil
		}
		if !g.alive() {
			return g.prompts() > g.answered, nil
		}
		if until != nil && until() {
			return g.prompts() > g.answered, nil
		}
		if time.Now().After(end) {
			return false, inconclusive("no prompt and no end within %v: %s", limit, clip(g.out.String()+g.err.String(), 500))
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// answer types a line once the terminal no longer echoes.
func (g *prog) answer(b []byte) error {
	end := time.Now().Add(20 * time.Second)
	for g.tty.echo() {
		if !g.alive() {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("the program asks for a passphrase while the terminal echoes what is typed")
		}
		time.Sleep(time.Millisecond)
	}
	g.answered++
	_, err := g.tty.master.Write(b)
	if err != nil && err != io.ErrClosedPipe && g.alive() {
		return inconclusive("cannot type: %v", err)
	}
	return nil
}
