package main

// A loopback SSH server with an SFTP subsystem serving a MemFS: the "remote"
// that the backend connects to. It records every request and can inject
// faults per request.

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sync"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

// remote request, as seen by the server
type rreq struct {
	conn int
	op   string // Get Put List Stat Readlink Cmd:... ReadAt
	path string
}

type rAction int

const (
	rOK rAction = iota
	rErr
	rKill     // drop the TCP connection
	rNotFound // SSH_FX_NO_SUCH_FILE
	rChan     // end the SFTP session, but not the SSH connection
	rStatus   // + n: SFTP status n
)

// SSHRemote is the recording remote.
type SSHRemote struct {
	spoil   string // how the next spoilN connections fail
	spoilN  int
	fs      *MemFS
	ln      net.Listener
	addr    string
	lns     []net.Listener // further ones
	hostKey ssh.Signer
	cfg     *ssh.ServerConfig

	mu        sync.Mutex
	nconn     int
	live      map[int]net.Conn
	log       []rreq
	auths     []string
	handles   int // open file/dir handles
	authOK    int
	decide    func(r rreq) rAction // called outside the lock
	noSftp    bool                 // refuse the subsystem
	noPing    bool                 // never answer global requests (not used by default)
	noReal    rAction              // refuse realpath requests with this
	refuse    bool                 // close new TCP connections at once
	muted     bool                 // connections stay open but new requests are not answered
	wg        sync.WaitGroup
	closed    bool
	failNext  int
	onGlobals func(t string)
}

func signerFrom(seed uint64) ssh.Signer {
	k := ed25519.NewKeyFromSeed(prng(seed^0x55aa, 32))
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		panic(err)
	}
	return s
}

func newSSHRemote(fs *MemFS, host ssh.Signer, user string, client ssh.PublicKey) (*SSHRemote, error) {
	r := &SSHRemote{fs: fs, live: map[int]net.Conn{}, hostKey: host}
	r.cfg = &ssh.ServerConfig{
		PublicKeyCallback: func(c ssh.ConnMetadata, key ssh.PublicKey) (*ssh.Permissions, error) {
			r.mu.Lock()
			r.auths = append(r.auths, "publickey:"+c.User())
			r.mu.Unlock()
			if c.User() == user && bytes.Equal(key.Marshal(), client.Marshal()) {
				return nil, nil
			}
			return nil, errors.New("no")
		},
		PasswordCallback: func(c ssh.ConnMetadata, pw []byte) (*ssh.Permissions, error) {
			r.mu.Lock()
			r.auths = append(r.auths, "password:"+c.User()+":"+string(pw))
			r.mu.Unlock()
			return nil, errors.New("no")
		},
		MaxAuthTries: 6,
	}
	r.cfg.AddHostKey(host)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, inconclusive("cannot listen: %v", err)
	}
	r.ln = ln
	r.addr = ln.Addr().String()
	go r.serve(ln)
	return r, nil
}

// also makes the remote answer at another address of the private network; it
// reports whether that is possible.
func (r *SSHRemote) also(addr string) bool {
	if os.Getenv("VH_NETNS") != "1" {
		return false
	}
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return false
	}
	r.mu.Lock()
	r.lns = append(r.lns, ln)
	r.mu.Unlock()
	go r.serve(ln)
	return true
}

func (r *SSHRemote) serve(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		r.mu.Lock()
		if r.refuse {
			r.mu.Unlock()
			c.Close()
			continue
		}
		r.nconn++
		id := r.nconn
		r.live[id] = c
		spoil := ""
		if r.spoilN > 0 {
			r.spoilN--
			spoil = r.spoil
		}
		r.mu.Unlock()
		if spoil != "" {
			go r.spoilConn(id, c, spoil)
			continue
		}
		go r.conn(id, c)
	}
}

// spoilNext lets the next n connections fail in the given way.
func (r *SSHRemote) spoilNext(n int, how string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.spoilN, r.spoil = n, how
}

// spoilConn fails a connection before or during the handshake.
func (r *SSHRemote) spoilConn(id int, c net.Conn, how string) {
	switch how {
	case "version", "kexgarbage":
		_, _ = c.Write([]byte("SSH-2.0-remote\r\n"))
		_, _ = c.Read(make([]byte, 1000))
		if how == "kexgarbage" {
			_, _ = c.Write([]byte("\x00\x00\x00\x0c\x04\x63garbage1234567890"))
		}
	case "nothing":
	case "banner":
		_, _ = c.Write([]byte("421 busy\r\n"))
	case "reset":
		_, _ = c.Read(make([]byte, 10))
		_ = c.(*net.TCPConn).SetLinger(0)
	}
	c.Close()
	r.mu.Lock()
	delete(r.live, id)
	r.mu.Unlock()
}

func (r *SSHRemote) conn(id int, c net.Conn) {
	defer func() {
		c.Close()
		r.mu.Lock()
		delete(r.live, id)
		r.mu.Unlock()
	}()
	_ = c.SetDeadline(time.Now().Add(60 * time.Second))
	r.mu.Lock()
	cfg := r.cfg
	r.mu.Unlock()
	sc, chans, reqs, err := ssh.NewServerConn(c, cfg)
	if err != nil {
		return
	}
	_ = c.SetDeadline(time.Time{})
	r.mu.Lock()
	r.authOK++
	r.mu.Unlock()
	go func() {
		for q := range reqs {
			if q.WantReply {
				_ = q.Reply(false, nil)
			}
		}
	}()
	for nc := range chans {
		if nc.ChannelType() != "session" {
			_ = nc.Reject(ssh.UnknownChannelType, "no")
			continue
		}
		ch, creqs, err := nc.Accept()
		if err != nil {
			continue
		}
		go func() {
			for q := range creqs {
				r.mu.Lock()
				no := r.noSftp
				r.log = append(r.log, rreq{id, "chanreq:" + q.Type, string(q.Payload)})
				r.mu.Unlock()
				ok := q.Type == "subsystem" && len(q.Payload) > 4 && string(q.Payload[4:]) == "sftp" && !no
				if q.WantReply {
					_ = q.Reply(ok, nil)
				}
				if ok {
					h := &rhandler{r: r, id: id, c: c, ch: ch}
					srv := sftp.NewRequestServer(&homeChan{Channel: ch, r: r}, sftp.Handlers{FileGet: h, FilePut: h, FileCmd: h, FileList: h})
					go func() {
						_ = srv.Serve()
						_ = srv.Close()
					}()
				}
			}
		}()
	}
	_ = sc.Wait()
}

// homeChan completes the relative paths in SFTP requests with the login
// directory, which sftp.RequestServer does not know.
type homeChan struct {
	ssh.Channel
	r   *SSHRemote
	buf []byte // what the server may still read
	err error
}

func (h *homeChan) Read(b []byte) (int, error) {
	if len(h.buf) == 0 {
		if h.err != nil {
			return 0, h.err
		}
		hd := make([]byte, 4)
		n, err := io.ReadFull(h.Channel, hd)
		if err != nil {
			h.buf, h.err = hd[:n], err
		} else if size := binary.BigEndian.Uint32(hd); size > 1<<20 {
			h.buf, h.err = hd, errors.New("oversized packet")
		} else {
			p := make([]byte, size)
			n, err := io.ReadFull(h.Channel, p)
			p = p[:n]
			if err != nil {
				h.err = err
			} else {
				h.r.mu.Lock()
				if h.r.noReal != rOK && len(p) > 5 && p[0] == 16 {
					p = pathPacket(17, p[1:5], realRefused)
				}
				h.r.mu.Unlock()
				p = homePacket(p)
				binary.BigEndian.PutUint32(hd, uint32(len(p)))
			}
			h.buf = append(hd, p...)
		}
		if len(h.buf) == 0 {
			return 0, h.err
		}
	}
	n := copy(b, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

// realRefused stands for every path of a realpath request that is refused.
const realRefused = "/.\x01realpath"

func pathPacket(typ byte, id []byte, p string) []byte {
	out := append([]byte{typ}, id...)
	out = binary.BigEndian.AppendUint32(out, uint32(len(p)))
	return append(out, p...)
}

func homePacket(p []byte) []byte {
	if len(p) < 9 {
		return p
	}
	switch p[0] {
	case 3, 7, 9, 11, 13, 14, 15, 16, 17, 18, 19, 20: // open, lstat, ... symlink: id, path, ...
	default:
		return p
	}
	n := int(binary.BigEndian.Uint32(p[5:]))
	if n > len(p)-9 || n > 0 && p[9] == '/' {
		return p
	}
	s := absPath(string(p[9 : 9+n]))
	out := append([]byte{}, p[:5]...)
	out = binary.BigEndian.AppendUint32(out, uint32(len(s)))
	out = append(out, s...)
	return append(out, p[9+n:]...)
}

func (r *SSHRemote) close() {
	r.mu.Lock()
	r.closed = true
	for _, c := range r.live {
		c.Close()
	}
	lns := r.lns
	r.mu.Unlock()
	r.ln.Close()
	for _, l := range lns {
		l.Close()
	}
}

// killAll drops every live connection.
func (r *SSHRemote) killAll() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := len(r.live)
	for _, c := range r.live {
		c.Close()
	}
	return n
}

func (r *SSHRemote) liveCount() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.live)
}

func (r *SSHRemote) connsMade() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nconn
}

func (r *SSHRemote) openHandles() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.handles
}

func (r *SSHRemote) requests() []rreq {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]rreq{}, r.log...)
}

// mutations returns every recorded request that is not a read.
func (r *SSHRemote) mutations() []rreq {
	var out []rreq
	for _, q := range r.requests() {
		switch q.op {
		case "Get", "List", "Stat", "Readlink", "ReadAt", "chanreq:subsystem", "close":
		default:
			out = append(out, q)
		}
	}
	return out
}

type rhandler struct {
	r  *SSHRemote
	id int
	c  net.Conn
	ch ssh.Channel
}

func (h *rhandler) step(op, p string) error {
	q := rreq{h.id, op, p}
	h.r.mu.Lock()
	if op != "ReadAt" && op != "ListAt" {
		h.r.log = append(h.r.log, q)
	}
	d := h.r.decide
	h.r.mu.Unlock()
	if d == nil {
		return nil
	}
	a := d(q)
	switch {
	case a == rStatus+2:
		return os.ErrNotExist
	case a > rStatus:
		return rStatusErr(a - rStatus)
	}
	switch a {
	case rErr:
		return errors.New("injected failure")
	case rNotFound:
		return os.ErrNotExist
	case rChan:
		h.ch.Close()
		return errors.New("killed")
	case rKill:
		h.c.Close()
		return errors.New("killed")
	}
	return nil
}

// rStatusErr is an answer with an SFTP status of its own.
func rStatusErr(n rAction) error {
	switch n {
	case 3:
		return sftp.ErrSshFxPermissionDenied
	case 8:
		return sftp.ErrSshFxOpUnsupported
	case 7:
		return sftp.ErrSshFxConnectionLost
	}
	return sftp.ErrSshFxFailure
}

func (h *rhandler) Fileread(req *sftp.Request) (io.ReaderAt, error) {
	if req.Flags&^uint32(1) != 0 { // anything but SSH_FXF_READ
		h.r.mu.Lock()
		h.r.log = append(h.r.log, rreq{h.id, fmt.Sprintf("open-flags:%#x", req.Flags), req.Filepath})
		h.r.mu.Unlock()
	}
	if err := h.step("Get", req.Filepath); err != nil {
		return nil, err
	}
	n, err := h.r.fs.pre("ReadFile", req.Filepath)
	if err != nil {
		return nil, os.ErrNotExist
	}
	if n.IsDir() {
		return nil, errors.New("is a directory")
	}
	h.r.mu.Lock()
	h.r.handles++
	h.r.mu.Unlock()
	return &rfile{h: h, path: req.Filepath, rd: bytes.NewReader(n.data)}, nil
}

type rfile struct {
	h    *rhandler
	path string
	rd   *bytes.Reader
	once sync.Once
}

func (f *rfile) ReadAt(b []byte, off int64) (int, error) {
	if err := f.h.step("ReadAt", f.path); err != nil {
		return 0, err
	}
	return f.rd.ReadAt(b, off)
}

func (f *rfile) Close() error {
	f.once.Do(func() {
		f.h.r.mu.Lock()
		f.h.r.handles--
		f.h.r.mu.Unlock()
	})
	return nil
}

func (h *rhandler) Filewrite(req *sftp.Request) (io.WriterAt, error) {
	_ = h.step("Put", req.Filepath)
	return nil, errors.New("recorded")
}

func (h *rhandler) Filecmd(req *sftp.Request) error {
	_ = h.step("Cmd:"+req.Method, req.Filepath)
	return nil // pretend it worked: the recording is what matters
}

type flist []os.FileInfo

func (f flist) ListAt(ls []os.FileInfo, off int64) (int, error) {
	if off >= int64(len(f)) {
		return 0, io.EOF
	}
	n := copy(ls, f[off:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil
}

// hlist lets a fault strike before, between and after the parts of a listing.
type hlist struct {
	flist
	h *rhandler
	p string
}

func (f hlist) ListAt(ls []os.FileInfo, off int64) (int, error) {
	if err := f.h.step("ListAt", f.p); err != nil {
		return 0, err
	}
	return f.flist.ListAt(ls, off)
}

func (h *rhandler) Filelist(req *sftp.Request) (sftp.ListerAt, error) {
	if req.Filepath == realRefused {
		h.r.mu.Lock()
		defer h.r.mu.Unlock()
		if h.r.noReal == rStatus+2 {
			return nil, os.ErrNotExist
		}
		return nil, rStatusErr(h.r.noReal - rStatus)
	}
	if err := h.step(req.Method, req.Filepath); err != nil {
		return nil, err
	}
	switch req.Method {
	case "List":
		ls, err := h.r.fs.ReadDir(req.Filepath)
		if err != nil {
			return nil, os.ErrNotExist
		}
		return hlist{flist(ls), h, req.Filepath}, nil
	case "Stat", "Readlink":
		fi, err := h.r.fs.Stat(req.Filepath)
		if err != nil {
			return nil, os.ErrNotExist
		}
		return flist{fi}, nil
	}
	return nil, errors.New("unsupported")
}

func clientConfig(user string, key ssh.Signer, host ssh.PublicKey) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: user, Auth: []ssh.AuthMethod{ssh.PublicKeys(key)}, HostKeyCallback: ssh.FixedHostKey(host), Timeout: 30 * time.Second}
}

func discardLog() *log.Logger { return log.New(io.Discard, "", 0) }

// impersonate makes new connections meet an impostor with another host key
// that lets everybody in and records how they try.
func (r *SSHRemote) impersonate(host ssh.Signer, seen *[]string) (restore func()) {
	note := func(s string) {
		r.mu.Lock()
		*seen = append(*seen, s)
		r.mu.Unlock()
	}
	cfg := &ssh.ServerConfig{
		NoClientAuth: true,
		PublicKeyCallback: func(c ssh.ConnMetadata, key ssh.PublicKey) (*ssh.Permissions, error) {
			note("publickey for " + c.User())
			return nil, nil
		},
		PasswordCallback: func(c ssh.ConnMetadata, pw []byte) (*ssh.Permissions, error) {
			note("password for " + c.User())
			return nil, nil
		},
		AuthLogCallback: func(c ssh.ConnMetadata, method string, err error) {
			note("authentication " + method + " for " + c.User())
		},
	}
	cfg.AddHostKey(host)
	r.mu.Lock()
	old := r.cfg
	r.cfg = cfg
	r.mu.Unlock()
	return func() {
		r.mu.Lock()
		r.cfg = old
		r.mu.Unlock()
	}
}
