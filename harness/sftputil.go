//go:build all || c01 || c02 || c03 || c04 || c05 || c06 || c07 || c08 || c09 || c22

package main

import (
	"fmt"
	"net"
	"os"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
)

// openTree opens the volume through the code under test.
func (v *Vol) openTree() (*filetree.FileTree, error) {
	ft, err := filetree.Init(v.spec.Root, append([]byte{}, v.spec.Pw...), v.spec.Workers, v.fs)
	if err != nil {
		return nil, fmt.Errorf("a valid volume %+v could not be opened with its own password: %v", v.spec.Flags, err)
	}
	return ft, nil
}

func (v *Vol) openHandlers() (sftp.Handlers, error) {
	h, err := handlers.DecryptHandler(v.spec.Root, append([]byte{}, v.spec.Pw...), v.spec.Workers, v.fs)
	if err != nil {
		return h, fmt.Errorf("a valid volume %+v could not be opened with its own password: %v", v.spec.Flags, err)
	}
	return h, nil
}

// sftpSession connects a client to a request server with the handlers.
func sftpSession(h sftp.Handlers) (*sftp.Client, func(), error) {
	a, b := net.Pipe()
	srv := sftp.NewRequestServer(a, h)
	done := make(chan struct{})
	go func() {
		defer close(done)
		_ = srv.Serve()
		_ = srv.Close()
	}()
	c, err := sftp.NewClientPipe(b, b)
	if err != nil {
		a.Close()
		b.Close()
		return nil, nil, inconclusive("sftp session: %v", err)
	}
	return c, func() {
		a.Close()
		b.Close()
		c.Close()
		<-done
	}, nil
}

// listAll drains a ListerAt with the given batch sizes.
func listAll(l sftp.ListerAt, batches []int) ([]os.FileInfo, error) {
	var out []os.FileInfo
	for i := 0; ; i++ {
		n := 7
		if len(batches) > 0 {
			n = batches[i%len(batches)]
		}
		if n < 1 {
			n = 1
		}
		buf := make([]os.FileInfo, n)
		got, err := l.ListAt(buf, int64(len(out)))
		if got < 0 || got > n {
			return nil, fmt.Errorf("ListAt returned n=%d for a buffer of %d", got, n)
		}
		for _, x := range buf[:got] {
			if x == nil {
				return nil, fmt.Errorf("ListAt returned a nil entry")
			}
		}
		out = append(out, buf[:got]...)
		if err != nil {
			return out, nil
		}
		if got == 0 {
			return nil, fmt.Errorf("ListAt returned 0 entries and no error")
		}
		if i > 1000000 {
			return nil, fmt.Errorf("ListAt never ends")
		}
	}
}

// within runs f and reports whether it returned in d.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
