package main

import (
	"bytes"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Running the real programs.

func toolPath(name string) string {
	bin := filepath.Join(os.Getenv("VERIF_BIN"), name)
	if _, err := os.Stat(bin); err != nil {
		return ""
	}
	return bin
}

const toolLimit = 60 * time.Second

// runTool feeds input to a program, over its standard streams or over a TCP
// connection it is told to make. With open, the input is not ended: the program
// has to stop by itself.
func runTool(bin string, args []string, tcp bool, in []byte, open bool, o *Obs) (out []byte, code int, ok bool) {
	var ln net.Listener
	if tcp {
		var err error
		if ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			panic(harnessBug{err.Error()})
		}
		defer ln.Close()
		args = append(append([]string{}, args...), "-addr", ln.Addr().String())
	}
	cmd := exec.Command(bin, args...)
	var outb, errb bytes.Buffer
	cmd.Stderr = &errb
	var stdin io.WriteCloser
	if tcp {
		cmd.Stdout = io.Discard
	} else {
		cmd.Stdout = &outb
		stdin, _ = cmd.StdinPipe()
	}
	if err := cmd.Start(); err != nil {
		panic(harnessBug{err.Error()})
	}
	var wg sync.WaitGroup
	var conn net.Conn
	if tcp {
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(toolLimit))
		c, err := ln.Accept()
		if err != nil {
			cmd.Process.Kill()
			cmd.Wait()
			o.bad("%s never connects to the address it was given: %s", filepath.Base(bin), firstLines(errb.String(), 4))
			return nil, 0, false
		}
		conn = c
		defer conn.Close()
		wg.Add(1)
		go func() { defer wg.Done(); io.Copy(&outb, conn) }()
		stdin = nopCloser{conn}
	}
	go func() {
		stdin.Write(in)
		if !open {
			if t, is := conn.(*net.TCPConn); is {
				t.CloseWrite()
			} else {
				stdin.Close()
			}
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(toolLimit):
		cmd.Process.Kill()
		<-done
		o.bad("%s does not stop", filepath.Base(bin))
		return nil, 0, false
	}
	wg.Wait()
	if strings.Contains(errb.String(), "goroutine ") || strings.Contains(errb.String(), "panic:") {
		o.bad("%s crashed: %s", filepath.Base(bin), firstLines(errb.String(), 6))
		return outb.Bytes(), cmd.ProcessState.ExitCode(), false
	}
	return outb.Bytes(), cmd.ProcessState.ExitCode(), true
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

// gate is both ends of a connection to a server: the next message is handed out
// only when the previous ones have been answered.
type gate struct {
	mu    sync.Mutex
	more  *sync.Cond
	out   []byte
	msgs  [][]byte // still to be sent
	need  []int    // answers due before each of them
	cur   []byte
	have  func(out []byte) int
	stuck int // message that was not handed out, -1 if none
	limit time.Duration
}

func newGate(msgs [][]byte, need []int, have func([]byte) int) *gate {
	g := &gate{msgs: msgs, need: need, have: have, stuck: -1, limit: 20 * time.Second}
	g.more = sync.NewCond(&g.mu)
	return g
}

func (g *gate) Write(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.out = append(g.out, p...)
	g.more.Broadcast()
	return len(p), nil
}

func (g *gate) Read(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.cur) == 0 {
		if len(g.msgs) == 0 {
			return 0, io.EOF
		}
		if g.have(g.out) < g.need[0] {
			late := false
			t := time.AfterFunc(g.limit, func() {
				g.mu.Lock()
				late = true
				g.mu.Unlock()
				g.more.Broadcast()
			})
			for g.have(g.out) < g.need[0] && !late {
				g.more.Wait()
			}
			t.Stop()
			if g.have(g.out) < g.need[0] {
				g.stuck = len(g.msgs)
				g.msgs = nil
				return 0, io.EOF
			}
		}
		g.cur, g.msgs, g.need = g.msgs[0], g.msgs[1:], g.need[1:]
	}
	n := copy(p, g.cur)
	g.cur = g.cur[n:]
	return n, nil
}
