package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
)

// child is a program that links packages of the code under test and answers JSON lines.
type child struct {
	kind   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *os.File
	r      *bufio.Reader
	stderr *tail
	dead   chan struct{}
	err    error
}

var childKinds = []string{"cdecode", "cencode", "csmap", "cconfig", "cpool"}

func (e *Env) childBin(kind string) string {
	return e.build(kind, e.inprocDir(), "./"+kind)
}

func (e *Env) childBins() {
	for _, k := range childKinds {
		e.childBin(k)
	}
}

func (e *Env) startChild(kind string) *child {
	bin := e.childBin(kind)
	r, w, err := os.Pipe()
	if err != nil {
		harness("%v", err)
	}
	c := &child{kind: kind, out: r, r: bufio.NewReaderSize(r, 1<<20), stderr: &tail{}, dead: make(chan struct{})}
	c.cmd = exec.Command(bin)
	c.cmd.Env = goEnv()
	c.cmd.Dir = e.scratch
	c.cmd.ExtraFiles = []*os.File{w}
	c.cmd.Stderr = c.stderr
	c.cmd.WaitDelay = time.Second
	c.in, err = c.cmd.StdinPipe()
	if err == nil {
		err = startCmd(c.cmd)
	}
	w.Close()
	if err != nil {
		harness("starting %s: %v", filepath.Base(bin), err)
	}
	go func() {
		c.err = c.cmd.Wait()
		close(c.dead)
	}()
	return c
}

func (c *child) kill() {
	_ = c.cmd.Process.Signal(syscall.SIGKILL)
	<-c.dead
	c.in.Close()
	c.out.Close()
}

// child takes an idle program of the kind, or starts one.
func (e *Env) child(kind string) *child {
	e.mu.Lock()
	if l := e.kids[kind]; len(l) > 0 {
		c := l[len(l)-1]
		e.kids[kind] = l[:len(l)-1]
		e.mu.Unlock()
		return c
	}
	e.mu.Unlock()
	return e.startChild(kind)
}

func (e *Env) release(c *child) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.kids[c.kind] = append(e.kids[c.kind], c)
}

func (e *Env) closeChildren() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, l := range e.kids {
		for _, c := range l {
			c.kill()
		}
	}
	e.kids = map[string][]*child{}
}

// call asks one question. Death and silence of the program are failures.
func (c *child) call(q, a any, wait time.Duration) *Failure {
	b, err := json.Marshal(q)
	if err != nil {
		harness("%v", err)
	}
	go c.in.Write(append(b, '\n')) // a dead program shows up below
	_ = c.out.SetReadDeadline(time.Now().Add(wait))
	line, err := c.r.ReadBytes('\n')
	if err == nil {
		if err := json.Unmarshal(line, a); err != nil {
			harness("%s answered %.200q: %v", c.kind, line, err)
		}
		return nil
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		return &Failure{Kind: "hang", Msg: fmt.Sprintf("%s: no answer within %v", c.kind, wait)}
	}
	<-c.dead
	if c.cmd.ProcessState.ExitCode() == 97 {
		harness("%s: %s", c.kind, c.stderr.String())
	}
	if ws, ok := c.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		harness("%s was killed from outside (memory?)", c.kind)
	}
	s := &Server{stderr: c.stderr}
	return &Failure{Kind: "crash", Msg: fmt.Sprintf("%s ended (%v): %s", c.kind, c.err, s.crashText())}
}

// ask runs one question on an idle program and keeps the program if it lives.
func (e *Env) ask(kind string, q, a any, wait time.Duration) *Failure {
	c := e.child(kind)
	if f := c.call(q, a, wait); f != nil {
		c.kill()
		return f
	}
	e.release(c)
	return nil
}

// askFresh uses a program of its own.
func (e *Env) askFresh(kind string, q, a any, wait time.Duration) *Failure {
	c := e.startChild(kind)
	defer c.kill()
	return c.call(q, a, wait)
}
