// cdecode decodes byte streams with the code under test.
package main

import (
	"bufio"
	"io"
	"runtime"

	"github.com/yusank/godis/protocol"

	"verif/inproc/wire"
)

type query struct {
	Stream []byte
	Chunks []int // sizes of the reads, repeated
	Buf    int   // size of a bufio.Reader around it, 0: none
	Last   bool  // the last read returns data and io.EOF together
	Max    int   // messages to decode
	Async  bool  // decode by ReceiveDataAsync
}

type message struct {
	Elements [][]byte
	Org      []byte
	Err      string
	Nil      bool // neither a message nor an error
	Pos      int  // bytes consumed so far
}

type answer struct {
	Messages []message
	Alloc    uint64
}

// chunks is a reader that returns what it has in pieces.
type chunks struct {
	data  []byte
	pos   int
	sizes []int
	i     int
	last  bool
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.pos == len(c.data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.data) - c.pos
	if len(c.sizes) > 0 {
		n = min(n, max(1, c.sizes[c.i%len(c.sizes)]))
		c.i++
	}
	n = copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.last && c.pos == len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

// ReadBytes has the contract of bufio.Reader and never reads ahead.
func (c *chunks) ReadBytes(delim byte) ([]byte, error) {
	for i := c.pos; i < len(c.data); i++ {
		if c.data[i] == delim {
			out := append([]byte(nil), c.data[c.pos:i+1]...)
			c.pos = i + 1
			return out, nil
		}
	}
	out := append([]byte(nil), c.data[c.pos:]...)
	c.pos = len(c.data)
	return out, io.EOF
}

// async collects all messages before it looks at any of them, and then the error.
func async(r protocol.Reader, max int) *answer {
	ar := protocol.ReceiveDataAsync(r)
	var recs []*protocol.Receive
	for rec := range ar.ReceiveChan {
		if recs = append(recs, rec); len(recs) > max {
			break
		}
	}
	a := &answer{}
	for _, rec := range recs {
		a.add(rec, nil, 0)
	}
	if len(recs) <= max {
		err, ok := <-ar.ErrorChan
		if ok && err != nil {
			a.add(nil, err, 0)
		}
	}
	return a
}

func (a *answer) add(rec *protocol.Receive, err error, pos int) {
	m := message{Pos: pos}
	switch {
	case err != nil:
		m.Err = err.Error()
		if m.Err == "" {
			m.Err = "(empty error)"
		}
	case rec == nil:
		m.Nil = true
	default:
		m.Org = []byte(rec.OrgStr)
		for _, e := range rec.Elements {
			m.Elements = append(m.Elements, []byte(e))
		}
	}
	a.Messages = append(a.Messages, m)
}

func main() {
	wire.Serve(func(q *query) *answer {
		src := &chunks{data: q.Stream, sizes: q.Chunks, last: q.Last}
		var r protocol.Reader = src
		var br *bufio.Reader
		if q.Buf > 0 {
			br = bufio.NewReaderSize(src, q.Buf)
			r = br
		}
		if q.Async {
			return async(r, q.Max)
		}
		var recs []*protocol.Receive
		var errs []error
		var ends []int
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for i := 0; i < q.Max; i++ {
			rec, err := protocol.DecodeFromReader(r)
			pos := src.pos
			if br != nil {
				pos -= br.Buffered()
			}
			recs, errs, ends = append(recs, rec), append(errs, err), append(ends, pos)
			if err != nil {
				break
			}
		}
		runtime.ReadMemStats(&m1)
		a := &answer{Alloc: m1.TotalAlloc - m0.TotalAlloc}
		for i, rec := range recs {
			a.add(rec, errs[i], ends[i])
		}
		return a
	})
}
