// cpool stops the command executor while requests are being handed to it.
package main

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"

	"verif/inproc/wire"
)

type query struct {
	Clients [][][][]byte // client, command, argument
	Direct  []bool       // the client uses events itself
	StopAt  int          // stop after so many replies
	Spin    int          // and so many yields
	Stops   int          // concurrent calls of Stop
	Late    [][][]byte   // commands after the stop
	Final   [][][]byte   // commands on a new executor at the end
	WaitMS  int
}

type reply struct {
	Out   []byte
	Lost  bool // no reply in time
	Panic string
	// logical times, for what happened before what
	From, To int64
}

type answer struct {
	Replies  [][]reply
	Late     []reply
	Final    []reply
	StopFrom int64
	StopTo   int64
	StopLost bool
	Undone   int // events which were handed over, and not done when Stop returned
	Panic    string
}

// handed are the events that clients have handed over themselves.
var handed struct {
	sync.Mutex
	events []*event.Event
}

var clock int64

var lost int32 // a request got no reply in time

func tick() int64 { return atomic.AddInt64(&clock, 1) }

func one(args [][]byte, direct bool, wait time.Duration) (r reply) {
	ch := make(chan reply, 1)
	go func() {
		var r reply
		defer func() {
			if p := recover(); p != nil {
				r.Panic = fmt.Sprint(p)
			}
			r.To = tick()
			ch <- r
		}()
		rec := &protocol.Receive{}
		for _, a := range args {
			rec.Elements = append(rec.Elements, string(a))
		}
		r.From = tick()
		if !direct {
			r.Out = event.HandleRequest(rec)
			return
		}
		e := event.NewEvent(redis.NewCommandFromReceive(context.Background(), rec))
		event.AddEvent(e)
		handed.Lock()
		handed.events = append(handed.events, e)
		handed.Unlock()
		<-e.Done()
		if e.Rsp == nil {
			r.Panic = "done without a response"
			return
		}
		r.Out = e.Rsp.Encode()
	}()
	if atomic.LoadInt32(&lost) > 0 {
		wait = 200 * time.Millisecond // one is enough
	}
	select {
	case r = <-ch:
	case <-time.After(wait):
		r.Lost = true
		r.To = tick()
		atomic.StoreInt32(&lost, 1)
	}
	return r
}

func main() {
	wire.Serve(func(q *query) *answer {
		event.SetGlobalEventPool(event.NewEventPool())
		a := &answer{Replies: make([][]reply, len(q.Clients))}
		wait := time.Duration(q.WaitMS) * time.Millisecond
		var wg sync.WaitGroup
		var done int64
		reached := make(chan struct{})
		total := 0
		for i, cmds := range q.Clients {
			total += len(cmds)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, c := range cmds {
					a.Replies[i] = append(a.Replies[i], one(c, q.Direct[i], wait))
					if atomic.AddInt64(&done, 1) == int64(q.StopAt) {
						close(reached)
					}
				}
			}()
		}
		if q.StopAt > 0 && q.StopAt <= total {
			<-reached
		}
		for i := 0; i < q.Spin; i++ {
			runtime.Gosched()
		}
		stopped := make(chan string, q.Stops)
		a.StopFrom = tick()
		for i := 0; i < q.Stops; i++ {
			go func() {
				msg := ""
				defer func() {
					if p := recover(); p != nil {
						msg = fmt.Sprint(p)
					}
					stopped <- msg
				}()
				event.Stop()
			}()
		}
		for i := 0; i < q.Stops; i++ {
			select {
			case m := <-stopped:
				if m != "" {
					a.Panic = m
				}
			case <-time.After(wait):
				a.StopLost = true
			}
		}
		handed.Lock()
		for _, e := range handed.events {
			select {
			case <-e.Done():
			default:
				a.Undone++
			}
		}
		handed.Unlock()
		a.StopTo = tick()
		for _, c := range q.Late {
			a.Late = append(a.Late, one(c, false, wait))
		}
		wg.Wait()
		event.SetGlobalEventPool(event.NewEventPool())
		for _, c := range q.Final {
			a.Final = append(a.Final, one(c, false, wait))
		}
		return a
	})
}
