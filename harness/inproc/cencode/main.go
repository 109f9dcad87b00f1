// cencode builds responses with the exported constructors and encodes them.
package main

import (
	"errors"

	"github.com/yusank/godis/protocol"

	"verif/inproc/wire"
)

type item struct {
	Nil bool
	S   []byte
}

type response struct {
	Kind  string // simple error integer bulk nil empty array
	S     []byte
	N     int64
	Items []item
	Late  bool // mark as array after adding the items
	Strs  bool // add the items as strings, not as interfaces
}

type query struct{ Rsp []response }

type answer struct{ Out [][]byte }

func build(r response) *protocol.Response {
	switch r.Kind {
	case "simple":
		return protocol.NewResponseWithSimpleString(string(r.S))
	case "error":
		return protocol.NewResponseWithError(errors.New(string(r.S)))
	case "integer":
		return protocol.NewResponseWithInteger(r.N)
	case "bulk":
		return protocol.NewResponseWithBulkString(string(r.S))
	case "nil":
		return protocol.NewResponseWithNilBulk()
	case "empty":
		return protocol.NewResponseWithEmptyArray()
	}
	rsp := protocol.NewResponse(!r.Late)
	if r.Strs {
		var ss []string
		for _, it := range r.Items {
			ss = append(ss, string(it.S))
		}
		rsp = rsp.AppendBulkStrings(ss...)
	} else {
		var is []interface{}
		for _, it := range r.Items {
			if it.Nil {
				is = append(is, nil)
			} else {
				is = append(is, string(it.S))
			}
		}
		rsp = rsp.AppendBulkInterfaces(is...)
	}
	if r.Late {
		rsp.SetIsArray()
	}
	return rsp
}

func main() {
	wire.Serve(func(q *query) *answer {
		a := &answer{}
		var rs []*protocol.Response
		for _, r := range q.Rsp {
			rs = append(rs, build(r))
		}
		for _, r := range rs { // all exist before the first is encoded
			a.Out = append(a.Out, r.Encode())
		}
		return a
	})
}
