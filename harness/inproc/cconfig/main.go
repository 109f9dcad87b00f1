// cconfig loads configurations one after another.
package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/yusank/godis/config"

	"verif/inproc/wire"
)

type load struct {
	Text  []byte
	Break bool // the reader fails after the text
}

type query struct{ Loads []load }

type answer struct {
	Before   int64
	Errs     []bool
	Timeouts []int64
}

type broken struct{ r io.Reader }

func (b *broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("disk on fire")
	}
	return n, err
}

func main() {
	wire.Serve(func(q *query) *answer {
		a := &answer{Before: int64(config.GetDefaultTimeout())}
		for _, l := range q.Loads {
			var r io.Reader = bytes.NewReader(l.Text)
			if l.Break {
				r = &broken{r}
			}
			err := config.InitConfig(r)
			a.Errs = append(a.Errs, err != nil)
			a.Timeouts = append(a.Timeouts, int64(config.GetDefaultTimeout()))
		}
		return a
	})
}
