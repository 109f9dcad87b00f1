// Package wire is the JSON line protocol between the check and the programs that link the code under test.
package wire

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
)

// Serve answers requests until stdin ends.
func Serve[Q, A any](f func(q *Q) *A) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(3, "answers")
	dec := json.NewDecoder(in)
	for {
		q := new(Q)
		if err := dec.Decode(q); err != nil {
			return
		}
		b, err := json.Marshal(f(q))
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(97)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}
