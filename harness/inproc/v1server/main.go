//go:build v1
// +build v1

// v1server runs the legacy server, which no command of the repository starts.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"

	v1 "github.com/yusank/godis/server/v1"
)

func main() {
	addr := flag.String("addr", "", "address")
	flag.Parse()
	srv := v1.NewServer()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM)
	go func() {
		<-sig
		srv.Stop()
	}()
	if err := srv.Start(*addr); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
