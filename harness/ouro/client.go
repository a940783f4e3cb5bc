package main

import (
	"flag"
	"io"
	"log"
	"os"
	"sync"

	"github.com/aboukirev/ouro/net/rtsp"
	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifClient: the program goes through a whole session and reports what arrives.
func VerifClient() {
	var mu sync.Mutex
	text := ""
	rtsp.ClientScenario(func(uri string) {
		os.Args = []string{"ouro", uri}
		flag.CommandLine = flag.NewFlagSet("ouro", flag.ContinueOnError)
		if nd.Symbolic() {
			model.Logged = func(s string) { text += s + "\n" }
			main()
			model.Logged = nil
			return
		}
		out, args := os.Stdout, os.Args
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		os.Stdout = w
		log.SetFlags(0)
		go func() {
			b := make([]byte, 4096)
			for {
				n, err := r.Read(b)
				if err != nil {
					return
				}
				mu.Lock()
				text += string(b[:n])
				mu.Unlock()
			}
		}()
		main()
		log.SetOutput(io.Discard)
		os.Stdout, os.Args = out, args
		w.Close()
	}, func() string {
		mu.Lock()
		defer mu.Unlock()
		return text
	})
}
