package main

import (
	"fmt"
	"os"
)

// With VERIF_STREAM=FILE every delivery is also written there, in hexadecimal.
var streamFile = os.Getenv("VERIF_STREAM")

func keepStream(s *session, data []byte) {
	f, err := os.OpenFile(streamFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err == nil {
		fmt.Fprintf(f, "%p %x\n", s, data)
		f.Close()
	}
}

func dbg(id string, seed uint64, n int) {
	stacks = true
	p := properties[id]
	from := 0
	if n < 0 { // that run alone
		n = -n
		from = n - 1
	}
	for i := from; i < n; i++ {
		r := newRunInfo()
		r.tracing = true
		v := oneRun(p, newSrc(seedOf(seed, id, uint64(i))), r)
		if v != nil {
			fmt.Println("run", i, v.msg)
		}
		for _, l := range r.trace {
			fmt.Println("   ", l)
		}
		fmt.Println(r.counts)
	}
}
