package core

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"strconv"
	"time"
)

// WorkerMain serves cases from stdin until EOF. Results go to descriptor 3.
func WorkerMain(engines []Engine) {
	if s := os.Getenv("VH_QUIESCE_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			QuiesceTimeout = time.Duration(n) * time.Second
		}
	}
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				Fatalf("bad case: %v", e)
			}
			var eng *Engine
			for i := range engines {
				if engines[i].Name == c.Engine {
					eng = &engines[i]
				}
			}
			if eng == nil {
				Fatalf("unknown engine %q", c.Engine)
			}
			r := eng.Run(c)
			r.Index = c.Index
			if e := enc.Encode(r); e != nil {
				Fatalf("writing result: %v", e)
			}
			if r.Dirty || r.Verdict == Hang {
				os.Exit(0)
			}
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			Fatalf("reading cases: %v", err)
		}
	}
}
