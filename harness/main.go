// Command verifharness drives the real bibtex packages through their public
// API and records what it observes as one JSON line per request.  It makes no
// judgement: the TLA+ specification in ../spec decides.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type req struct {
	ID   int             `json:"id"`
	Op   string          `json:"op"`
	B    string          `json:"b"`    // base64 source
	Mode uint            `json:"mode"` // parser mode
	X    json.RawMessage `json:"x"`    // further arguments
}

func (r req) src() []byte {
	b, err := base64.StdEncoding.DecodeString(r.B)
	if err != nil {
		panic(err)
	}
	return b
}

type obs map[string]interface{}

var ops = map[string]func(r req) obs{}

var (
	outMu   sync.Mutex
	out     *bufio.Writer
	current int
	started time.Time
)

func emit(o obs) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watchdog ends the process when a request runs too long or takes too much
// memory, after recording that.
func watchdog(limit time.Duration, mem int64) {
	for {
		time.Sleep(20 * time.Millisecond)
		outMu.Lock()
		cur, st := current, started
		outMu.Unlock()
		if cur == 0 {
			continue
		}
		why := ""
		if time.Since(st) > limit {
			why = "hang"
		} else if rssBytes() > mem {
			why = "memory"
		}
		if why != "" {
			outMu.Lock()
			if current == cur {
				emit(obs{"id": cur, "crash": why})
				out.Flush()
				os.Exit(3)
			}
			outMu.Unlock()
		}
	}
}

// A mistake is a request that makes no sense.
type mistake string

func run(r req) (o obs) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(mistake); ok {
				o = obs{"mistake": string(m)}
				return
			}
			buf := make([]byte, 2048)
			n := runtime.Stack(buf, false)
			o = obs{"crash": "panic", "msg": fmt.Sprint(e), "stack": string(buf[:n])}
		}
	}()
	var x struct {
		Err string `json:"err"`
	}
	args(r, &x)
	var known bool
	if injected, known = failures[x.Err]; !known {
		panic(mistake("unknown error " + x.Err))
	}
	f := ops[r.Op]
	if f == nil {
		panic(mistake("unknown op " + r.Op))
	}
	return f(r)
}

func main() {
	limit := 10 * time.Second
	if s := os.Getenv("VH_LIMIT"); s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			panic(err)
		}
		limit = d
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out = bufio.NewWriterSize(os.Stdout, 1<<20)
	// The trace flag makes the parser print to standard output.
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	go watchdog(limit, 2<<30)
	dec := json.NewDecoder(in)
	for dec.More() {
		var r req
		if err := dec.Decode(&r); err != nil {
			panic(err)
		}
		outMu.Lock()
		current, started = r.ID, time.Now()
		outMu.Unlock()
		o := run(r)
		outMu.Lock()
		current = 0
		o["id"] = r.ID
		emit(o)
		outMu.Unlock()
	}
	out.Flush()
}
