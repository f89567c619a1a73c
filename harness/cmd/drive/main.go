// drive executes the calls one property's check needs and writes their trace.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	_ "aa/api"
	. "aa/core"
)

var gens = map[string]func(r *Rec){}

func main() {
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	replay := flag.String("exec", "", "execute the calls of this file instead")
	part := flag.Int("part", 0, "part of the run")
	parts := flag.Int("parts", 1, "number of parts the run is divided into")
	callers := flag.Int("callers", 0, "number of concurrent callers that execute the file")
	flag.Parse()
	r := New(*out, *seed*1000+int64(*part))
	r.Part, r.Parts = *part, *parts
	r.Tier, r.Prop, r.Seed = *tier, *prop, *seed
	r.Watch(90 * time.Second)
	if *callers > 0 {
		program(r, *replay, *callers)
	} else if *replay != "" {
		readCalls(*replay, func(op string, in M) { r.Call(op, in, nil) })
	} else {
		g, ok := gens[*prop]
		if !ok {
			fmt.Fprintln(os.Stderr, "no generator for", *prop)
			os.Exit(3)
		}
		g(r)
	}
	r.Close()
	fmt.Printf("calls %d\n", r.N)
}

func decode(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := make([][]byte, len(x))
		for i := range x {
			l[i], _ = decode(x[i]).([]byte)
		}
		return l
	case string:
		if x == "nil" {
			return []byte(nil)
		}
		b, err := hex.DecodeString(x)
		if err != nil {
			return x
		}
		return b
	}
	return v
}

// readCalls reads the calls of a file of scenarios, one JSON object per line.  The
// fields op, alg and name are names; other strings are hexadecimal.
func readCalls(path string, f func(op string, in M)) {
	fd, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	drop := map[string]bool{"op": true, "out": true, "st": true, "mod": true, "alias": true, "panic": true, "inf": true, "v": true}
	for sc.Scan() {
		var m M
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		in := M{}
		for k, v := range m {
			if drop[k] {
				continue
			}
			if k == "alg" || k == "name" || k == "tag" {
				in[k] = v
			} else {
				in[k] = decode(v)
			}
		}
		f(m["op"].(string), in)
	}
}
