// vh runs one check.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
	"verif.local/h/lib"
)

var checks = map[string]func(r *lib.Run){}

type binFlag map[string]string

func (b binFlag) String() string { return "" }
func (b binFlag) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("name=path")
	}
	b[k] = v
	return nil
}

func main() {
	bins := binFlag{}
	id := flag.String("check", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	dir := flag.String("dir", "", "scratch")
	verif := flag.String("verif", "/verif", "verif")
	limit := flag.Duration("limit", 14*time.Minute, "watchdog")
	flag.Var(bins, "bin", "name=path")
	flag.Parse()
	f := checks[*id]
	if f == nil {
		fmt.Println("unknown check", *id)
		os.Exit(2)
	}
	r := lib.NewRun(*id, *tier, *seed, *dir, *verif, bins)
	time.AfterFunc(*limit, func() {
		pprof.Lookup("goroutine").WriteTo(os.Stderr, 1) // where it is stuck
		r.Inconclusive("watchdog: run took longer than %v", *limit)
	})
	f(r)
	r.Finish()
}

type anyT = anypb.Any
