// Command vrun runs the checks. See /verif/DESIGN.md.
package main

import (
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/signal"
	"strconv"
	"syscall"
	"time"

	"verif/pbt"
	_ "verif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check|worker|case|sandbox|helper ...")
		os.Exit(2)
	}
	// A signal that was ignored when this started would also be ignored by everything that it starts.
	// One that is caught has its default effect there.
	for _, sig := range []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM} {
		if signal.Ignored(sig) {
			signal.Notify(make(chan os.Signal, 1), sig)
		}
	}
	fs := flag.NewFlagSet("vrun", flag.ExitOnError)
	switch os.Args[1] {
	case "check":
		var a pbt.CheckArgs
		fs.StringVar(&a.Prop, "prop", "", "")
		fs.StringVar(&a.OnlySub, "sub", "", "")
		fs.StringVar(&a.Tier, "tier", "quick", "")
		fs.StringVar(&a.Verif, "verif", "/verif", "")
		seed := fs.String("seed", "1", "")
		fs.StringVar(&a.Replay, "replay", "", "")
		fs.Float64Var(&a.Scale, "scale", 0, "")
		fs.BoolVar(&a.Verbose, "v", false, "")
		fs.Parse(os.Args[2:])
		a.Seed = parseSeed(*seed)
		os.Exit(pbt.Check(a))

	case "worker":
		var a pbt.WorkerArgs
		fs.StringVar(&a.Prop, "prop", "", "")
		fs.StringVar(&a.Sub, "sub", "", "")
		fs.StringVar(&a.Tier, "tier", "", "")
		fs.Uint64Var(&a.Seed, "seed", 1, "")
		fs.IntVar(&a.Checks, "checks", 1, "")
		fs.IntVar(&a.Skip, "skip", 0, "")
		fs.BoolVar(&a.Isolated, "isolated", false, "")
		fs.DurationVar(&a.Deadline, "deadline", time.Hour, "")
		fs.DurationVar(&a.Shrink, "shrink", 10*time.Second, "")
		fs.StringVar(&a.Out, "out", "", "")
		fs.StringVar(&a.Cur, "cur", "", "")
		fs.StringVar(&a.Scratch, "scratch", "", "")
		fs.Parse(os.Args[2:])
		pbt.Worker(a)

	case "case":
		var prop, sub, tier, in, out, scratch string
		fs.StringVar(&prop, "prop", "", "")
		fs.StringVar(&sub, "sub", "", "")
		fs.StringVar(&tier, "tier", "", "")
		fs.StringVar(&in, "in", "", "")
		fs.StringVar(&out, "out", "", "")
		fs.StringVar(&scratch, "scratch", "", "")
		fs.Parse(os.Args[2:])
		pbt.CaseMain(prop, sub, tier, in, out, scratch)

	case "sandbox":
		var dirs []string
		for i, arg := range os.Args[2:] {
			if arg == "--" {
				err := pbt.Sandbox(dirs, os.Args[i+3:])
				fmt.Fprintln(os.Stderr, "vrun sandbox:", err)
				os.Exit(2)
			}
			dirs = append(dirs, arg)
		}
		os.Exit(2)

	case "helper":
		h := pbt.Helpers[os.Args[2]]
		if h == nil {
			fmt.Fprintln(os.Stderr, "unknown helper", os.Args[2])
			os.Exit(97)
		}
		h(os.Args[3:])

	case "list":
		for _, id := range pbt.IDs() {
			fmt.Println(id)
		}

	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// parseSeed makes a seed of anything.
func parseSeed(s string) uint64 {
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64() >> 12
}
