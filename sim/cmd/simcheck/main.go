// Command simcheck decides one property by seeded simulation.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"

	"verif/sim/checks"
	"verif/sim/lab"
)

func main() {
	logger.Set(zerolog.Nop())
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // what the code under test prints; reports go to lab.Out
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(lab.Out, "usage: simcheck PROPERTY | replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "emitted" { // child of a check
		fmt.Fprintln(lab.Out, checks.Emitted(os.Args[2:]))
		return
	}
	all := checks.All()
	if os.Args[1] == "replay" {
		os.Exit(lab.Replay(all, os.Args[2]))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 3600 * time.Second
	}
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil {
		budget = time.Duration(b) * time.Second
	}
	time.AfterFunc(budget+400*time.Second, func() {
		fmt.Fprintln(lab.Out, "watchdog: the check did not finish")
		os.Exit(3)
	})
	for _, c := range all {
		if c.Prop == os.Args[1] {
			os.Exit(lab.Run(c, tier, seed, 8, budget))
		}
	}
	fmt.Fprintln(lab.Out, "unknown property", os.Args[1])
	os.Exit(2)
}
