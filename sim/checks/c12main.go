//go:build simbench

package checks

import "verif/sim/bench"

func init() {
	benchMain = bench.Main
	more = append(more, C12)
}
