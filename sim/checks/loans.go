package checks

import "verif/sim/lab"

// loans lets a check also run worlds built for another property, where what those worlds refute breaks
// its property as well: a verifier that skips a FRI check accepts messages its specification refuses (C02)
// as much as it accepts cheating provers (C03).
var loans = []struct {
	to, from, world string
	quick, thorough int
}{
	// C02: messages that no channel would produce by accident, and provers that answer hints as they like
	{"C02", "C03", "fri-rigged-coins", 450, 15000},
	{"C02", "C03", "quotient-rigged-coins", 100, 4000},
	{"C02", "C03", "byzantine-session", 60, 4000},
	{"C02", "C04", "operation", 5000, 300000},
	{"C02", "C04", "script", 2000, 100000},
	{"C02", "C04", "forge", 24, 1500},
	{"C02", "C05", "sweep", 6, 200},
	{"C02", "C13", "shapes", 100, 8000},
	// C03: the cheating prover also answers the hints
	{"C03", "C04", "operation", 5000, 300000},
	{"C03", "C04", "composite", 200, 15000},
	{"C03", "C04", "script", 2000, 100000},
	{"C03", "C04", "forge", 30, 1500},
	{"C03", "C06", "messages", 60, 4000},
	// C04: hints are answered wrongly under every back end
	{"C04", "C05", "range-check", 1500, 60000},
	{"C04", "C08", "values", 5000, 200000},
	{"C04", "C08", "batch", 18, 600},
	// C05: under every back end
	{"C05", "C08", "values", 6000, 200000},
	{"C05", "C08", "batch", 18, 600},
	{"C05", "C02", "channel", 60, 3000},
	// C06: the transcript is computed with hints
	{"C06", "C04", "composite", 240, 15000},
	{"C06", "C04", "transcript", 8, 800},
	// C08: the checks the verifier is to make on a proof
	{"C08", "C05", "range-check", 1500, 60000},
	{"C08", "C05", "sweep", 6, 200},
	{"C08", "C04", "operation", 5000, 300000},
	{"C08", "C04", "script", 3000, 200000},
	// C10 and C11: one download, faults of the network and of the disk
	{"C10", "C11", "disk-faults", 60, 4000},
	{"C10", "C11", "crashes", 60, 4000},
	{"C11", "C10", "network-faults", 60, 4000},
	{"C11", "C10", "undisturbed", 20, 1000},
	// C13: a shape or encoding the parser lets pass reaches the circuit
	{"C13", "C02", "channel", 60, 4000},
}

func lend(all []*lab.Check) []*lab.Check {
	by := map[string]*lab.Check{}
	own := map[string][]lab.World{}
	for _, c := range all {
		by[c.Prop], own[c.Prop] = c, c.Worlds
	}
	for _, l := range loans {
		c := by[l.to]
		if c == nil {
			continue
		}
		for _, w := range own[l.from] {
			if w.Name == l.world {
				w.Name = l.from + "." + w.Name
				w.Quick, w.Thorough = l.quick, l.thorough
				c.Worlds = append(c.Worlds[:len(c.Worlds):len(c.Worlds)], w)
			}
		}
	}
	return all
}
