package checks

import "verif/sim/lab"

var more []func() *lab.Check // checks that need the simulated operating system

func All() []*lab.Check {
	all := []*lab.Check{C01(), C02(), C03(), C04(), C05(), C06(), C07(), C08(), C13(), C14()}
	for _, f := range more {
		all = append(all, f())
	}
	return lend(all)
}
