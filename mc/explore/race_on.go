//go:build race

package explore

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
