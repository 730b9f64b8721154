//go:build !race

package explore

func raceErrors() int { return 0 }
