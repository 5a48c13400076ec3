//go:build !race

package sys

const raceEnabled = false
