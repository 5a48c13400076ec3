//go:build race

package sys

const raceEnabled = true
