//go:build race

package eng

// RaceEnabled tells that this binary was built with the race detector.
const RaceEnabled = true
