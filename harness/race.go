package harness

import "strings"

// raceResult turns a race detector report into a verdict
func raceResult(msg string) Result {
	i := strings.Index(msg, "WARNING: DATA RACE")
	return Result{Kind: "data-race", Detail: short(msg[i:], 6000)}
}
