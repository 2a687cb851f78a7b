package eng

import (
	"regexp"
	"strings"
)

const signalrPath = "github.com/philippseith/signalr"

var reAccess = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at 0x[0-9a-f]+ by .*$`)

// dataRace looks for a report of the race detector. own tells that one of the two accesses was made by the code under test: the
// innermost function which belongs neither to the standard library nor to another module is one of its functions.
func dataRace(text string) (report string, own bool) {
	i := strings.Index(text, "WARNING: DATA RACE")
	if i < 0 {
		return "", false
	}
	report = text[i:]
	if j := strings.Index(report, "\n=================="); j >= 0 {
		report = report[:j]
	}
	for _, at := range reAccess.FindAllStringIndex(report, -1) {
		own = own || ownStack(report[at[1]:], "  ")
	}
	return report, own
}

// ownStack tells that the innermost function of the stack which belongs neither to the standard library nor to another module
// belongs to the code under test.
func ownStack(stack, indent string) bool {
	if j := strings.Index(stack, "\n\n"); j >= 0 {
		stack = stack[:j]
	}
	for _, l := range strings.Split(stack, "\n") {
		f, ok := strings.CutPrefix(l, indent)
		if !ok || strings.HasPrefix(f, " ") || strings.HasPrefix(f, "\t") {
			continue
		}
		if strings.HasPrefix(f, signalrPath) {
			return true
		}
		if strings.HasPrefix(f, "verif/harness") {
			return false
		}
	}
	return false
}

var reFatal = regexp.MustCompile(`(?m)^(fatal error: concurrent map .*|fatal error: sync: .*|panic: sync: .*)$`)

// fatalRace looks for an end of the process by unsynchronised use of a map, lock or WaitGroup in the code under test.
func fatalRace(text string) bool {
	at := reFatal.FindStringIndex(text)
	if at == nil {
		return false
	}
	// The stack of the goroutine follows after an empty line
	stack := text[at[1]:]
	if i := strings.Index(stack, "\ngoroutine "); i >= 0 {
		return ownStack(stack[i:], "")
	}
	return false
}
