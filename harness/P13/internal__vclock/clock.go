// Package vclock is a clock that only the rules of a harness advance.
package vclock

import (
	"time"

	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// The steps each goroutine has made. A time is the number of steps so far, the
// distance of two the sum of those between.
var steps map[int][]time.Duration

// Reset stops the clock at its start.
func Reset() { steps = map[int][]time.Duration{} }

//vrt:replace time.Now
func now() time.Time { return time.Unix(1000, int64(len(steps[vrt.Gid()]))) }

//vrt:replace (time.Time).Sub
func sub(a, b time.Time) (d time.Duration) {
	for _, n := range steps[vrt.Gid()][b.Nanosecond():a.Nanosecond()] {
		d += n
	}
	return
}

//vrt:replace time.Since
func since(t time.Time) time.Duration { return sub(now(), t) }

// Work passes n ticks.
func Work(n int) {
	if vrt.Symbolic() {
		steps[vrt.Gid()] = append(steps[vrt.Gid()], time.Duration(n))
	}
}
