package main

import (
	"time"
)

// shrink looks for a shorter / smaller choice list with the same violation
// class. try must return true when the candidate fails the same way.
func shrink(rec []uint64, try func([]uint64) ([]uint64, bool), maxTries int, deadline time.Time) ([]uint64, int) {
	best := append([]uint64(nil), rec...)
	tries := 0
	over := func() bool { return tries >= maxTries || time.Now().After(deadline) }
	attempt := func(c []uint64) bool {
		if over() {
			return false
		}
		tries++
		used, ok := try(c)
		if ok {
			if len(used) < len(c) {
				c = used
			}
			best = append([]uint64(nil), c...)
		}
		return ok
	}
	improved := true
	for improved && !over() {
		improved = false

		// delete blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0 && !over(); i -= size {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if attempt(c) {
					improved = true
				}
			}
		}

		// zero blocks
		for size := 32; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best) && !over(); i += size {
				all := true
				for _, v := range best[i : i+size] {
					if v != 0 {
						all = false
					}
				}
				if all {
					continue
				}
				c := append([]uint64(nil), best...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if attempt(c) {
					improved = true
				}
			}
		}

		// lower values
		for i := 0; i < len(best) && !over(); i++ {
			lo, hi := uint64(0), best[i]
			for k := 0; lo < hi && k < 20 && i < len(best); k++ {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if attempt(c) {
					improved = true
					hi = mid
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best, tries
}
