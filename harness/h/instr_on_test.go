//go:build verifinstr

package h

import (
	"math/rand/v2"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

const nSites = snapws.VerifSites__

func siteHits() []int {
	var o []int
	for i := 0; i < nSites; i++ {
		if snapws.VerifHit__(i) != 0 {
			o = append(o, i)
		}
	}
	return o
}

func setNoise(mode, prob uint32, t [4]int32, ns int64, seed uint64) {
	snapws.VerifNoise__(mode, prob, t, ns, seed)
}

// Noise picks a noise setting: none, random yields, delays at a few sites, or both.
func (s *S) Noise() string {
	r := s.Rng("noise")
	var t [4]int32
	for i := range t {
		t[i] = int32(r.IntN(nSites))
	}
	return s.noiseWith(r, t)
}

func (s *S) noiseWith(r *rand.Rand, t [4]int32) string {
	s.vsleep, s.vslack = 0, 0
	switch r.IntN(6) {
	case 4, 5:
		v, ok := virtualNoise[s.Prop]
		if !ok {
			setNoise(1, uint32(20+r.IntN(300)), t, 0, r.Uint64())
			return "yield"
		}
		max := []time.Duration{5 * time.Microsecond, 50 * time.Microsecond, 300 * time.Microsecond, v / 4}[r.IntN(4)]
		max = min(max, v/2)
		s.vsleep, s.vslack = max, 2*v
		skip := 0
		if r.IntN(2) == 0 {
			skip = 1 << r.IntN(15)
			skip += r.IntN(skip)
		}
		snapws.VerifVirtual__(uint32([]int{8, 40, 200, 1000}[r.IntN(4)]), int64(max), int64(v), skip, r.Uint64())
		return "virtual"
	case 0:
		setNoise(0, 0, t, 0, 0)
		return "none"
	case 1:
		setNoise(1, uint32(20+r.IntN(300)), t, 0, r.Uint64())
		return "yield"
	case 2:
		setNoise(2, 0, t, int64(20_000+r.IntN(200_000)), r.Uint64())
		return "delay"
	default:
		setNoise(3, uint32(20+r.IntN(200)), t, int64(20_000+r.IntN(100_000)), r.Uint64())
		return "yield+delay"
	}
}

// Burst is called before the operation a scenario is about: with virtual noise, the library's
// goroutines pause more often from now on, within a new budget.
func (s *S) Burst() {
	if s.vsleep == 0 {
		return
	}
	r := s.Rng("burst")
	max := []time.Duration{2 * time.Microsecond, 20 * time.Microsecond, 200 * time.Microsecond, s.vslack / 8}[r.IntN(4)]
	s.vsleep = min(max, s.vslack/4)
	snapws.VerifVirtual__(uint32([]int{40, 200, 1000}[r.IntN(3)]), int64(s.vsleep), int64(s.vslack/2), 0, r.Uint64())
}

// Settle waits until nothing can happen before the next timer.
func (s *S) Settle() {
	if s.vsleep == 0 {
		synctest.Wait()
		return
	}
	snapws.VerifPause__(true)
	time.Sleep(s.vsleep)
	synctest.Wait()
	snapws.VerifPause__(false)
}
