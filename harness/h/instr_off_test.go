//go:build !verifinstr

package h

import "testing/synctest"

const nSites = 0

func siteHits() []int                                               { return nil }
func setNoise(mode, prob uint32, t [4]int32, ns int64, seed uint64) {}
func (s *S) Noise() string                                          { return "off" }

func (s *S) Settle() { synctest.Wait() }

func (s *S) Burst() {}
