package rand

import (
	rr "math/rand"

	"github.com/teamlint/baron/zz_sim/k"
)

type (
	Rand   = rr.Rand
	Source = rr.Source
)

func New(s Source) *Rand          { return rr.New(s) }
func NewSource(seed int64) Source { return rr.NewSource(seed) }
func Seed(int64)                  {}

func r() *k.Rand { return k.Self().Rand() }

func Int() int             { return int(r().U64() >> 1) }
func Int63() int64         { return int64(r().U64() >> 1) }
func Int31() int32         { return int32(r().U64() >> 33) }
func Uint32() uint32       { return uint32(r().U64() >> 32) }
func Uint64() uint64       { return r().U64() }
func Intn(n int) int       { return r().Intn(n) }
func Int31n(n int32) int32 { return int32(r().Intn(int(n))) }
func Int63n(n int64) int64 { return int64(r().U64() % uint64(n)) }
func Float64() float64     { return float64(r().U64()>>11) / (1 << 53) }
func Perm(n int) []int     { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r().Intn(i+1))
	}
}
