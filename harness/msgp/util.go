package msgp

import "math"

func float32FromBits(u uint64) float32 { return math.Float32frombits(uint32(u)) }
func float64FromBits(u uint64) float64 { return math.Float64frombits(u) }
