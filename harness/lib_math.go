package dxsvalue

import "math"

func vxF64frombits(v uint64) float64 { return math.Float64frombits(v) }
func vxF32frombits(v uint32) float32 { return math.Float32frombits(v) }
func vxF64bits(v float64) uint64     { return math.Float64bits(v) }
func vxF32bits(v float32) uint32     { return math.Float32bits(v) }
