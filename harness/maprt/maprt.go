//go:build maprt

// Package maprt controls the order in which the Go runtime iterates over maps. It needs
// a runtime built with tools/maprt.awk.
package maprt

import _ "unsafe"

type mapsT struct {
	On      uint32
	N       int64
	Default uintptr
	At      [4]int64
	R       [4]uintptr
	Size    [1 << 20]uint8
}

//go:linkname maps runtime.verifMaps
var maps mapsT

const Available = true

// Deviation is an iteration that starts elsewhere.
type Deviation struct {
	At int64
	R  uintptr
}

// Run calls f: all iterations over maps with several entries start at def, but for the
// given ones. It returns the number of entries of the maps iterated over.
func Run(def uintptr, devs []Deviation, f func()) []uint8 {
	maps.N, maps.Default = 0, def
	for i := range maps.At {
		maps.At[i] = -1
		if i < len(devs) {
			maps.At[i], maps.R[i] = devs[i].At, devs[i].R
		}
	}
	maps.On = 1
	defer func() { maps.On = 0 }()
	f()
	maps.On = 0
	return append([]uint8(nil), maps.Size[:min(maps.N, int64(len(maps.Size)))]...)
}
