//go:build !maprt

package maprt

const Available = false

type Deviation struct {
	At int64
	R  uintptr
}

func Run(uintptr, []Deviation, func()) []uint8 {
	panic("the order of map iterations is not controlled")
}
