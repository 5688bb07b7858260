# Prints the runtime's map.go with the start of map iterations controlled by verifMaps.
{ print }
/^func mapiterinit\(/ { inside = 1 }
inside && /r := uintptr\(rand\(\)\)/ { print "\tif verifMaps.On != 0 {\n\t\tr = verifMaps.next(h.count, h.B)\n\t}"; done = 1 }
/^}/ { inside = 0 }
END {
  if (!done) exit 1
  print "\ntype verifMapsT struct {\n\tOn      uint32\n\tN       int64\n\tDefault uintptr\n\tAt      [4]int64\n\tR       [4]uintptr\n\tSize    [1 << 20]uint8\n}\n\nvar verifMaps verifMapsT\n"
  print "func (v *verifMapsT) next(count int, B uint8) uintptr {\n\tif count < 2 {\n\t\treturn 0\n\t}\n\ti := v.N\n\tv.N++"
  print "\tif i < int64(len(v.Size)) {\n\t\tv.Size[i] = uint8(min(count, 255))\n\t}\n\tr := v.Default\n\tfor k, a := range v.At {\n\t\tif a == i {\n\t\t\tr = v.R[k]\n\t\t}\n\t}"
  print "\treturn (r&7)<<B | r>>3&(1<<B-1)\n}"
}
