package main

import (
	"bytes"
	"encoding/binary"
	"time"
)

// localZone is the local zone of the process: five and a half hours ahead of
// UTC until 2012, eight hours behind since, and one hour more in summer.
var localZone = func() *time.Location {
	var at []int64
	var to []byte
	change := func(y int, m time.Month, d int, zone byte) {
		at = append(at, time.Date(y, m, d, 12, 0, 0, 0, time.UTC).Unix())
		to = append(to, zone)
	}
	for y := 1800; y < 2300; y++ {
		var era byte
		if y >= 2012 {
			era = 2
		}
		if y == 2012 {
			change(y, time.January, 1, 2)
		}
		change(y, time.April, 10, era+1)
		change(y, time.October, 20, era)
	}
	var b bytes.Buffer
	header := func(times, zones, chars int) {
		b.WriteString("TZif2")
		b.Write(make([]byte, 15))
		for _, n := range []int{0, 0, 0, times, zones, chars} {
			binary.Write(&b, binary.BigEndian, int32(n))
		}
	}
	header(0, 0, 0)
	header(len(at), 4, 8)
	binary.Write(&b, binary.BigEndian, at)
	b.Write(to)
	for i, off := range []int32{330, 390, -480, -420} {
		binary.Write(&b, binary.BigEndian, off*60)
		b.Write([]byte{byte(i % 2), byte(i%2) * 4})
	}
	b.WriteString("LST\x00LDT\x00")
	l, err := time.LoadLocationFromTZData("Local", b.Bytes())
	check(err)
	return l
}()
