// Package steps holds the monitor of the amount of work.
package steps

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/coverage"
)

// steps adds up the execution counters the compiler put into every block of
// the packages under test.
func steps() (uint64, error) {
	var buf bytes.Buffer
	if err := coverage.WriteCounters(&buf); err != nil {
		return 0, err
	}
	b := buf.Bytes()
	const header = 32
	if len(b) < header+16+16 || !bytes.Equal(b[:4], []byte{0, 'c', 'w', 'm'}) {
		return 0, fmt.Errorf("unexpected header % x", b[:4])
	}
	flavor, big := b[24], b[25] != 0
	if big {
		return 0, fmt.Errorf("big endian counters")
	}
	b = b[header:]
	funcs := binary.LittleEndian.Uint64(b)
	skip := int(binary.LittleEndian.Uint32(b[8:])) + int(binary.LittleEndian.Uint32(b[12:]))
	b = b[16:]
	if r := skip % 4; r != 0 {
		skip += 4 - r
	}
	b = b[skip:]
	next := func() uint64 {
		if flavor == 1 {
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return uint64(v)
		}
		v, n := binary.Uvarint(b)
		if n <= 0 {
			panic("harness: broken counters")
		}
		b = b[n:]
		return v
	}
	var sum uint64
	for i := uint64(0); i < funcs; i++ {
		n := next()
		next()
		next()
		for j := uint64(0); j < n; j++ {
			sum += next()
		}
	}
	return sum, nil
}

func reset() error { return coverage.ClearCounters() }
