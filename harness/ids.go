package harness

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/teonet-go/tru"
)

// how the counters of a channel may be called
var (
	nextNames     = []string{"id", "nextid", "sendid", "outid", "lastid", "packetid", "idnext", "idsend"}
	expectedNames = []string{"expectedid", "expected", "expectid", "recvid", "receiveid", "nextexpected", "waitid"}
)

// counter finds an integer field with one of the names, in nested structs too
func counter(v reflect.Value, names []string, depth int) (best reflect.Value, rank int) {
	rank = len(names)
	t := v.Type()
	for i := range t.NumField() {
		f := v.Field(i)
		if k := f.Kind(); k == reflect.Struct && depth > 0 {
			own := names
			for r, n := range names { // an atomic integer
				if strings.EqualFold(t.Field(i).Name, n) && strings.HasPrefix(f.Type().String(), "atomic.") {
					if x := f.FieldByName("v"); x.IsValid() && r < rank {
						best, rank = x, r
					}
				}
			}
			if p := f.Type().PkgPath(); strings.HasPrefix(p, "github.com/teonet-go/tru") && !strings.HasSuffix(f.Type().Name(), "Queue") {
				if x, r := counter(f, own, depth-1); r < rank {
					best, rank = x, r
				}
			}
			continue
		}
		for r, n := range names {
			if r < rank && strings.EqualFold(t.Field(i).Name, n) && (f.CanUint() || f.CanInt()) {
				best, rank = f, r
			}
		}
	}
	return
}

func setCounter(ch *tru.Channel, names []string, v uint32) bool {
	f, _ := counter(reflect.ValueOf(ch).Elem(), names, 2)
	if !f.IsValid() || !f.CanAddr() {
		return false
	}
	p := unsafe.Pointer(f.UnsafeAddr())
	switch f.Type().Size() {
	case 4:
		*(*uint32)(p) = v
	case 8:
		*(*uint64)(p) = uint64(v)
	default:
		return false
	}
	return true
}

// setIDs sets the numbers of the next packet to send and to receive of a
// channel (-1: not). It tells whether that was possible: where it is not the
// cases which start near the end of the numbers are not played, and C05 relies
// on the case which uses all numbers.
func setIDs(ch *tru.Channel, next uint32, expected int) bool {
	if expected >= 0 && !setCounter(ch, expectedNames, uint32(expected)) {
		return false
	}
	return setCounter(ch, nextNames, next)
}
