package zzsim

import (
	"strconv"
	"strings"
	"unsafe"
)

// Addresses that the code turns into text or numbers. Where an object lies is a
// choice of the runtime: the simulator gives it an address of its own, rising or
// falling in the order in which they are asked for, or seeded.
var (
	addrs    = map[unsafe.Pointer]uintptr{}
	addrUsed = map[uintptr]bool{}
	Addrs    int
)

func resetAddrs() {
	if len(addrs) > 0 {
		addrs = map[unsafe.Pointer]uintptr{}
		addrUsed = map[uintptr]bool{}
	}
}

const heapLow, heapHigh = 0xc000000000, 0xc0ffffffff

func fakeAddr(p unsafe.Pointer) uintptr {
	a, ok := addrs[p]
	if ok {
		return a
	}
	n := uintptr(len(addrs))
	switch mapMode {
	case 1:
		a = heapLow + 4096 + n*64
	case 2:
		for a = 0; a == 0 || addrUsed[a]; {
			a = heapLow + uintptr(mapRng.N(1<<24))*64
		}
	default:
		// comparisons tend to ask for the later of two objects first
		a = heapHigh - 255 - n*64
	}
	addrs[p] = a
	addrUsed[a] = true
	Addrs++
	return a
}

// the heap starts somewhere else in every process, at times so low that a
// number in a text could be an address: only what lies near is one
var heapBase = uintptr(unsafe.Pointer(new([64]*int)))

func onHeap(a uintptr) bool {
	const near = 8 << 30
	return a+near > heapBase && a < heapBase+near && a > 1<<36
}

// AddrNum replaces the address of an object on the heap.
func AddrNum[T ~uintptr](a T) T {
	if !onHeap(uintptr(a)) {
		return a
	}
	u := uintptr(a)
	return T(fakeAddr(*(*unsafe.Pointer)(unsafe.Pointer(&u))))
}

// AddrText replaces the addresses of objects on the heap in a formatted text.
func AddrText(s string) string {
	i := strings.Index(s, "0x")
	if i < 0 {
		return s
	}
	var b strings.Builder
	for ; i >= 0; i = strings.Index(s, "0x") {
		j := i + 2
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f') {
			j++
		}
		b.WriteString(s[:i])
		u, err := strconv.ParseUint(s[i+2:j], 16, 64)
		if err == nil && j-i > 9 && u%8 == 0 && onHeap(uintptr(u)) {
			b.WriteString("0x" + strconv.FormatUint(uint64(AddrNum(uintptr(u))), 16))
		} else {
			b.WriteString(s[i:j])
		}
		s = s[j:]
	}
	b.WriteString(s)
	return b.String()
}
