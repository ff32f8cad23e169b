// Package mem places caller-owned bytes in simulated memory: pages that cannot
// be written while a call runs, and that can be recycled or taken away after it.
package mem

import (
	"fmt"
	"syscall"
	"unsafe"
)

const page = 4096

// Block is one caller-owned buffer.
type Block struct {
	B    []byte // what the call is given
	all  []byte // the whole mapping (nil: ordinary heap)
	n    int    // accessible bytes of the mapping
	heap []byte // heap block with its surroundings
	want []byte
}

func prot(b []byte, p int) {
	if len(b) == 0 {
		return
	}
	if err := syscall.Mprotect(b, p); err != nil {
		panic(fmt.Sprint("mem: mprotect: ", err))
	}
}

// ReadOnly places data in pages that fault on any write.  With atEnd the data
// ends where the accessible memory ends; otherwise there is spare capacity
// behind it (read-only as well).
func ReadOnly(data []byte, atEnd bool) *Block {
	n := (len(data) + page - 1) / page * page
	if n == 0 || !atEnd {
		n += page
	}
	m, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(fmt.Sprint("mem: mmap: ", err))
	}
	b := &Block{all: m, n: n}
	for i := 0; i < n; i++ {
		m[i] = 0xE5
	}
	off := n - len(data)
	if !atEnd {
		off = 64
	}
	copy(m[off:], data)
	if atEnd {
		b.B = m[off : off+len(data) : off+len(data)]
	} else {
		b.B = m[off : off+len(data) : n]
	}
	prot(m[n:], syscall.PROT_NONE)
	prot(m[:n], syscall.PROT_READ)
	return b
}

// Heap places data in ordinary memory with known bytes around it; spare bytes
// of capacity follow it.
func Heap(data []byte, spare int) *Block {
	const red = 48
	h := make([]byte, red+len(data)+spare+red)
	for i := range h {
		h[i] = 0xE5
	}
	copy(h[red:], data)
	b := &Block{heap: h, want: append([]byte{}, h...)}
	b.B = h[red : red+len(data) : red+len(data)+spare]
	return b
}

// Reuse puts data into the memory of an earlier heap block, if it fits.
func (b *Block) Reuse(data []byte) *Block {
	if b == nil || b.heap == nil || len(b.heap) < 96+len(data) {
		return nil
	}
	h := b.heap
	for i := range h {
		h[i] = 0xE5
	}
	copy(h[48:], data)
	n := &Block{heap: h, want: append([]byte{}, h...)}
	n.B = h[48 : 48+len(data) : len(h)-48]
	b.heap, b.want = nil, nil
	return n
}

// Changed is the offset, relative to the data, of a byte of the block that is
// not what was put there; ok is false if there is none.
func (b *Block) Changed() (off int, ok bool) {
	for i := range b.want {
		if b.heap[i] != b.want[i] {
			return i - 48, true
		}
	}
	return 0, false
}

// Contains reports whether the address lies in the mapping.
func (b *Block) Contains(addr uintptr) bool {
	if b.all == nil {
		return false
	}
	p := uintptr(unsafe.Pointer(&b.all[0]))
	return addr >= p && addr < p+uintptr(len(b.all))
}

// Scribble overwrites the data after the call.
func (b *Block) Scribble(with byte) {
	if b.all != nil {
		prot(b.all[:b.n], syscall.PROT_READ|syscall.PROT_WRITE)
	}
	for i := range b.B {
		b.B[i] = with + byte(i*7)
	}
	if b.want != nil {
		copy(b.want, b.heap)
	}
}

// Revoke takes the memory away: any later access faults.  Only mappings can be
// revoked; others are overwritten.
func (b *Block) Revoke() {
	if b.all == nil {
		b.Scribble(0x33)
		return
	}
	prot(b.all[:b.n], syscall.PROT_NONE)
}

// Free ends the life of the block.
func (b *Block) Free() {
	if b.all != nil {
		syscall.Munmap(b.all)
		b.all, b.B = nil, nil
	}
}
