// Package mmap stands in for github.com/edsrzf/mmap-go over the file system in memory.
package mmap

import (
	"errors"

	"github.com/sencha-dev/powkit/internal/verifsym/fake/os"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const ANON = 1

type MMap []byte

func Map(f *os.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *os.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset != 0 || flags != 0 {
		return nil, errors.New("not modelled")
	}
	return f.VerifMap(length, prot&(RDWR|COPY) != 0, prot&COPY != 0)
}

func (m MMap) Lock() error   { return os.VerifCall("mlock") }
func (m MMap) Unlock() error { return os.VerifCall("munlock") }
func (m MMap) Flush() error  { return os.VerifCall("msync") }

func (m *MMap) Unmap() error {
	err := os.VerifUnmap(*m)
	*m = nil
	return err
}
