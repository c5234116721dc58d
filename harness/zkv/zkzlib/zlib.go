// Package zlib stands in for compress/zlib.  What it makes is either a
// literal copy or, if Short is set, a handle; a reader of anything else than
// what a writer can make fails.
package zlib

import (
	"bytes"
	"errors"
	"io"
)

var (
	ErrChecksum   = errors.New("zlib: invalid checksum")
	ErrDictionary = errors.New("zlib: invalid dictionary")
	ErrHeader     = errors.New("zlib: invalid header")

	errCorrupt = errors.New("flate: corrupt input")
)

// Short makes data compressible.
var Short bool

var made [][]byte

type Writer struct {
	w   io.Writer
	buf []byte
}

func NewWriter(w io.Writer) *Writer { return &Writer{w: w} }

func (z *Writer) Write(p []byte) (int, error) {
	z.buf = append(z.buf, p...)
	return len(p), nil
}

func (z *Writer) Flush() error { return nil }

func (z *Writer) Close() error {
	_, err := z.w.Write(Pack(z.buf, Short))
	return err
}

// Pack is data, compressed.
func Pack(data []byte, short bool) []byte {
	if short {
		made = append(made, append([]byte{}, data...))
		return []byte{0x78, 0x9c, 1, byte(len(made) - 1)}
	}
	return append([]byte{0x78, 0x9c, 0}, data...)
}

type reader struct {
	r    io.Reader
	open bool
	err  error
}

// NewReader starts to uncompress r.
func NewReader(r io.Reader) (io.ReadCloser, error) {
	var h [2]byte
	_, err := io.ReadFull(r, h[:])
	if err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	if h[0]&0x0f != 8 || h[0]>>4 > 7 || (uint(h[0])<<8|uint(h[1]))%31 != 0 {
		return nil, ErrHeader
	}
	if h[1]&0x20 != 0 {
		return nil, ErrDictionary
	}
	return &reader{r: r}, nil
}

func (z *reader) Read(p []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	if !z.open {
		z.open = true
		var k [1]byte
		_, z.err = io.ReadFull(z.r, k[:])
		if z.err == nil && k[0] == 1 {
			_, z.err = io.ReadFull(z.r, k[:])
			if z.err == nil {
				if int(k[0]) >= len(made) {
					z.err = errCorrupt
				} else {
					z.r = bytes.NewReader(made[k[0]])
				}
			}
		} else if z.err == nil && k[0] != 0 {
			z.err = errCorrupt
		}
		if z.err != nil {
			if z.err == io.EOF {
				z.err = io.ErrUnexpectedEOF
			}
			return 0, z.err
		}
	}
	n, err := z.r.Read(p)
	z.err = err
	return n, err
}

func (z *reader) Close() error { return nil }
