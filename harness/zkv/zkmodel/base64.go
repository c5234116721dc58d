package zkmodel

import (
	"encoding/base64"
	"io"
)

// b64Reader decodes all that r holds when it is first read.
type b64Reader struct {
	enc  *base64.Encoding
	r    io.Reader
	done bool
	buf  []byte
	err  error
}

func B64NewDecoder(enc *base64.Encoding, r io.Reader) io.Reader {
	return &b64Reader{enc: enc, r: r}
}

func (d *b64Reader) Read(p []byte) (int, error) {
	if !d.done {
		d.done = true
		var t []byte
		var b [1024]byte
		for d.err == nil {
			var n int
			n, d.err = d.r.Read(b[:])
			for _, c := range b[:n] {
				if c != '\r' && c != '\n' {
					t = append(t, c)
				}
			}
		}
		x, err := d.enc.DecodeString(string(t))
		d.buf = x
		if err != nil && d.err == io.EOF {
			d.err = err
			if len(t)%4 != 0 && len(x) == len(t)/4*3 {
				d.err = io.ErrUnexpectedEOF
			}
		}
	}
	if len(d.buf) == 0 {
		return 0, d.err
	}
	n := copy(p, d.buf)
	d.buf = d.buf[n:]
	return n, nil
}
