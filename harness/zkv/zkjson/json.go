// Package zkjson replaces encoding/json, which works by reflection, for the
// structures of the administration socket.
package zkjson

import (
	"errors"
	"io"
	"strings"

	"github.com/companyzero/zkc/zkserver/socketapi"
)

var (
	errMore   = errors.New("unexpected end of JSON input")
	errSyntax = errors.New("invalid character in JSON")
	errType   = errors.New("json: cannot unmarshal value into Go struct field")
)

// Decoder reads JSON values.
type Decoder struct {
	r   io.Reader
	buf []byte
	err error
}

// NewDecoder makes a Decoder.
func NewDecoder(r io.Reader) *Decoder { return &Decoder{r: r} }

// Decode reads the next value.
func (d *Decoder) Decode(v interface{}) error {
	if d.err != nil {
		return d.err
	}
	for {
		p := parser{b: d.buf}
		x, err := p.top()
		if err == nil {
			d.buf = d.buf[p.i:]
			return assign(x, v)
		}
		if err != errMore {
			d.err = err
			return err
		}
		b := make([]byte, 512)
		n, err := d.r.Read(b)
		d.buf = append(d.buf, b[:n]...)
		if n == 0 && err != nil {
			for _, c := range d.buf {
				if !space(c) && err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
			}
			d.err = err
			return err
		}
	}
}

// kinds of values
type (
	jnull   struct{}
	jother  struct{} // true, false, arrays
	jnumber struct{ s []byte }
	jstring struct{ s []byte }
	jobject struct{ fields []jfield }
	jfield  struct {
		name []byte
		v    interface{}
	}
)

type parser struct {
	b []byte
	i int
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
func digit(c byte) bool { return c >= '0' && c <= '9' }

func (p *parser) skip() {
	for p.i < len(p.b) && space(p.b[p.i]) {
		p.i++
	}
}

// top parses a value; a number at the end of what was read may go on.
func (p *parser) top() (interface{}, error) {
	v, err := p.value(0)
	if _, ok := v.(jnumber); ok && err == nil && p.i == len(p.b) {
		return nil, errMore
	}
	return v, err
}

func (p *parser) word(w string) error {
	for k := 0; k < len(w); k++ {
		if p.i == len(p.b) {
			return errMore
		}
		if p.b[p.i] != w[k] {
			return errSyntax
		}
		p.i++
	}
	return nil
}

func (p *parser) value(depth int) (interface{}, error) {
	p.skip()
	if p.i == len(p.b) {
		return nil, errMore
	}
	c := p.b[p.i]
	switch {
	case c == '{':
		p.i++
		return p.object(depth)
	case c == '[':
		p.i++
		return p.array(depth)
	case c == '"':
		s, err := p.str()
		return jstring{s}, err
	case c == 'n':
		return jnull{}, p.word("null")
	case c == 't':
		return jother{}, p.word("true")
	case c == 'f':
		return jother{}, p.word("false")
	case c == '-' || digit(c):
		return p.number()
	}
	return nil, errSyntax
}

func (p *parser) number() (interface{}, error) {
	st := p.i
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i == len(p.b) {
		return nil, errMore
	}
	if !digit(p.b[p.i]) {
		return nil, errSyntax
	}
	if p.b[p.i] == '0' {
		p.i++
	} else {
		for p.i < len(p.b) && digit(p.b[p.i]) {
			p.i++
		}
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if err := p.digits(); err != nil {
			return nil, err
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if err := p.digits(); err != nil {
			return nil, err
		}
	}
	return jnumber{p.b[st:p.i]}, nil
}

func (p *parser) digits() error {
	if p.i == len(p.b) {
		return errMore
	}
	if !digit(p.b[p.i]) {
		return errSyntax
	}
	for p.i < len(p.b) && digit(p.b[p.i]) {
		p.i++
	}
	return nil
}

func (p *parser) str() ([]byte, error) {
	p.i++
	var s []byte
	for {
		if p.i == len(p.b) {
			return nil, errMore
		}
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return s, nil
		case c < ' ':
			return nil, errSyntax
		case c == '\\':
			if p.i == len(p.b) {
				return nil, errMore
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				s = append(s, e)
			case 'b':
				s = append(s, '\b')
			case 'f':
				s = append(s, '\f')
			case 'n':
				s = append(s, '\n')
			case 'r':
				s = append(s, '\r')
			case 't':
				s = append(s, '\t')
			case 'u':
				r := rune(0)
				for k := 0; k < 4; k++ {
					if p.i == len(p.b) {
						return nil, errMore
					}
					h := p.b[p.i]
					p.i++
					switch {
					case digit(h):
						r = r<<4 | rune(h-'0')
					case h >= 'a' && h <= 'f':
						r = r<<4 | rune(h-'a'+10)
					case h >= 'A' && h <= 'F':
						r = r<<4 | rune(h-'A'+10)
					default:
						return nil, errSyntax
					}
				}
				s = append(s, string(r)...)
			default:
				return nil, errSyntax
			}
		default:
			s = append(s, c)
		}
	}
}

func (p *parser) array(depth int) (interface{}, error) {
	if depth > 1000 {
		return nil, errSyntax
	}
	p.skip()
	if p.i < len(p.b) && p.b[p.i] == ']' {
		p.i++
		return jother{}, nil
	}
	for {
		if _, err := p.value(depth + 1); err != nil {
			return nil, err
		}
		p.skip()
		if p.i == len(p.b) {
			return nil, errMore
		}
		c := p.b[p.i]
		p.i++
		if c == ']' {
			return jother{}, nil
		}
		if c != ',' {
			return nil, errSyntax
		}
	}
}

func (p *parser) object(depth int) (interface{}, error) {
	if depth > 1000 {
		return nil, errSyntax
	}
	var o jobject
	p.skip()
	if p.i < len(p.b) && p.b[p.i] == '}' {
		p.i++
		return o, nil
	}
	for {
		p.skip()
		if p.i == len(p.b) {
			return nil, errMore
		}
		if p.b[p.i] != '"' {
			return nil, errSyntax
		}
		k, err := p.str()
		if err != nil {
			return nil, err
		}
		p.skip()
		if p.i == len(p.b) {
			return nil, errMore
		}
		if p.b[p.i] != ':' {
			return nil, errSyntax
		}
		p.i++
		v, err := p.value(depth + 1)
		if err != nil {
			return nil, err
		}
		o.fields = append(o.fields, jfield{k, v})
		p.skip()
		if p.i == len(p.b) {
			return nil, errMore
		}
		c := p.b[p.i]
		p.i++
		if c == '}' {
			return o, nil
		}
		if c != ',' {
			return nil, errSyntax
		}
	}
}

// assign stores a parsed value in one of the known structures.
func assign(x interface{}, v interface{}) error {
	if _, ok := x.(jnull); ok {
		return nil
	}
	o, ok := x.(jobject)
	if !ok {
		return errType
	}
	var err error
	for _, f := range o.fields {
		if _, ok := f.v.(jnull); ok {
			continue
		}
		var s *string
		var u *uint
		switch t := v.(type) {
		case *socketapi.SocketCommandID:
			if is(f.name, "version") {
				u = &t.Version
			} else if is(f.name, "command") {
				s = &t.Command
			}
		case *socketapi.SocketCommandUserDisable:
			if is(f.name, "identity") {
				s = &t.Identity
			}
		case *socketapi.SocketCommandUserEnable:
			if is(f.name, "identity") {
				s = &t.Identity
			}
		case *socketapi.SocketCommandUserDisableReply:
			if is(f.name, "error") {
				s = &t.Error
			}
		case *socketapi.SocketCommandUserEnableReply:
			if is(f.name, "error") {
				s = &t.Error
			}
		default:
			panic("zkjson: unknown structure")
		}
		switch {
		case s != nil:
			if w, ok := f.v.(jstring); ok {
				*s = string(w.s)
			} else {
				err = errType
			}
		case u != nil:
			n, ok := f.v.(jnumber)
			var val uint
			for _, c := range n.s {
				if !digit(c) || val > (1<<64-1-9)/10 {
					ok = false
					break
				}
				val = val*10 + uint(c-'0')
			}
			if ok {
				*u = val
			} else {
				err = errType
			}
		}
	}
	return err
}

func is(name []byte, want string) bool {
	return len(name) == len(want) && strings.EqualFold(string(name), want)
}

// Encoder writes JSON values.
type Encoder struct{ w io.Writer }

// NewEncoder makes an Encoder.
func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }

// Encode writes a value and a newline.
func (e *Encoder) Encode(v interface{}) error {
	var b []byte
	switch t := v.(type) {
	case *socketapi.SocketCommandUserDisableReply:
		b = field("error", t.Error)
	case *socketapi.SocketCommandUserEnableReply:
		b = field("error", t.Error)
	case socketapi.SocketCommandUserDisableReply:
		b = field("error", t.Error)
	case socketapi.SocketCommandUserEnableReply:
		b = field("error", t.Error)
	case nil:
		b = []byte("null")
	default:
		panic("zkjson: unknown structure")
	}
	_, err := e.w.Write(append(b, '\n'))
	return err
}

func field(name, s string) []byte {
	const hex = "0123456789abcdef"
	b := []byte(`{"` + name + `":"`)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c < ' ' || c == '<' || c == '>' || c == '&':
			b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
		default:
			b = append(b, c)
		}
	}
	return append(b, `"}`...)
}
