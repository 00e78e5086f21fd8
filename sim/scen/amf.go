package scen

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	"vsim/vsim"
)

// Independent AMF0 codec used by the protocol models.

type kv struct {
	K string
	V any
}
type obj []kv  // anonymous object
type ecma []kv // ECMA array
type arr []any // strict array
type undef struct{}
type date float64 // milliseconds

func (o obj) get(k string) any {
	for _, x := range o {
		if x.K == k {
			return x.V
		}
	}
	return nil
}

func (o obj) str(k string) string { s, _ := o.get(k).(string); return s }

func amfEnc(b []byte, v any) []byte {
	switch v := v.(type) {
	case int:
		return amfEnc(b, float64(v))
	case float64:
		b = append(b, 0)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(v))
	case bool:
		if v {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case string:
		if len(v) > 65535 {
			b = append(b, 12)
			b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
			return append(b, v...)
		}
		b = append(b, 2)
		b = binary.BigEndian.AppendUint16(b, uint16(len(v)))
		return append(b, v...)
	case nil:
		return append(b, 5)
	case undef:
		return append(b, 6)
	case obj:
		b = append(b, 3)
		return amfProps(b, v)
	case ecma:
		b = append(b, 8)
		b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
		return amfProps(b, v)
	case date:
		b = append(b, 11)
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(float64(v)))
		return append(b, 0, 0)
	case arr:
		b = append(b, 10)
		b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
		for _, x := range v {
			b = amfEnc(b, x)
		}
		return b
	}
	panic(fmt.Sprintf("amfEnc %T", v))
}

func amfProps(b []byte, l []kv) []byte {
	for _, x := range l {
		b = binary.BigEndian.AppendUint16(b, uint16(len(x.K)))
		b = append(b, x.K...)
		b = amfEnc(b, x.V)
	}
	return append(b, 0, 0, 9)
}

func amfVals(vs ...any) []byte {
	var b []byte
	for _, v := range vs {
		b = amfEnc(b, v)
	}
	return b
}

var errAMF = errors.New("amf0: malformed")

func amfDec(b []byte, depth int) (v any, rest []byte, err error) {
	if len(b) < 1 || depth > 20 {
		return nil, nil, errAMF
	}
	t := b[0]
	b = b[1:]
	switch t {
	case 0:
		if len(b) < 8 {
			return nil, nil, errAMF
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if len(b) < 1 {
			return nil, nil, errAMF
		}
		return b[0] != 0, b[1:], nil
	case 2, 12:
		n, k := 0, 0
		if t == 2 {
			if len(b) < 2 {
				return nil, nil, errAMF
			}
			n, k = int(binary.BigEndian.Uint16(b)), 2
		} else {
			if len(b) < 4 {
				return nil, nil, errAMF
			}
			n, k = int(binary.BigEndian.Uint32(b)), 4
		}
		if len(b) < k+n {
			return nil, nil, errAMF
		}
		return string(b[k : k+n]), b[k+n:], nil
	case 3, 8:
		if t == 8 {
			if len(b) < 4 {
				return nil, nil, errAMF
			}
			b = b[4:]
		}
		var l []kv
		for {
			if len(b) < 3 {
				return nil, nil, errAMF
			}
			if b[0] == 0 && b[1] == 0 && b[2] == 9 {
				b = b[3:]
				break
			}
			n := int(binary.BigEndian.Uint16(b))
			if len(b) < 2+n {
				return nil, nil, errAMF
			}
			k := string(b[2 : 2+n])
			var x any
			x, b, err = amfDec(b[2+n:], depth+1)
			if err != nil {
				return nil, nil, err
			}
			l = append(l, kv{k, x})
		}
		if t == 8 {
			return ecma(l), b, nil
		}
		return obj(l), b, nil
	case 5:
		return nil, b, nil
	case 6:
		return undef{}, b, nil
	case 11:
		if len(b) < 10 {
			return nil, nil, errAMF
		}
		return date(math.Float64frombits(binary.BigEndian.Uint64(b))), b[10:], nil
	case 10:
		if len(b) < 4 {
			return nil, nil, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		if n > len(b) {
			return nil, nil, errAMF
		}
		l := arr{}
		for i := 0; i < n; i++ {
			var x any
			x, b, err = amfDec(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			l = append(l, x)
		}
		return l, b, nil
	}
	return nil, nil, errAMF
}

func amfDecAll(b []byte) (l []any, err error) {
	for len(b) > 0 {
		var v any
		if v, b, err = amfDec(b, 0); err != nil {
			return
		}
		l = append(l, v)
	}
	return
}

// amfNorm renders values so that equal content compares equal.
func amfNorm(b []byte) string {
	l, err := amfDecAll(b)
	if err != nil {
		return "undecodable: " + fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%#v", amfPlain(arr(l)))
}

// amfPlain drops the distinction between objects and ECMA arrays, which carry
// the same content.
func amfPlain(v any) any {
	switch v := v.(type) {
	case arr:
		o := arr{}
		for _, x := range v {
			o = append(o, amfPlain(x))
		}
		if len(o) == 0 {
			return obj{}
		}
		return o
	case obj:
		o := obj{}
		for _, x := range v {
			o = append(o, kv{x.K, amfPlain(x.V)})
		}
		return o
	case ecma:
		return amfPlain(obj(v))
	case undef:
		return nil
	}
	return v
}

// amf3Enc is the AMF3 form of a value. Negative numbers go as doubles: the
// repository's own tests have integers read as unsigned.
func amf3Enc(b []byte, v any) []byte {
	switch v := v.(type) {
	case int:
		return amf3Enc(b, float64(v))
	case float64:
		if i := int64(v); float64(i) == v && !(v == 0 && math.Signbit(v)) && i >= 0 && i < 1<<28 {
			return u29(append(b, 4), uint32(i)&(1<<29-1))
		}
		b = append(b, 5)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(v))
	case bool:
		if v {
			return append(b, 3)
		}
		return append(b, 2)
	case string:
		return amf3Str(append(b, 6), v)
	case nil:
		return append(b, 1)
	case undef:
		return append(b, 0)
	case date:
		b = append(b, 8, 1)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(float64(v)))
	case ecma:
		b = append(b, 9, 1)
		for _, x := range v {
			b = amf3Enc(amf3Str(b, x.K), x.V)
		}
		return amf3Str(b, "")
	case arr:
		b = append(u29(append(b, 9), uint32(len(v))<<1|1), 1)
		for _, x := range v {
			b = amf3Enc(b, x)
		}
		return b
	case obj:
		// the first members may be sealed
		k := len(v) / 2
		b = amf3Str(u29(append(b, 10), uint32(k)<<4|0xb), "")
		for _, x := range v[:k] {
			b = amf3Str(b, x.K)
		}
		for _, x := range v[:k] {
			b = amf3Enc(b, x.V)
		}
		for _, x := range v[k:] {
			b = amf3Enc(amf3Str(b, x.K), x.V)
		}
		return amf3Str(b, "")
	}
	panic(fmt.Sprintf("amf3Enc %T", v))
}

func u29(b []byte, v uint32) []byte {
	switch {
	case v < 1<<7:
		return append(b, byte(v))
	case v < 1<<14:
		return append(b, byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<21:
		return append(b, byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v)&0x7f)
	}
	return append(b, byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
}

func amf3Str(b []byte, s string) []byte {
	return append(u29(b, uint32(len(s))<<1|1), s...)
}

// dataForm sends a metadata message in another form that means the same.
func dataForm(m *rmsg) *rmsg {
	if m.typ != 18 {
		return m
	}
	switch vsim.Weighted(vsim.StWork, 6, 1, 1) {
	case 1:
		m.typ = 15
		m.data = append([]byte{0}, m.data...)
	case 2:
		l, err := amfDecAll(m.data)
		if err != nil {
			panic(err)
		}
		m.typ, m.data = 15, nil
		for _, v := range l {
			m.data = amf3Enc(m.data, v)
		}
	}
	return m
}

// genAMF draws a value of any kind.
func genAMF(id, depth int) any {
	k := 9
	if depth > 0 {
		k = 12
	}
	props := func() (l []kv) {
		for i := vsim.Draw(vsim.StWork, 4); i > 0; i-- {
			l = append(l, kv{fmt.Sprintf("k%d%s", i, string(payload(id, vsim.Draw(vsim.StWork, 3)))), genAMF(id+i, depth-1)})
		}
		return
	}
	switch vsim.Draw(vsim.StWork, k) {
	case 0, 1:
		return float64(vsim.Draw(vsim.StWork, 2000) - 1000)
	case 2:
		return vsim.Pick(vsim.StWork, 0.5, -1e300, math.Inf(1), 1<<28, 1<<28-1, -1<<28, -1<<28-1, 1e15, math.Copysign(0, -1), math.MaxFloat64)
	case 3:
		return vsim.Bool(vsim.StWork, 1, 2)
	case 4, 5:
		return string(payload(id, vsim.Pick(vsim.StWork, 0, 1, 20, 63, 64, 200, 8192)))
	case 6:
		return nil
	case 7:
		return undef{}
	case 8:
		return date(vsim.Pick(vsim.StWork, 0, 1, 1.7e12, 1.6e12+123, -86400000))
	case 9:
		return obj(props())
	case 10:
		return ecma(props())
	}
	l := arr{}
	for i := vsim.Draw(vsim.StWork, 5); i > 0; i-- {
		l = append(l, genAMF(id+i, depth-1))
	}
	return l
}
