// Package bech is a small BIP-173 codec used to evaluate address conversions on concrete bytes.
package bech

import (
	"errors"
	"strings"
)

const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

var gen = []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}

func polymod(v []byte) uint32 {
	c := uint32(1)
	for _, x := range v {
		b := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if b>>uint(i)&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func expand(hrp string) []byte {
	var r []byte
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]&31)
	}
	return r
}

func convert(data []byte, from, to uint, pad bool) ([]byte, error) {
	acc, bits := uint32(0), uint(0)
	var out []byte
	maxv := uint32(1)<<to - 1
	for _, b := range data {
		if uint32(b)>>from != 0 {
			return nil, errors.New("invalid data range")
		}
		acc = acc<<from | uint32(b)
		bits += from
		for bits >= to {
			bits -= to
			out = append(out, byte(acc>>bits&maxv))
		}
		acc &= 1<<bits - 1
	}
	if pad {
		if bits > 0 {
			out = append(out, byte(acc<<(to-bits)&maxv))
		}
	} else if bits >= from || acc<<(to-bits)&maxv != 0 {
		return nil, errors.New("invalid incomplete group")
	}
	return out, nil
}

func ConvertAndEncode(hrp string, data []byte) (string, error) {
	d, err := convert(data, 8, 5, true)
	if err != nil {
		return "", err
	}
	v := append(append(expand(hrp), d...), 0, 0, 0, 0, 0, 0)
	m := polymod(v) ^ 1
	var sb strings.Builder
	sb.WriteString(hrp)
	sb.WriteByte('1')
	for _, x := range d {
		sb.WriteByte(charset[x])
	}
	for i := 0; i < 6; i++ {
		sb.WriteByte(charset[m>>uint(5*(5-i))&31])
	}
	return sb.String(), nil
}

func DecodeAndConvert(s string) (string, []byte, error) {
	if len(s) < 8 || len(s) > 1023 {
		return "", nil, errors.New("decoding bech32 failed: invalid bech32 string length")
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return "", nil, errors.New("decoding bech32 failed: invalid character in string")
		}
	}
	lo, up := strings.ToLower(s), strings.ToUpper(s)
	if s != lo && s != up {
		return "", nil, errors.New("decoding bech32 failed: string not all lowercase or all uppercase")
	}
	s = lo
	one := strings.LastIndexByte(s, '1')
	if one < 1 || one+7 > len(s) {
		return "", nil, errors.New("decoding bech32 failed: invalid index of 1")
	}
	hrp := s[:one]
	var d []byte
	for _, c := range s[one+1:] {
		i := strings.IndexRune(charset, c)
		if i < 0 {
			return "", nil, errors.New("decoding bech32 failed: failed converting data to bytes")
		}
		d = append(d, byte(i))
	}
	if polymod(append(expand(hrp), d...)) != 1 {
		return "", nil, errors.New("decoding bech32 failed: checksum failed")
	}
	b, err := convert(d[:len(d)-6], 5, 8, false)
	if err != nil {
		return "", nil, errors.New("decoding bech32 failed: " + err.Error())
	}
	return hrp, b, nil
}
