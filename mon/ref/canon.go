package ref

import (
	"bytes"
	"fmt"
	"regexp"
	"time"
	"unicode/utf8"
)

// Canonical says why b is not exactly one DER value as X.690 wants it (with RFC 5280's rules for times), or returns nil.
// It looks into constructed values; what octet strings and primitive context-specific values hold is the caller's to check.
func Canonical(b []byte) error {
	rest, err := canonOne(b, 0)
	if err == nil && len(rest) != 0 {
		err = fmt.Errorf("%d bytes follow the value", len(rest))
	}
	return err
}

var (
	utcRE = regexp.MustCompile(`^\d{12}Z$`)
	genRE = regexp.MustCompile(`^\d{14}Z$`)
	prtRE = regexp.MustCompile(`^[A-Za-z0-9 '()+,\-./:=?]*$`)
	numRE = regexp.MustCompile(`^[0-9 ]*$`)
)

func canonOne(b []byte, depth int) (rest []byte, err error) {
	if len(b) < 2 {
		return nil, fmt.Errorf("truncated: %x", b)
	}
	if depth > 60 {
		return nil, fmt.Errorf("nested too deeply")
	}
	tag := b[0]
	if tag&31 == 31 {
		return nil, fmt.Errorf("high tag number at %x", b[:2])
	}
	hdr, n := 2, int(b[1])
	if b[1] >= 0x80 {
		k := int(b[1] & 0x7f)
		if k == 0 || k > 4 || len(b) < 2+k {
			return nil, fmt.Errorf("length octets %x", b[:2])
		}
		n = 0
		for _, c := range b[2 : 2+k] {
			n = n<<8 | int(c)
		}
		if b[2] == 0 || n < 0x80 {
			return nil, fmt.Errorf("length not minimal: %x", b[:2+k])
		}
		hdr += k
	}
	if len(b) < hdr+n {
		return nil, fmt.Errorf("length %d exceeds the %d bytes there", n, len(b)-hdr)
	}
	v, rest := b[hdr:hdr+n], b[hdr+n:]
	head := b[:min(len(b), hdr+min(n, 24))]
	bad := func(what string) error { return fmt.Errorf("%s: %x", what, head) }
	if tag&0xc0 != 0 { // context-specific and others
		if tag&0x20 != 0 {
			for c := v; len(c) > 0; {
				if c, err = canonOne(c, depth+1); err != nil {
					return nil, err
				}
			}
		}
		return rest, nil
	}
	num := tag & 31
	if cons := tag&0x20 != 0; cons != (num == 16 || num == 17) {
		return nil, bad("primitive or constructed form is wrong")
	}
	switch num {
	case 1:
		if n != 1 || v[0] != 0xff && v[0] != 0 {
			return nil, bad("BOOLEAN")
		}
		if v[0] == 0 {
			return nil, bad("a default of FALSE is written out")
		}
	case 2, 10:
		if n == 0 || n > 1 && (v[0] == 0 && v[1] < 0x80 || v[0] == 0xff && v[1] >= 0x80) {
			return nil, bad("INTEGER not minimal")
		}
	case 3:
		if n == 0 || v[0] > 7 || n == 1 && v[0] != 0 || n > 1 && v[n-1]&(1<<v[0]-1) != 0 {
			return nil, bad("BIT STRING padding")
		}
	case 4:
	case 5:
		if n != 0 {
			return nil, bad("NULL")
		}
	case 6:
		if n == 0 || v[n-1] >= 0x80 {
			return nil, bad("OBJECT IDENTIFIER")
		}
		for i, c := range v {
			if c == 0x80 && (i == 0 || v[i-1] < 0x80) {
				return nil, bad("OBJECT IDENTIFIER arc not minimal")
			}
		}
	case 12:
		if !utf8.Valid(v) {
			return nil, bad("UTF8String")
		}
	case 16, 17:
		var prev []byte
		for c := v; len(c) > 0; {
			r, err := canonOne(c, depth+1)
			if err != nil {
				return nil, err
			}
			one := c[:len(c)-len(r)]
			if num == 17 && prev != nil && bytes.Compare(prev, one) > 0 {
				return nil, bad("SET OF not in order")
			}
			prev, c = one, r
		}
	case 18:
		if !numRE.Match(v) {
			return nil, bad("NumericString")
		}
	case 19:
		if !prtRE.Match(v) {
			return nil, bad("PrintableString")
		}
	case 20:
	case 22:
		for _, c := range v {
			if c >= 0x80 {
				return nil, bad("IA5String")
			}
		}
	case 23:
		if !utcRE.Match(v) {
			return nil, bad("UTCTime")
		}
		if _, err := time.Parse("060102150405Z", string(v)); err != nil {
			return nil, bad("UTCTime")
		}
	case 24:
		if !genRE.Match(v) {
			return nil, bad("GeneralizedTime")
		}
		tm, err := time.Parse("20060102150405Z", string(v))
		if err != nil {
			return nil, bad("GeneralizedTime")
		}
		if tm.Year() >= 1950 && tm.Year() < 2050 {
			return nil, bad("GeneralizedTime where UTCTime is due")
		}
	case 30:
		if n%2 != 0 {
			return nil, bad("BMPString")
		}
	default:
		return nil, bad("unexpected type")
	}
	return rest, nil
}
