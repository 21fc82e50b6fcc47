package main

import (
	"bytes"
	"strings"

	"flucheck/core"

	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

type c07Case struct {
	H     [20]byte
	Upper []bool
	Str   string
	Bytes []byte
}

func isHash40(s string) bool {
	if len(s) != 40 {
		return false
	}
	for i := 0; i < 40; i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func hex40(b [20]byte) string {
	const d = "0123456789abcdef"
	var o []byte
	for _, x := range b {
		o = append(o, d[x>>4], d[x&15])
	}
	return string(o)
}

func unhex40(s string) (r [20]byte) {
	v := func(c byte) byte {
		switch {
		case c <= '9':
			return c - '0'
		case c >= 'a':
			return c - 'a' + 10
		default:
			return c - 'A' + 10
		}
	}
	for i := range r {
		r[i] = v(s[2*i])<<4 | v(s[2*i+1])
	}
	return
}

func runC07(c c07Case, o *core.Obs) error {
	h := &common.Sha1Hash{Data: c.H}
	text := h.String()
	if text != hex40(c.H) {
		return core.Fail("text", "String() of %x is %q", c.H, text)
	}
	mixed := []byte(text)
	for i := range mixed {
		if i < len(c.Upper) && c.Upper[i] {
			mixed[i] = strings.ToUpper(string(mixed[i]))[0]
		}
	}
	for _, s := range []string{text, strings.ToUpper(text), string(mixed)} {
		g := &common.Sha1Hash{}
		if err := g.FromStringSafe(s); err != nil || g.Data != c.H {
			return core.Fail("text-back", "FromStringSafe(%q) gives %x, %v", s, g.Data, err)
		}
		f := &common.Sha1Hash{}
		if r := f.FromString(s); r != f || f.Data != c.H {
			return core.Fail("text-back", "FromString(%q) gives %x", s, f.Data)
		}
	}
	// bytes
	cp := h.SliceCopy()
	if len(cp) != 20 || !bytes.Equal(cp, c.H[:]) || !bytes.Equal(h.Slice(), c.H[:]) || *h.Array() != c.H {
		return core.Fail("bytes", "SliceCopy/Slice/Array of %x: %x %x %x", c.H, cp, h.Slice(), *h.Array())
	}
	g := &common.Sha1Hash{}
	if err := g.FromSliceSafe(cp); err != nil || g.Data != c.H {
		return core.Fail("bytes-back", "FromSliceSafe(%x) gives %x, %v", cp, g.Data, err)
	}
	f := (&common.Sha1Hash{}).FromSlice(cp)
	if f.Data != c.H {
		return core.Fail("bytes-back", "FromSlice(%x) gives %x", cp, f.Data)
	}
	for i := range cp {
		cp[i] ^= 0x5a
	}
	if h.Data != c.H || g.Data != c.H || f.Data != c.H {
		return core.Fail("shared-storage", "changing a copy changed the hash %x: %x %x %x", c.H, h.Data, g.Data, f.Data)
	}
	// blank
	blank := true
	for _, x := range c.H {
		blank = blank && x == 0xff
	}
	if h.IsBlank() != blank {
		return core.Fail("blank", "IsBlank(%x)=%v", c.H, h.IsBlank())
	}
	b := &common.Sha1Hash{Data: c.H}
	if r := b.Blank(); r != b || !b.IsBlank() || b.String() != strings.Repeat("f", 40) {
		return core.Fail("blank", "Blank() gives %x", b.Data)
	}
	// refusal
	before := c.H
	s := &common.Sha1Hash{Data: c.H}
	err := s.FromStringSafe(c.Str)
	if isHash40(c.Str) {
		if err != nil || s.Data != unhex40(c.Str) {
			return core.Fail("text-refused", "FromStringSafe(%q)=%v gives %x", c.Str, err, s.Data)
		}
	} else if err == nil {
		return core.Fail("bad-text-accepted", "FromStringSafe(%q) accepted", c.Str)
	} else if s.Data != before {
		return core.Fail("target-changed", "refusing %q changed the target to %x", c.Str, s.Data)
	}
	s = &common.Sha1Hash{Data: c.H}
	err = s.FromSliceSafe(c.Bytes)
	if len(c.Bytes) == 20 {
		if err != nil || !bytes.Equal(s.Data[:], c.Bytes) {
			return core.Fail("bytes-refused", "FromSliceSafe(%x)=%v gives %x", c.Bytes, err, s.Data)
		}
	} else if err == nil {
		return core.Fail("bad-bytes-accepted", "FromSliceSafe of %d bytes accepted", len(c.Bytes))
	} else if s.Data != before {
		return core.Fail("target-changed", "refusing %x changed the target to %x", c.Bytes, s.Data)
	}
	o.LabelIf(blank, "blank")
	o.LabelIf(isHash40(c.Str), "valid-text")
	o.LabelIf(len(c.Str) == 40 && !isHash40(c.Str), "forty-chars-invalid")
	o.LabelIf(len(c.Str)%2 == 0 && len(c.Str) != 40, "even-length-text")
	if !isHash40(c.Str) && len(c.Str) > 30 || len(c.Bytes) > 15 {
		o.NT()
	}
	return nil
}

func init() {
	core.Register(core.Sub{Prop: "C07", Name: "conversions", Quick: 60000, Thorough: 2000000,
		Rule: "a hash (random, all FF, FF but one byte or bit), a text (valid in mixed case, damaged at one place, with prefixes, suffixes or separators, other lengths, arbitrary) and a byte string of any length; compared with an independent hex codec; non-trivial when the text offered is close to valid or the byte string is close to 20 bytes"},
		func(t *rapid.T) c07Case {
			c := c07Case{}
			hash := func(nm string) (h [20]byte) {
				switch rapid.IntRange(0, 4).Draw(t, nm+"k") {
				case 0:
					for i := range h {
						h[i] = 255
					}
				case 1:
					for i := range h {
						h[i] = 255
					}
					h[rapid.IntRange(0, 19).Draw(t, nm+"at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, nm+"bit")
				case 2:
					h[rapid.IntRange(0, 19).Draw(t, nm+"at")] = rapid.Byte().Draw(t, nm+"v")
				default:
					copy(h[:], rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, nm))
				}
				return
			}
			c.H = hash("h")
			c.Upper = rapid.SliceOfN(rapid.Bool(), 0, 40).Draw(t, "upper")
			h2 := hash("h2")
			s := []byte(hex40(h2))
			switch rapid.IntRange(0, 7).Draw(t, "sk") {
			case 0:
				s = []byte(strings.ToUpper(string(s)))
			case 1:
				s[rapid.IntRange(0, 39).Draw(t, "at")] = rapid.SampledFrom([]byte("gG/:@`xX -\x00\xff")).Draw(t, "ch")
			case 2:
				s = s[:rapid.IntRange(0, 39).Draw(t, "cut")]
			case 3:
				s = append(s, rapid.SliceOfN(rapid.SampledFrom([]byte("0123456789abcdefABCDEF \n")), 1, 42).Draw(t, "more")...)
			case 4:
				s = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
			case 6: // dressed up
				pre := rapid.SampledFrom([]string{"", "", "0x", "0X", "x", "#", "sha1:", "SHA1:", "sha1-", "\"", "'", "{", "<", "urn:sha1:", " ", "\t", "+", "-", "\ufeff", "00", "\x00"}).Draw(t, "pre")
				post := rapid.SampledFrom([]string{"", "", "h", "\"", "'", "}", ">", " ", "\n", "\r\n", "\x00", "00", " *file", "=", "."}).Draw(t, "post")
				if sep := rapid.SampledFrom([]string{"", "", "", ":", "-", " ", "_"}).Draw(t, "sep"); sep != "" {
					every := rapid.SampledFrom([]int{2, 4, 8, 20}).Draw(t, "every")
					var v []string
					for i := 0; i < 40; i += every {
						v = append(v, string(s[i:i+every]))
					}
					s = []byte(strings.Join(v, sep))
				}
				s = append(append([]byte(pre), s...), post...)
			case 5:
				s = rapid.SliceOfN(rapid.SampledFrom([]byte("0123456789abcdefABCDEF")), 38, 42).Draw(t, "near")
			}
			c.Str = string(s)
			// JSON cannot carry every byte string as text
			c.Str = strings.ToValidUTF8(c.Str, "?")
			c.Bytes = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 18, 22), rapid.SliceOfN(rapid.Byte(), 0, 64)).Draw(t, "bytes")
			return c
		}, runC07)
}
