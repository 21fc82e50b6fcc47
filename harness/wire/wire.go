// Package wire is an independent implementation of the published layout of the flu protocol. It
// shares no code with the client.
package wire

// Message kinds, which are also the first byte on the wire.
const (
	DiscoverReq  = 0
	DiscoverResp = 1
	ListReq      = 2
	ListResp     = 3
	Open         = 4
	Data         = 5
	Ack          = 6
)

// Entry is one file of a listing.
type Entry struct {
	Size                 uint64
	Chunks, ChunkSize, N uint32
	Hash                 [20]byte
	Name                 []byte
}

// Msg is any message; only the fields of its kind are used.
type Msg struct {
	Kind    int
	ID      uint16 `json:",omitempty"`
	Hash    [20]byte
	Bounds  []uint16 `json:",omitempty"`
	Addr    [4]byte
	Port    uint16  `json:",omitempty"`
	Entries []Entry `json:",omitempty"`
	Chunk   uint16  `json:",omitempty"`
	Window  uint16  `json:",omitempty"`
	Offset  uint32  `json:",omitempty"`
	Payload []byte  `json:",omitempty"`
}

func u16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func u32(b []byte, v uint32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func u64(b []byte, v uint64) []byte { return u32(u32(b, uint32(v>>32)), uint32(v)) }

// Fit returns the message with what the format cannot carry cut off: bounds to the first 254, names
// to their first 255 bytes.
func (m Msg) Fit() Msg {
	if len(m.Bounds) > 254 {
		m.Bounds = m.Bounds[:254]
	}
	if m.Entries != nil {
		e := append([]Entry(nil), m.Entries[:min(len(m.Entries), 65535)]...)
		for i := range e {
			if len(e[i].Name) > 255 {
				e[i].Name = e[i].Name[:255]
			}
		}
		m.Entries = e
	}
	return m
}

// Encode writes the message in the published layout.
func (m Msg) Encode() []byte {
	m = m.Fit()
	b := []byte{byte(m.Kind)}
	bounds := func() {
		b = append(b, byte(len(m.Bounds)))
		for _, c := range m.Bounds {
			b = u16(b, c)
		}
	}
	switch m.Kind {
	case DiscoverReq:
		b = u16(b, m.ID)
		b = append(b, m.Hash[:]...)
		bounds()
	case DiscoverResp:
		b = u16(b, m.ID)
		b = append(b, m.Addr[:]...)
		b = u16(b, m.Port)
		bounds()
	case ListReq:
		b = u16(b, m.ID)
		b = append(b, m.Hash[:]...)
	case ListResp:
		b = u16(b, m.ID)
		b = u16(b, uint16(len(m.Entries)))
		for _, e := range m.Entries {
			b = u64(b, e.Size)
			b = u32(b, e.Chunks)
			b = u32(b, e.ChunkSize)
			b = u32(b, e.N)
			b = append(b, e.Hash[:]...)
			b = append(b, byte(len(e.Name)))
			b = append(b, e.Name...)
		}
	case Open:
		b = append(b, m.Hash[:]...)
		b = u16(b, m.Chunk)
		b = u16(b, m.Window)
		b = append(b, make([]byte, 7)...)
	case Data:
		b = u32(b, m.Offset)
		b = append(b, m.Payload...)
	case Ack:
		b = u32(b, m.Offset)
	}
	return b
}

type rd struct {
	b  []byte
	at int
	ok bool
}

func (r *rd) take(n int) []byte {
	if !r.ok || r.at+n > len(r.b) {
		r.ok = false
		return make([]byte, n)
	}
	s := r.b[r.at : r.at+n]
	r.at += n
	return s
}
func (r *rd) u8() int     { return int(r.take(1)[0]) }
func (r *rd) u16() uint16 { s := r.take(2); return uint16(s[0])<<8 | uint16(s[1]) }
func (r *rd) u32() uint32 {
	s := r.take(4)
	return uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3])
}
func (r *rd) u64() uint64 { return uint64(r.u32())<<32 | uint64(r.u32()) }
func (r *rd) hash() (h [20]byte) {
	copy(h[:], r.take(20))
	return
}
func (r *rd) bounds() []uint16 {
	n := r.u8()
	out := []uint16{}
	for i := 0; i < n && r.ok; i++ {
		out = append(out, r.u16())
	}
	return out
}

// Decode reads any message; ok says whether the bytes hold a complete message of a known kind.
// Trailing bytes are allowed. minOpen is how many bytes an open message must have (25 fields, 32 with
// its padding).
func Decode(b []byte) (m Msg, ok bool) {
	r := &rd{b: b, ok: true}
	m.Kind = r.u8()
	switch m.Kind {
	case DiscoverReq:
		m.ID, m.Hash, m.Bounds = r.u16(), r.hash(), r.bounds()
	case DiscoverResp:
		m.ID = r.u16()
		copy(m.Addr[:], r.take(4))
		m.Port, m.Bounds = r.u16(), r.bounds()
	case ListReq:
		m.ID, m.Hash = r.u16(), r.hash()
	case ListResp:
		m.ID = r.u16()
		n := int(r.u16())
		for i := 0; i < n && r.ok; i++ {
			e := Entry{Size: r.u64(), Chunks: r.u32(), ChunkSize: r.u32(), N: r.u32(), Hash: r.hash()}
			e.Name = append([]byte{}, r.take(r.u8())...)
			m.Entries = append(m.Entries, e)
		}
	case Open:
		m.Hash, m.Chunk, m.Window = r.hash(), r.u16(), r.u16()
	case Data:
		m.Offset = r.u32()
		if r.ok {
			m.Payload = append([]byte{}, b[r.at:]...)
		}
	case Ack:
		m.Offset = r.u32()
	default:
		return m, false
	}
	return m, r.ok
}

// Equal compares two messages field by field; empty and missing lists are the same.
func Equal(a, b Msg) bool {
	if a.Kind != b.Kind || a.ID != b.ID || a.Hash != b.Hash || a.Addr != b.Addr || a.Port != b.Port ||
		a.Chunk != b.Chunk || a.Window != b.Window || a.Offset != b.Offset ||
		len(a.Bounds) != len(b.Bounds) || len(a.Entries) != len(b.Entries) || string(a.Payload) != string(b.Payload) {
		return false
	}
	for i := range a.Bounds {
		if a.Bounds[i] != b.Bounds[i] {
			return false
		}
	}
	for i := range a.Entries {
		x, y := a.Entries[i], b.Entries[i]
		if x.Size != y.Size || x.Chunks != y.Chunks || x.ChunkSize != y.ChunkSize || x.N != y.N || x.Hash != y.Hash || string(x.Name) != string(y.Name) {
			return false
		}
	}
	return true
}
