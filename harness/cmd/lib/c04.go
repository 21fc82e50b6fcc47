package main

import (
	"bytes"

	"flucheck/core"
	"flucheck/wire"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"pgregory.net/rapid"
)

func toClient(m wire.Msg) messages.Message {
	h := &common.Sha1Hash{Data: m.Hash}
	switch m.Kind {
	case wire.DiscoverReq:
		return &messages.DiscoverHostRequest{RequestID: m.ID, Sha1Hash: *h, Chunks: append([]uint16(nil), m.Bounds...)}
	case wire.DiscoverResp:
		return &messages.DiscoverHostResponse{RequestID: m.ID, Address: m.Addr, Port: m.Port, Chunks: append([]uint16(nil), m.Bounds...)}
	case wire.ListReq:
		return &messages.ListFilesRequest{RequestID: m.ID, Sha1Hash: h}
	case wire.ListResp:
		r := &messages.ListFilesResponse{RequestID: m.ID}
		for _, e := range m.Entries {
			r.Files = append(r.Files, messages.ListFilesEntry{SizeInBytes: e.Size, ChunkCount: e.Chunks, ChunkSizeInBytes: e.ChunkSize,
				ChunksDownloaded: e.N, Sha1Hash: &common.Sha1Hash{Data: e.Hash}, FileName: string(e.Name)})
		}
		return r
	case wire.Open:
		return &messages.OpenConnectionRequest{Sha1Hash: h, Chunk: m.Chunk, WindowCap: m.Window}
	case wire.Data:
		return &messages.DataPacket{Offset: m.Offset, Data: append([]byte(nil), m.Payload...)}
	case wire.Ack:
		return &messages.DataPacketAck{Offset: m.Offset}
	}
	panic(core.Harness("kind %d", m.Kind))
}

func fromClient(x messages.Message) (wire.Msg, bool) {
	switch v := x.(type) {
	case *messages.DiscoverHostRequest:
		return wire.Msg{Kind: wire.DiscoverReq, ID: v.RequestID, Hash: v.Sha1Hash.Data, Bounds: v.Chunks}, v != nil
	case *messages.DiscoverHostResponse:
		return wire.Msg{Kind: wire.DiscoverResp, ID: v.RequestID, Addr: v.Address, Port: v.Port, Bounds: v.Chunks}, v != nil
	case *messages.ListFilesRequest:
		return wire.Msg{Kind: wire.ListReq, ID: v.RequestID, Hash: v.Sha1Hash.Data}, v != nil
	case *messages.ListFilesResponse:
		m := wire.Msg{Kind: wire.ListResp, ID: v.RequestID}
		for _, e := range v.Files {
			m.Entries = append(m.Entries, wire.Entry{Size: e.SizeInBytes, Chunks: e.ChunkCount, ChunkSize: e.ChunkSizeInBytes, N: e.ChunksDownloaded,
				Hash: e.Sha1Hash.Data, Name: []byte(e.FileName)})
		}
		return m, true
	case *messages.OpenConnectionRequest:
		return wire.Msg{Kind: wire.Open, Hash: v.Sha1Hash.Data, Chunk: v.Chunk, Window: v.WindowCap}, true
	case *messages.DataPacket:
		return wire.Msg{Kind: wire.Data, Offset: v.Offset, Payload: v.Data}, true
	case *messages.DataPacketAck:
		return wire.Msg{Kind: wire.Ack, Offset: v.Offset}, true
	}
	return wire.Msg{}, false
}

func decodeClient(kind int, b []byte) (messages.Message, error) {
	if kind == wire.Data {
		return messages.ParseAsDataPacket(b), nil
	}
	return messages.Parse(b)
}

func genHash(t *rapid.T, nm string) (h [20]byte) {
	switch rapid.IntRange(0, 5).Draw(t, nm+"k") {
	case 0:
		for i := range h {
			h[i] = 0xff
		}
	case 1:
	default:
		copy(h[:], rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, nm))
	}
	return
}

func genMsg(t *rapid.T, deep bool) wire.Msg {
	m := wire.Msg{Kind: rapid.IntRange(0, 6).Draw(t, "kind")}
	u16 := rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 255, 256, 32767, 32768, 65535}), rapid.Uint16())
	u32 := rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}), rapid.Uint32())
	u64 := rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 1 << 22, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}), rapid.Uint64())
	bounds := func() []uint16 {
		n := 0
		switch rapid.IntRange(0, 3).Draw(t, "bk") {
		case 0:
			n = rapid.IntRange(0, 3).Draw(t, "ranges")
		case 1:
			n = rapid.IntRange(0, 20).Draw(t, "ranges")
		case 2:
			n = rapid.IntRange(120, 135).Draw(t, "ranges")
		case 3:
			n = rapid.IntRange(0, 400).Draw(t, "ranges")
		}
		odd := 0 // the format counts bounds, not ranges
		if rapid.IntRange(0, 4).Draw(t, "odd") == 4 {
			odd = 1
		}
		if n > 20 { // long lists: few draws
			base, step := u16.Draw(t, "b0"), u16.Draw(t, "bs")
			v := make([]uint16, 2*n+odd)
			for i := range v {
				v[i] = base + uint16(i)*step
			}
			return v
		}
		return rapid.SliceOfN(u16, 2*n+odd, 2*n+odd).Draw(t, "bounds")
	}
	switch m.Kind {
	case wire.DiscoverReq:
		m.ID, m.Hash, m.Bounds = u16.Draw(t, "id"), genHash(t, "hash"), bounds()
	case wire.DiscoverResp:
		m.ID, m.Port, m.Bounds = u16.Draw(t, "id"), u16.Draw(t, "port"), bounds()
		copy(m.Addr[:], rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "addr"))
	case wire.ListReq:
		m.ID, m.Hash = u16.Draw(t, "id"), genHash(t, "hash")
	case wire.ListResp:
		m.ID = u16.Draw(t, "id")
		n := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 12)).Draw(t, "entries")
		for i := 0; i < n; i++ {
			e := wire.Entry{Size: u64.Draw(t, "size"), Chunks: u32.Draw(t, "chunks"), ChunkSize: u32.Draw(t, "cs"), N: u32.Draw(t, "held"), Hash: genHash(t, "ehash")}
			switch rapid.IntRange(0, 4).Draw(t, "namek") {
			case 0:
				e.Name = bytes.Repeat([]byte{rapid.Byte().Draw(t, "nb")}, rapid.IntRange(250, 260).Draw(t, "nl"))
			case 1:
				e.Name = bytes.Repeat([]byte("a\xc3\xa9"), rapid.IntRange(0, 200).Draw(t, "nl"))
			default:
				e.Name = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "name")
			}
			m.Entries = append(m.Entries, e)
		}
		if deep && rapid.IntRange(0, 19).Draw(t, "many") == 0 && len(m.Entries) > 0 {
			k := rapid.IntRange(200, 700).Draw(t, "rep")
			for i := 0; len(m.Entries) < k; i++ {
				e := m.Entries[i]
				e.Size += uint64(i)
				m.Entries = append(m.Entries, e)
			}
		}
	case wire.Open:
		m.Hash, m.Chunk, m.Window = genHash(t, "hash"), u16.Draw(t, "chunk"), u16.Draw(t, "window")
	case wire.Data:
		m.Offset = u32.Draw(t, "off")
		if deep && rapid.IntRange(0, 9).Draw(t, "bigp") == 0 {
			m.Payload = content(rapid.IntRange(0, 65000).Draw(t, "plen"), 7)
		} else {
			m.Payload = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "payload")
		}
	case wire.Ack:
		m.Offset = u32.Draw(t, "off")
	}
	return m
}

type msgCase struct {
	M    wire.Msg
	Pad  []byte
	Many int `json:",omitempty"` // so many entries, repeating those of M
}

func (c *msgCase) expand(o *core.Obs) {
	if c.Many == 0 || len(c.M.Entries) == 0 {
		return
	}
	m := append([]wire.Entry(nil), c.M.Entries...)
	for i := 0; len(m) < c.Many; i++ {
		e := m[i]
		e.Size++
		m = append(m, e)
	}
	c.M.Entries = m
	o.LabelIf(len(m) > 32767, "entries-past-32767")
	o.LabelIf(len(m) > 65535, "too-many-entries")
}

func runC04(c msgCase, o *core.Obs) error {
	c.expand(o)
	x := toClient(c.M)
	if int(x.Type()) != c.M.Kind {
		return core.Fail("type", "Type() of kind %d is %d", c.M.Kind, x.Type())
	}
	raw := x.Serialize()
	if back, _ := fromClient(x); !wire.Equal(back, c.M) {
		return core.Fail("encode-altered", "Serialize changed its message")
	}
	want := c.M.Fit()
	for pass, b := range [][]byte{append([]byte{}, raw...), append(append([]byte{}, raw...), c.Pad...)} {
		if pass == 1 && c.M.Kind == wire.Data {
			continue // a data packet has no length of its own
		}
		keep := append([]byte(nil), b...)
		y, err := decodeClient(c.M.Kind, b)
		if err != nil || y == nil {
			return core.Fail("undecodable", "kind %d (pass %d): %v", c.M.Kind, pass, err)
		}
		got, ok := fromClient(y)
		if !ok || int(y.Type()) != c.M.Kind {
			return core.Fail("type", "kind %d decoded as %T", c.M.Kind, y)
		}
		if !bytes.Equal(b, keep) {
			return core.Fail("decode-altered", "decoding changed its input")
		}
		if !wire.Equal(got, want) {
			return core.Fail("round-trip", "kind %d (pass %d): sent %+v, got %+v", c.M.Kind, pass, want, got)
		}
	}
	if !bytes.Equal(x.Serialize(), raw) {
		return core.Fail("encode-unstable", "two encodings of one message differ")
	}
	if rt, ok := x.(interface{ ResponseType() byte }); ok {
		w := map[int]int{wire.DiscoverReq: wire.DiscoverResp, wire.ListReq: wire.ListResp, wire.Open: wire.Data}[c.M.Kind]
		if int(rt.ResponseType()) != w {
			return core.Fail("response-type", "kind %d expects responses of kind %d", c.M.Kind, rt.ResponseType())
		}
	}
	if c.M.Kind == wire.Data && len(c.M.Payload) >= 24 {
		b := append([]byte(nil), raw...)
		dp := messages.ParseAsDataPacket(b)
		h, n, d := dp.Split()
		p := c.M.Payload
		if !bytes.Equal(b, raw) || !bytes.Equal(dp.Data, p) {
			return core.Fail("split-altered-input", "Split of %x changed the packet to %x", trunc(p), trunc(dp.Data))
		}
		wn := uint32(p[20])<<24 | uint32(p[21])<<16 | uint32(p[22])<<8 | uint32(p[23])
		if !bytes.Equal(h.Data[:], p[:20]) || n != wn || !bytes.Equal(d, p[24:]) {
			return core.Fail("split", "Split of %x: %x %d %d bytes", trunc(p), h.Data, n, len(d))
		}
		// hash and bytes keep their values when the other is used
		for i := range h.Data {
			h.Data[i] ^= 0xff
		}
		if !bytes.Equal(b, raw) {
			return core.Fail("split-shared-hash", "the hash of a split packet is part of the packet")
		}
		if h2, n2, d2 := dp.Split(); !bytes.Equal(h2.Data[:], p[:20]) || n2 != wn || !bytes.Equal(d2, p[24:]) {
			return core.Fail("split-twice", "a second Split of %x: %x %d %d bytes", trunc(p), h2.Data, n2, len(d2))
		}
		o.Label("split")
	}
	labelMsg(c.M, o)
	return nil
}

func labelMsg(m wire.Msg, o *core.Obs) {
	o.Label([]string{"discover-request", "discover-response", "list-request", "list-response", "open", "data", "ack"}[m.Kind])
	o.LabelIf(len(m.Bounds) > 254, "too-many-ranges")
	for _, e := range m.Entries {
		if len(e.Name) > 255 {
			o.Label("name-too-long")
			break
		}
	}
	if len(m.Bounds) > 0 || len(m.Entries) > 0 || len(m.Payload) > 0 || m.Kind == wire.Open || m.Kind == wire.Ack || m.Kind == wire.ListReq {
		o.NT()
	}
}

func genMsgCase(t *rapid.T) msgCase {
	many := 0
	if rapid.IntRange(0, 399).Draw(t, "many") == 399 {
		many = rapid.SampledFrom([]int{3000, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 70000}).Draw(t, "entries")
	}
	return msgCase{M: genMsg(t, true), Many: many, Pad: rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 40), rapid.Just(make([]byte, 1000))).Draw(t, "pad")}
}

func runC05(c msgCase, o *core.Obs) error {
	c.expand(o)
	if got, want := toClient(c.M).Serialize(), c.M.Encode(); !bytes.Equal(got, want) {
		at := 0
		for at < len(got) && at < len(want) && got[at] == want[at] {
			at++
		}
		return core.Fail("layout-written", "kind %d: %d bytes written, %d published; first difference at byte %d: %x / %x", c.M.Kind, len(got), len(want), at, trunc(got[at:]), trunc(want[at:]))
	}
	y, err := decodeClient(c.M.Kind, c.M.Encode())
	if err != nil {
		return core.Fail("layout-refused", "kind %d: %v", c.M.Kind, err)
	}
	if got, ok := fromClient(y); !ok || !wire.Equal(got, c.M.Fit()) {
		return core.Fail("layout-read", "kind %d: published bytes of %+v read as %+v", c.M.Kind, c.M.Fit(), got)
	}
	labelMsg(c.M, o)
	return nil
}

// --- C06: bytes that are not a message

type parseCase struct {
	M     wire.Msg
	Cut   int // keep this many bytes (-1: all)
	Flips [][2]int
	Pad   []byte
	Raw   []byte
	IsRaw bool
}

func runParse(c parseCase, o *core.Obs) error {
	b := c.M.Encode()
	if c.IsRaw {
		b = append([]byte{}, c.Raw...)
	} else {
		for _, f := range c.Flips {
			b[f[0]%len(b)] ^= byte(f[1])
		}
		b = append(b, c.Pad...)
		if c.Cut >= 0 && c.Cut < len(b) {
			b = b[:c.Cut]
		}
	}
	b = b[:len(b):len(b)]
	keep := append([]byte(nil), b...)
	want, ok := wire.Decode(b)
	ok = ok && want.Kind != wire.Data
	y, err := messages.Parse(b)
	if !bytes.Equal(b, keep) {
		return core.Fail("parse-altered-input", "Parse changed its input")
	}
	switch {
	case err != nil:
		if ok {
			// an open message may be required to have its padding
			if want.Kind == wire.Open && len(b) < 32 {
				return nil
			}
			return core.Fail("message-refused", "%d bytes of kind %d refused: %v (%x)", len(b), want.Kind, err, trunc(b))
		}
		o.Label("refused")
	case !ok:
		return core.Fail("non-message-accepted", "%d bytes that are no complete message were read as %T: %x", len(b), y, trunc(b))
	default:
		got, known := fromClient(y)
		if !known || !wire.Equal(got, want) {
			return core.Fail("message-misread", "%x read as %+v, want %+v", trunc(b), got, want)
		}
		o.Label("accepted")
	}
	o.LabelIf(len(b) == 0, "empty")
	if len(b) > 0 && (c.IsRaw || len(c.Flips) > 0 || c.Cut >= 0) {
		o.NT()
	}
	return nil
}

func init() {
	rule := "any message of any kind (boundary and random field values, 0..400 ranges, names of 0..600 bytes, up to 700 and sometimes 70000 entries, payloads up to 65000 bytes) "
	core.Register(core.Sub{Prop: "C04", Name: "round-trip", Quick: 40000, Thorough: 1500000,
		Rule: rule + "is encoded and decoded by the client, bare and with trailing padding; non-trivial when it has a list, a payload or fixed fields beyond the id"}, genMsgCase, runC04)
	core.Register(core.Sub{Prop: "C05", Name: "layout", Quick: 40000, Thorough: 1500000,
		Rule: rule + "is encoded by the client and by an independent codec and the bytes compared, and the independent bytes decoded by the client; non-trivial as for C04"}, genMsgCase, runC05)
	core.Register(core.Sub{Prop: "C06", Name: "parse", Quick: 40000, Thorough: 2000000,
		Rule: "bytes made from a valid message by truncation, bit flips and padding, or arbitrary bytes with a plausible first byte; the parser must agree with an independent decoder on whether they are a complete message and what it says; non-trivial when the bytes are not a plain valid message"},
		func(t *rapid.T) parseCase {
			c := parseCase{Cut: -1}
			if rapid.IntRange(0, 4).Draw(t, "raw") == 0 {
				c.IsRaw = true
				c.Raw = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 80), rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 255}), 0, 120)).Draw(t, "bytes")
				if len(c.Raw) > 0 && rapid.Bool().Draw(t, "kindly") {
					c.Raw[0] = byte(rapid.IntRange(0, 8).Draw(t, "k0"))
				}
				return c
			}
			c.M = genMsg(t, false)
			n := len(c.M.Encode())
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				c.Cut = rapid.IntRange(0, n).Draw(t, "cut")
			case 1:
				c.Cut = max(0, n-rapid.IntRange(0, 5).Draw(t, "less"))
			case 2:
				k := rapid.IntRange(1, 3).Draw(t, "nf")
				for i := 0; i < k; i++ {
					c.Flips = append(c.Flips, [2]int{rapid.IntRange(0, min(n-1, 40)).Draw(t, "at"), rapid.IntRange(1, 255).Draw(t, "mask")})
				}
			default:
				c.Pad = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "pad")
			}
			return c
		}, runParse)
}
