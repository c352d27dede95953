package builder

// hSections is the content of a font file by sections, each of them empty
// until set.
type hSections struct {
	head                                []byte // up to the glyph masks
	words, settings, switches, mapping  []byte
	conds, usets, gsets, urules, grules []byte
	hkern, vkern                        []byte
}

// hEmpty takes a font with n simple glyphs from the builder.
func hEmpty(n int) *hSections {
	b := New()
	hGlyphs(b, n)
	data := hBuild(b).Data
	z := []byte{0, 0, 0}
	return &hSections{
		head: data[:len(data)-18], words: z[:1], settings: z[:1], switches: z[:1], mapping: z[:2],
		conds: z[:1], usets: z[:1], gsets: z[:1], urules: z[:2], grules: z[:2], hkern: z[:3], vkern: z[:3],
	}
}

func (s *hSections) bytes() []byte {
	var out []byte
	for _, b := range [][]byte{s.head, s.words, s.settings, s.switches, s.mapping, s.conds, s.usets, s.gsets, s.urules, s.grules, s.hkern, s.vkern} {
		out = append(out, b...)
	}
	return out
}

// hTable encodes a table: the number of items in countSize bytes, their end
// offsets in offSize bytes each, and the items.
func hTable(countSize, offSize int, items [][]byte) []byte {
	var out []byte
	out = hLE(out, len(items), countSize)
	end := 0
	for _, it := range items {
		end += len(it)
		out = hLE(out, end, offSize)
	}
	for _, it := range items {
		out = append(out, it...)
	}
	return out
}

func hLE(out []byte, v, size int) []byte {
	for i := 0; i < size; i++ {
		out = append(out, byte(v))
		v >>= 8
	}
	return out
}

// hSettingsOf encodes settings with the given numbers of options, all of them
// predefined words.
func hSettingsOf(options ...int) []byte {
	if len(options) == 0 {
		return []byte{0}
	}
	var names, defs [][]byte
	for i, n := range options {
		names = append(names, []byte{'a' + byte(i%26), 'a' + byte(i/26)})
		d := make([]byte, n)
		for j := range d {
			d[j] = byte(j % 255)
		}
		defs = append(defs, d)
	}
	return append(hTable(1, 2, names), hTable(0, 2, defs)...)
}
