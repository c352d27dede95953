package builder

import (
	"io"

	"github.com/tinne26/ggfnt"
)

// hEdition is edition data: what refers to things that do not exist is not
// valid.
type hEdition struct {
	cats    []string
	sizes   []uint16
	classes []string
	values  []uint8
	pairs   [2][]hEditionPair // horizontal and vertical
	valid   bool
}

type hEditionPair struct {
	a, b, class int
}

// bytes encodes edition data as specified.
func (d *hEdition) bytes(id uint64) []byte {
	var out []byte
	out = hLE(out, int(id), 8)
	out = append(out, byte(len(d.cats)))
	for _, s := range d.cats {
		out = append(append(out, byte(len(s))), s...)
	}
	for _, n := range d.sizes {
		out = append(out, byte(n), byte(n>>8))
	}
	out = hLE(out, len(d.classes), 2)
	for _, s := range d.classes {
		out = append(append(out, byte(len(s))), s...)
	}
	out = append(out, d.values...)
	for _, list := range d.pairs {
		out = hLE(out, len(list), 3)
		for _, p := range list {
			out = hLE(hLE(hLE(out, p.a, 2), p.b, 2), p.class, 2)
		}
	}
	return append(out, 0) // no condition names
}

// hEditionFont is a font of 3 glyphs with two kernings.
func hEditionFont() (*Font, []uint64) {
	b := New()
	u := hGlyphs(b, 3)
	b.SetKerningPair(u[0], u[1], 7)
	b.SetKerningPair(u[2], u[2], -3)
	return b, u
}

// index picks a valid index below n or any other that is not.
func (d *hEdition) index(n int, first int) int {
	k := vPick(first, n)
	if k < n {
		return k
	}
	v := vU16()
	vAssume(int(v) >= n || int(v) < first)
	d.valid = false
	return int(v)
}

// hAnyEdition has up to 2 kerning classes of any value and up to 2 pairs; some
// of the indices may be of things that do not exist.
func hAnyEdition() *hEdition {
	d := &hEdition{valid: true}
	for i := vPick(0, 1); i > 0; i-- {
		d.cats = append(d.cats, "Cat-"+string([]byte{'0' + byte(i)})+" x")
		d.sizes = append(d.sizes, 3)
	}
	for i := vPick(0, 2); i > 0; i-- {
		d.classes = append(d.classes, "k "+string([]byte{'0' + byte(i)}))
		d.values = append(d.values, vU8())
	}
	for i := vPick(0, vBound(2, 3)); i > 0; i-- {
		k := vPick(0, 1)
		p := hEditionPair{a: d.index(3, 0), b: vPick(0, 1), class: 1}
		switch {
		case i == 1:
			p.class = d.index(len(d.classes)+1, 1)
		case len(d.classes) == 0:
			d.valid = false
		}
		d.pairs[k] = append(d.pairs[k], p)
	}
	return d
}

// check compares the kernings of a build.
func (d *hEdition) check(b *Font) {
	f := hBuild(b)
	for a := 0; a < 3; a++ {
		for c := 0; c < 3; c++ {
			want := [2]int8{}
			if a == 0 && c == 1 {
				want[0] = 7
			}
			if a == 2 && c == 2 {
				want[0] = -3
			}
			for k := range d.pairs {
				for _, p := range d.pairs[k] {
					if p.a == a && p.b == c {
						want[k] = int8(d.values[p.class-1])
					}
				}
			}
			vAssert(f.Kerning().Get(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(c)) == want[0], "wrong horizontal kerning")
			vAssert(f.Kerning().GetVert(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(c)) == want[1], "wrong vertical kerning")
		}
	}
}

func hEditionSig() [][]byte { return [][]byte{[]byte("wkgfnt")} }

// Edition data with up to 1 category, up to 2 kerning classes of any value and
// up to 2 (3 thorough) pairs of each of 3 glyphs or any other index, and of
// each class or any other: it is accepted exactly if all exist, a build has
// then the kernings of the classes, and clearing it (or refusing it) leaves a
// build as it was.
//
//verif:reach accepted refused
func vhC28_Pairs() {
	vMapOrder(1)
	b, _ := hEditionFont()
	before := hBuild(b)
	d := hAnyEdition()
	err := b.ParseEditionData(hStream(hEditionSig(), [][]byte{d.bytes(b.GetFontID())}, io.EOF, true))
	vAssert((err == nil) == d.valid, "wrong acceptance of edition data")
	if err == nil {
		vReach("accepted")
		d.check(b)
		b.ClearEditionData()
	} else {
		vReach("refused")
	}
	vAssert(string(hBuild(b).Data) == string(before.Data), "edition data leaves something behind")
}

// Two edition data one after the other, the second one with a pair more or
// without pairs, over the first: only the second counts.
//
//verif:reach accepted
func vhC28_Again() {
	vMapOrder(1)
	b, u := hEditionFont()
	one := &hEdition{classes: []string{"one", "two"}, values: []uint8{vU8(), vU8()}}
	for k := range one.pairs {
		one.pairs[k] = []hEditionPair{{0, vPick(0, 1), 2}, {1, 1, 1}}
	}
	two := &hEdition{classes: []string{"Three"}, values: []uint8{vU8()}}
	if vPick(0, 1) == 1 {
		two.pairs[vPick(0, 1)] = []hEditionPair{{vPick(0, 1), 1, 1}}
	}
	for _, d := range []*hEdition{one, two} {
		err := b.ParseEditionData(hStream(hEditionSig(), [][]byte{d.bytes(b.GetFontID())}, io.EOF, false))
		vAssert(err == nil, "valid edition data is refused")
		d.check(b)
	}
	b.SetKerningPair(u[0], u[1], 7)
	b.SetKerningPair(u[1], u[1], 0)
	vReach("accepted")
	b.ClearEditionData()
	(&hEdition{}).check(b)
}

// Edition data cut at any byte or followed by up to 2 bytes, of another font
// (any other ID), with any other signature, with a name without characters or
// with any character, delivered in one part or byte by byte: it is accepted
// exactly if nothing is wrong, and otherwise leaves a build as it was.
//
//verif:reach accepted refused
func vhC28_Broken() {
	vMapOrder(1)
	b, _ := hEditionFont()
	before := hBuild(b)
	d := &hEdition{cats: []string{"a", "b"}, sizes: []uint16{1, 2}, classes: []string{"c"}, values: []uint8{4}}
	d.pairs[0] = []hEditionPair{{0, 1, 1}, {1, 1, 1}}
	d.pairs[1] = []hEditionPair{{2, 1, 1}}
	id := b.GetFontID()
	sig := hEditionSig()
	ok := true
	data := d.bytes(id)
	switch vPick(0, 6) {
	case 1:
		data = data[:vPick(0, len(data)-1)]
		ok = false
	case 2:
		data = append(data, vBytes(vPick(1, 2))...)
		ok = false
	case 3:
		id = vU64()
		vAssume(id != b.GetFontID())
		data = d.bytes(id)
		ok = false
	case 4:
		s := vBytes(6)
		sig = [][]byte{s}
		ok = string(s) == "wkgfnt"
	case 5:
		if vPick(0, 1) == 0 {
			d.cats[1] = ""
		} else {
			d.classes[0] = ""
		}
		data = d.bytes(id)
		ok = false
	case 6:
		c := vU8()
		s := string([]byte{'x', c, 'y'})
		if vPick(0, 1) == 0 {
			d.cats[0] = s
		} else {
			d.classes[0] = s
		}
		data = d.bytes(id)
		ok = vB2I(c >= 'a')&vB2I(c <= 'z')|vB2I(c >= 'A')&vB2I(c <= 'Z')|vB2I(c >= '0')&vB2I(c <= '9')|vB2I(c == ' ')|vB2I(c == '-') == 1
	}
	parts := [][]byte{data}
	if vPick(0, 1) == 1 {
		parts = hSplit(data, 1)
		sig = hSplit(append(append([]byte{}, sig[0]...)), 1)
	}
	err := b.ParseEditionData(hStream(sig, parts, io.EOF, vPick(0, 1) == 1))
	vAssert((err == nil) == ok, "wrong acceptance of edition data")
	if err != nil {
		vReach("refused")
	} else {
		vReach("accepted")
		d.check(b)
		b.ClearEditionData()
	}
	vAssert(string(hBuild(b).Data) == string(before.Data), "edition data leaves something behind")
}
