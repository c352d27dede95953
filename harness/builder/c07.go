package builder

import (
	"image/color"

	"github.com/tinne26/ggfnt"
)

type hSection struct {
	name   string
	alphas []uint8
	colors []color.RGBA
}

// hColors defines dyes and palettes with symbolic values and names that start
// with a symbolic character, and checks that the builder accepts them.
func hColors(b *Font, nd, np, maxLen int) (dyes, pals []hSection) {
	for i := 0; i < nd; i++ {
		d := hSection{name: string([]byte{'d', hChar(), byte('0' + i)})}
		for k := vPick(1, maxLen); k > 0; k-- {
			d.alphas = append(d.alphas, vU8())
		}
		if i == 1 {
			d.name = "long-dye-name-" + d.name
		}
		given := append([]uint8{}, d.alphas...)
		vAssert(b.AddDye(d.name, given...) == nil, "a valid dye is refused")
		given[0]++ // the builder must not keep the slice
		dyes = append(dyes, d)
	}
	for i := 0; i < np; i++ {
		p := hSection{name: string([]byte{'p', byte('A' + i), hChar()})}
		for k := vPick(1, maxLen); k > 0; k-- {
			p.colors = append(p.colors, color.RGBA{vU8(), vU8(), vU8(), vU8()})
		}
		given := append([]color.RGBA{}, p.colors...)
		vAssert(b.AddPalette(p.name, given...) == nil, "a valid palette is refused")
		given[0].R++
		pals = append(pals, p)
	}
	return
}

func hCheckColors(f *ggfnt.Font, dyes, pals []hSection) {
	if len(dyes)+len(pals) == 0 {
		// the default dye
		dyes = []hSection{{name: "main", alphas: []uint8{255}}}
	}
	c := f.Color()
	vAssert(int(c.NumDyes()) == len(dyes) && int(c.NumPalettes()) == len(pals), "wrong number of color sections")
	n, total := 0, 0
	c.EachDye(func(k ggfnt.DyeKey, name string) {
		vAssert(int(k) == n && n < len(dyes) && name == dyes[n].name, "wrong dye name or key")
		n++
	})
	vAssert(n == len(dyes), "wrong number of dyes")
	var all []color.RGBA
	all = append(all, color.RGBA{})
	for i, d := range dyes {
		vAssert(int(c.NumDyeAlphas(ggfnt.DyeKey(i))) == len(d.alphas), "wrong number of alphas")
		k := 0
		c.EachDyeAlpha(ggfnt.DyeKey(i), func(a uint8) {
			vAssert(k < len(d.alphas) && a == d.alphas[k], "wrong alpha")
			k++
			all = append(all, color.RGBA{a, a, a, a})
		})
		vAssert(k == len(d.alphas), "alphas missing")
		total += k
	}
	vAssert(int(c.NumDyeIndices()) == total, "wrong number of dye indices")
	n = 0
	c.EachPalette(func(k ggfnt.PaletteKey, name string) {
		vAssert(int(k) == n && n < len(pals) && name == pals[n].name, "wrong palette name or key")
		n++
	})
	vAssert(n == len(pals), "wrong number of palettes")
	nd := total
	for i, p := range pals {
		vAssert(int(c.NumPaletteColors(ggfnt.PaletteKey(i))) == len(p.colors), "wrong number of colors")
		k := 0
		c.EachPaletteColor(ggfnt.PaletteKey(i), func(x color.RGBA) {
			vAssert(k < len(p.colors) && x == p.colors[k], "wrong palette color")
			k++
			all = append(all, x)
		})
		vAssert(k == len(p.colors), "colors missing")
		total += k
	}
	vAssert(int(c.NumPaletteIndices()) == total-nd && int(c.Count()) == total, "wrong number of color indices")
	pal := c.GoColorPalette()
	vAssert(len(pal) == total+1, "wrong size of the color palette")
	for i, x := range pal {
		got, ok := x.(color.RGBA)
		vAssert(ok && got == all[i], "wrong color in the color palette")
	}
}

// Up to 2 dyes and 2 palettes (3 and 3 thorough) of 1 or 2 (3) values each, all
// values symbolic, names with symbolic characters; keys outside of the defined
// ones panic.
//
//verif:reach none some
func vhC07_Sections() {
	b := New()
	hGlyph(b, 1)
	nd, np := vPick(0, vBound(2, 3)), vPick(0, vBound(2, 3))
	dyes, pals := hColors(b, nd, np, vBound(2, 3))
	f := hBuild(b)
	hCheckColors(f, dyes, pals)
	if nd+np == 0 {
		vReach("none")
		nd = 1
	} else {
		vReach("some")
	}
	k := vU8()
	if int(k) >= nd {
		vAssert(vPanics(func() { f.Color().NumDyeAlphas(ggfnt.DyeKey(k)) }), "an undefined dye has alphas")
		vAssert(vPanics(func() { f.Color().EachDyeAlpha(ggfnt.DyeKey(k), func(uint8) {}) }), "an undefined dye has alphas")
	}
	if int(k) >= np {
		vAssert(vPanics(func() { f.Color().NumPaletteColors(ggfnt.PaletteKey(k)) }), "an undefined palette has colors")
		vAssert(vPanics(func() { f.Color().EachPaletteColor(ggfnt.PaletteKey(k), func(color.RGBA) {}) }), "an undefined palette has colors")
	}
}

// The indices that the builder reports for the alphas and colors of different
// sections are disjoint, not zero, and go with the right values.
func vhC07_Indices() {
	b := New()
	hGlyph(b, 1)
	nd, np := vPick(0, 2), vPick(0, 2)
	dyes, pals := hColors(b, nd, np, 2)
	var used [256]bool
	for _, d := range dyes {
		k := 0
		err := b.EachDyeAlpha(d.name, func(a, i uint8) {
			vAssert(k < len(d.alphas) && a == d.alphas[k], "wrong alpha in the builder")
			vAssert(i != 0 && !used[i], "color index used twice")
			used[i] = true
			k++
		})
		vAssert(err == nil && k == len(d.alphas), "alphas missing in the builder")
	}
	for _, p := range pals {
		k := 0
		err := b.EachPaletteColor(p.name, func(c color.RGBA, i uint8) {
			vAssert(k < len(p.colors) && c == p.colors[k], "wrong color in the builder")
			vAssert(i != 0 && !used[i], "color index used twice")
			used[i] = true
			k++
		})
		vAssert(err == nil && k == len(p.colors), "colors missing in the builder")
	}
	vAssert(b.EachDyeAlpha("none", func(a, i uint8) {}) != nil, "an undefined dye is found")
	vAssert(b.EachPaletteColor("none", func(c color.RGBA, i uint8) {}) != nil, "an undefined palette is found")
}

// Sections up to and over the maximum of 255 indices, repeated names, empty
// names and sections: refused without consequences.
//
//verif:reach fits exceeds
func vhC07_Limits() {
	b := New()
	hGlyph(b, 1)
	n1 := vPick(250, 255)
	n2 := vPick(1, 6)
	as := vBytes(3)
	alphas := make([]uint8, n1)
	alphas[0], alphas[n1/2], alphas[n1-1] = as[0], as[1], as[2]
	var dyes, pals []hSection
	var err error
	asDye := vPick(0, 1) == 1
	if asDye {
		err = b.AddDye("first", alphas...)
		dyes = append(dyes, hSection{name: "first", alphas: alphas})
	} else {
		s := hSection{name: "first"}
		for _, a := range alphas {
			s.colors = append(s.colors, color.RGBA{a, 0, a, 255})
		}
		err = b.AddPalette("first", s.colors...)
		pals = append(pals, s)
	}
	vAssert(err == nil, "a valid color section is refused")
	vAssert(b.AddDye("first", 1) != nil && b.AddPalette("first", color.RGBA{}) != nil, "a repeated name is accepted")
	vAssert(b.AddDye("", 1) != nil && b.AddPalette("", color.RGBA{}) != nil, "an empty name is accepted")
	vAssert(b.AddDye("empty") != nil && b.AddPalette("empty") != nil, "an empty section is accepted")
	if vPick(0, 1) == 1 {
		s := hSection{name: "second", alphas: vBytes(n2)}
		err = b.AddDye(s.name, s.alphas...)
		if n1+n2 <= 255 {
			dyes = append(dyes, s)
		}
	} else {
		s := hSection{name: "second"}
		for i := 0; i < n2; i++ {
			s.colors = append(s.colors, color.RGBA{vU8(), 1, 2, 3})
		}
		err = b.AddPalette(s.name, s.colors...)
		if n1+n2 <= 255 {
			pals = append(pals, s)
		}
	}
	vAssert((err == nil) == (n1+n2 <= 255), "wrong limit of color indices")
	if err == nil {
		vReach("fits")
	} else {
		vReach("exceeds")
	}
	hCheckColors(hBuild(b), dyes, pals)
}
