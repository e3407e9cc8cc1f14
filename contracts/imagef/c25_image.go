package imagef

import (
	"github.com/barnex/bruteray/imagef/colorf"
)

// Rows of a new image, when cut from one list of pixels or made one by one.
func sRows(w int) {
	loopinv(func(it int, any_img Image, any_list []colorf.Color) bool {
		return forallInt(0, it, func(k int) bool {
			return len(any_img[k]) == w && (w == 0 || &any_img[k][0] == &any_list[k*w])
		})
	})
	loopinv(func(it int, any_img ImageGray, any_list []float64) bool {
		return forallInt(0, it, func(k int) bool {
			return len(any_img[k]) == w && (w == 0 || &any_img[k][0] == &any_list[k*w])
		})
	})
}

// A new image has the size asked for, is black, and its pixels are apart from each other.
//verif:target imagef.MakeImage
//verif:target (imagef.Image).Size
//verif:target (imagef.Image).Bounds
//verif:target (imagef.Image).NumPixels
//verif:target (imagef.Image).At
func C25_make(w, h, x, y, i, j int, c colorf.Color) {
	requires(0 <= x && x < w && 0 <= i && i < w && 0 <= y && y < h && 0 <= j && j < h)
	sRows(w)
	lemma("fits", func() bool { return w*h >= 1 })
	img := MakeImage(w, h)
	ensures("height", len(img) == h)
	ensures("width", len(img[y]) == w)
	gw, gh := img.Size()
	ensures("size", gw == w && gh == h)
	b := img.Bounds()
	ensures("bounds", b.Min.X == 0 && b.Min.Y == 0 && b.Max.X == w && b.Max.Y == h)
	ensures("pixels", img.NumPixels() == w*h)
	ensures("black", eqx(img[y][x], colorf.Color{}))
	lemma("apart", func() bool {
		return (j >= y || j*w+i < y*w+x) && (j <= y || j*w+i > y*w+x)
	})
	img[j][i] = c
	if i == x && j == y {
		ensures("set", eqx(img[y][x], c))
	} else {
		ensures("others are not", eqx(img[y][x], colorf.Color{}))
	}
	ensures("column, then row", eqx(img.At(i, j), c))
}

// An empty image has no pixels.
//verif:target (imagef.Image).Size
//verif:target (imagef.Image).NumPixels
func C25_empty() {
	var img Image
	w, h := img.Size()
	ensures("no pixels", w == 0 && h == 0 && img.NumPixels() == 0)
}

// A copy has the same pixels and is independent of its original.
//verif:target (imagef.Image).Copy
//verif:target imagef.MakeImage
func C25_copy(img Image, w, x, y, i, j int, c colorf.Color) {
	h := len(img)
	requires(0 <= x && x < w && 0 <= i && i < w && 0 <= y && y < h && 0 <= j && j < h)
	requires(forallInt(0, h, func(k int) bool { return len(img[k]) == w }))
	old := img[y][x]
	sRows(w)
	loopinv(func() bool { return eqx(img[y][x], old) })
	loopinv(func(it int, any_cpy Image) bool { return y >= it || eqx(any_cpy[y][x], old) })
	loopinv(func(it, any_y int, any_cpy Image) bool {
		return !(y < any_y || y == any_y && x < it) || eqx(any_cpy[y][x], old)
	})
	cpy := img.Copy()
	ensures("original unchanged", eqx(img[y][x], old) && len(img) == h && len(img[y]) == w)
	ensures("size", len(cpy) == h && len(cpy[y]) == w)
	ensures("same pixels", eqx(cpy[y][x], old))
	cpy[j][i] = c
	ensures("original independent", eqx(img[y][x], old))
}

// The same holds of grey images.
//verif:target imagef.MakeImageGray
//verif:target (imagef.ImageGray).At
//verif:target (imagef.ImageGray).Bounds
func C25_grey(w, h, x, y, i, j int, c float64) {
	requires(0 <= x && x < w && 0 <= i && i < w && 0 <= y && y < h && 0 <= j && j < h)
	sRows(w)
	lemma("fits", func() bool { return w*h >= 1 })
	img := MakeImageGray(w, h)
	ensures("size", len(img) == h && len(img[y]) == w)
	b := img.Bounds()
	ensures("bounds", b.Min.X == 0 && b.Min.Y == 0 && b.Max.X == w && b.Max.Y == h)
	ensures("black", eqx(img.At(x, y), colorf.Color{}))
	lemma("apart", func() bool {
		return (j >= y || j*w+i < y*w+x) && (j <= y || j*w+i > y*w+x)
	})
	img[j][i] = c
	if i == x && j == y {
		ensures("set", eqx(img.At(x, y), colorf.Color{R: c, G: c, B: c}))
	} else {
		ensures("others are not", eqx(img.At(x, y), colorf.Color{}))
	}
}
