package ppm

import (
	"errors"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
)

// A colour is stored as its displayed brightness, in steps of 1/65535.
//
//verif:target imagef/ppm.trunc
//verif:target imagef/colorf.LinearToSRGB
func C24_trunc(c float64) {
	s := colorf.LinearToSRGB(c)
	n := trunc(c)
	ensures("in range", 0 <= n && n <= 65535)
	x := s * 65535
	ensures("not more", !(x >= 0) || float64(n) <= x)
	ensures("within one step", !(x <= 65535) || x < float64(n)+1)
}

// Numbers are stored high byte first.
//
//verif:target imagef/ppm.encodeUint16BE
func C24_bigEndian(x uint16) {
	b := []byte{1, 2}
	encodeUint16BE(b, x)
	ensures("high byte first", int(b[0])*256+int(b[1]) == int(x))
}

// sFile counts, after a header, the data written and keeps that of one pixel. Writing may
// fail.
type sFile struct {
	full     bool // writes fail
	failed   bool // a write has
	counting bool
	head     int // bytes still to come before the data
	wid      int
	row, col int
	k        int // of the bytes, or numbers, of a pixel
	R, C     int
	bin      [6]int
}

func (f *sFile) Write(p []byte) (int, error) {
	if f.full {
		f.failed = true
		return 0, errors.New("full")
	}
	if f.counting {
		f.head += len(p)
		return len(p), nil
	}
	if f.head > 0 {
		f.head -= len(p)
		return len(p), nil
	}
	for i := 0; i < len(p); i++ {
		f.step(int(p[i]), 6)
	}
	return len(p), nil
}

func (f *sFile) step(x, n int) {
	if f.row == f.R && f.col == f.C {
		f.bin[f.k] = x
	}
	f.k++
	if f.k == n {
		f.k = 0
		f.col++
	}
	if f.col == f.wid {
		f.col = 0
		f.row++
	}
}

func sImage(img imagef.Image, W, R, C int) {
	H := len(img)
	requires(W > 0 && 0 <= R && R < H && 0 <= C && C < W)
	requires(forallInt(0, H, func(i int) bool { return len(img[i]) == W }))
}

// Every pixel is stored, in order of rows and columns, as its three 16-bit numbers.
//
//verif:target imagef/ppm.Encode48BE
//verif:target imagef/ppm.writeHeader
//verif:opt unroll=7
//verif:opt pure=imagef/ppm.trunc
func C24_binary(img imagef.Image, W, R, C int) {
	sImage(img, W, R, C)
	h := &sFile{counting: true}
	herr := writeHeader(h, "P6", img)
	ensures("header written", herr == nil)
	f := &sFile{wid: W, R: R, C: C, head: h.head}
	loopinv(func() bool {
		return f.k == 0 && f.head <= 0 && f.wid == W && f.R == R && f.C == C && !f.full && !f.failed
	})
	loopinv(func(it int) bool { return f.col == 0 && f.row == it })
	loopinv(func(it int) bool {
		row := entryInt(func() int { return f.row })
		return entryInt(func() int { return f.col }) == 0 &&
			(it < W && f.row == row && f.col == it || it == W && f.row == row+1 && f.col == 0)
	})
	c := img[R][C]
	r, g, b := uint16(trunc(c.R)), uint16(trunc(c.G)), uint16(trunc(c.B))
	past := func() bool { return f.row > R || f.row == R && f.col > C }
	loopinv(func() bool { return !past() || f.bin[0] == int(byte(r>>8)) && f.bin[1] == int(byte(r)) })
	loopinv(func() bool { return !past() || f.bin[2] == int(byte(g>>8)) && f.bin[3] == int(byte(g)) })
	loopinv(func() bool { return !past() || f.bin[4] == int(byte(b>>8)) && f.bin[5] == int(byte(b)) })
	err := Encode48BE(f, img)
	ensures("no error", err == nil)
	ensures("all pixels", f.row == len(img) && f.col == 0 && f.k == 0)
	ensures("R", f.bin[0]*256+f.bin[1] == int(r))
	ensures("G", f.bin[2]*256+f.bin[3] == int(g))
	ensures("B", f.bin[4]*256+f.bin[5] == int(b))
}

// sFull is a file of limited size: the write after the first so many fails.
type sFull struct {
	room   int
	failed bool
}

func (f *sFull) Write(p []byte) (int, error) {
	if f.room <= 0 {
		f.failed = true
		return 0, errors.New("full")
	}
	f.room--
	return len(p), nil
}

// A failure to write is reported, wherever it occurs; without one there is no error.
//
//verif:target imagef/ppm.Encode48BE
//verif:target imagef/ppm.EncodeAscii16
//verif:target imagef/ppm.writeHeader
//verif:opt pure=imagef/ppm.trunc
func C24_errors(img imagef.Image, W, room int, ascii bool) {
	sImage(img, W, 0, 0)
	requires(room >= 0)
	f := &sFull{room: room}
	loopinv(func() bool { return !f.failed })
	var err error
	if ascii {
		err = EncodeAscii16(f, img)
	} else {
		err = Encode48BE(f, img)
	}
	ensures("failures are reported", !f.failed || err != nil)
	ensures("no false alarms", f.failed || err == nil)
}

// sText keeps what the header says.
type sText struct {
	n     int
	magic string
	num   [3]int
}

func (f *sText) Write(p []byte) (int, error) {
	for k := 0; k < printedCount(p); k++ {
		if f.n == 0 {
			f.magic = printedString(p, k)
		} else if f.n < 4 {
			f.num[f.n-1] = printedInt(p, k)
		}
		f.n++
	}
	return len(p), nil
}

// The header gives format, width, height and the largest number.
//
//verif:target imagef/ppm.writeHeader
func C24_header(img imagef.Image, W int, ascii bool) {
	sImage(img, W, 0, 0)
	f := &sText{}
	format := "P6"
	if ascii {
		format = "P3"
	}
	err := writeHeader(f, format, img)
	ensures("no error", err == nil)
	ensures("four items", f.n == 4)
	ensures("format", f.magic == format)
	ensures("width", f.num[0] == W)
	ensures("height", f.num[1] == len(img))
	ensures("largest number", f.num[2] == 65535)
}

// sNumbers counts, after the four items of the header, the numbers of pixels.
type sNumbers struct {
	sFile
	items int
	magic string
}

func (f *sNumbers) Write(p []byte) (int, error) {
	for k := 0; k < printedCount(p); k++ {
		if f.items == 0 {
			f.magic = printedString(p, k)
		}
		if f.items < 4 {
			f.items++
		} else {
			f.step(printedInt(p, k), 3)
		}
	}
	return len(p), nil
}

// As text, too, every pixel is stored in order, as its three numbers.
//
//verif:target imagef/ppm.EncodeAscii16
//verif:target imagef/ppm.writeHeader
//verif:opt unroll=7
//verif:opt pure=imagef/ppm.trunc
func C24_text(img imagef.Image, W, R, C int) {
	sImage(img, W, R, C)
	f := &sNumbers{sFile: sFile{wid: W, R: R, C: C}}
	loopinv(func() bool { return f.k == 0 && f.items == 4 && f.wid == W && f.R == R && f.C == C && f.magic == "P3" })
	loopinv(func(it int) bool { return f.col == 0 && f.row == it })
	loopinv(func(it int) bool {
		row := entryInt(func() int { return f.row })
		return entryInt(func() int { return f.col }) == 0 &&
			(it < W && f.row == row && f.col == it || it == W && f.row == row+1 && f.col == 0)
	})
	c := img[R][C]
	r, g, b := trunc(c.R), trunc(c.G), trunc(c.B)
	loopinv(func() bool {
		return f.row < R || f.row == R && f.col <= C || f.bin[0] == r && f.bin[1] == g && f.bin[2] == b
	})
	err := EncodeAscii16(f, img)
	ensures("no error", err == nil)
	ensures("format", f.magic == "P3")
	ensures("all pixels", f.row == len(img) && f.col == 0 && f.k == 0)
	ensures("R", f.bin[0] == r)
	ensures("G", f.bin[1] == g)
	ensures("B", f.bin[2] == b)
}
