// imagecmd monitors the image package: the pixels, format and dimensions of every decoded result.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math/rand/v2"

	"github.com/chai2010/webp"
	gimage "github.com/donnie4w/gofer/image"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"V01": v01, "V02": v02})
}

// px is the reference picture: straight (not premultiplied) 8 bit pixels.
type px struct {
	w, h int
	p    []color.NRGBA
}

func newPx(w, h int) *px { return &px{w, h, make([]color.NRGBA, w*h)} }

func (a *px) at(x, y int) color.NRGBA { return a.p[y*a.w+x] }

func (a *px) mapped(w, h int, from func(x, y int) (int, int)) *px {
	b := newPx(w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			b.p[y*w+x] = a.at(from(x, y))
		}
	}
	return b
}

func (a *px) each(f func(c color.NRGBA) color.NRGBA) *px {
	b := newPx(a.w, a.h)
	for i, c := range a.p {
		b.p[i] = f(c)
	}
	return b
}

func (a *px) flipH() *px {
	return a.mapped(a.w, a.h, func(x, y int) (int, int) { return a.w - 1 - x, y })
}
func (a *px) flipV() *px {
	return a.mapped(a.w, a.h, func(x, y int) (int, int) { return x, a.h - 1 - y })
}

// rotate turns counter-clockwise by q quarter turns.
func (a *px) rotate(q int) *px {
	q = ((q % 4) + 4) % 4
	for ; q > 0; q-- {
		b := a
		a = b.mapped(b.h, b.w, func(x, y int) (int, int) { return b.w - 1 - y, x })
	}
	return a
}

func (a *px) invert() *px {
	return a.each(func(c color.NRGBA) color.NRGBA { return color.NRGBA{255 - c.R, 255 - c.G, 255 - c.B, c.A} })
}

// gray: the ITU-R 601 luma, rounded; exact() tells whether got is right (a tie may round either way).
func grayOK(src, got color.NRGBA) bool {
	if got.R != got.G || got.G != got.B || got.A != src.A {
		return false
	}
	t := 299*int(src.R) + 587*int(src.G) + 114*int(src.B)
	d := int(got.R)*1000 - t
	return d >= -501 && d <= 501
}

func (a *px) crop(x0, y0, x1, y1 int) *px {
	x0, y0, x1, y1 = max(x0, 0), max(y0, 0), min(x1, a.w), min(y1, a.h)
	if x1 <= x0 || y1 <= y0 {
		return newPx(0, 0)
	}
	return a.mapped(x1-x0, y1-y0, func(x, y int) (int, int) { return x0 + x, y0 + y })
}

func toPx(m image.Image) *px {
	b := m.Bounds()
	a := newPx(b.Dx(), b.Dy())
	for y := 0; y < a.h; y++ {
		for x := 0; x < a.w; x++ {
			c := m.At(b.Min.X+x, b.Min.Y+y)
			if n, ok := c.(color.NRGBA); ok {
				a.p[y*a.w+x] = n
			} else {
				a.p[y*a.w+x] = color.NRGBAModel.Convert(c).(color.NRGBA)
			}
		}
	}
	return a
}

// source is an encoded picture and what it shows.
type source struct {
	data   []byte
	format string // as the decoders name it
	kind   string
	pix    *px
	exact  bool // 8 bit and stored without loss
	alpha  bool
}

func content(r *rand.Rand, w, h int, alpha bool) *px {
	a := newPx(w, h)
	style := r.IntN(4)
	base := color.NRGBA{uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32()), 255}
	for i := range a.p {
		x, y := i%w, i/w
		c := base
		switch style {
		case 0:
			c = color.NRGBA{uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32()), 255}
		case 1:
			c.R, c.G, c.B = c.R+uint8(x*3), c.G+uint8(y*5), c.B+uint8(x*y)
		case 2:
			if (x/3+y/2)%2 == 0 {
				c.R, c.G, c.B = ^c.R, ^c.G, c.B/2
			}
		case 3:
			c.R += uint8(i * 7)
		}
		if alpha {
			c.A = uint8(r.Uint32())
			if r.IntN(5) == 0 {
				c.A = 0
			}
		}
		a.p[i] = c
	}
	return a
}

func (a *px) nrgba() *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, a.w, a.h))
	for i, c := range a.p {
		m.SetNRGBA(i%a.w, i/a.w, c)
	}
	return m
}

// paletted reduces the picture to few colours and returns it both ways.
func (a *px) paletted(r *rand.Rand, alpha bool) (*image.Paletted, *px) {
	n := []int{2, 3, 4, 16, 17, 256}[r.IntN(6)]
	var pal color.Palette
	for i := 0; i < n; i++ {
		c := color.NRGBA{uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32()), 255}
		if alpha && r.IntN(4) == 0 {
			c.A = uint8(r.Uint32())
		}
		pal = append(pal, c)
	}
	m := image.NewPaletted(image.Rect(0, 0, a.w, a.h), pal)
	b := newPx(a.w, a.h)
	for i := range a.p {
		k := r.IntN(n)
		m.Pix[i/a.w*m.Stride+i%a.w] = uint8(k)
		b.p[i] = pal[k].(color.NRGBA)
	}
	return m, b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func size(r *rand.Rand) (int, int) {
	switch r.IntN(8) {
	case 0:
		return 1, 1 + r.IntN(60)
	case 1:
		return 1 + r.IntN(60), 1
	case 2:
		return 60 + r.IntN(240), 60 + r.IntN(240)
	case 3:
		n := 1 + r.IntN(40)
		return n, n
	}
	return 1 + r.IntN(48), 1 + r.IntN(48)
}

var kinds = []string{"png-nrgba", "png-opaque", "png-gray", "png-paletted", "png-16", "png-gray16", "bmp", "bmp-gray", "bmp-paletted",
	"tiff-nrgba", "tiff-gray", "tiff-paletted", "tiff-16", "gif", "jpeg", "jpeg-gray", "webp"}

func gen(r *rand.Rand, kind string) *source {
	w, h := size(r)
	return genSize(r, kind, w, h)
}

func genSize(r *rand.Rand, kind string, w, h int) *source {
	s := &source{kind: kind, exact: true}
	var b bytes.Buffer
	a := content(r, w, h, kind == "png-nrgba" || kind == "tiff-nrgba")
	gray := func() *image.Gray {
		m := image.NewGray(image.Rect(0, 0, w, h))
		for i := range a.p {
			g := a.p[i].G
			m.SetGray(i%w, i/w, color.Gray{g})
			a.p[i] = color.NRGBA{g, g, g, 255}
		}
		return m
	}
	tiffOpt := &tiff.Options{Compression: []tiff.CompressionType{tiff.Uncompressed, tiff.Deflate}[r.IntN(2)], Predictor: r.IntN(2) == 0}
	pngEnc := &png.Encoder{CompressionLevel: []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed}[r.IntN(3)]}
	deep := func() image.Image {
		m := image.NewNRGBA64(image.Rect(0, 0, w, h))
		for i := range m.Pix {
			m.Pix[i] = uint8(r.Uint32())
		}
		s.exact = false
		return m
	}
	switch kind {
	case "png-nrgba":
		s.format, s.alpha = "png", true
		must(pngEnc.Encode(&b, a.nrgba()))
	case "png-opaque":
		s.format = "png"
		must(pngEnc.Encode(&b, a.nrgba()))
	case "png-gray":
		s.format = "png"
		must(pngEnc.Encode(&b, gray()))
	case "png-paletted":
		s.format, s.alpha = "png", true
		m, q := a.paletted(r, true)
		a = q
		must(pngEnc.Encode(&b, m))
	case "png-16":
		s.format, s.alpha = "png", true
		must(pngEnc.Encode(&b, deep()))
	case "png-gray16":
		s.format = "png"
		m := image.NewGray16(image.Rect(0, 0, w, h))
		for i := range m.Pix {
			m.Pix[i] = uint8(r.Uint32())
		}
		s.exact = false
		must(pngEnc.Encode(&b, m))
	case "bmp":
		s.format = "bmp"
		must(bmp.Encode(&b, a.nrgba()))
	case "bmp-gray":
		s.format = "bmp"
		must(bmp.Encode(&b, gray()))
	case "bmp-paletted":
		s.format = "bmp"
		m, q := a.paletted(r, false)
		a = q
		must(bmp.Encode(&b, m))
	case "tiff-nrgba":
		s.format, s.alpha = "tiff", true
		must(tiff.Encode(&b, a.nrgba(), tiffOpt))
	case "tiff-gray":
		s.format = "tiff"
		must(tiff.Encode(&b, gray(), tiffOpt))
	case "tiff-paletted":
		s.format = "tiff"
		m, q := a.paletted(r, false)
		a = q
		must(tiff.Encode(&b, m, tiffOpt))
	case "tiff-16":
		s.format, s.alpha = "tiff", true
		must(tiff.Encode(&b, deep(), tiffOpt))
	case "gif":
		s.format = "gif"
		m, q := a.paletted(r, false)
		a = q
		must(gif.Encode(&b, m, nil))
	case "jpeg":
		s.format, s.exact = "jpeg", false
		must(jpeg.Encode(&b, a.nrgba(), &jpeg.Options{Quality: 1 + r.IntN(100)}))
	case "jpeg-gray":
		s.format, s.exact = "jpeg", false
		must(jpeg.Encode(&b, gray(), nil))
	case "webp":
		s.format = "webp"
		must(webp.Encode(&b, a.nrgba(), &webp.Options{Lossless: true}))
	}
	s.data, s.pix = b.Bytes(), a
	return s
}

var formats = map[string]string{"jpg": "jpeg", "jpeg": "jpeg", "png": "png", "gif": "gif", "bmp": "bmp", "tif": "tiff", "tiff": "tiff", "webp": "webp"}
var formatNames = []string{"jpg", "jpeg", "png", "gif", "bmp", "tif", "tiff", "webp"}

// call runs Encode on a copy of the data and checks that the input was not written to.
func call(c *vh.Case, data []byte, f func(d []byte) ([]byte, error)) (out []byte, err error, ok bool) {
	d := append([]byte{}, data...)
	ok = true
	if p := vh.Try(func() { out, err = f(d) }); p != "" {
		c.Violate("panic", "panic: %s", p)
		return nil, nil, false
	}
	return out, err, c.Check(bytes.Equal(d, data), "input-written", "the input data was changed")
}

func describe(s *source, o *gimage.Options) string {
	return fmt.Sprintf("%s %dx%d, options %+v", s.kind, s.pix.w, s.pix.h, *o)
}

func v01(r *vh.Run) {
	r.Rule("each case encodes a generated picture (17 source kinds, sizes from 1x1 to 300x300), runs the transform with a generated option set and target format, and compares format, size and (lossless kinds) every pixel of the decoded result with a reference transform written from the definition; counted by distinct (source, options)")
	r.Cases("transform", r.N(3000, 60000), 8, func(c *vh.Case) {
		s := gen(c.R, kinds[c.I%len(kinds)])
		o := &gimage.Options{}
		want := s.pix
		gray, ops := false, 0
		if c.R.IntN(3) == 0 {
			w, h, x, y := span(c.R, want.w), span(c.R, want.h), c.R.IntN(want.w+6)-3, c.R.IntN(want.h+6)-3
			if c.R.IntN(3) > 0 { // mostly overlapping the picture
				x, y = min(x, want.w-1), min(y, want.h-1)
			}
			o.CropAnchor = []int{w, h, x, y}
			want = want.crop(x, y, x+w, y+h)
			ops++
		} else if c.R.IntN(2) == 0 {
			w, h, x, y := span(c.R, want.w), span(c.R, want.h), c.R.IntN(want.w+6)-3, c.R.IntN(want.h+6)-3
			o.CropSide = []int{w, h, x, y}
			// the part is moved inside the picture as far as it fits
			x, y = max(min(x, want.w-w), 0), max(min(y, want.h-h), 0)
			want = want.crop(x, y, x+w, y+h)
			ops++
		}
		if want.w == 0 {
			// nothing is left: the source or an error comes back, and nothing panics
			im := &gimage.Image{}
			o.Format = append([]string{""}, formatNames...)[c.R.IntN(9)]
			out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Encode(d, 0, 0, gimage.Mode0, o) })
			if ok && err == nil {
				c.Check(decodes(out), "undecodable", "%s: an empty part gives %d bytes that do not decode", describe(s, o), len(out))
			}
			c.Eval(1)
			c.Observe("empty_parts", 1)
			return
		}
		if c.R.IntN(4) == 0 {
			gray, o.Gray = true, true
			ops++
		}
		cur := want // before gray
		tr := func(f func(*px) *px) { cur = f(cur) }
		inv := false
		if c.R.IntN(4) == 0 {
			inv, o.Invert = true, true
			ops++
			if !gray {
				tr((*px).invert)
			}
		}
		if c.R.IntN(3) == 0 {
			q := c.R.IntN(13) - 6
			o.Rotate = 90 * q
			ops++
			tr(func(a *px) *px { return a.rotate(q) })
		}
		if c.R.IntN(4) == 0 {
			o.FlipH = true
			ops++
			tr((*px).flipH)
		}
		if c.R.IntN(4) == 0 {
			o.FlipV = true
			ops++
			tr((*px).flipV)
		}
		wantFormat := s.format
		switch c.R.IntN(4) {
		case 0, 1:
			o.Format = formatNames[c.R.IntN(len(formatNames))]
			wantFormat = formats[o.Format]
		case 2:
			if c.R.IntN(4) == 0 {
				o.Format = "no-such-format"
			}
		}
		im := &gimage.Image{ResizeFilter: gimage.ResampleFilter(c.R.IntN(18) - 1)}
		var arg *gimage.Options = o
		if ops == 0 && o.Format == "" && c.R.IntN(2) == 0 {
			arg = nil
		}
		out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Encode(d, 0, 0, gimage.Mode(c.R.IntN(7)), arg) })
		if !ok {
			return
		}
		if err != nil {
			c.Violate("error", "%s: %v", describe(s, o), err)
			return
		}
		m, f, err := image.Decode(bytes.NewReader(out))
		if err != nil {
			c.Violate("undecodable", "%s: the result of %d bytes does not decode: %v", describe(s, o), len(out), err)
			return
		}
		if !c.Check(f == wantFormat, "format", "%s: the result is %s, want %s", describe(s, o), f, wantFormat) {
			return
		}
		if !c.Check(m.Bounds().Dx() == cur.w && m.Bounds().Dy() == cur.h, "size", "%s: the result is %v, want %dx%d", describe(s, o), m.Bounds(), cur.w, cur.h) {
			return
		}
		lossless := f == "png" || f == "bmp" || f == "tiff" || f == "webp" && o.Format == "webp"
		if f == "gif" && s.format == "gif" && ops == 0 && o.Format == "" {
			lossless = true // nothing to reduce
		}
		if s.exact && lossless && (!s.alpha || f == "png" || f == "tiff" && s.kind != "png-paletted") { // a TIFF palette has no alpha
			got := toPx(m)
			for i := range got.p {
				g, e := got.p[i], cur.p[i]
				if gray && inv {
					g.R, g.G, g.B = 255-g.R, 255-g.G, 255-g.B
				}
				bad := g != e
				if gray {
					bad = !grayOK(e, g)
				}
				if bad {
					c.Violate("pixel", "%s: pixel (%d,%d) of the %s is %v, source pixel %v", describe(s, o), i%got.w, i/got.w, f, got.p[i], e)
					return
				}
			}
			c.Observe("pixels_compared", len(got.p))
			c.Observe("exact_results", 1)
		}
		c.Observe("transforms", ops)
		c.Eval(1)
		c.Distinct(vh.Hash(s.data, *o))
		if c.I < 3 {
			c.Sample(map[string]any{"case": describe(s, o), "result": fmt.Sprintf("%s %dx%d", f, cur.w, cur.h)})
		}
	})
	r.Cases("twice", r.N(400, 6000), 8, func(c *vh.Case) {
		k := []string{"png-nrgba", "png-opaque", "png-gray", "png-paletted", "bmp", "bmp-gray", "bmp-paletted", "tiff-nrgba", "tiff-gray", "tiff-paletted"}[c.I%10]
		s := gen(c.R, k)
		o := &gimage.Options{FlipH: c.R.IntN(2) == 0, FlipV: c.R.IntN(2) == 0, Invert: c.R.IntN(2) == 0}
		if c.R.IntN(3) == 0 {
			o.Rotate = 180
		}
		im := &gimage.Image{}
		once, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Encode(d, 0, 0, gimage.Mode0, o) })
		if !ok {
			return
		}
		c.Check(err == nil, "error", "%s: %v", describe(s, o), err)
		back, err, ok := call(c, once, func(d []byte) ([]byte, error) { return im.Encode(d, 0, 0, gimage.Mode0, o) })
		if !ok {
			return
		}
		m, f, err2 := image.Decode(bytes.NewReader(back))
		if err != nil || err2 != nil || f != s.format {
			c.Violate("undecodable", "%s twice: %v %v, format %s", describe(s, o), err, err2, f)
			return
		}
		got := toPx(m)
		if !c.Check(got.w == s.pix.w && got.h == s.pix.h, "size", "%s twice: %dx%d", describe(s, o), got.w, got.h) {
			return
		}
		for i := range got.p {
			if got.p[i] != s.pix.p[i] {
				c.Violate("pixel", "%s twice: pixel %d is %v, was %v", describe(s, o), i, got.p[i], s.pix.p[i])
				return
			}
		}
		c.Eval(1)
		c.Observe("round_trips", 1)
		c.Distinct(vh.Hash(s.data, *o))
	})
	// one Image value serves many goroutines
	r.Cases("shared", r.N(30, 300), 1, func(c *vh.Case) {
		im := &gimage.Image{ResizeFilter: gimage.Lanczos}
		done := make(chan string, 8)
		for g := 0; g < 8; g++ {
			s := gen(vh.NewRand(c.Seed, c.I, g), "png-nrgba")
			go func() {
				out, err := im.Encode(s.data, 0, 0, gimage.Mode0, &gimage.Options{FlipH: true, Rotate: 90})
				if err != nil {
					done <- err.Error()
					return
				}
				m, _, err := image.Decode(bytes.NewReader(out))
				if err != nil {
					done <- err.Error()
					return
				}
				got, want := toPx(m), s.pix.rotate(1).flipH()
				for i := range want.p {
					if len(got.p) != len(want.p) || got.p[i] != want.p[i] {
						done <- "wrong pixels"
						return
					}
				}
				done <- ""
			}()
		}
		for g := 0; g < 8; g++ {
			e := <-done
			c.Check(e == "", "concurrent", "an Image used by 8 goroutines: %s", e)
		}
		c.Eval(8)
		c.Observe("concurrent_encodes", 8)
	})
}

func span(r *rand.Rand, n int) int {
	switch r.IntN(4) {
	case 0:
		return n + r.IntN(5)
	case 1:
		return 1 + r.IntN(3)
	}
	return 1 + r.IntN(n)
}

func decodes(b []byte) bool {
	_, _, err := image.Decode(bytes.NewReader(b))
	return err == nil
}
