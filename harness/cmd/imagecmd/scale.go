package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/png"
	"math"
	"math/rand/v2"
	"sync"

	gimage "github.com/donnie4w/gofer/image"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
	"verifharness/vh"
)

const roomy = 4 << 20 // pictures that claim more pixels are not tried

func dims(b []byte) (w, h int, f string, err error) {
	c, f, err := image.DecodeConfig(bytes.NewReader(b))
	return c.Width, c.Height, f, err
}

// near reports whether the size (nw,nh) has the ratio of (w,h): for some common factor each side is off by at most d pixels.
func near(w, h, nw, nh, d int) bool {
	lo := math.Max(float64(nw-d)/float64(w), float64(nh-d)/float64(h))
	hi := math.Min(float64(nw+d)/float64(w), float64(nh+d)/float64(h))
	return lo <= hi+1e-9
}

func side(r *rand.Rand, n int) int {
	switch r.IntN(7) {
	case 0:
		return 1 + r.IntN(4)
	case 1:
		return n
	case 2:
		return max(1, n+r.IntN(5)-2)
	case 3:
		return n * (1 + r.IntN(3))
	case 4:
		return n + 1 + r.IntN(80)
	}
	return 1 + r.IntN(n)
}

func v02(r *vh.Run) {
	r.Rule("each case scales a generated picture (thin, square and large ones, sides up to 1200) with generated boxes, pixel caps and modes and checks the size of the decoded result, resizes generated multi-frame GIFs, or hands truncated, bit-flipped and forged pictures and extreme options to every entry point; counted by distinct (picture, parameters)")
	scaling(r)
	modes(r)
	gifs(r)
	quality(r)
	damaged(r)
	options(r)
}

func shape(r *rand.Rand) (int, int) {
	switch r.IntN(5) {
	case 0:
		return 1 + r.IntN(3), 100 + r.IntN(1100)
	case 1:
		return 100 + r.IntN(1100), 1 + r.IntN(3)
	case 2:
		n := 1 + r.IntN(100)
		return n, n
	}
	return 1 + r.IntN(160), 1 + r.IntN(160)
}

// similar picks two sides of a box, sometimes with exactly the ratio of the picture.
func similar(r *rand.Rand, w, h int) (int, int) {
	if r.IntN(3) == 0 {
		g := w
		for b := h; b != 0; {
			g, b = b, g%b
		}
		k := 1 + r.IntN(200)
		if w/g*k <= 1500 && h/g*k <= 1500 {
			return w / g * k, h / g * k
		}
	}
	return side(r, w), side(r, h)
}

func scaling(r *vh.Run) {
	r.Cases("scale", r.N(2500, 50000), 8, func(c *vh.Case) {
		w, h := shape(c.R)
		s := genSize(c.R, []string{"png-opaque", "png-gray", "bmp", "tiff-nrgba", "png-paletted", "gif"}[c.R.IntN(6)], w, h)
		bw, bh := similar(c.R, w, h)
		limit := 0
		if c.R.IntN(2) == 0 {
			limit = []int{1, 2, 3, 1 + c.R.IntN(50), 1 + c.R.IntN(bw*bh), bw * bh, bw*bh + 1, 1 + c.R.IntN(5000)}[c.R.IntN(8)]
		}
		arg := []int{bw, bh}
		if limit > 0 || c.R.IntN(2) == 0 {
			arg = append(arg, limit)
		}
		lower := c.R.IntN(2) == 0
		o := &gimage.Options{}
		if lower {
			o.ScaleLower = arg
		} else {
			o.ScaleUpper = arg
			if ratio := math.Max(float64(bw)/float64(w), float64(bh)/float64(h)); ratio*ratio*float64(w*h) > roomy {
				return
			}
		}
		im := &gimage.Image{}
		out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Encode(d, 0, 0, gimage.Mode0, o) })
		if !ok {
			return
		}
		if err != nil {
			c.Violate("error", "%s: %v", describe(s, o), err)
			return
		}
		nw, nh, f, err := dims(out)
		if err != nil || f != s.format {
			c.Violate("undecodable", "%s: result is %q: %v", describe(s, o), f, err)
			return
		}
		what := fmt.Sprintf("%s: the result is %dx%d", describe(s, o), nw, nh)
		c.Check(nw >= 1 && nh >= 1, "empty", "%s", what)
		if limit > 0 {
			c.Check(nw*nh <= limit, "pixel-cap", "%s, %d pixels of %d", what, nw*nh, limit)
		}
		fw, fh := float64(bw)/float64(w), float64(bh)/float64(h)
		k := math.Max(fw, fh)
		if lower {
			k = math.Min(fw, fh)
			c.Check(nw <= bw && nh <= bh, "box", "%s, outside the box", what)
		}
		if limit == 0 || float64(nw*nh) < float64(limit)*0.2 && limit > 100 && nw > 4 && nh > 4 { // the cap had no say
			c.Check(nw == 1 || math.Abs(float64(nw)-k*float64(w)) <= 1+1e-6, "ratio", "%s, a factor of %.4f gives a width of %.2f", what, k, k*float64(w))
			c.Check(nh == 1 || math.Abs(float64(nh)-k*float64(h)) <= 1+1e-6, "ratio", "%s, a factor of %.4f gives a height of %.2f", what, k, k*float64(h))
			if !lower {
				c.Check(nw >= bw && nh >= bh, "cover", "%s, does not cover the box", what)
			}
		}
		if limit > 0 && nw > 1 && nh > 1 {
			c.Check(near(w, h, nw, nh, 2), "ratio", "%s, not the ratio of the source", what)
			// the cap takes away no more than it must
			full := math.Min(k, math.Sqrt(float64(limit)/float64(w*h)))
			c.Check(float64(nw) >= full*float64(w)-2 && float64(nh) >= full*float64(h)-2, "shrunk", "%s, a factor of %.4f was allowed", what, full)
		}
		c.Eval(1)
		c.Observe("scaled", 1)
		if limit > 0 {
			c.Observe("capped", 1)
		}
		c.Distinct(vh.Hash(s.data, *o))
		if c.I < 3 {
			c.Sample(map[string]any{"case": describe(s, o), "result": []int{nw, nh}})
		}
	})
}

func modes(r *vh.Run) {
	r.Cases("modes", r.N(2500, 50000), 8, func(c *vh.Case) {
		w, h := shape(c.R)
		s := genSize(c.R, []string{"png-opaque", "png-gray", "bmp", "jpeg", "gif"}[c.R.IntN(5)], w, h)
		mode := gimage.Mode(c.R.IntN(8) - 1)
		if mode == gimage.Mode1 || mode == gimage.Mode5 {
			w, h = 1+w%160, 1+h%160 // filling a large square from a thin picture takes gigabytes
			s = genSize(c.R, "png-opaque", w, h)
		}
		pw, ph := similar(c.R, w, h)
		if c.R.IntN(3) == 0 {
			pw, ph = ph, pw
		}
		switch c.R.IntN(6) {
		case 0:
			pw = 0
		case 1:
			ph = 0
		}
		im := &gimage.Image{ResizeFilter: gimage.ResampleFilter(c.R.IntN(17) - 1)}
		out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Resize(d, pw, ph, mode) })
		if !ok {
			return
		}
		what := fmt.Sprintf("%s %dx%d resized to %d,%d in mode %d", s.kind, w, h, pw, ph, mode)
		if err != nil {
			c.Violate("error", "%s: %v", what, err)
			return
		}
		nw, nh, f, err := dims(out)
		if err != nil || f != s.format {
			c.Violate("undecodable", "%s: result is %q: %v", what, f, err)
			return
		}
		what += fmt.Sprintf(" is %dx%d", nw, nh)
		long, short := pw, ph // limits of the longer and the shorter side
		nl, ns := max(nw, nh), min(nw, nh)
		switch mode {
		case gimage.Mode0, gimage.Mode2, gimage.Mode3, gimage.Mode4:
			c.Check(nw <= w && nh <= h, "enlarged", "%s", what)
			if nw > 1 && nh > 1 {
				c.Check(near(w, h, nw, nh, 1), "ratio", "%s", what)
			}
		}
		switch mode {
		case gimage.Mode0:
			c.Check((long == 0 || nl <= long) && (short == 0 || ns <= short), "fits", "%s", what)
			// and is as large as the limits allow
			k := 1.0
			if long > 0 {
				k = math.Min(k, float64(long)/float64(max(w, h)))
			}
			if short > 0 {
				k = math.Min(k, float64(short)/float64(min(w, h)))
			}
			c.Check(float64(nw) >= k*float64(w)-1-1e-6 && float64(nh) >= k*float64(h)-1-1e-6, "shrunk", "%s, a factor of %.4f was allowed", what, k)
		case gimage.Mode3:
			a, b := pw, ph
			if a == 0 {
				a = b
			}
			if b == 0 {
				b = a
			}
			c.Check(nw == w && nh == h || nw >= a && nh >= b, "covers", "%s", what)
		case gimage.Mode4:
			if long == 0 {
				long = short
			}
			if short == 0 {
				short = long
			}
			c.Check(nw == w && nh == h || nl >= long && ns >= short, "covers", "%s", what)
		}
		c.Eval(1)
		c.Observe(fmt.Sprintf("mode_%d", mode), 1)
		c.Distinct(vh.Hash(s.data, pw, ph, int(mode)))
	})
}

func movie(r *rand.Rand, w, h int) *gif.GIF {
	g := &gif.GIF{LoopCount: []int{0, -1, 3}[r.IntN(3)]}
	for n := 1 + r.IntN(7); n > 0; n-- {
		b := image.Rect(0, 0, w, h)
		if len(g.Image) > 0 && r.IntN(2) == 0 { // a part of the picture
			x, y := r.IntN(w), r.IntN(h)
			b = image.Rect(x, y, x+1+r.IntN(w-x), y+1+r.IntN(h-y))
		}
		var pal color.Palette
		for k := 2 << r.IntN(5); k > 0; k-- {
			pal = append(pal, color.RGBA{uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32()), 255})
		}
		if r.IntN(3) == 0 {
			pal[r.IntN(len(pal))] = color.RGBA{}
		}
		m := image.NewPaletted(b, pal)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.IntN(len(pal)))
		}
		g.Image = append(g.Image, m)
		g.Delay = append(g.Delay, r.IntN(200))
		g.Disposal = append(g.Disposal, []byte{0, gif.DisposalNone, gif.DisposalBackground, gif.DisposalPrevious}[r.IntN(4)])
	}
	return g
}

func gifs(r *vh.Run) {
	r.Cases("gif", r.N(700, 12000), 8, func(c *vh.Case) {
		w, h := shape(c.R)
		if w*h > 20000 {
			w, h = 1+w%140, 1+h%140
		}
		g := movie(c.R, w, h)
		var b bytes.Buffer
		must(gif.EncodeAll(&b, g))
		g, err := gif.DecodeAll(bytes.NewReader(b.Bytes())) // what the file says
		must(err)
		tw, th := side(c.R, w), side(c.R, h)
		switch c.R.IntN(6) {
		case 0:
			tw = 0
		case 1:
			th = 0
		case 2:
			if c.R.IntN(4) == 0 {
				tw, th = -tw, 0
			}
		}
		out, err, ok := call(c, b.Bytes(), func(d []byte) ([]byte, error) { return gimage.ResizeGIF(d, tw, th) })
		if !ok {
			return
		}
		what := fmt.Sprintf("a GIF of %dx%d with %d frames resized to %d,%d", w, h, len(g.Image), tw, th)
		if err != nil {
			c.Violate("error", "%s: %v", what, err)
			return
		}
		n, err := gif.DecodeAll(bytes.NewReader(out))
		if err != nil {
			c.Violate("undecodable", "%s gives %d bytes: %v", what, len(out), err)
			return
		}
		if !c.Check(len(n.Image) == len(g.Image), "frames", "%s has %d frames", what, len(n.Image)) {
			return
		}
		nw, nh := n.Config.Width, n.Config.Height
		what += fmt.Sprintf(" is %dx%d", nw, nh)
		c.Check(nw <= w && nh <= h, "enlarged", "%s", what)
		c.Check((tw <= 0 || nw <= tw) && (th <= 0 || nh <= th), "box", "%s", what)
		k := 1.0
		if tw > 0 {
			k = math.Min(k, float64(tw)/float64(w))
		}
		if th > 0 {
			k = math.Min(k, float64(th)/float64(h))
		}
		c.Check((nw == 1 || math.Abs(float64(nw)-k*float64(w)) <= 1+1e-6) && (nh == 1 || math.Abs(float64(nh)-k*float64(h)) <= 1+1e-6), "ratio", "%s, a factor of %.4f", what, k)
		for i, m := range n.Image {
			c.Check(m.Bounds().In(image.Rect(0, 0, nw, nh)), "frame-bounds", "%s, frame %d is %v", what, i, m.Bounds())
			c.Check(n.Delay[i] == g.Delay[i], "delay", "%s, frame %d has delay %d, was %d", what, i, n.Delay[i], g.Delay[i])
			c.Check(n.Disposal[i] == g.Disposal[i], "disposal", "%s, frame %d has disposal %d, was %d", what, i, n.Disposal[i], g.Disposal[i])
		}
		c.Check(n.LoopCount == g.LoopCount || len(g.Image) == 1, "loop", "%s, loop count %d, was %d", what, n.LoopCount, g.LoopCount)
		c.Eval(1)
		c.Observe("gif_frames", len(n.Image))
		c.Distinct(vh.Hash(b.Bytes(), tw, th))
	})
}

func quality(r *vh.Run) {
	r.Cases("quality", r.N(500, 8000), 8, func(c *vh.Case) {
		s := gen(c.R, kinds[c.I%len(kinds)])
		q := c.R.IntN(14) - 2
		if c.R.IntN(5) == 0 {
			q = []int{-1 << 62, 1 << 62, 100, 1000}[c.R.IntN(4)]
		}
		out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return gimage.QualityByBinary(d, q) })
		if !ok {
			return
		}
		what := fmt.Sprintf("%s %dx%d at quality %d", s.kind, s.pix.w, s.pix.h, q)
		if err != nil && q < 0 { // may be refused, with the picture as it was
			c.Check(out == nil || bytes.Equal(out, s.data), "not-returned", "%s: %v, with other data", what, err)
			return
		}
		if err != nil {
			c.Violate("error", "%s: %v", what, err)
			return
		}
		m, f, err := image.Decode(bytes.NewReader(out))
		if err != nil || f != s.format {
			c.Violate("undecodable", "%s: %q %v", what, f, err)
			return
		}
		c.Check(m.Bounds().Dx() == s.pix.w && m.Bounds().Dy() == s.pix.h, "size", "%s is %v", what, m.Bounds())
		if s.exact && (f == "png" || f == "tiff") {
			got := toPx(m)
			for i := range got.p {
				if got.p[i] != s.pix.p[i] {
					c.Violate("pixel", "%s: pixel %d is %v, was %v", what, i, got.p[i], s.pix.p[i])
					break
				}
			}
		}
		c.Eval(1)
		c.Observe("requalified", 1)
		c.Distinct(vh.Hash(s.data, q))
	})
}

// wild is an option set that asks for anything, within sizes that fit in memory.
func wild(r *rand.Rand) *gimage.Options {
	n := func() int {
		return []int{0, 1, -1, r.IntN(50), -r.IntN(50), r.IntN(400), math.MaxInt, math.MinInt, math.MaxInt32, -1 << 31}[r.IntN(10)]
	}
	four := func() []int { return []int{n(), n(), n(), n()}[:[]int{4, 4, 4, 3, 0}[r.IntN(5)]] }
	small := func() int { return []int{0, 1, -1, r.IntN(60), -r.IntN(60), r.IntN(200), math.MinInt}[r.IntN(7)] }
	three := func() []int { return []int{small(), small(), n()}[:[]int{3, 2, 3, 1, 0}[r.IntN(5)]] }
	o := &gimage.Options{Gray: r.IntN(4) == 0, Invert: r.IntN(4) == 0, FlipH: r.IntN(4) == 0, FlipV: r.IntN(4) == 0, Colors: n(), Quality: n()}
	switch r.IntN(3) {
	case 0:
		o.Rotate = r.IntN(1000) - 500
	case 1:
		o.Rotate = n()
	}
	if r.IntN(3) == 0 {
		o.CropAnchor = four()
	}
	if r.IntN(3) == 0 {
		o.CropSide = four()
	}
	if r.IntN(3) == 0 {
		o.ScaleUpper = three()
	}
	if r.IntN(3) == 0 {
		o.ScaleLower = three()
	}
	if r.IntN(4) == 0 {
		o.Blur = []float64{0.1, 1, 5, -1, math.NaN(), math.Inf(-1)}[r.IntN(6)]
	}
	if r.IntN(2) == 0 {
		o.Format = append([]string{"ico", "psd", "PNG", ".png"}, formatNames...)[r.IntN(4+len(formatNames))]
	}
	return o
}

func options(r *vh.Run) {
	r.Cases("options", r.N(2000, 40000), 8, func(c *vh.Case) {
		w, h := 1+c.R.IntN(24), 1+c.R.IntN(24)
		s := genSize(c.R, kinds[c.I%len(kinds)], w, h)
		o := wild(c.R)
		if len(o.ScaleUpper) >= 2 && len(o.ScaleUpper) < 3 && c.R.IntN(2) == 0 {
			o.ScaleUpper = append(o.ScaleUpper, 5000)
		}
		pw, ph := 0, 0
		if c.R.IntN(2) == 0 {
			pw, ph = c.R.IntN(60)-10, c.R.IntN(60)-10
		}
		mode := gimage.Mode(c.R.IntN(9) - 2)
		im := &gimage.Image{ResizeFilter: gimage.ResampleFilter(c.R.IntN(30) - 5)}
		out, err, ok := call(c, s.data, func(d []byte) ([]byte, error) { return im.Encode(d, pw, ph, mode, o) })
		if !ok {
			return
		}
		if err == nil {
			c.Check(decodes(out), "undecodable", "%s, size %d,%d mode %d: %d bytes that do not decode", describe(s, o), pw, ph, mode, len(out))
		} else {
			c.Observe("refused_options", 1)
		}
		c.Eval(1)
		c.Observe("wild_options", 1)
		c.Distinct(vh.Hash(s.data, *o, pw, ph))
	})
}

// forgeries are pictures that decode, or nearly, with contents no encoder writes.
func forgeries() [][]byte {
	var l [][]byte
	// a TIFF whose pixels point behind its palette
	m := image.NewPaletted(image.Rect(0, 0, 8, 8), color.Palette{color.RGBA{1, 2, 3, 255}, color.RGBA{4, 5, 6, 255}})
	for i := range m.Pix {
		m.Pix[i] = uint8(i * 37)
	}
	var b bytes.Buffer
	if tiff.Encode(&b, m, nil) == nil {
		l = append(l, append([]byte{}, b.Bytes()...))
	}
	for _, n := range []int{3, 1, 16} { // fewer colours in the colour map than the pixels use
		d := append([]byte{}, b.Bytes()...)
		if i := bytes.Index(d, []byte{0x40, 0x01, 3, 0}); i >= 0 { // the ColorMap entry: tag, type, count
			d[i+4], d[i+5] = byte(3*n), 0
			l = append(l, d)
		}
	}
	b.Reset()
	m.Pix = make([]byte, 64)
	bmp.Encode(&b, m)
	d := append([]byte{}, b.Bytes()...)
	for i := len(d) - 64; i < len(d); i++ {
		d[i] = 0xFE
	}
	l = append(l, d)
	b.Reset()
	png.Encode(&b, m)
	l = append(l, append([]byte{}, b.Bytes()...))
	return l
}

var forged = sync.OnceValue(forgeries)

// reach is a reader that knows how far it was asked to read.
type reach struct {
	*bytes.Reader
	far int64
}

func (r *reach) ReadAt(p []byte, off int64) (int, error) {
	r.far = max(r.far, off+int64(len(p)))
	return r.Reader.ReadAt(p, off)
}

// greedyTIFF tells whether the decoder, which buffers everything up to the place it wants to read, would want far more than there is.
func greedyTIFF(d []byte) bool {
	if !bytes.HasPrefix(d, []byte("MM")) && !bytes.HasPrefix(d, []byte("II")) {
		return false
	}
	r := &reach{Reader: bytes.NewReader(d)}
	if c, err := tiff.DecodeConfig(r); err != nil || c.Width <= 0 || c.Height <= 0 || c.Width > roomy/c.Height {
		return r.far > 1<<22
	}
	tiff.Decode(r)
	return r.far > 1<<22
}

func damaged(r *vh.Run) {
	r.Cases("damaged", r.N(6000, 150000), 8, func(c *vh.Case) {
		var d []byte
		if f := forged(); c.I%8 == 0 {
			d = append([]byte{}, f[c.I/8%len(f)]...)
		} else if c.I%8 == 1 {
			var b bytes.Buffer
			must(gif.EncodeAll(&b, movie(c.R, 1+c.R.IntN(30), 1+c.R.IntN(30))))
			d = b.Bytes()
		} else {
			s := genSize(c.R, kinds[c.R.IntN(len(kinds))], 1+c.R.IntN(20), 1+c.R.IntN(20))
			d = s.data
		}
		switch k := c.R.IntN(8); {
		case c.I%8 == 0 && k < 4: // as it is
		case k == 0:
			d = d[:c.R.IntN(len(d)+1)]
		case k == 1:
			i := c.R.IntN(len(d))
			d = append(d[:i:i], d[min(len(d), i+1+c.R.IntN(8)):]...)
		case k == 2:
			d = make([]byte, c.R.IntN(200))
			for i := range d {
				d[i] = byte(c.R.Uint32())
			}
		case k == 3: // damage in the header
			for n := 1 + c.R.IntN(3); n > 0; n-- {
				d[c.R.IntN(min(len(d), 64))] = byte(c.R.Uint32())
			}
		case k == 4: // and at the end, where TIFF keeps its directory
			for n := 1 + c.R.IntN(3); n > 0; n-- {
				d[len(d)-1-c.R.IntN(min(len(d), 160))] ^= 1 << c.R.IntN(8)
			}
		default:
			for n := 1 + c.R.IntN(6); n > 0; n-- {
				d[c.R.IntN(len(d))] ^= 1 << c.R.IntN(8)
			}
		}
		if greedyTIFF(d) { // makes the decoding library itself allocate gigabytes
			c.Observe("skipped_for_size", 1)
			return
		}
		if w, h, _, err := dims(d); err == nil && (w <= 0 || h <= 0 || w > roomy/h) {
			c.Observe("skipped_for_size", 1)
			return
		}
		_, _, derr := image.Decode(bytes.NewReader(d))
		o := &gimage.Options{}
		pw, ph := 0, 0
		mode := gimage.Mode(c.R.IntN(7) - 1)
		switch c.R.IntN(4) {
		case 0:
			pw, ph = c.R.IntN(30), c.R.IntN(30)
		case 1:
			o.Gray = true
		case 2:
			o = wild(c.R)
		}
		im := &gimage.Image{}
		out, err, ok := call(c, d, func(d []byte) ([]byte, error) { return im.Encode(d, pw, ph, mode, o) })
		if !ok {
			return
		}
		if derr != nil {
			c.Check(err != nil || bytes.Equal(out, d), "not-returned", "%d undecodable bytes (%v) give %d other bytes and no error", len(d), derr, len(out))
			c.Observe("undecodable", 1)
		} else {
			c.Observe("still_decodable", 1)
			if err == nil {
				c.Check(decodes(out), "undecodable", "%d bytes, size %d,%d mode %d, options %+v: result does not decode", len(d), pw, ph, mode, *o)
			}
		}
		out, err, ok = call(c, d, func(d []byte) ([]byte, error) { return gimage.QualityByBinary(d, c.R.IntN(12)) })
		if !ok {
			return
		}
		if derr != nil {
			c.Check(err != nil || bytes.Equal(out, d), "not-returned", "QualityByBinary of %d undecodable bytes gives %d other bytes and no error", len(d), len(out))
		}
		g, gerr := gif.DecodeAll(bytes.NewReader(d))
		out, err, ok = call(c, d, func(d []byte) ([]byte, error) { return gimage.ResizeGIF(d, pw, ph) })
		if !ok {
			return
		}
		if gerr != nil {
			c.Check(err != nil || bytes.Equal(out, d), "not-returned", "ResizeGIF of %d undecodable bytes gives %d other bytes and no error", len(d), len(out))
		} else if err == nil {
			n, e := gif.DecodeAll(bytes.NewReader(out))
			if c.Check(e == nil, "undecodable", "ResizeGIF of a GIF of %d bytes gives %d bytes: %v", len(d), len(out), e) {
				c.Check(len(n.Image) == len(g.Image), "frames", "ResizeGIF keeps %d of %d frames", len(n.Image), len(g.Image))
			}
		}
		im.Resize(append([]byte{}, d...), pw, ph, mode)
		c.Eval(1)
		c.Distinct(vh.Hash(d))
	})
}
