// Package ico stands in for github.com/donnie4w/ico, which cannot be fetched here.
package ico

import (
	"errors"
	"image"
	"io"
)

type Options struct{ Thumbnails [][2]uint8 }

func Encode(w io.Writer, m image.Image, o *Options) error {
	return errors.New("ico: stand-in cannot encode")
}
