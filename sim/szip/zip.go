//go:build go1.25

// Package szip is package archive/zip on the simulated kernel.
package szip

import (
	"archive/zip"

	"verif.local/sim/sos"
)

// ReadCloser is as in archive/zip.
type ReadCloser struct {
	f *sos.File
	zip.Reader
}

func (r *ReadCloser) Close() error { return r.f.Close() }

func OpenReader(name string) (*ReadCloser, error) {
	f, err := sos.Open(name)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	zr, err := zip.NewReader(f, fi.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{f: f, Reader: *zr}, nil
}
