//go:build go1.25

// Package sioutil is package io/ioutil on the simulated kernel.
package sioutil

import (
	"io"
	"io/fs"
	"sort"

	"verif.local/sim/sos"
)

var Discard io.Writer = io.Discard

func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return sos.MkdirTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	f, err := sos.Open(name)
	if err != nil {
		return nil, err
	}
	list, err := f.Readdir(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Name() < list[j].Name() })
	return list, nil
}
