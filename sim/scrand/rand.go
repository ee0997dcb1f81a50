//go:build go1.25

// Package scrand is package crypto/rand with a seeded source.
package scrand

import (
	"io"
	"math/rand"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rand.Uint32())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Text() string {
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = alphabet[b[i]%32]
	}
	return string(b)
}
