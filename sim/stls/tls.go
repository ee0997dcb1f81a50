//go:build go1.25

// Package stls is package crypto/tls with key pairs read from the simulated file system.
package stls

import (
	"crypto/tls"

	"verif.local/sim/sioutil"
)

func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	cert, err := sioutil.ReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	key, err := sioutil.ReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.X509KeyPair(cert, key)
}
