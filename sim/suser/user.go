//go:build go1.25

// Package suser is package os/user with one simulated user.
package suser

import (
	"os/user"

	"verif.local/sim/sos"
)

func Current() (*user.User, error) {
	return &user.User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: sos.Getenv("HOME")}, nil
}
