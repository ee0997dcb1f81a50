//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package scrand

import "crypto/rand"

var Int = rand.Int
var Prime = rand.Prime
