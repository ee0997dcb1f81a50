//go:build go1.25

package sos

import (
	"errors"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

func prefixSuffix(pattern string) (string, string, error) {
	if strings.IndexByte(pattern, '/') >= 0 {
		return "", "", errors.New("pattern contains path separator")
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:], nil
	}
	return pattern, "", nil
}

func join(dir, name string) string {
	if strings.HasSuffix(dir, "/") {
		return dir + name
	}
	return dir + "/" + name
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixSuffix(pattern)
	if err != nil {
		return nil, &os.PathError{Op: "createtemp", Path: pattern, Err: err}
	}
	for try := 0; ; try++ {
		name := join(dir, pre+strconv.FormatUint(uint64(rand.Uint32()), 10)+suf)
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixSuffix(pattern)
	if err != nil {
		return "", &os.PathError{Op: "mkdirtemp", Path: pattern, Err: err}
	}
	for try := 0; ; try++ {
		name := join(dir, pre+strconv.FormatUint(uint64(rand.Uint32()), 10)+suf)
		err := Mkdir(name, 0700)
		if err == nil {
			return name, nil
		}
		if os.IsExist(err) && try < 10000 {
			continue
		}
		return "", err
	}
}
