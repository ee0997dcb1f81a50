//go:build go1.25

// Package sfilepath is package path/filepath on the simulated kernel.
package sfilepath

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/sim/sos"
)

func Abs(path string) (string, error) {
	if filepath.IsAbs(path) {
		return filepath.Clean(path), nil
	}
	wd, err := sos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, path), nil
}

func readDirNames(dirname string) ([]string, error) {
	f, err := sos.Open(dirname)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

func walk(path string, info fs.FileInfo, walkFn filepath.WalkFunc) error {
	if !info.IsDir() {
		return walkFn(path, info, nil)
	}
	names, err := readDirNames(path)
	err1 := walkFn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		filename := filepath.Join(path, name)
		fileInfo, err := sos.Lstat(filename)
		if err != nil {
			if err := walkFn(filename, fileInfo, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fileInfo, walkFn)
			if err != nil {
				if !fileInfo.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := sos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := sos.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := sos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func EvalSymlinks(path string) (string, error) {
	vol := ""
	out := vol
	n := 0
	rest := path
	if strings.HasPrefix(rest, "/") {
		out = "/"
	}
	for rest != "" {
		var c string
		rest = strings.TrimLeft(rest, "/")
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			c, rest = rest[:i], rest[i:]
		} else {
			c, rest = rest, ""
		}
		switch c {
		case "", ".":
			continue
		case "..":
			if out == "" || filepath.Base(out) == ".." {
				out = filepath.Join(out, "..")
			} else {
				out = filepath.Dir(out)
				if out == "." {
					out = ""
				}
			}
			continue
		}
		next := c
		if out != "" {
			next = filepath.Join(out, c)
		}
		fi, err := sos.Lstat(next)
		if err != nil {
			return "", err
		}
		if fi.Mode()&os.ModeSymlink == 0 {
			out = next
			continue
		}
		if n++; n > 255 {
			return "", &os.PathError{Op: "EvalSymlinks", Path: path, Err: os.ErrInvalid}
		}
		t, err := sos.Readlink(next)
		if err != nil {
			return "", err
		}
		if filepath.IsAbs(t) {
			out = "/"
		}
		rest = t + rest
	}
	if out == "" {
		out = "."
	}
	return filepath.Clean(out), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := sos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		names, err := readDirNames(d)
		if err != nil {
			continue
		}
		for _, n := range names {
			if ok, _ := filepath.Match(file, n); ok {
				out = append(out, filepath.Join(d, n))
			}
		}
	}
	return out, nil
}
