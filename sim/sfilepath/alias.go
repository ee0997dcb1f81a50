//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package sfilepath

import "path/filepath"

var Base = filepath.Base
var Clean = filepath.Clean
var Dir = filepath.Dir
var ErrBadPattern = filepath.ErrBadPattern
var Ext = filepath.Ext
var FromSlash = filepath.FromSlash
var HasPrefix = filepath.HasPrefix
var IsAbs = filepath.IsAbs
var IsLocal = filepath.IsLocal
var Join = filepath.Join

const ListSeparator = filepath.ListSeparator

var Localize = filepath.Localize
var Match = filepath.Match
var Rel = filepath.Rel

const Separator = filepath.Separator

var SkipAll = filepath.SkipAll
var SkipDir = filepath.SkipDir
var Split = filepath.Split
var SplitList = filepath.SplitList
var ToSlash = filepath.ToSlash
var VolumeName = filepath.VolumeName

type WalkFunc = filepath.WalkFunc
