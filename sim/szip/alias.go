//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package szip

import "archive/zip"

type Compressor = zip.Compressor
type Decompressor = zip.Decompressor

const Deflate = zip.Deflate

var ErrAlgorithm = zip.ErrAlgorithm
var ErrChecksum = zip.ErrChecksum
var ErrFormat = zip.ErrFormat
var ErrInsecurePath = zip.ErrInsecurePath

type File = zip.File
type FileHeader = zip.FileHeader

var FileInfoHeader = zip.FileInfoHeader
var NewReader = zip.NewReader
var NewWriter = zip.NewWriter

type Reader = zip.Reader

var RegisterCompressor = zip.RegisterCompressor
var RegisterDecompressor = zip.RegisterDecompressor

const Store = zip.Store

type Writer = zip.Writer
