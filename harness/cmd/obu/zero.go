package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

var (
	m0 sequenceheader.SequenceHeader
	u0 uncompressedheader.UncompressedHeader
)
