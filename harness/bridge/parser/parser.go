package parser

import (
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// ZzBitstream decodes the whole bitstream.
func ZzBitstream(p *Parser) []obu.Obu {
	vlib.Call(p.bitstream)
	return p.obus
}

// ZzState is the decoder state of the parser.
func ZzState(p *Parser) *state.State {
	switch s := interface{}(&p.state).(type) {
	case *state.State:
		return s
	case **state.State:
		return *s
	}
	vlib.Unfit("the state of the parser")
	return nil
}

// ZzObus are the units decoded so far.
func ZzObus(p *Parser) []obu.Obu { return p.obus }
