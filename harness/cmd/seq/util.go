package main

import (
	"fmt"
	"strings"

	m "github.com/m4tthewde/gov1/internal/zzverif/model"
)

func sprint(v interface{}) string { return fmt.Sprint(v) }

func join(d []string) string {
	if len(d) > 6 {
		d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	return strings.Join(d, "; ")
}

func count(ev map[string]int64, s *m.Seq) {
	ev[fmt.Sprintf("profile %d", s.Profile)]++
	ev[fmt.Sprintf("reduced %d", s.Reduced)]++
	ev[fmt.Sprintf("timing %d model %d equal %d", s.TimingPresent, s.DecModel, s.EqualInterval)]++
	ev[fmt.Sprintf("operating points %d", s.OpCnt1+1)]++
	ev[fmt.Sprintf("bit depth %d mono %d subsampling %d%d", s.Color.BitDepth, s.Color.Mono, s.Color.Ssx, s.Color.Ssy)]++
	ev[fmt.Sprintf("frame ids %d order hint bits %d", s.FrameIds, s.OrderHintBits)]++
	ev[fmt.Sprintf("screen content %d integer mv %d", s.ForceSct, s.ForceImv)]++
	for i := range s.OpDecModel {
		if s.OpDecModel[i] == 1 {
			ev["operating parameters"]++
		}
	}
}
