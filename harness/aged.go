package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// What the library says about a value depends on its fields, not on what was
// asked of it before.  An aged value was something else, and used, before its
// fields were set to those of the case; it must behave as a new one does.

// become sets the exported fields of *dst to those of *src.
func become[T any](dst, src *T) {
	d, s := reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()
	for i := 0; i < d.NumField(); i++ {
		if d.Type().Field(i).IsExported() {
			d.Field(i).Set(s.Field(i))
		}
	}
}

func agedFrag(f *gitdiff.TextFragment, way int) *gitdiff.TextFragment {
	if f == nil || len(f.Lines) > 2000 {
		return f
	}
	n := int64(len(f.Lines))
	g := &gitdiff.TextFragment{Comment: "was", OldPosition: 1, OldLines: n, NewPosition: 1, NewLines: n, LeadingContext: n}
	var src strings.Builder
	for i := range f.Lines {
		s := fmt.Sprintf("was %d\n", i)
		g.Lines = append(g.Lines, gitdiff.Line{Op: gitdiff.OpContext, Line: s})
		src.WriteString(s)
	}
	if way%3 == 1 {
		g.NewLines++ // never valid
	}
	g.Validate()
	_, _ = g.String(), g.Header()
	if way%2 == 0 {
		gitdiff.NewTextApplier(io.Discard, strings.NewReader(src.String())).ApplyFragment(g)
	}
	lines := g.Lines[:0]
	become(g, f)
	g.Lines = append(lines, f.Lines...)
	if f.Lines == nil {
		g.Lines = nil
	}
	return g
}

func agedBin(b *gitdiff.BinaryFragment, way int) *gitdiff.BinaryFragment {
	if b == nil {
		return nil
	}
	g := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: b.Size, RawData: make([]byte, len(b.RawData))}
	if way%3 != 1 {
		g.Size, g.RawData = 3, deflate([]byte("was"))
	}
	_ = g.String()
	io.Copy(io.Discard, io.LimitReader(g.Data(), 1<<16))
	if way%2 == 0 {
		gitdiff.NewBinaryApplier(io.Discard, strings.NewReader("")).ApplyFragment(g)
	}
	if way%4 == 2 && len(g.RawData) == len(b.RawData) {
		copy(g.RawData, b.RawData) // in the same place
		g.Method, g.Size = b.Method, b.Size
		return g
	}
	become(g, b)
	return g
}

func agedFile(f *gitdiff.File, way int) *gitdiff.File {
	g := &gitdiff.File{OldName: "was", NewName: "was", OldMode: 0o100644, IsBinary: f.IsBinary}
	for i, fr := range f.TextFragments {
		g.TextFragments = append(g.TextFragments, agedFrag(fr, way+i))
	}
	g.BinaryFragment, g.ReverseBinaryFragment = agedBin(f.BinaryFragment, way), agedBin(f.ReverseBinaryFragment, way+1)
	_ = g.String()
	if way%2 == 1 {
		gitdiff.Apply(io.Discard, strings.NewReader("was\n"), g)
	}
	frags, bin, rev := g.TextFragments, g.BinaryFragment, g.ReverseBinaryFragment
	become(g, f)
	g.TextFragments, g.BinaryFragment, g.ReverseBinaryFragment = frags, bin, rev
	return g
}

// sometimes ages one value in so many, depending on the value alone.
func sometimes(n int64, every int64) bool { return ((n%every)+every)%every == every/2 }
