// Package zkfilepath is package path/filepath on the file-system model.
package zkfilepath

import "path/filepath"

func Base(a0 string) string  { return filepath.Base(a0) }
func Clean(a0 string) string { return filepath.Clean(a0) }
func Dir(a0 string) string   { return filepath.Dir(a0) }

var ErrBadPattern = filepath.ErrBadPattern

func Ext(a0 string) string                { return filepath.Ext(a0) }
func FromSlash(a0 string) string          { return filepath.FromSlash(a0) }
func HasPrefix(a0 string, a1 string) bool { return filepath.HasPrefix(a0, a1) }
func IsAbs(a0 string) bool                { return filepath.IsAbs(a0) }
func IsLocal(a0 string) bool              { return filepath.IsLocal(a0) }
func Join(a0 ...string) string            { return filepath.Join(a0...) }

const ListSeparator = filepath.ListSeparator

func Match(a0 string, a1 string) (bool, error) { return filepath.Match(a0, a1) }
func Rel(a0 string, a1 string) (string, error) { return filepath.Rel(a0, a1) }

const Separator = filepath.Separator

var SkipAll = filepath.SkipAll
var SkipDir = filepath.SkipDir

func Split(a0 string) (string, string) { return filepath.Split(a0) }
func SplitList(a0 string) []string     { return filepath.SplitList(a0) }
func ToSlash(a0 string) string         { return filepath.ToSlash(a0) }
func VolumeName(a0 string) string      { return filepath.VolumeName(a0) }

type WalkFunc = filepath.WalkFunc
