package zkfilepath

import (
	"path/filepath"

	"github.com/companyzero/zkc/zkv/zkos"
)

// Glob supports a pattern in the last element only.
func Glob(pattern string) ([]string, error) {
	d, pat := filepath.Dir(pattern), filepath.Base(pattern)
	l, err := zkos.ListDir(d)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, fi := range l {
		ok, err := filepath.Match(pat, fi.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, filepath.Join(d, fi.Name()))
		}
	}
	return r, nil
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/", p), nil
}

func EvalSymlinks(p string) (string, error) { return filepath.Clean(p), nil }

func Walk(root string, fn filepath.WalkFunc) error {
	for _, f := range zkos.Files(root) {
		fi, err := zkos.Stat(f)
		if err := fn(f, fi, err); err != nil {
			return err
		}
	}
	return nil
}
