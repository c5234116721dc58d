// Package zkioutil is io/ioutil on the file-system model.
package zkioutil

import (
	"io"
	"io/ioutil"
	"os"

	"github.com/companyzero/zkc/zkv/zkos"
)

var Discard = ioutil.Discard

func NopCloser(r io.Reader) io.ReadCloser          { return ioutil.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)          { return io.ReadAll(r) }
func ReadDir(d string) ([]os.FileInfo, error)      { return zkos.ListDir(d) }
func ReadFile(f string) ([]byte, error)            { return zkos.ReadFile(f) }
func TempDir(dir, pattern string) (string, error)  { return zkos.MkdirTemp(dir, pattern) }
func TempFile(dir, pat string) (*zkos.File, error) { return zkos.CreateTemp(dir, pat) }
func WriteFile(f string, b []byte, perm os.FileMode) error {
	return zkos.WriteFile(f, b, perm)
}
