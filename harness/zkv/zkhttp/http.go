// Package http stands in for the part of net/http that the profiler
// and the file transfer use.
package http

type Handler interface{}

func ListenAndServe(addr string, h Handler) error { return nil }

// DetectContentType does not look at the content.
func DetectContentType(data []byte) string { return "application/octet-stream" }
