// Package pprof stands in for net/http/pprof.
package pprof
