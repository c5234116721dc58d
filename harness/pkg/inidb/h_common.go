package inidb

import (
	"errors"
	"sort"

	"github.com/companyzero/zkc/zkv"
)

const zkFile = "/db/test.ini"

// zkDB is what a database should contain.
type zkDB map[string]map[string]string

func (d zkDB) clone() zkDB {
	r := zkDB{}
	for t, s := range d {
		r[t] = map[string]string{}
		for k, v := range s {
			r[t][k] = v
		}
	}
	return r
}

func zkKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// zkIs tells if the database has exactly this content.
func zkIs(i *INIDB, d zkDB) bool {
	ts := i.Tables()
	n := 0
	for _, t := range ts {
		if _, ok := d[t]; !ok {
			if t == "" { // there is always a default table
				if len(i.Records(t)) != 0 {
					return false
				}
				continue
			}
			return false
		}
		n++
	}
	if n != len(d) {
		return false
	}
	same := true
	for t, s := range d {
		r := i.Records(t)
		if len(r) != len(s) {
			return false
		}
		for k, v := range s {
			w, ok := r[k]
			if !ok || len(w) != len(v) {
				return false
			}
			same = zkv.And(same, zkv.BytesEq([]byte(w), []byte(v)))
			g, err := i.Get(t, k)
			if err != nil || len(g) != len(v) {
				return false
			}
			same = zkv.And(same, zkv.BytesEq([]byte(g), []byte(v)))
		}
	}
	return zkv.Fork(same)
}

func zkOpen(create bool, depth int) (*INIDB, bool) {
	i, err := New(zkFile, create, depth)
	if errors.Is(err, ErrCreated) {
		return i, true
	}
	zkv.Assert(err == nil, "the database can be opened")
	return i, false
}

func zkValue(name string) string {
	b := zkv.U8(name)
	zkv.Assume(b > ' ')
	zkv.Assume(b < 0x7f)
	return string([]byte{b})
}
