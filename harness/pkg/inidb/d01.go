package inidb

import (
	"errors"

	"github.com/companyzero/zkc/zkv"
)

var zkTables = []string{"", "a", "b"}

// zkOps applies one operation to the database and to what it should contain.
func zkOp(i *INIDB, d zkDB) {
	t := zkTables[zkv.Choose("table", zkv.Pick(2, 3))]
	_, there := d[t]
	was := map[string]string{}
	for k, v := range d[t] {
		was[k] = v
	}
	k := []string{"k", "l"}[zkv.Choose("key", 2)]
	// what was read is the caller's
	read := i.Records(t)
	defer func() {
		zkv.Assert(len(read) == len(was), "records that were read do not change")
		for k, v := range was {
			zkv.Assert(read[k] == v, "records that were read do not change")
		}
		if read != nil {
			read["z"] = "changed"
		}
	}()
	switch zkv.Choose("op", 4) {
	case 0:
		zkv.Assume(k == "k")
		i.NewTable(t)
		if !there {
			d[t] = map[string]string{}
		}
	case 1:
		v := zkValue("value")
		err := i.Set(t, k, v)
		if !there {
			zkv.Assert(errors.Is(err, ErrNotFound), "setting a record of an unknown table is an error")
			return
		}
		zkv.Assert(err == nil, "setting a record works")
		d[t][k] = v
	case 2:
		err := i.Del(t, k)
		if !there {
			zkv.Assert(errors.Is(err, ErrNotFound), "deleting a record of an unknown table is an error")
			return
		}
		zkv.Assert(err == nil, "deleting a record works")
		delete(d[t], k)
	case 3:
		zkv.Assume(k == "k")
		zkv.Assume(t != "")
		err := i.DelTable(t)
		if !there {
			zkv.Assert(errors.Is(err, ErrNotFound), "deleting an unknown table is an error")
			return
		}
		zkv.Assert(err == nil, "deleting a table works")
		delete(d, t)
	}
}

// ZkvH_History: any short history of operations, saves and reopenings.
//
//zkv:prop D01
//zkv:opt w=2
func ZkvH_History() {
	depth := []int{-1, 0, 1, 10}[zkv.Choose("depth", zkv.Pick(2, 4))]
	i, created := zkOpen(true, depth)
	zkv.Assert(created, "a new database is created")
	d := zkDB{"": map[string]string{}}
	steps := zkv.Pick(3, 4)
	for s := 0; s < steps; s++ {
		if s > 0 {
			switch zkv.Choose("save", 3) {
			case 1:
				zkv.Assert(i.Save() == nil, "saving works")
			case 2:
				zkv.Assert(i.Save() == nil, "saving works")
				i, _ = zkOpen(false, depth)
			}
		}
		zkOp(i, d)
		if _, err := i.Get("", "none"); !errors.Is(err, ErrNotFound) {
			zkv.Assert(false, "an unknown record is not found")
		}
		zkv.Assert(zkIs(i, d), "reads return the latest values")
	}
	zkv.Assert(i.Save() == nil, "saving works")
	zkv.Assert(zkIs(i, d), "saving changes nothing")
	i, _ = zkOpen(false, depth)
	v, err := i.Get("", "k")
	zkv.ObsStr("k", v)
	zkv.ObsErr("get", err)
	zkv.Assert(zkIs(i, d), "a reopened database has exactly what was saved")
	zkv.Reach("end")
}

// ZkvH_Order: a database of several tables saved with any order of the maps.
//
//zkv:prop D01
func ZkvH_Order() {
	i, _ := zkOpen(true, 10)
	d := zkDB{"": map[string]string{}}
	n := zkv.Pick(2, 3)
	for j, t := range zkTables[:n] {
		if t != "" {
			i.NewTable(t)
			d[t] = map[string]string{}
		}
		for l, k := range []string{"k", "l"} {
			if j+l == 2 {
				continue
			}
			v := zkValue("value")
			zkv.Assert(i.Set(t, k, v) == nil, "setting a record works")
			d[t][k] = v
		}
	}
	zkv.MapOrder()
	zkv.Assert(i.Save() == nil, "saving works")
	zkv.MapOrderOff()
	i, _ = zkOpen(false, 10)
	zkv.Assert(zkIs(i, d), "a reopened database has exactly what was saved")
	zkv.Assert(i.Set("", "m", "x") == nil, "setting a record works")
	d[""]["m"] = "x"
	zkv.Assert(i.Save() == nil, "saving works")
	i, _ = zkOpen(false, 10)
	zkv.Assert(zkIs(i, d), "a reopened database has exactly what was saved")
	zkv.Reach("end")
}

func zkBlank(c byte) bool {
	return zkv.Or(c == ' ', zkv.And(c >= '\t', c <= '\r'))
}

// zkPlain tells if the ends of a string are not blank and it is one line.
func zkPlain(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zkv.And(ok, s[i] != '\n')
	}
	if len(s) > 0 {
		ok = zkv.And(ok, zkv.And(!zkBlank(s[0]), !zkBlank(s[len(s)-1])))
	}
	return ok
}

// ZkvH_Strings: any short table name, key and value.
//
//zkv:prop D01
//zkv:opt w=2
func ZkvH_Strings() {
	i, _ := zkOpen(true, 10)
	what := zkv.Choose("what", 3)
	t, k, v := "t", "k", "v"
	n := zkv.Choose("len", zkv.Pick(3, 4))
	s := zkv.Str("text", n)
	for j := 0; j < n; j++ {
		zkv.Assume(s[j] < 0x80)
	}
	if n == 0 {
		s = []string{"", "\u00e9", "\u65e5\u672c", "a\xffb", "a = b", "[x]", "# x"}[zkv.Choose("other", 7)]
		n = len(s)
	}
	ok := zkPlain(s)
	noEq := true
	for j := 0; j < n; j++ {
		noEq = zkv.And(noEq, s[j] != '=')
	}
	switch what {
	case 0:
		t = s
		ok = zkv.And(ok, noEq)
	case 1:
		k = s
		ok = zkv.And(ok, noEq)
		if n == 0 {
			ok = false
		} else {
			ok = zkv.And(ok, zkv.And(s[0] != '#', s[0] != ';'))
		}
	case 2:
		v = s
	}
	// what an ini file cannot represent
	ok = zkv.Fork(ok)
	d := zkDB{"": map[string]string{}, "z": map[string]string{"k": "w"}}
	i.NewTable("z")
	zkv.Assert(i.Set("z", "k", "w") == nil, "setting a record works")
	if t != "" {
		zkv.Assume(!zkv.BytesEq([]byte(t), []byte("z")))
		d[t] = map[string]string{}
	}
	i.NewTable(t)
	d[t][k] = v
	err := i.Set(t, k, v)
	if ok {
		zkv.Assert(err == nil, "setting a record works")
	}
	if err != nil {
		zkv.Stop()
	}
	if i.Save() != nil {
		zkv.Assert(!ok, "saving works")
		zkv.Stop()
	}
	i, err = New(zkFile, false, 10)
	zkv.ObsErr("reopen", err)
	zkv.AssertK(err == nil && zkIs(i, d), !ok, "unrepresentable", "a reopened database has exactly what was saved")
	zkv.Reach("end")
}

// ZkvH_Missing: opening what is not there.
//
//zkv:prop D01
func ZkvH_Missing() {
	_, err := New(zkFile, false, 10)
	zkv.Assert(err != nil && !errors.Is(err, ErrCreated), "a missing database is not opened")
	i, created := zkOpen(true, 10)
	zkv.Assert(created && zkIs(i, zkDB{}), "a new database is empty")
	i, created = zkOpen(true, 10)
	zkv.Assert(!created && zkIs(i, zkDB{}), "an existing database is not created again")
	zkv.Reach("end")
}
