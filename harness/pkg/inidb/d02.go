package inidb

import (
	"errors"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// ZkvH_Interrupted: one of the file operations of a save fails or is the last
// thing the process does.
//
//zkv:prop D02
func ZkvH_Interrupted() {
	depth := []int{10, 0, 1, -1}[zkv.Choose("depth", 4)]
	i, _ := zkOpen(true, depth)
	before := zkDB{"": map[string]string{}}
	set := func(d zkDB, t, k string) {
		v := zkValue("value")
		if d[t] == nil {
			i.NewTable(t)
			d[t] = map[string]string{}
		}
		zkv.Assert(i.Set(t, k, v) == nil, "setting a record works")
		d[t][k] = v
	}
	// earlier saves
	for n := zkv.Choose("saves", zkv.Pick(2, 3)); n > 0; n-- {
		set(before, "", "k")
		set(before, "a", "k")
		zkv.Assert(i.Save() == nil, "saving works")
	}
	if zkv.Choose("reopen", 2) == 1 {
		i, _ = zkOpen(false, depth)
	}
	after := before.clone()
	switch zkv.Choose("change", 3) {
	case 0:
		set(after, "", "k")
	case 1:
		set(after, "b", "k")
		set(after, "", "l")
	case 2:
		zkv.Assume(after["a"] != nil)
		zkv.Assert(i.DelTable("a") == nil, "deleting a table works")
		delete(after, "a")
	}
	crash, fault := -1, -1
	at := zkv.Choose("at", zkv.Pick(10, 16))
	if zkv.Choose("crash", 2) == 1 {
		crash = at
	} else {
		fault = at
	}
	zkos.Arm(crash, fault)
	var err error
	dead := zkv.Catch(func() { err = i.Save() })
	crashed, faulted := zkos.Crashed, zkos.Faulted
	zkos.Disarm()
	zkv.Assume(crashed || faulted)
	if _, ok := dead.(zkos.CrashSignal); dead != nil && !ok {
		panic(dead)
	}
	j, err2 := New(zkFile, false, depth)
	zkv.Assert(err2 == nil, "the database can be opened after an interrupted save")
	if !crashed && err == nil {
		zkv.Assert(zkIs(j, after), "a save that reports success has saved everything")
	}
	zkv.Assert(zkIs(j, before) || zkIs(j, after), "after an interrupted save the database has the old or the new contents")
	if !crashed {
		// the same handle can be used to try again
		again := i.Save()
		zkv.Assert(again == nil, "saving can be tried again")
		j, _ = zkOpen(false, depth)
		zkv.Assert(zkIs(j, after), "a save that reports success has saved everything")
	}
	// and everything goes on
	zkv.Assert(j.Set("", "more", "x") == nil && j.Save() == nil, "the database can be used after an interrupted save")
	zkv.Reach("end")
}

// ZkvH_Create: the first save, made when the database is created.
//
//zkv:prop D02
func ZkvH_Create() {
	crash, fault := -1, -1
	at := zkv.Choose("at", 8)
	if zkv.Choose("crash", 2) == 1 {
		crash = at
	} else {
		fault = at
	}
	zkos.Arm(crash, fault)
	var err error
	dead := zkv.Catch(func() { _, err = New(zkFile, true, 10) })
	if _, ok := dead.(zkos.CrashSignal); dead != nil && !ok {
		panic(dead)
	}
	crashed, faulted := zkos.Crashed, zkos.Faulted
	zkos.Disarm()
	zkv.Assume(crashed || faulted)
	i, err2 := New(zkFile, true, 10)
	zkv.Assert(err2 == nil || errors.Is(err2, ErrCreated), "a database can be created after a failed attempt")
	if !crashed && (err == nil || errors.Is(err, ErrCreated)) {
		zkv.Assert(err2 == nil, "a database reported as created is there")
	}
	zkv.Assert(zkIs(i, zkDB{}), "a new database is empty")
	zkv.Reach("end")
}
