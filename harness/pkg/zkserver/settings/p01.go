package settings

import (
	"strings"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// zkText is any printable text that a line of the file can hold.
func zkText(name string, n int) string {
	b := zkv.BytesUpTo(name, n)
	for _, c := range b {
		zkv.Assume(c > ' ' && c < 127)
	}
	return string(b)
}

func zkYes(v string) (yes, ok bool) {
	f := func(t string) bool {
		if len(v) != len(t) {
			return false
		}
		e := true
		for i := 0; i < len(t); i++ {
			e = zkv.And(e, zkv.Or(v[i] == t[i], v[i] == t[i]-32))
		}
		return e
	}
	yes = f("yes")
	return yes, zkv.Or(yes, f("no"))
}

// ZkvH_P01Policy: the policies are set to any text, or not at all.
//
//zkv:prop P01
func ZkvH_P01Policy() {
	d := New()
	zkv.Assert(d.CreatePolicy == "no" && !d.AllowIdentify && !d.Directory, "what is not configured is not allowed")
	key := zkv.Choose("key", 4)
	v := zkText("value", 6)
	name := []string{"createpolicy", "allowidentify", "directory", "other"}[key]
	conf := "root = /r\n" + name + " = " + v + "\n[log]\nlogfile = /l\n"
	if zkv.Bool("wrong section") {
		conf = "root = /r\n[log]\nlogfile = /l\n" + name + " = " + v + "\n"
		key = 3
	}
	zkos.Put("/conf", []byte(conf))
	s := New()
	err := s.Load("/conf")
	create, identify, dir, good := "no", false, false, true
	switch key {
	case 0:
		good = zkv.Or(v == "yes", zkv.Or(v == "no", v == "token"))
		create = v
	case 1:
		identify, good = zkYes(v)
	case 2:
		dir, good = zkYes(v)
	}
	if err != nil {
		zkv.Assert(!good, "a valid policy is accepted")
		zkv.Reach("refused")
	} else {
		zkv.Assert(good, "a policy that is not valid is refused")
		zkv.Assert(s.CreatePolicy == create, "accounts are created by the policy that is configured")
		zkv.Assert(s.AllowIdentify == identify, "the server identifies itself as configured")
		zkv.Assert(s.Directory == dir, "a directory is kept as configured")
		zkv.Assert(s.Root == "/r" && s.LogFile == "/l", "other settings are as configured")
		zkv.Reach("accepted")
	}
	// whatever is configured, nothing but the policy named is affected
	zkv.Assert(key == 0 || s.CreatePolicy == "no", "a policy is changed by its own setting only")
	zkv.Assert(key == 1 || !s.AllowIdentify, "a policy is changed by its own setting only")
	zkv.Assert(key == 2 || !s.Directory, "a policy is changed by its own setting only")
}

// ZkvH_P01Limits: the limits are set to any text.
//
//zkv:prop P01
func ZkvH_P01Limits() {
	d := New()
	key := zkv.Choose("key", 2)
	v := zkText("value", zkv.Pick(4, 6))
	zkos.Put("/conf", []byte([]string{"maxattachmentsize", "maxchunksize"}[key]+" = "+v+"\n"))
	s := New()
	err := s.Load("/conf")
	good, n := len(v) > 0, uint64(0)
	for i := 0; i < len(v); i++ {
		good = zkv.And(good, zkv.And(v[i] >= '0', v[i] <= '9'))
		n = 10*n + uint64(v[i]-'0')
	}
	if err != nil {
		zkv.Assert(!good, "a number is accepted")
		zkv.Reach("refused")
		return
	}
	zkv.Assert(good, "what is not a number is refused")
	got := [2]uint64{s.MaxAttachmentSize, s.MaxChunkSize}
	zkv.Assert(got[key] == n, "a limit is as configured")
	zkv.Assert(key == 0 || got[0] == d.MaxAttachmentSize, "other limits are as they were")
	zkv.Assert(key == 1 || got[1] == d.MaxChunkSize, "other limits are as they were")
	zkv.Assert(s.MaxMsgSize == d.MaxMsgSize, "other limits are as they were")
	zkv.Reach("accepted")
}

// ZkvH_P01Files: where the server keeps its files.
//
//zkv:prop P01
func ZkvH_P01Files() {
	keys := []string{"root", "users", "motd", "listen", "logfile"}
	k := zkv.Choose("key", len(keys))
	v := zkText("value", 3)
	zkv.Assume(len(v) > 0)
	if k == 4 {
		zkos.Put("/conf", []byte("[log]\nlogfile = "+v+"\n"))
	} else {
		zkos.Put("/conf", []byte(keys[k]+" = "+v+"\n"))
	}
	s := New()
	zkv.Assert(s.Load("/conf") == nil, "a path is accepted")
	home := s.Root // of the default root directory
	if k == 0 {
		home = s.Users
	}
	home = home[:strings.Index(home, "/.zkserver")]
	zkv.Assert(!strings.Contains(home, "~"), "the home directory is filled in")
	got := []string{s.Root, s.Users, s.MOTD, s.Listen, s.LogFile}
	i := strings.IndexByte(v, '~')
	want := v
	if i >= 0 {
		want = v[:i] + home + v[i+1:]
	}
	zkv.Assert(got[k] == want, "a path is as configured")
	zkv.Reach("end")
}
