package main

import (
	"flag"
	"io/ioutil"
	"strings"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// ZkvH_P01Client: the settings of a client are any text, or not there at all.
//
//zkv:prop P01
func ZkvH_P01Client() {
	flag.CommandLine = flag.NewFlagSet("zkclient", flag.ContinueOnError)
	flag.CommandLine.SetOutput(ioutil.Discard)
	key := zkv.Choose("key", 6)
	b := zkv.BytesUpTo("value", 4)
	for _, c := range b {
		zkv.Assume(c > ' ' && c < 127)
	}
	v := string(b)
	name := []string{"tlsverbose", "beep", "separator", "savehistory", "debug", "root"}[key]
	sec := ""
	if key == 3 || key == 4 {
		sec = "[log]\n"
	}
	if key == 5 {
		zkv.Assume(len(v) > 0 && v[0] != '~')
	}
	other := zkv.Bool("elsewhere")
	if other {
		sec = "[ui]\n"
	}
	zkos.Put(zkos.Getenv("HOME")+"/.zkclient/zkclient.conf", []byte(sec+name+" = "+v+"\n"))
	s, err := ObtainSettings()
	yes := len(v) == 3 && strings.EqualFold(v, "yes")
	good := other || key == 5 || yes || len(v) == 2 && strings.EqualFold(v, "no")
	if err != nil {
		zkv.Assert(!good, "a valid setting is accepted")
		zkv.Reach("refused")
		return
	}
	zkv.Assert(good, "a setting that is not valid is refused")
	on := func(k int) bool { return key == k && !other && yes }
	zkv.Assert(s.SaveHistory == on(3), "the history of conversations is saved only if that is configured")
	zkv.Assert(s.Debug == on(4), "what happens is logged only if that is configured")
	zkv.Assert(s.Beep == on(1) && s.Separator == on(2), "settings are as configured")
	zkv.Assert(s.TLSVerbose == (key != 0 || other || yes), "settings are as configured")
	if key == 5 && !other {
		zkv.Assert(s.Root == v, "files are kept where it is configured")
	} else {
		zkv.Assert(strings.HasSuffix(s.Root, "/.zkclient") && s.Root[0] == '/', "files are kept in the home directory")
	}
	zkv.Reach("accepted")
}
