package zkmodel

// The log is write-only: no behaviour depends on it.

func DebugLog(d interface{}, id int, prefix string, format string, args ...interface{}) {}
func DebugLogf(d interface{}, id int, format string, args ...interface{})               {}
func Sdump(a ...interface{}) string                                                    { return "" }
