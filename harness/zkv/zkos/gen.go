package zkos

import "os"

const DevNull = os.DevNull

type DirEntry = os.DirEntry

var ErrClosed = os.ErrClosed
var ErrDeadlineExceeded = os.ErrDeadlineExceeded
var ErrExist = os.ErrExist
var ErrInvalid = os.ErrInvalid
var ErrNoDeadline = os.ErrNoDeadline
var ErrNotExist = os.ErrNotExist
var ErrPermission = os.ErrPermission

type FileInfo = os.FileInfo
type FileMode = os.FileMode

func IsExist(a0 error) bool         { return os.IsExist(a0) }
func IsNotExist(a0 error) bool      { return os.IsNotExist(a0) }
func IsPathSeparator(a0 uint8) bool { return os.IsPathSeparator(a0) }
func IsPermission(a0 error) bool    { return os.IsPermission(a0) }

type LinkError = os.LinkError

const ModeAppend = os.ModeAppend
const ModeCharDevice = os.ModeCharDevice
const ModeDevice = os.ModeDevice
const ModeDir = os.ModeDir
const ModeExclusive = os.ModeExclusive
const ModeIrregular = os.ModeIrregular
const ModeNamedPipe = os.ModeNamedPipe
const ModePerm = os.ModePerm
const ModeSetgid = os.ModeSetgid
const ModeSetuid = os.ModeSetuid
const ModeSocket = os.ModeSocket
const ModeSticky = os.ModeSticky
const ModeSymlink = os.ModeSymlink
const ModeTemporary = os.ModeTemporary
const ModeType = os.ModeType
const O_APPEND = os.O_APPEND
const O_CREATE = os.O_CREATE
const O_EXCL = os.O_EXCL
const O_RDONLY = os.O_RDONLY
const O_RDWR = os.O_RDWR
const O_SYNC = os.O_SYNC
const O_TRUNC = os.O_TRUNC
const O_WRONLY = os.O_WRONLY

type PathError = os.PathError

const PathListSeparator = os.PathListSeparator
const PathSeparator = os.PathSeparator
const SEEK_CUR = os.SEEK_CUR
const SEEK_END = os.SEEK_END
const SEEK_SET = os.SEEK_SET

type Signal = os.Signal
