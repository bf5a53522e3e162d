package main

// redirectTable maps library functions that touch the outside world to the
// executable models in harness/zzsym (in-memory file system, HTTP transport,
// archives).
var redirectTable = map[string]string{
	"os.NewFile":               "osNewFile",
	"os.runtime_args":          "runtimeArgs",
	"syscall.runtime_envs":     "runtimeEnvs",
	"os.ReadFile":              "osReadFile",
	"os.WriteFile":             "osWriteFile",
	"os.Open":                  "osOpen",
	"os.OpenFile":              "osOpenFile",
	"os.Create":                "osCreate",
	"os.Stat":                  "osStat",
	"os.Lstat":                 "osLstat",
	"os.Readlink":              "osReadlink",
	"os.ReadDir":               "osReadDir",
	"os.MkdirAll":              "osMkdirAll",
	"os.Mkdir":                 "osMkdir",
	"os.Remove":                "osRemove",
	"os.RemoveAll":             "osRemoveAll",
	"os.Rename":                "osRename",
	"os.TempDir":               "osTempDir",
	"os.Getwd":                 "osGetwd",
	"os.CreateTemp":            "osCreateTemp",
	"(*os.File).Read":          "fileRead",
	"(*os.File).ReadAt":        "fileReadAt",
	"(*os.File).Write":         "fileWrite",
	"(*os.File).WriteString":   "fileWriteString",
	"(*os.File).Close":         "fileClose",
	"(*os.File).Sync":          "fileSync",
	"(*os.File).Truncate":      "fileTruncate",
	"(*os.File).Stat":          "fileStat",
	"(*os.File).Name":          "fileName",
	"(*os.File).ReadDir":       "fileReadDir",
	"(*os.File).Readdirnames":  "fileReaddirnames",
	"(*os.File).WriteTo":       "fileWriteTo",
	"(*net/http.Client).Do":    "httpDo",
	"(*net/http.Client).Get":   "httpGet",
	"archive/zip.NewReader":    "zipNewReader",
	"(*archive/zip.File).Open": "zipFileOpen",
}
