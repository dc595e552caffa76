package main

func init() {
	v := vfsPkg + "."
	for k, t := range map[string]string{
		"os.Stat": "Stat", "os.Lstat": "Lstat", "os.OpenFile": "OpenFile", "os.Open": "Open", "os.Create": "Create",
		"(*os.File).Read": "FileRead", "(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", "(*os.File).ReadFrom": "FileReadFrom",
		"(*os.File).Close": "FileClose", "(*os.File).Sync": "FileSync", "(*os.File).Name": "FileName", "(*os.File).Stat": "FileStat",
		"(*os.File).Readdir": "FileReaddir", "(*os.File).Readdirnames": "FileReaddirnames",
		"os.ReadFile": "ReadFile", "io/ioutil.ReadFile": "ReadFile", "os.WriteFile": "WriteFile", "io/ioutil.WriteFile": "WriteFile",
		"io/ioutil.ReadDir": "IoReadDir",
		"os.Mkdir": "Mkdir", "os.MkdirAll": "MkdirAll", "os.Remove": "Remove", "os.RemoveAll": "RemoveAll", "os.Rename": "Rename",
		"os.Chtimes": "Chtimes", "os.Chmod": "Chmod", "os.Chdir": "Chdir", "os.Getwd": "Getwd", "os.Getenv": "Getenv", "os.LookupEnv": "LookupEnv",
		"os.TempDir": "TempDirName", "io/ioutil.TempDir": "TempDir", "os.MkdirTemp": "TempDir", "io/ioutil.TempFile": "TempFile", "os.CreateTemp": "TempFile",
		"os.ReadDir": "ReadDir", "(*os.File).ReadDir": "FileReadDir", "os.Setenv": "Setenv", "os.Unsetenv": "Unsetenv", "os.Environ": "Environ", "os.Readlink": "Readlink",
	} {
		redirects[k] = v + t
	}
	x := verifRoot + "/vexec."
	for k, t := range map[string]string{
		"os/exec.LookPath": "LookPath", "os/exec.Command": "Command", "os/exec.CommandContext": "CommandContext",
		"(*os/exec.Cmd).Run": "Run", "(*os/exec.Cmd).Output": "Output", "(*os/exec.Cmd).CombinedOutput": "CombinedOutput",
		"(*os/exec.Cmd).Start": "Start", "(*os/exec.Cmd).Wait": "Wait",
		"golang.org/x/tools/go/packages.Load": "Load",
	} {
		redirects[k] = x + t
	}
}
