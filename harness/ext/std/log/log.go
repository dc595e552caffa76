// Package log stands in for log: messages are dropped.
package log

import (
	"fmt"
	"os"
)

// Println logs.
func Println(v ...interface{}) {}

// Printf logs.
func Printf(format string, v ...interface{}) {}

// Print logs.
func Print(v ...interface{}) {}

// Fatal ends the process.
func Fatal(v ...interface{}) { os.Exit(1) }

// Fatalf ends the process.
func Fatalf(format string, v ...interface{}) { os.Exit(1) }

// Fatalln ends the process.
func Fatalln(v ...interface{}) { os.Exit(1) }

// Panic panics.
func Panic(v ...interface{}) { panic(fmt.Sprint(v...)) }
